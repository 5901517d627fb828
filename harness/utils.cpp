// C42..C44: the helpers of utils.hpp.
#include "../mc/mc.hpp"
#include "utils.hpp"
using namespace mc;
struct Fn { static double log(double x){ return std::log(x); } static double exp(double x){ return std::exp(x); } static double rand_uniform(){ return rnd(); } };
static double const LAST = 1 - 1. / (1ull << 53); // the largest draw below 1

// one operation per input; the answer is in the state
template<class A> struct Inputs {
	struct World { A array; int result; double value; };
	std::vector<A> inputs; std::function<void(World&, A const&)> run; std::function<std::string(A const&)> name;
	World& w(){ return *world<World>(); }
	size_t size(){ return sizeof(World); }
	void init(){ memset(&w(), 0, sizeof(World)); }
	int ops(){ return inputs.size(); }
	std::string describe(int op){ return name(inputs[op]); }
	void apply(int op){ run(w(), inputs[op]); }
	void check(){}
};
template<class A> void each(std::string what, std::vector<A> inputs, std::function<std::string(A const&)> name, std::function<void(typename Inputs<A>::World&, A const&)> run){
	job(fmt("utils %s inputs=%d", what.c_str(), (int)inputs.size()), [=]{ Inputs<A> h; h.inputs = inputs; h.run = run; h.name = name; bfs(h, 1); });
}
// ---- C42
enum { N = 320 };
struct Dist { int n; double cum[N]; };
static std::string show(double const* v, int n){ std::string s; for(int i = 0; i < n && i < 12; ++i) s += fmt("%.17g ", v[i]); return s + (n > 12 ? "..." : ""); }
static std::vector<double> draws(Dist const& d, int grid){
	std::vector<double> u = {0, 1e-300, 1. / (1ull << 53), LAST};
	for(int k = 0; k < grid; ++k){ u.push_back((double)k / grid); u.push_back((k + 0.5) / grid); }
	for(int i = 0; i < d.n; ++i) for(double x : {d.cum[i], std::nextafter(d.cum[i], 0), std::nextafter(d.cum[i], 2)}) if(x >= 0 && x < 1) u.push_back(x);
	std::sort(u.begin(), u.end()); u.erase(std::unique(u.begin(), u.end()), u.end()); return u;
}
static void pick(Inputs<Dist>::World& w, Dist const& d){
	G->menu = draws(d, thorough() ? 720 : 48);
	Dist copy = d; double u; int got;
	{ Sut s; got = Utils::pick_from_distribution<Fn>(copy.cum, d.n); }
	u = G->taken.empty() ? -1 : G->menu[G->taken[0].first];
	CK("C42", G->taken.size() == 1, "draws", "%d random numbers were drawn", (int)G->taken.size());
	CK("C42", !memcmp(copy.cum, d.cum, sizeof d.cum), "input", "the distribution was changed");
	CK("C42", got >= 0 && got < d.n, "range", "index %d of %d for the draw %.17g in %s", got, d.n, u, show(d.cum, d.n).c_str());
	int want = -1; for(int i = 0; i < d.n && want < 0; ++i) if(u < d.cum[i]) want = i;
	if(want < 0) for(int i = d.n - 1; i >= 0 && want < 0; --i) if(d.cum[i] > (i ? d.cum[i - 1] : 0)) want = i;
	CK("C42", d.cum[got] > (got ? d.cum[got - 1] : 0), "impossible", "index %d has no probability; draw %.17g in %s", got, u, show(d.cum, d.n).c_str());
	CK("C42", got == want, "index", "index %d for the draw %.17g in %s, expected %d", got, u, show(d.cum, d.n).c_str(), want);
	w.result = got; w.value = u;
}
static std::vector<Dist> distributions(bool exact){
	std::vector<Dist> r; int const top = thorough() ? 5 : 4;
	for(int n = 1; n <= 5; ++n){
		int const base = n < 5 ? top : 4; int total = 1; for(int i = 0; i < n; ++i) total *= base;
		for(int c = 0; c < total; ++c){
			int w[5], x = c, sum = 0; for(int i = 0; i < n; ++i){ w[i] = x % base; x /= base; sum += w[i]; }
			if(!sum) continue;
			Dist d; memset(&d, 0, sizeof d); d.n = n; int acc = 0;
			for(int i = 0; i < n; ++i){ acc += w[i]; d.cum[i] = exact ? (double)acc / sum : (i ? d.cum[i - 1] : 0) + (double)w[i] / sum; }
			r.push_back(d);
		}
	}
	return r;
}
static std::vector<Dist> large(){
	std::vector<Dist> r;
	for(int n : {6, 7, 10, 30, 49, 127, 128, 129, 255, 256, 257, 300}) for(int shape = 0; shape < 5; ++shape){
		Dist d; memset(&d, 0, sizeof d); d.n = n; double sum = 0, w[N];
		for(int i = 0; i < n; ++i){ w[i] = shape == 0 ? 1 : shape == 1 ? i % 3 : shape == 2 ? (i == n / 2) : shape == 3 ? (i < n - 2) * 0.1 : std::pow(0.5, i % 40); sum += w[i]; }
		for(int i = 0; i < n; ++i) d.cum[i] = (i ? d.cum[i - 1] : 0) + w[i] / sum;
		if(d.cum[n - 1] > 1 || shape == 3) for(int i = 0; i < n; ++i) d.cum[i] = std::min(1.0, d.cum[i]);
		r.push_back(d);
		for(int i = 0; i < n; ++i) d.cum[i] *= 1 - 1e-15; // rounding leaves the end below 1
		r.push_back(d);
	}
	return r;
}
// ---- C43
struct Arr { int n; double v[40]; double sum; };
static std::vector<Arr> arrays(std::vector<double> const& values, int upto){
	std::vector<Arr> r;
	for(int n = 1; n <= upto; ++n){
		long total = 1; for(int i = 0; i < n; ++i) total *= values.size();
		for(long c = 0; c < total; ++c){ Arr a; memset(&a, 0, sizeof a); a.n = n; long x = c; for(int i = 0; i < n; ++i){ a.v[i] = values[x % values.size()]; x /= values.size(); a.sum += a.v[i]; } r.push_back(a); }
	}
	return r;
}
// longer arrays: one entry (or two) above the others, at every place
static std::vector<Arr> longer_arrays(std::vector<double> const& values){
	std::vector<Arr> r; int const k = values.size();
	for(int n : {6, 7, 8, 9, 15, 16, 17, 31, 33}) for(int p = 0; p < n; ++p) for(int q = 0; q < n; ++q) for(int s = 0; s < 2; ++s){ Arr a; memset(&a, 0, sizeof a); a.n = n; for(int i = 0; i < n; ++i) a.v[i] = values[s ? i % k : 0]; a.v[p] = values[k - 1]; a.v[q] = values[k - 1 - (p + q) % 2]; for(int i = 0; i < n; ++i) a.sum += a.v[i]; r.push_back(a); }
	return r;
}
static std::string arr(Arr const& a){ return "{" + show(a.v, a.n) + "}"; }
template<class T> void index_of_max(char const* type, std::vector<double> values){
	auto in = arrays(values, 5); for(auto& a : longer_arrays(values)) in.push_back(a);
	each<Arr>(fmt("index_max %s", type), in, arr, [](Inputs<Arr>::World& w, Arr const& a){
		T v[40], c[40]; for(int i = 0; i < 40; ++i) c[i] = v[i] = i < a.n ? (T)a.v[i] : (T)100; int got; { Sut s; got = Utils::index_max(v, a.n); }
		int want = 0; for(int i = 0; i < a.n; ++i) if(v[i] > v[want]) want = i;
		CK("C43", got == want, "index_max", "index_max of %s is %d, expected %d", arr(a).c_str(), got, want); CK("C43", !memcmp(v, c, sizeof v), "input", "the array was changed"); w.array = a; w.result = got;
	});
}
template<class T> void pairs(char const* type, std::vector<double> values){
	std::vector<Arr> in; for(double a : values) for(double b : values){ Arr x; memset(&x, 0, sizeof x); x.n = 2; x.v[0] = a; x.v[1] = b; in.push_back(x); }
	each<Arr>(fmt("min max abs round %s", type), in, arr, [](Inputs<Arr>::World& w, Arr const& x){
		T const a = (T)x.v[0], b = (T)x.v[1]; T lo, hi, abs_; int r; bool const extreme = std::is_integral<T>::value && std::is_signed<T>::value && a == std::numeric_limits<T>::min(), fits = std::fabs((double)a) < 2.1e9; // the absolute value, the rounded number exist
		{ Sut s; lo = Utils::min(a, b); hi = Utils::max(a, b); abs_ = extreme ? a : Utils::abs(a); r = fits ? Utils::round(a) : 0; }
		CK("C43", lo == std::min(a, b), "min", "min(%g, %g) is %g", (double)a, (double)b, (double)lo); CK("C43", hi == std::max(a, b), "max", "max(%g, %g) is %g", (double)a, (double)b, (double)hi);
		if(!extreme) CK("C43", abs_ == (a < 0 ? -a : a), "abs", "abs(%g) is %g", (double)a, (double)abs_); if(fits) CK("C43", r == (int)std::round((double)a), "round", "round(%g) is %d", (double)a, r);
		w.array = x;
	});
}
// ---- C44
// the j-th element: values that do not survive a conversion to a smaller type
template<class T> T element(int j){
	if constexpr(false);
	else if constexpr(std::is_floating_point<T>::value) return (T)(j * 3 + 1 + 0.1);
	else if constexpr(sizeof(T) == 8) return (T)((1ll << 60) + 1 + j * 3);
	else if constexpr(sizeof(T) == 4) return (T)(j % 2 ? 100000001 + j * 4 : -100000003 - j * 4);
	else return (T)(j * 3 + 1);
}
template<class T, int n> struct Shuffle {
	struct World { T a[n + 2]; };
	World& w(){ return *world<World>(); }
	size_t size(){ return sizeof(World); }
	void init(){ for(int i = 0; i < n + 2; ++i) w().a[i] = element<T>(i); }
	int ops(){ return 1; }
	std::string describe(int){ return fmt("shuffle of %d elements", n); }
	void apply(int){ { Sut s; Utils::shuffle<Fn>(w().a, n); } }
	void check(){
		bool seen[n + 2] = {};
		for(int i = 0; i < n; ++i){ int k = -1; for(int j = 0; j < n; ++j) if(w().a[i] == element<T>(j)) k = j; CK("C44", k >= 0 && !seen[k], "permutation", "the element at %d is not one of the array or comes twice (%d elements)", i, n); seen[k] = true; }
		for(int i = n; i < n + 2; ++i) CK("C44", w().a[i] == element<T>(i), "overrun", "the element %d after the end of the array changed", i - n);
	}
};
static std::vector<double> grid(int m){ std::vector<double> g; for(int k = 0; k < m; ++k) g.push_back((k + 0.5) / m); return g; }
template<class T, int n> void law(char const* type, int points, bool exact){
	job(fmt("utils shuffle %s %d elements, %d equally likely draws%s", type, n, points, exact ? "" : " (reachability)"), [=]{
		G->menu = grid(points); Shuffle<T, n> h; long count = 0, *seen = &count; double all = 1; for(int i = 2; i <= n; ++i) all /= i;
		dist(h, 1, [&](int, double weight){ ++*seen; h.check(); if(exact) CK("C44", near(weight, all), "law", "a permutation of %d elements has probability %.12f, expected %.12f", n, weight, all); },
			[&](int){ CK("C44", *seen == std::lround(1 / all), "reachable", "%ld permutations of %d elements are possible, expected %ld", *seen, n, std::lround(1 / all)); });
	});
}
template<class T, int n> void edges(char const* type, int depth, std::vector<double> menu){
	job(fmt("utils shuffle %s %d elements, %d draws, depth %d", type, n, (int)menu.size(), depth), [=]{ G->menu = menu; Shuffle<T, n> h; bfs(h, depth); });
}
template<class T, int n> void longer(char const* type){
	job(fmt("utils shuffle %s %d elements, lasso", type, n), [=]{ G->menu = {0, LAST, 0.5, 0.25, 0.9, 0.1, 0.333}; Shuffle<T, n> h;
		lasso(h, 0, 1, 6, 40, [](int p, uint64_t c, int m){ return p < 7 ? p : (c * p + c / 3) % m; }, 1); });
}
// each draw varied alone: the numbers of outcomes, equally frequent, must multiply to n!
template<class T, int n> void spread(char const* type, int fixed){
	job(fmt("utils shuffle %s %d elements, each draw alone, others %d", type, n, fixed), [=]{
		int const M = 4 * n + 1; G->menu = grid(M); Shuffle<T, n> h; attach(h); double logs = 0; long count = 0; int target = 0, value = 0, draw = 0;
		G->policy = [&](int){ return draw++ == target ? value : fixed == 0 ? M / 3 : fixed == 1 ? 0 : fixed == 2 ? M - 1 : (draw * 7) % M; };
		fresh(h.size()); h.init(); h.apply(0); int const total = draw;
		for(target = 0; target < total; ++target){
			std::map<std::vector<T>, int> seen;
			for(value = 0; value < M; ++value){ draw = 0; fresh(h.size()); h.init(); h.apply(0); if(value % 64 == 0) h.check(); seen[std::vector<T>(h.w().a, h.w().a + n)]++; G->progress++; G->st.transitions++; }
			logs += std::log(seen.size()); count += seen.size();
			for(auto& x : seen) CK("C44", std::fabs(x.second - (double)M / seen.size()) <= 1.01, "frequency", "draw %d: an outcome takes %d of %d equally likely draws, there are %d outcomes (%d elements)", target, x.second, M, (int)seen.size(), n);
		}
		G->policy = nullptr; G->st.states += count; G->st.executions++; G->st.traces += count;
		CK("C44", near(logs, std::lgamma(n + 1.0), 1e-9), "choices", "the draws leave exp(%.9f) choices, there are exp(%.9f) permutations of %d elements", logs, std::lgamma(n + 1.0), n);
	});
}
void define(){
	bool const t = thorough();
	if(sel("C42")){
		auto name = [](Dist const& d){ return "pick from " + show(d.cum, d.n); };
		auto chunk = [&](std::string what, std::vector<Dist> v){ size_t const step = (v.size() + 7) / 8; for(size_t i = 0; i < v.size(); i += step) each<Dist>(fmt("pick %s %d", what.c_str(), (int)(i / step)), std::vector<Dist>(v.begin() + i, v.begin() + std::min(v.size(), i + step)), name, pick); };
		chunk("exact", distributions(true)); chunk("running sums", distributions(false)); chunk("large", large());
	}
	if(sel("C43")){
		std::vector<double> g = {-1e6, -300, -3.75, -3, -2.5, -1.5, -1, -0.5, -0.25, 0, 0.25, 0.49, 0.5, 0.75, 1, 1.5, 2, 2.5, 3.25, 255, 256, 70000.5, 1e6}, i = {-100000, -129, -128, -3, -2, -1, 0, 1, 2, 3, 127, 128, 255, 256, 32768, 100000}, s = {-30000, -129, -3, -1, 0, 1, 2, 127, 255, 30000};
		for(bool given : {false, true}) for(double scale : {1., 0.1, 1000.}){
			std::vector<Arr> in; auto all = arrays({0, 1, 2, 3}, 5); for(auto& a : longer_arrays({0, 0.5, 3})) all.push_back(a); for(auto& a : all) if(a.sum > 0){ Arr b = a; for(double& v : b.v) v *= scale; b.sum *= scale; in.push_back(b); }
			each<Arr>(fmt("turn_array_into_probability scale=%g sum %s", scale, given ? "given" : "computed"), in, arr, [given](Inputs<Arr>::World& w, Arr const& a){
				double v[44]; for(double& x : v) x = 4242; for(int k = 0; k < a.n; ++k) v[k] = a.v[k];
				{ Sut s; if(given) Utils::turn_array_into_probability(v, a.n, a.sum); else Utils::turn_array_into_probability(v, a.n); }
				double acc = 0; for(int k = 0; k < a.n; ++k){ acc += a.v[k]; CK("C43", near(v[k], acc / a.sum, 1e-12), "probability", "entry %d of %s becomes %.17g, expected %.17g", k, arr(a).c_str(), v[k], acc / a.sum); }
				CK("C43", v[a.n] == 4242, "overrun", "an element after the array was written"); w.array = a;
			});
		}
		std::vector<Arr> rates; for(double r : {1e-6, 0.1, 0.5, 1., 2., 3.7, 10., 255., 1e5}){ Arr a; memset(&a, 0, sizeof a); a.n = 1; a.v[0] = r; rates.push_back(a); }
		each<Arr>("rand_exponential", rates, arr, [](Inputs<Arr>::World& w, Arr const& a){
			G->menu.clear(); for(int k = 0; k < 1000; ++k) G->menu.push_back(k / 1000.); G->menu.push_back(LAST); G->menu.push_back(1e-15);
			double e; { Sut s; e = Utils::rand_exponential<Fn>(a.v[0]); } CK("C43", G->taken.size() == 1, "draws", "%d random numbers were drawn", (int)G->taken.size());
			double const u = G->menu[G->taken[0].first]; CK("C43", near(e * a.v[0], -std::log1p(-u), 1e-9) && e >= 0, "exponential", "the draw %.17g of rate %g is %.17g, expected %.17g", u, a.v[0], e, -std::log1p(-u) / a.v[0]);
			w.value = e; w.array = a;
		});
		index_of_max<double>("double", {0, 1, 2, -1.5}); index_of_max<int>("int", {0, 1, -7, 300}); index_of_max<float>("float", {0.25, 0.5, -3}); index_of_max<unsigned char>("unsigned char", {0, 200, 127}); index_of_max<double>("double, close", {1, 1 + 1e-9, 1 - 1e-9, 1 + 2e-16 * 2}); index_of_max<int>("int, large", {2147483647, -2147483648., 0, 2147483646}); index_of_max<unsigned>("unsigned", {0, 4294967295., 2147483648., 1}); index_of_max<double>("double, extremes", {-1e300, 1e300, -INFINITY, INFINITY});
		std::vector<double> fl = g, wi = i, ll = i, un = {0, 1, 2, 127, 128, 255, 256, 65535, 65536, 16777217, 2147483647., 2147483648., 4294967295.}; for(double v : {0.49999997, -0.49999997, 8388607.0, 8388609.0, 16777215.0, 1e-30, 3e38, -3e38}) fl.push_back((float)v);
		for(double v : {2147483647., -2147483648., -2147483647., 16777217., -16777217., 999999999.}) wi.push_back(v); for(double v : {2147483648., -4294967297., 9007199254740991., -9007199254740991.}) ll.push_back(v);
		for(double v : {1e-300, -1e300, 1e300, 5e8 + 0.25, -(5e8 + 0.75), 1e-17}) g.push_back(v);
		pairs<double>("double", g); pairs<float>("float", fl); pairs<int>("int", wi); pairs<short>("short", s); pairs<long long>("long long", ll); pairs<unsigned>("unsigned", un); pairs<unsigned char>("unsigned char", {0, 1, 2, 127, 128, 255}); pairs<signed char>("signed char", {-128, -127, -3, 0, 1, 2, 127}); pairs<unsigned long>("unsigned long", un);
		for(double v : {1e-3, -1e-3, 1e-4, -1e-4, 1e-5, -1e-5, 1e-7, 0.01, -0.01, 0.1, -0.1, 17.0, -40.0}) g.push_back(v);
		std::vector<Arr> ex; for(double v : g) if(std::fabs(v) < 400){ Arr a; memset(&a, 0, sizeof a); a.n = 1; a.v[0] = v; ex.push_back(a); }
		each<Arr>("expm1", ex, arr, [](Inputs<Arr>::World& w, Arr const& a){ double e; { Sut s; e = Utils::expm1<Fn>(a.v[0]); } CK("C43", near(e, std::expm1(a.v[0]), 1e-12), "expm1", "expm1(%g) is %.17g", a.v[0], e); w.array = a; });
		std::vector<Arr> qs; for(double a : i) for(double b : i) if(b != 0){ Arr x; memset(&x, 0, sizeof x); x.n = 2; x.v[0] = a; x.v[1] = b; qs.push_back(x); }
		each<Arr>("div_int", qs, arr, [](Inputs<Arr>::World& w, Arr const& x){ int const a = x.v[0], b = x.v[1]; double q; { Sut s; q = Utils::div_int<int>(a, b); } CK("C43", q == a / b, "div_int", "div_int(%d, %d) is %g, expected %d", a, b, q, a / b); w.array = x; });
	}
	if(sel("C44")){
		law<int, 1>("int", 4, true); law<int, 2>("int", 12, true); law<int, 3>("int", 12, true); law<double, 3>("double", 60, true); law<int, 4>("int", 12, true); law<char, 4>("char", 24, true); law<short, 6>("short", 12, false);
		if(t){ law<int, 5>("int", 60, true); law<int, 7>("int", 12, false); } else law<int, 5>("int", 12, false);
		std::vector<double> const e = {0, 0.5, LAST, 0.2}; edges<int, 2>("int", 4, e); edges<double, 5>("double", 3, e); edges<long, 7>("long", t ? 3 : 2, e); edges<short, 10>("short", 1, {0, LAST, 0.5}); edges<int, 1>("int", 3, e);
		for(int k = 0; k < 4; ++k){ spread<int, 8>("int", k); spread<short, 40>("short", k); spread<int, 129>("int", k); }
		spread<int, 257>("int", 0); if(t){ spread<int, 300>("int", 3); spread<short, 400>("short", 1); }
		longer<int, 100>("int"); longer<short, 300>("short"); longer<double, 33>("double"); longer<unsigned char, 80>("unsigned char"); longer<int, 257>("int");
	}
}
MC_MAIN(define)
