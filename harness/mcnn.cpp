// C17..C20: MC-NN against a reference model.
// Decisions of the model that hang on rounding errors (two distances equal up to rounding...) end the exploration of that path.
#include "../mc/mc.hpp"
#include "mc_nn.hpp"
using namespace mc;
template<class T> double eps(){ return sizeof(T) == 4 && !std::is_integral<T>::value ? 1e-5 : 1e-10; }

template<class T, unsigned F, unsigned C, int EMPTY> struct Mc {
	typedef MCNN<T, F, C, EMPTY> S;
	struct Cl { T sum[F], sq[F]; double tsum, init; int n, label, err; bool on; };
	struct World { alignas(16) char sut[sizeof(S)]; Cl c[C]; double now; bool dead; int splits, cleaned, replaced, refused; };
	std::vector<std::vector<double>> points, probes; std::vector<int> labels; unsigned thr, method; double perf; bool defaults;
	World& w(){ return *world<World>(); }
	S& f(){ return *reinterpret_cast<S*>(w().sut); }
	size_t size(){ return sizeof(World); }
	void init(){
		{ Sut s; if(defaults) new (w().sut) S(); else new (w().sut) S(thr, method, perf); }
		memset(w().c, 0, sizeof w().c); w().now = -1; w().dead = false; w().splits = w().cleaned = w().replaced = w().refused = 0;
	}
	int ops(){ return w().dead ? 0 : points.size() * labels.size(); }
	std::string describe(int op){ std::string s = "train("; for(double x : points[op / labels.size()]) s += fmt("%g ", x); return s + fmt("class %d)", labels[op % labels.size()]); }
	// two values that should be told apart but are only different by rounding, or equal by luck of rounding
	void tie(double a, double b, bool exact){ if(!exact && std::fabs(a - b) <= eps<T>() * std::max(1.0, std::max(std::fabs(a), std::fabs(b)))) w().dead = true; }
	static bool short_(double x){ // a number with so few digits that differences and their squares are exact
		if(std::is_integral<T>::value) return true;
		double const unit = sizeof(T) > 4 ? 64 : 16, most = sizeof(T) > 4 ? 5e5 : 64; return x * unit == std::floor(x * unit) && std::fabs(x) <= most;
	}
	static bool dyadic(Cl const& c){ // its centroid is exact
		if(std::is_integral<T>::value) return true;
		for(unsigned i = 0; i < F; ++i){ double const x = (double)c.sum[i] / (double)c.n; if(x * c.n != c.sum[i] || !short_(x)) return false; }
		return true;
	}
	static T center(Cl const& c, int i){ return (T)((double)c.sum[i] / (double)c.n); }
	static double distance(T const* x, Cl const& c){ double d = 0; for(unsigned i = 0; i < F; ++i){ double const k = (double)x[i] - (double)center(c, i); d += k * k; } return d; }
	int nearest(T const* x, bool with_class, int label, double* at = nullptr, bool* safe = nullptr){
		int best = -1; double bd = 0; bool plain = true; for(unsigned i = 0; i < F; ++i) plain = plain && short_(x[i]);
		for(unsigned i = 0; i < C; ++i){ Cl const& c = w().c[i]; if(!c.on || (with_class && c.label != label)) continue; double const d = distance(x, c); if(best < 0 || d < bd){ best = i; bd = d; } }
		for(unsigned i = 0; i < C && best >= 0; ++i){ Cl const& c = w().c[i]; if(!c.on || (int)i == best || (with_class && c.label != label)) continue;
			bool const close = std::fabs(distance(x, c) - bd) <= eps<T>() * std::max(1.0, bd), exact = dyadic(c) && dyadic(w().c[best]) && plain;
			if(close && !exact && safe){ if(c.label != w().c[best].label || with_class) *safe = false; else *safe = *safe && with_class == false; } }
		if(at) *at = bd;
		return best;
	}
	static double tri(double t){ return (t * t + t) * 0.5; }
	double performance(Cl const& c){ return c.tsum * (100 / (tri(w().now) - tri(c.init))); }
	int lowest(){
		int best = -1;
		for(unsigned i = 0; i < C; ++i) if(w().c[i].on && (best < 0 || performance(w().c[i]) < performance(w().c[best]))) best = i;
		for(unsigned i = 0; i < C; ++i) if(w().c[i].on && (int)i != best) tie(performance(w().c[i]), performance(w().c[best]), w().c[i].tsum == w().c[best].tsum && w().c[i].init == w().c[best].init);
		return best;
	}
	void start(Cl& c, T const* x, int label, double at){ memset(&c, 0, sizeof c); c.on = true; c.label = label; c.n = 1; c.tsum = c.init = at; c.err = thr; for(unsigned i = 0; i < F; ++i){ c.sum[i] = x[i]; c.sq[i] = x[i] * x[i]; } }
	void split(int k){
		int fresh = -1;
		for(unsigned i = 0; i < C && fresh < 0; ++i) if(!w().c[i].on) fresh = i;
		if(fresh < 0){ if(method != 0 && method != 2){ w().refused++; return; } fresh = lowest(); w().replaced++; }
		Cl& c = w().c[k]; unsigned at = 0; double top = 0;
		auto variance = [&](unsigned i){ double const m = (double)c.sum[i] / (double)c.n; return (double)c.sq[i] / (double)c.n - m * m; };
		for(unsigned i = 0; i < F; ++i) if(i == 0 || variance(i) > top){ top = variance(i); at = i; }
		for(unsigned i = 0; i < F; ++i) if(i != at) tie(variance(i), top, dyadic(c) || (c.sum[i] == c.sum[at] && c.sq[i] == c.sq[at]));
		double const sd = top > 0 ? std::sqrt(top) : 0;
		if(std::is_integral<T>::value && std::fabs(sd - std::round(sd)) < 1e-9 && (c.n & (c.n - 1)) != 0) w().dead = true;
		if(top != 0 && std::fabs(top) < 1e-6) w().dead = true; // a null variance up to rounding
		T a[F], b[F]; for(unsigned i = 0; i < F; ++i) a[i] = b[i] = center(c, i);
		a[at] -= sd; b[at] += sd;
		double const mean = c.tsum / c.n;
		if(mean != std::floor(mean) && std::fabs(mean - std::round(mean)) < 1e-9) w().dead = true;
		double const old = (int)mean; int const label = c.label;
		start(w().c[fresh], a, label, old); start(w().c[k], b, label, old);
		w().splits++;
	}
	bool step(T const* x, int label){
		if(method == 1 || method == 2) for(Cl& c : w().c) if(c.on && c.n > 1){ double const p = performance(c); tie(p, perf, false); if(p < perf){ c.on = false; w().cleaned++; } }
		w().now += 1;
		double dn, dc; bool safe = true;
		int near_ = nearest(x, false, 0, &dn, &safe), same = nearest(x, true, label, &dc, &safe);
		// which of two equally distant micro-clusters is taken matters for training
		if(near_ >= 0) for(unsigned i = 0; i < C; ++i) if(w().c[i].on && (int)i != near_) tie(distance(x, w().c[i]), dn, dyadic(w().c[i]) && dyadic(w().c[near_]));
		if(!safe) w().dead = true;
		if(same < 0){
			for(Cl& c : w().c) if(!c.on){ start(c, x, label, w().now); return true; }
			if(method == 0 || method == 2){ start(w().c[lowest()], x, label, w().now); w().replaced++; return true; }
			w().refused++;
			return false;
		}
		if(w().c[near_].label == label) same = near_;
		else if(dc == dn) near_ = same;
		Cl& c = w().c[same];
		c.tsum += w().now; c.n++;
		for(unsigned i = 0; i < F; ++i){ c.sum[i] += x[i]; c.sq[i] += x[i] * x[i]; }
		if(near_ == same){ c.err++; return true; }
		c.err--; w().c[near_].err--;
		if(c.err <= 0) split(same);
		if(w().c[near_].err <= 0) split(near_);
		return true;
	}
	bool mine(){ // does the history exercise the property being checked?
		return sel("C17") || (sel("C19") && (w().cleaned || w().replaced || w().refused)) || (sel("C20") && w().splits);
	}
	char const* P(){ return G->prop.c_str(); }
	int alive(){ int n = 0; for(Cl& c : w().c) n += c.on; return n; }
	void apply(int op){
		T x[F]; for(unsigned i = 0; i < F; ++i) x[i] = (T)points[op / labels.size()][i];
		T const copy = x[0]; int const label = labels[op % labels.size()];
		bool got, want = step(x, label);
		{ Sut s; got = f().train(x, label); }
		if(w().dead) return;
		CK("C19", got == want, "return", "train answers %d, expected %d (%d micro-clusters, policy %u)", got, want, alive(), method);
		CK("C17", x[0] == copy, "input", "train changes the point");
	}
	void check(){
		if(w().dead) return;
		int n; unsigned e, p; { Sut s; n = f().count_clusters(); e = f().get_error_thr(); p = f().get_performance_thr(); }
		CK("C18", n == alive(), "count", "count_clusters() is %d, expected %d (%d splits, %d replaced, %d cleaned, %d refused)", n, alive(), w().splits, w().replaced, w().cleaned, w().refused);
		CK("C18", n >= 0 && n <= (int)C, "capacity", "count_clusters() is %d, capacity %u", n, C);
		if(!sel("C17") && mine()) CK(P(), n == alive(), "count", "count_clusters() is %d, expected %d (%d splits, %d replaced, %d cleaned, %d refused)", n, alive(), w().splits, w().replaced, w().cleaned, w().refused);
		CK("C20", e == thr, "threshold", "get_error_thr() is %u", e);
		CK("C19", p == (unsigned)perf, "threshold", "get_performance_thr() is %u", p);
		for(auto& q : probes){
			T x[F]; for(unsigned i = 0; i < F; ++i) x[i] = (T)q[i];
			bool safe = true; int const k = nearest(x, false, 0, nullptr, &safe); if(!safe) continue;
			int got; { Sut s; got = f().predict(x); }
			int const want = k < 0 ? EMPTY : w().c[k].label;
			if(mine() || k < 0) CK(P(), got == want, "prediction", "class %d predicted for (%g...), the nearest centroid is of class %d (%d micro-clusters, %d splits, %d replaced, %d cleaned)", got, (double)q[0], want, alive(), w().splits, w().replaced, w().cleaned);
			CK("C18", (got == EMPTY) == (n == 0), "count", "%d micro-clusters but class %d is predicted", n, got);
		}
	}
};
typedef std::vector<std::vector<double>> Points;
static Points line(std::vector<double> v){ Points p; for(double x : v) p.push_back({x}); return p; }
static Points cross(std::vector<double> a, std::vector<double> b){ Points p; for(double x : a) for(double y : b) p.push_back({x, y}); return p; }
template<class T, unsigned F, unsigned C, int EMPTY> Mc<T, F, C, EMPTY> make(Points pts, Points probes, std::vector<int> labels, unsigned thr, unsigned method, double perf, bool defaults = false){
	Mc<T, F, C, EMPTY> h; h.points = pts; h.probes = probes; h.labels = labels; h.thr = thr; h.method = method; h.perf = perf; h.defaults = defaults; return h;
}
template<class T, unsigned F, unsigned C, int EMPTY = -1> void run(char const* type, int depth, Points pts, Points probes, std::vector<int> labels, unsigned thr, unsigned method, double perf, bool defaults = false){
	job(fmt("mcnn %s features=%u capacity=%u empty=%d letters=%d threshold=%u policy=%u performance=%g depth=%d", type, F, C, EMPTY, (int)(pts.size() * labels.size()), thr, method, perf, depth), [=]{
		G->prefill = 0xA5; auto h = make<T, F, C, EMPTY>(pts, probes, labels, thr, method, perf, defaults); bfs(h, depth);
	});
}
template<class T, unsigned F, unsigned C, int EMPTY = -1> void longrun(char const* type, int len, int mu, int mv, Points pts, Points probes, std::vector<int> labels, unsigned thr, unsigned method, double perf){
	job(fmt("mcnn lasso %s features=%u capacity=%u letters=%d threshold=%u policy=%u performance=%g length=%d words=%d,%d", type, F, C, (int)(pts.size() * labels.size()), thr, method, perf, len, mu, mv), [=]{
		G->prefill = 0xA5; auto h = make<T, F, C, EMPTY>(pts, probes, labels, thr, method, perf); lasso(h, mu, mv, len, 1, [](int, uint64_t, int){ return 0; }, len > 50000 ? 1000 : 20);
	});
}
// each word of one or two letters many times, then something else
template<class T, unsigned F, unsigned C, int EMPTY = -1> void phases(char const* type, int times, int more, int mu, int mv, Points pts, Points probes, std::vector<int> labels, unsigned thr, unsigned method, double perf){
	job(fmt("mcnn phases %s features=%u capacity=%u letters=%d threshold=%u policy=%u performance=%g each word %d times, then %d, words=%d,%d", type, F, C, (int)(pts.size() * labels.size()), thr, method, perf, times, more, mu, mv), [=]{
		auto h = make<T, F, C, EMPTY>(pts, probes, labels, thr, method, perf); lasso(h, mu, mv, mu * times + more, 1, [](int, uint64_t, int){ return 0; }, times > 5000 ? 1000 : 50, times);
	});
}
void define(){
	bool const t = thorough(); int const d = t ? 2 : 1;
	Points p1 = line({-2, 0, 1, 3}), q1 = line({-1e6, -40, -3, -2, -1.25, -0.5, 0, 0.3, 0.7, 1, 1.6, 2.2, 3, 4.1, 50, 3e9});
	Points far = line({-1e5, 0, 4, 300, 1e6}), qfar = line({-1e9, -2e5, -300, -1, 0, 3, 5, 150, 160, 5e5, 5.1e5, 1e7, 1e12});
	Points i1 = line({-40, 0, 7, 100}), qi = line({-2000, -60, -30, -20, -3, 0, 2, 4, 11, 53, 54, 70, 130, 9000});
	Points p2 = cross({-1, 0, 4}, {-1, 2}), q2 = cross({-9, -1, -0.4, 0.3, 1.2, 2.5, 4, 20}, {-5, -1, 0.2, 0.9, 2, 11});
	Points p3 = {{0, 0, 0}, {1, -2, 4}, {1, -2, 0}, {8, 0, 4}}, q3 = {{0, 0, 0}, {0.3, -1, 2}, {0.6, -1.1, 0}, {1, -2, 4}, {5, -1, 3}, {8, 0, 4}, {-3, -3, -3}, {90, 1, 1}, {0, -50, 0}, {0, 0, 77}};
	Points pc = {{5, 0}, {5, 1}, {5, -3}}, qc = cross({4, 5, 7}, {-8, -3, -1.4, -0.6, 0, 0.6, 1.4, 9});
	std::vector<int> two = {0, 1}, three = {0, 1, 2}, odd = {7, -3};
	for(unsigned m : {0u, 1u, 2u}) for(unsigned thr : {0u, 1u, 2u, 3u}) run<double, 1, 3>("double", (thr < 2 ? 5 : 6) + d, p1, q1, two, thr, m, m == 0 ? 50 : 41.3);
	for(double perf : {5.3, 26.1, 61.7, 98.7, 151.}) for(unsigned m : {1u, 2u}) run<double, 1, 4>("double", 5 + d, line({-2, 0, 1}), q1, three, 1, m, perf);
	run<double, 1, 1>("double", 6 + d, p1, q1, three, 1, 0, 50); run<double, 1, 1>("double", 6, p1, q1, three, 1, 1, 51.3); run<double, 1, 2>("double", 5 + d, p1, q1, three, 2, 0, 50); run<double, 1, 2>("double", 5 + d, p1, q1, three, 1, 2, 30.3);
	run<double, 1, 25, -1>("double", 6 + d, p1, q1, two, 2, 0, 50, true); run<double, 1, 25, 42>("double", 5 + d, far, qfar, odd, 1, 0, 50); run<double, 1, 5>("double", 5 + d, far, qfar, two, 1, 0, 50);
	run<float, 1, 4>("float", 5 + d, p1, q1, two, 1, 0, 50); run<float, 2, 5, 99>("float", 4 + d, p2, q2, odd, 2, 1, 47.3);
	run<int, 1, 4>("int", 5 + d, i1, qi, two, 1, 0, 50); run<int, 1, 3>("int", 5 + d, i1, qi, two, 2, 2, 48.3); run<short, 2, 4>("short", 4 + d, p2, q2, two, 1, 0, 50);
	run<int, 1, 3>("int", 4 + d, line({-40000, 0, 30000, 60000}), line({-2e9, -100000, -50000, -19990, 9000, 16000, 44000, 46000, 70000, 2e9}), two, 30, 0, 50); run<int, 2, 4>("int", 4 + d, cross({-30000, 50000}, {0, 60000}), cross({-200000, 9000, 11000, 1.9e9}, {-150000, 29000, 31000, 2e9}), two, 30, 2, 0);
	run<double, 2, 4>("double", 4 + d, p2, q2, two, 1, 0, 50); run<double, 2, 6>("double", 5 + d, pc, qc, two, 2, 0, 50); run<double, 2, 3>("double", 5 + d, pc, qc, two, 1, 2, 52.7);
	run<double, 3, 4>("double", 5 + d, p3, q3, two, 1, 0, 50); run<double, 3, 4>("double", 5 + d, p3, q3, two, 2, 1, 20.3);
	for(unsigned m : {0u, 1u, 2u}) longrun<double, 1, 4>("double", t ? 2000 : 500, 1, 2, line({-2, 1, 3}), q1, two, 2, m, 40.3);
	longrun<double, 1, 25>("double", t ? 2000 : 500, 1, 2, line({0, 1, 100}), q1, two, 3, 0, 40); longrun<double, 2, 12>("double", t ? 1000 : 300, 0, t ? 3 : 2, p2, q2, two, 4, 2, 30.3); longrun<int, 1, 7>("int", t ? 1000 : 300, 0, 3, i1, qi, two, 4, 0, 30);
	for(unsigned m : {0u, 1u, 2u}) longrun<double, 1, 4>("double", 70000, 0, t ? 2 : 1, line({0, 100}), q1, two, 3, m, m ? 30.3 : 40); longrun<float, 2, 3>("float", 70000, 0, 1, {{0, 0}, {4, 2}}, q2, two, 2, 0, 40);
	Points p5 = {{0, 0, 0, 0, 0}, {1, -2, 4, 0, 8}, {1, -2, 4, 0, 0}, {0, 0, 0, 6, 8}}, q5 = {{0, 0, 0, 0, 0}, {0.3, -0.6, 1.1, 0.1, 2}, {1, -2, 4, 0, 8}, {1, -2, 4, 0, 3}, {0, 0, 0, 6, 8}, {0, 0, 0, 2, 7.5}, {40, 0, 0, 0, 0}, {0, 0, 0, 0, -90}}, p9, q9;
	for(int k = 0; k < 4; ++k){ std::vector<double> v, u; for(int f = 0; f < 9; ++f){ v.push_back((k >> (f % 2) & 1) * (f + 1.)); u.push_back(f == 2 * k ? 7 : 0.3 * f); } p9.push_back(v); q9.push_back(v); q9.push_back(u); }
	for(unsigned thr : {0u, 1u, 2u}){ run<double, 5, 4>("double", 4 + d, p5, q5, two, thr, thr, 31.3); run<float, 9, 6>("float", 3 + d, p9, q9, three, thr, (thr + 1) % 3, 31.3); }
	longrun<double, 9, 20>("double", 300, 0, 2, p9, q9, {0, 1, 2}, 3, 0, 40);
	for(unsigned m : {0u, 1u, 2u}){ phases<double, 1, 2>("double", 150, 320, 2, 1, line({0, 100}), q1, two, 2, m, 20.3); phases<double, 1, 3>("double", 300, 500, 1, 2, line({0, 100}), q1, two, 1, m, 30.3); phases<double, 1, 1>("double", 300, 600, 2, 1, line({0, 100}), q1, two, 3, m, 40.3); }
	phases<double, 1, 4>("double", 33000, 33000, 1, 1, line({0, 100}), q1, two, 1, 0, 40); phases<float, 1, 2>("float", 66000, 400, 1, 1, line({0, 1}), q1, two, 1, 0, 40); phases<double, 1, 2>("double", 70000, 200, 1, t ? 2 : 1, line({0, 100}), q1, two, 2, 2, 30.3);
	longrun<double, 1, 300>("double", 700, 0, t ? 3 : 2, line({0, 3, 1000}), q1, two, 1, 0, 40);
}
MC_MAIN(define)
