// C24, C25: naive Bayes against the closed-form Gaussian posteriors, and against itself trained in other ways.
#include "../mc/mc.hpp"
#include "naive_bayes.hpp"
using namespace mc;
struct Ln { static double log(double x){ return std::log(x); } static double sqrt(double x){ return std::sqrt(x); } };
struct Log2 { static double log(double x){ return std::log2(x); } static double sqrt(double x){ return std::sqrt(x); } };
static double const TWO_PI_ROOT = 2.506628274631000502;

template<class T, int L, int F, class Fn> struct Bayes {
	typedef NaiveBayes<T, L, F, Fn> S;
	struct Sums { double w, x, xx, first; bool varied, rounded; }; // rounded: the mean may not be exact // exact: dyadic numbers
	struct World { alignas(16) char sut[sizeof(S)]; Sums s[L][F]; double weight[L], total; int count[64]; };
	std::vector<std::vector<double>> points, probes; std::vector<double> weights; double offset = 0; bool longrun = false; int prefix = 0;
	World& w(){ return *world<World>(); }
	S& f(){ return *reinterpret_cast<S*>(w().sut); }
	size_t size(){ return sizeof(World); }
	void init(){
		{ Sut s; if(prefix) new (w().sut) S(0.25 * prefix); else new (w().sut) S(); }
		memset(w().s, 0, sizeof w().s); memset(w().weight, 0, sizeof w().weight); memset(w().count, 0, sizeof w().count); w().total = 0;
	}
	int ops(){ return points.size() * L * weights.size(); }
	double value(int p, int i){ return points[p][i] + offset; }
	void letter(int op, int& p, int& l, double& wt){ p = op % points.size(); op /= points.size(); l = op % L; wt = weights[op / L]; }
	std::string describe(int op){ int p, l; double wt; letter(op, p, l, wt); std::string s = "train("; for(int i = 0; i < F; ++i) s += fmt("%g ", value(p, i)); return s + fmt("label %d weight %g)", l, wt); }
	void train(S& m, int op, bool first_form){
		int p, l; double wt; letter(op, p, l, wt);
		T x[F]; for(int i = 0; i < F; ++i) x[i] = (T)value(p, i);
		T const keep = x[F - 1]; bool ok;
		{ Sut s; ok = wt == 1 && first_form ? m.train(x, l) : m.train(x, l, wt); }
		CK("C24", ok, "refused", "train answers false");
		CK("C24", x[F - 1] == keep, "input", "train changes the point");
	}
	void apply(int op){
		int p, l; double wt; letter(op, p, l, wt);
		train(f(), op, true);
		for(int i = 0; i < F; ++i){
			Sums& s = w().s[l][i]; double const v = points[p][i]; // without the offset: exact
			if(s.w == 0) s.first = v; else if(v != s.first) s.varied = true;
			s.w += wt; int e; if(s.varied && std::frexp(s.w, &e) != 0.5) s.rounded = true; s.x += wt * v; s.xx += wt * v * v;
		}
		w().weight[l] += wt; w().total += wt;
		if(!longrun) w().count[op]++;
	}
	// log of the density; `unsure` when rounding or underflow decides
	double density(Sums const& s, double v, bool& unsure){
		if(s.w <= 0) return -INFINITY;
		double const m = s.x / s.w, var = s.w > 1 && s.varied ? (double)(((long double)s.w * s.xx - (long double)s.x * s.x) / ((long double)s.w * (s.w - 1))) : 0;
		if(var > 0){
			double const e = (v - m) * (v - m) / (2 * var);
			if(e > 650) unsure = true;
			return Fn::log(1 / (TWO_PI_ROOT * std::sqrt(var))) + Fn::log(std::exp(-e));
		}
		if(s.varied && (s.rounded || offset != 0 || sizeof(T) < 8) && std::fabs(v - m) < 1e-6) unsure = true;
		return v == m ? 0 : -INFINITY;
	}
	int predict(S& m, std::vector<double> const& q, double* out){
		T x[F]; for(int i = 0; i < F; ++i) x[i] = (T)(q[i] + offset);
		T const keep = x[0]; int r; { Sut s; r = m.predict(x, out); }
		CK("C24", x[0] == keep, "input", "predict changes the point");
		return r;
	}
	void check(){
		if(w().total == 0) return; // nothing learned
		if(sel("C25")) return twins();
		for(auto& q : probes){
			double got[L + 2]; got[L] = got[L + 1] = 4242; for(int l = 0; l < L; ++l) got[l] = 17;
			int const a = predict(f(), q, got), b = predict(f(), q, nullptr);
			CK("C24", got[L] == 4242 && got[L + 1] == 4242, "overrun", "more scores than labels");
			int best = 0; for(int l = 1; l < L; ++l) if(got[l] > got[best]) best = l;
			CK("C24", a == best, "label", "label %d predicted for (%g...), the scores say %d", a, q[0], best);
			CK("C24", a == b, "label", "label %d predicted for (%g...) with the scores, %d without", a, q[0], b);
			for(int l = 0; l < L; ++l){
				bool unsure = false; double want = Fn::log(w().weight[l] / w().total);
				for(int i = 0; i < F; ++i) want += density(w().s[l][i], q[i], unsure);
				if(unsure) continue;
				CK("C24", near(got[l], want, 2e-5), "score", "the score of label %d for (%g...) is %.9f, expected %.9f (weights %g of %g)", l, q[0], got[l], want, w().weight[l], w().total);
			}
			double again[L]; predict(f(), q, again);
			CK("C24", memcmp(again, got, sizeof again) == 0, "unstable", "the same prediction twice gives different scores");
		}
	}
	// C25: the same weighted set of points given in the order of the letters, in the reverse order, with repetitions, label by label
	void twins(){
		alignas(16) char room[3 + L][sizeof(S)]; S* m[3 + L];
		for(int i = 0; i < 3 + L; ++i){ Sut s; m[i] = new (room[i]) S(); }
		int const n = ops();
		bool whole = true;
		for(int op = 0; op < n; ++op) for(int k = 0; k < w().count[op]; ++k){
			int p, l; double wt; letter(op, p, l, wt);
			train(*m[0], op, true); train(*m[3 + l], op, true);
			if(wt == std::floor(wt)){ int const unit = p + points.size() * l; for(int r = 0; r < wt; ++r) train(*m[2], unit, true); } else whole = false;
		}
		for(int op = n - 1; op >= 0; --op) for(int k = 0; k < w().count[op]; ++k) train(*m[1], op, false);
		for(auto& q : probes){
			double got[L], other[L]; predict(f(), q, got);
			for(int i = 0; i < 3; ++i){
				if(i == 2 && (!whole || weights[0] != 1)) continue;
				predict(*m[i], q, other);
				for(int l = 0; l < L; ++l){
					bool unsure = false; for(int k = 0; k < F; ++k) density(w().s[l][k], q[k], unsure);
					if(!unsure) CK("C25", near(got[l], other[l], 1e-7), i == 2 ? "weights" : "order", "the score of label %d for (%g...) is %.12f, and %.12f when the points are given %s", l, q[0], got[l], other[l], i == 0 ? "sorted" : i == 1 ? "in reverse" : "one by one instead of weighted");
				}
			}
			for(int l = 0; l < L; ++l){
				if(w().weight[l] == 0) continue;
				predict(*m[3 + l], q, other);
				bool unsure = false; for(int k = 0; k < F; ++k) density(w().s[l][k], q[k], unsure);
				if(!unsure) CK("C25", near(got[l], other[l] + Fn::log(w().weight[l] / w().total), 1e-7), "labels", "the score of label %d for (%g...) is %.12f, and %.12f from its own points only", l, q[0], got[l], other[l] + Fn::log(w().weight[l] / w().total));
			}
		}
	}
};
typedef std::vector<std::vector<double>> Points;
static Points line(std::vector<double> v){ Points p; for(double x : v) p.push_back({x}); return p; }
template<class T, int L, int F, class Fn> void run(char const* name, int depth, Points points, Points probes, std::vector<double> weights, double offset = 0, int smoothing = 0){
	job(fmt("bayes %s labels=%d features=%d points=%d weights=%d offset=%g depth=%d", name, L, F, (int)points.size(), (int)weights.size(), offset, depth), [=]{
		G->prefill = 0xA5; Bayes<T, L, F, Fn> h; h.points = points; h.probes = probes; h.weights = weights; h.offset = offset; h.prefix = smoothing; bfs(h, depth);
	});
}
template<class T, int L, int F, class Fn> void longrun(char const* name, int len, Points points, Points probes, std::vector<double> weights, double offset = 0){
	if(sel("C25")) return;
	job(fmt("bayes lasso %s labels=%d features=%d points=%d offset=%g length=%d", name, L, F, (int)points.size(), offset, len), [=]{
		G->prefill = 0xA5; Bayes<T, L, F, Fn> h; h.points = points; h.probes = probes; h.weights = weights; h.offset = offset; h.longrun = true;
		lasso(h, len > 50000 ? 0 : 1, len > 50000 && !thorough() ? 1 : 2, len, 1, [](int, uint64_t, int){ return 0; }, 1000);
	});
}
void define(){
	bool const t = thorough(); int const d = t ? 1 : 0;
	Points a = line({-3, 0, 1, 4}), qa = line({-30, -3, -1.5, -1e-5, 0, 1e-4, 0.4, 0.5, 0.999, 1, 1 + 1.0 / 4096, 2, 4, 4.00001, 9, 200});
	Points b = {{0, 0}, {1, -2}, {1, 5}, {-4, 0}}, qb = {{0, 0}, {1, -2}, {1, 5}, {0.5, 1}, {1, -2 + 1.0 / 2048}, {1e-3, 0}, {-4, 0}, {-1, -1}, {2, 2}, {30, 0}, {0, 4}};
	Points c = {{0, 0, 0}, {1, 0, -1}, {2, 8, -1}, {0, 8, 3}}, qc = {{0, 0, 0}, {1, 0, -1}, {1, 4, 1}, {2, 8, -1}, {0.5, 2, 0}, {0, 8, 3}, {0, 0, 3}};
	run<double, 2, 1, Ln>("double", 5 + d, a, qa, {1}); run<double, 2, 1, Ln>("double", 4 + d, a, qa, {1, 2, 3}); run<double, 2, 1, Ln>("double", 4 + d, a, qa, {1, 0.5}, 0, 1); run<double, 2, 1, Ln>("double", 5 + d, line({0, 1}), qa, {0.25, 0.5});
	run<double, 3, 1, Ln>("double", 4 + d, a, qa, {1}, 1000); run<double, 2, 1, Ln>("double", 5 + d, line({0, 1, 3}), qa, {1, 4}, 1e6); run<float, 2, 1, Ln>("float", 5 + d, a, qa, {1}); run<float, 3, 2, Log2>("float", 4 + d, b, qb, {1});
	run<double, 2, 2, Log2>("double", 4 + d, b, qb, {1, 2}); run<double, 2, 3, Ln>("double", 4 + d, c, qc, {1, 5}); run<double, 4, 2, Ln>("double", 3 + d, b, qb, {1, 2}); run<double, 1, 1, Ln>("double", 7 + d, a, qa, {1, 1.5});
	run<double, 2, 1, Ln>("double", 4 + d, line({0, 1.0 / 4096, 3.0 / 4096}), line({-1, 0, 1.0 / 8192, 1.0 / 4096, 1.1 / 4096, 3.0 / 4096, 5.0 / 4096}), {1, 2}); run<double, 2, 1, Ln>("double", 4 + d, line({0, 1 << 26, 3e8}), line({-1e8, 0, 1 << 25, 1 << 26, 2e8, 3e8, 1e9}), {1, 2}); run<int, 2, 2, Ln>("int", 4 + d, {{0, 0}, {1, 40000}, {-70000, 5}}, {{0, 0}, {1, 39999}, {1, 40000}, {-70000, 5}, {-30000, 20000}, {2000000000, -2000000000}}, {1}); run<unsigned char, 2, 2, Ln>("unsigned char", 4 + d, {{0, 0}, {1, 200}, {255, 5}}, {{0, 0}, {1, 199}, {1, 200}, {255, 5}, {128, 100}, {254, 255}}, {1});
	Points wide = {{0, 1, -2, 3, 0, 5, 1}, {1, 1, 4, 3, -6, 2, 0}, {0, 2, 4, -1, 0, 5, 8}}, qw = {{0, 1, -2, 3, 0, 5, 1}, {0.5, 1.2, 1, 1, -3, 3, 0.4}, {1, 1, 4, 3, -6, 2, 0}, {9, 9, 9, 9, 9, 9, 9}, {0, 2, 4, -1, 0, 5, 7}};
	run<double, 5, 7, Ln>("double", 3 + d, wide, qw, {1}); run<float, 9, 4, Ln>("float", 2 + d, {{0, 1, 2, 3}, {3, 2, 1, 9}}, {{0, 1, 2, 3}, {3, 2, 1, 9}, {1, 1, 1, 4}}, {1, 2}); longrun<double, 6, 7, Ln>("double", 600, wide, qw, {1});
	longrun<double, 2, 2, Ln>("double", 70000, {{0, 0}, {1, 3}}, qb, {1}); longrun<float, 2, 1, Ln>("float", 70000, line({0, 1}), qa, {1});
	longrun<double, 2, 1, Ln>("double", t ? 70000 : 6000, line({0, 1, 3}), qa, {1}); longrun<double, 2, 2, Ln>("double", t ? 20000 : 6000, b, qb, {1, 2}); longrun<float, 3, 1, Ln>("float", t ? 20000 : 6000, line({-2, 5}), qa, {1, 0.5}, 100);
}
MC_MAIN(define)
