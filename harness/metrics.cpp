// C21..C23: the metrics given to the Mondrian forest to compare trees.
#include "../mc/mc.hpp"
#include "metrics.hpp"
using namespace mc;
static int const SIZES[] = {1, 2, 7, 100, 70000};

// ---- C21: two metrics, so that copies can be told apart. kind 0: plain, 1: ratio, 2: NoMetrics
template<class M, int kind> struct Err {
	struct World { alignas(16) char sut[2][sizeof(M)]; long count[2], errors[2]; };
	World& w(){ return *world<World>(); }
	M& m(int i){ return *reinterpret_cast<M*>(w().sut[i]); }
	size_t size(){ return sizeof(World); }
	void init(){ for(int i = 0; i < 2; ++i){ Sut s; new (w().sut[i]) M(); w().count[i] = w().errors[i] = 0; } }
	enum { O = 9 };
	int ops(){ return 2 * O; }
	std::string describe(int op){ static char const* n[] = {"update(right)", "update(wrong)", "update(-3, -3)", "update(5, -5)", "increase_error()", "increase_error(3)", "reset", "assign to the other", "copy over the other"}; return fmt("%s of %d", n[op % O], op / O); }
	void apply(int op){
		int const i = op / O, k = op % O; long &c = w().count[i], &e = w().errors[i];
		{ Sut s;
			if(k == 0) m(i).update(1, 1);
			if(k == 1) m(i).update(0, 1);
			if(k == 2) m(i).update(-3, -3);
			if(k == 3) m(i).update(5, -5);
			if(k == 4) m(i).increase_error();
			if(k == 5) m(i).increase_error(3);
			if(k == 6) m(i).reset();
			if(k == 7) m(1 - i) = m(i);
			if(k == 8) new (w().sut[1 - i]) M(m(i));
		}
		if(k <= 3){ c++; e += k % 2; }
		if(k == 4){ c++; e++; }
		if(k == 5){ c += 3; e += 3; }
		if(k == 6) c = e = 0;
		if(k >= 7){ w().count[1 - i] = c; w().errors[1 - i] = e; }
	}
	void compare(int i, char const* what, double got, double want){ CK("C21", near(got, want), "score", "%s is %.12f, expected %.12f (%ld errors of %ld)", what, got, want, w().errors[i], w().count[i]); }
	void check(){
		for(int i = 0; i < 2; ++i){
			double const c = w().count[i], e = w().errors[i];
			M const& k = m(i); bool ratio; { Sut s; ratio = k.ratio(); }
			CK("C21", ratio == (kind == 1), "ratio", "ratio() is %d", ratio);
			if(c == 0 && kind != 2) continue; // no score yet
			for(int size : SIZES){
				double a, b; { Sut s; a = k.score(false, size); b = k.score(true, size); }
				compare(i, "score", a, kind == 2 ? 0 : kind == 1 ? e / c * size : e / c);
				compare(i, "inverted score", b, kind == 2 ? 0 : kind == 1 ? (c - e) / c / size : (c - e) / c);
			}
			if(kind != 1){ double a, b; { Sut s; a = k.score(); b = k.score(true); } compare(i, "score", a, kind == 2 ? 0 : e / c); compare(i, "inverted score", b, kind == 2 ? 0 : (c - e) / c); }
		}
	}
};
// ---- C22
template<int L, bool ratio_> struct Kap {
	typedef KappaMetrics<L, ratio_> M;
	struct World { alignas(16) char sut[2][sizeof(M)]; long m[2][L][L]; };
	World& w(){ return *world<World>(); }
	M& m(int i){ return *reinterpret_cast<M*>(w().sut[i]); }
	size_t size(){ return sizeof(World); }
	void init(){ memset(w().m, 0, sizeof w().m); for(int i = 0; i < 2; ++i){ Sut s; new (w().sut[i]) M(); } }
	enum { O = L * L + 5 };
	int ops(){ return 2 * O; }
	std::string describe(int op){ int const k = op % O; return k < L * L ? fmt("update(%d, %d) of %d", k / L, k % L, op / O) : fmt("%s of %d", k == L * L ? "increase_error()" : k == L * L + 1 ? "increase_error(2)" : k == L * L + 2 ? "reset" : k == L * L + 3 ? "assign to the other" : "copy over the other", op / O); }
	void apply(int op){
		int const i = op / O, k = op % O; Sut s;
		if(k < L * L){ m(i).update(k / L, k % L); w().m[i][k / L][k % L]++; }
		else if(k == L * L){ m(i).increase_error(); w().m[i][0][1]++; }
		else if(k == L * L + 1){ m(i).increase_error(2); w().m[i][0][1] += 2; }
		else if(k == L * L + 2){ m(i).reset(); memset(w().m[i], 0, sizeof w().m[i]); }
		else { if(k == L * L + 3) m(1 - i) = m(i); else new (w().sut[1 - i]) M(m(i)); memcpy(w().m[1 - i], w().m[i], sizeof w().m[i]); }
	}
	void check(){
		for(int i = 0; i < 2; ++i){
			long n = 0, agree = 0, chance = 0;
			for(int a = 0; a < L; ++a){ long row = 0, col = 0; for(int b = 0; b < L; ++b){ row += w().m[i][a][b]; col += w().m[i][b][a]; } n += row; agree += w().m[i][a][a]; chance += row * col; }
			M const& c = m(i); bool r; { Sut s; r = c.ratio(); }
			CK("C22", r == ratio_, "ratio", "ratio() is %d", r);
			if((__int128)n * n == chance) continue; // undefined: no update, or one class only
			double const po = (double)agree / n, pe = (double)chance / ((double)n * n), kappa = (po - pe) / (1 - pe);
			double got; { Sut s; got = c.kappa(); }
			CK("C22", near(got, kappa), "kappa", "kappa is %.12f, expected %.12f after %ld updates", got, kappa, n);
			for(int size : SIZES){
				double a, b; { Sut s; a = c.score(false, size); b = c.score(true, size); }
				double const wa = (1 - kappa) / 2 * (ratio_ ? size : 1), wb = (1 + kappa) / 2 / (ratio_ ? size : 1);
				CK("C22", near(a, wa), "score", "the score is %.12f, expected %.12f after %ld updates", a, wa, n);
				CK("C22", near(b, wb), "score", "the inverted score is %.12f, expected %.12f after %ld updates", b, wb, n);
			}
		}
	}
};
// ---- C23
template<int K> struct Rec {
	typedef ReservoirSamplingMetrics M;
	struct World { alignas(16) char sut[K][sizeof(M)]; int number[K]; int n; };
	World& w(){ return *world<World>(); }
	M& m(int i){ return *reinterpret_cast<M*>(w().sut[i]); }
	size_t size(){ return sizeof(World); }
	void init(){ w().n = 0; for(int i = 0; i < K; ++i){ Sut s; new (w().sut[i]) M(); w().number[i] = ++w().n; } }
	enum { O = 4 + 2 * K };
	int ops(){ return K * O; }
	std::string describe(int op){ int const k = op % O, i = op / O; return k == 0 ? fmt("create %d", i) : k == 1 ? fmt("reset %d", i) : k == 2 ? fmt("update %d", i) : k == 3 ? fmt("increase_error %d", i) : k < 4 + K ? fmt("assign %d to %d", i, k - 4) : fmt("copy %d over %d", i, k - 4 - K); }
	void apply(int op){
		int const k = op % O, i = op / O; Sut s;
		if(k == 0){ new (w().sut[i]) M(); w().number[i] = ++w().n; }
		if(k == 1){ m(i).reset(); w().number[i] = ++w().n; }
		if(k == 2) m(i).update(0, 1);
		if(k == 3) m(i).increase_error(2);
		if(k >= 4 && k < 4 + K){ m(k - 4) = m(i); w().number[k - 4] = w().number[i]; }
		if(k >= 4 + K && k - 4 - K != i){ new (w().sut[k - 4 - K]) M(m(i)); w().number[k - 4 - K] = w().number[i]; }
	}
	void check(){
		for(int i = 0; i < K; ++i) for(int size : {0, 1, 2, 5}) for(int inv = 0; inv < 2; ++inv){
			M const& c = m(i); double got; { Sut s; got = c.score(inv, size); }
			double const want = w().number[i] == w().n ? (double)(w().n - size) / w().n : 1.0 / w().n;
			CK("C23", near(got, want), "score", "metric %d scores %.12f for a sample of %d, expected %.12f (created or reset as number %d of %d)", i, got, size, want, w().number[i], w().n);
			bool r; { Sut s; r = c.ratio(); if(size == 1) got = c.score(inv); }
			CK("C23", near(got, want), "score", "metric %d scores %.12f by default, expected %.12f", i, got, want);
			CK("C23", !r, "ratio", "ratio() is true");
		}
	}
};
template<class H> void both(char const* name, int depth, int len, int mu, int mv){
	job(fmt("%s depth=%d", name, depth), [=]{ G->prefill = 0xA5; H h; bfs(h, depth); });
	job(fmt("%s lasso length=%d", name, len), [=]{ G->prefill = 0xA5; H h; lasso(h, mu, mv, len, 1, [](int, uint64_t, int){ return 0; }, 3000); });
}
void define(){
	bool const t = thorough(); int const d = t ? 1 : 0;
	if(sel("C21")){
		both<Err<ErrorMetrics<false>, 0>>("error", 9 + 2 * d, 70000, 1, 2);
		both<Err<ErrorMetrics<true>, 1>>("error ratio", 9 + 2 * d, 70000, 1, 2);
		both<Err<ErrorMetrics<>, 0>>("error default", 6 + d, 70000, 0, 2);
		both<Err<NoMetrics, 2>>("none", 3, 1000, 0, 1);
	}
	if(sel("C22")){
		both<Kap<2, false>>("kappa 2", 6 + d, 70000, 0, 2); both<Kap<2, true>>("kappa ratio 2", 6 + d, 70000, 0, 2);
		both<Kap<3, false>>("kappa 3", 4 + d, 70000, 0, 1 + d); both<Kap<3, true>>("kappa ratio 3", 4 + d, 70000, 0, 1 + d);
		both<Kap<5, false>>("kappa 5", 3 + d, 70000, 0, 1); both<Kap<11, true>>("kappa ratio 11", 2, 70000, 0, 1);
	}
	if(sel("C23")){ both<Rec<1>>("recency 1", 30, 70000, 2, 2); both<Rec<2>>("recency 2", 12 + 2 * d, 70000, 1, 2); both<Rec<3>>("recency 3", 7 + d, 70000, 0, 2); both<Rec<6>>("recency 6", 3 + d, 3000, 0, 1 + d); }
}
MC_MAIN(define)
