// C52: models of different feature types, fed with the same whole numbers, do the same things.
#include "../mc/mc.hpp"
#include "comps.hpp"
#include "mondrian_ref.hpp"
#include <tuple>
using namespace mc;
static bool close_to(comps::Obs const& a, comps::Obs const& b){
	if(a.n != b.n) return false;
	for(int i = 0; i < a.n; ++i) if(!(std::fabs(a.v[i] - b.v[i]) <= 1e-6 * (1 + std::fabs(a.v[i]))) && !(a.v[i] == b.v[i]) && !(std::isnan(a.v[i]) && std::isnan(b.v[i]))) return false;
	return true;
}
template<class A, class B> struct Types {
	struct World { alignas(16) char a[sizeof(typename A::S)]; alignas(16) char b[sizeof(typename B::S)]; };
	A a; B b; char const* type; int series;
	World& w(){ return *world<World>(); }
	typename A::S& fa(){ return *reinterpret_cast<typename A::S*>(w().a); }
	typename B::S& fb(){ return *reinterpret_cast<typename B::S*>(w().b); }
	size_t size(){ return sizeof(World); }
	void init(){ comps::series = series; ref::record(); a.make(w().a); ref::again(); b.make(w().b); }
	int ops(){ return a.ops(); }
	std::string describe(int op){ return fmt("operation %d of %s and its equal for %s", op, a.name().c_str(), type); }
	void apply(int op){
		static thread_local comps::Obs x, y; x.clear(); y.clear(); comps::series = series;
		ref::record(); a.apply(fa(), op, x); ref::again(); b.apply(fb(), op, y);
		CK("C52", ref::D->at == ref::D->n, "draws", "%s draws %d random numbers and %d for %s", a.name().c_str(), ref::D->n, ref::D->at, type);
		CK("C52", close_to(x, y), "answer", "%s answers %s and %s for %s", a.name().c_str(), x.text().c_str(), y.text().c_str(), type);
		memset(&x, 0, sizeof x); memset(&y, 0, sizeof y);
	}
	void check(){
		static thread_local comps::Obs x, y; x.clear(); y.clear(); comps::series = series; ref::record();
		a.look(fa(), x); b.look(fb(), y);
		CK("C52", close_to(x, y), "look", "%s shows %s and %s for %s", a.name().c_str(), x.text().c_str(), y.text().c_str(), type);
		memset(&x, 0, sizeof x); memset(&y, 0, sizeof y); ref::record();
	}
};
template<class A, class B> void run(char const* type, int series, int variant, int depth, int free_answers, int len, int mv, int phase = 0){
	A a; a.variant = variant; std::vector<double> const menu = {0.2, 0.7};
	job(fmt("types %s variant %d: double and %s, values %d, depth=%d free=%d", a.name().c_str(), variant, type, series, depth, free_answers), [=]{ G->prefill = 0x5A; G->menu = menu; G->max_branch = free_answers; G->fallback = [](int n){ return 1 % n; }; Types<A, B> h; h.a.variant = h.b.variant = variant; h.type = type; h.series = series; bfs(h, depth, 400000); });
	job(fmt("types lasso %s variant %d: double and %s, values %d, length=%d words=%d", a.name().c_str(), variant, type, series, len, mv), [=]{ G->prefill = 0x5A; G->menu = menu; Types<A, B> h; h.a.variant = h.b.variant = variant; h.type = type; h.series = series; lasso(h, 0, mv, len, 2, [](int p, uint64_t k, int n){ return p ? (k * 7 + k / 5) % n : k % n; }, 10); });
	if(phase) job(fmt("types phases %s variant %d: double and %s, values %d, each word %d times, words=%d", a.name().c_str(), variant, type, series, phase, mv), [=]{ G->prefill = 0x5A; G->menu = menu; Types<A, B> h; h.a.variant = h.b.variant = variant; h.type = type; h.series = series; lasso(h, 2, mv, 2 * (2 + mv) * phase, 1, [](int, uint64_t k, int n){ return k % n; }, 10, phase); });
}
using namespace comps;
template<template<class> class M> void all(int variant, int depth, int free_answers, int len, int mv, bool narrow, int phase = 0){
	typedef M<double> A;
	for(int s = 1; s < 6; ++s){
		run<A, M<float>>("float", s, variant, depth, free_answers, len, mv, phase);
		run<A, M<int>>("int", s, variant, depth, free_answers, len, mv, phase);
		if(s < 5) run<A, M<short>>("short", s, variant, depth, free_answers, len, mv, phase);
		if(narrow && (s == 1 || s == 3)) run<A, M<signed char>>("signed char", s, variant, depth, free_answers, len, mv, phase);
		if(narrow && s < 3) run<A, M<unsigned char>>("unsigned char", s, variant, depth, free_answers, len, mv, phase);
		if(narrow && s < 3) run<A, M<unsigned>>("unsigned", s, variant, depth, free_answers, len, mv, phase);
	}
}
template<class T> using Hoeffding1 = Hoeffding<T, 1, 2, 900>; template<class T> using Hoeffding2 = Hoeffding<T, 2, 2, 1301>;
template<class T> using Mondrian1 = Mondrian<T, 1, 2, 1, 7, 0>; template<class T> using Mondrian3 = Mondrian<T, 3, 2, 2, 9, 0>;
template<class T> using Unbound1 = Unbound<T, 1, 2, 1>; template<class T> using Unbound3 = Unbound<T, 3, 2, 2>;
template<class T> using Coarse1 = Coarse<T, 1, 2, 1, 5, 0>; template<class T> using Coarse2 = Coarse<T, 2, 2, 2, 9, 0>;
void define(){
	bool const t = thorough(); int const d = t ? 1 : 0, len = t ? 300 : 100;
	comps::draw = ref::draw; comps::allocate = arena_alloc;
#if PART == 0
	all<Hoeffding1>(0, 4 + d, 9, len, 2, true, 9 + 6 * d); all<Hoeffding2>(1, 3 + d, 9, len, 2, true, 9 + 6 * d);
#elif PART == 1
	all<Mondrian1>(0, 3 + d, 5, len, 2, true); all<Mondrian3>(1, 2 + d, 5, len, 1 + t, true);
#elif PART == 2
	all<Unbound1>(0, 3 + d, 5, len, 2, true); all<Unbound3>(1, 2 + d, 5, len, 1 + t, true);
#else
	for(int k = 0; k < 6; ++k) for(int mode = 0; mode < 6; ++mode) if(k < 4 || mode == 5){ all<Coarse1>(10 * k + mode, 2 + d, 5, len, 1 + t, false); if(t || k == 0) all<Coarse2>(10 * k + mode, 2, 5, len, 1, false); }
#endif
}
MC_MAIN(define)
