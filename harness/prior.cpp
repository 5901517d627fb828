// C47: three copies of an object, built over memory (and on a stack) filled with different bytes, do the same things.
#include "../mc/mc.hpp"
#include "comps.hpp"
#include "mondrian_ref.hpp"
using namespace mc;
static int pattern = 0;
__attribute__((noinline)) static void stain(){ char b[40000]; memset(b, pattern, sizeof b); asm volatile("" : : "r"(b) : "memory"); }
static void* alloc_stained(size_t n){ void* p = arena_alloc(n); memset(p, pattern, (n + 15) & ~size_t(15)); return p; }
template<class C> struct Prior {
	typedef comps::Timed<C> Time; enum { K = 3 };
	struct World { alignas(16) char sut[K][(sizeof(typename C::S) + 15) / 16 * 16]; alignas(16) typename Time::Clock clock[K]; };
	C c;
	World& w(){ return *world<World>(); }
	typename C::S& f(int k){ return *reinterpret_cast<typename C::S*>(w().sut[k]); }
	size_t size(){ return sizeof(World); }
	void use(int k){ static int const bytes[] = {0, 0xFF, 0xA5}; pattern = G->alloc_fill = bytes[k]; Time::set(c, &w().clock[k]); if(k) ref::again(); else ref::record(); stain(); }
	void init(){
		for(int k = 0; k < K; ++k){ use(k); memset(w().sut[k], pattern, sizeof w().sut[k]); w().clock[k] = 0; use(k); c.make(w().sut[k]); CK("C47", k == 0 || ref::D->at == ref::D->n, "draws", "construction draws %d and %d numbers", ref::D->n, ref::D->at); }
		pattern = 0;
	}
	int ops(){ return c.ops(); }
	std::string describe(int op){ return fmt("operation %d of %s", op, c.name().c_str()); }
	void apply(int op){
		static thread_local comps::Obs o[K];
		for(int k = 0; k < K; ++k){
			use(k); o[k].clear(); c.apply(f(k), op, o[k]);
			CK("C47", k == 0 || ref::D->at == ref::D->n, "draws", "the operation draws %d numbers over 00 and %d over another content", ref::D->n, ref::D->at);
			CK("C47", o[k].same(o[0]), "answer", "an operation answers %s over 00 and %s over another content", o[0].text().c_str(), o[k].text().c_str());
		}
		pattern = 0; memset(o, 0, sizeof o);
	}
	void check(){
		static thread_local comps::Obs o[K];
		for(int k = 0; k < K; ++k){ use(k); o[k].clear(); c.look(f(k), o[k]); CK("C47", o[k].same(o[0]), "look", "it shows %s over 00 and %s over another content", o[0].text().c_str(), o[k].text().c_str()); }
		pattern = 0; memset(o, 0, sizeof o);
	}
};
template<class C> void run(int variant, int depth, std::vector<double> menu, int free_answers, int len, int mv){
	C c; c.variant = variant;
	job(fmt("prior %s variant %d depth=%d draws=%d free=%d", c.name().c_str(), variant, depth, (int)menu.size(), free_answers), [=]{ G->menu = menu; G->max_branch = free_answers; G->fallback = [i = 0](int n) mutable { return 1 % n; }; Prior<C> h; h.c.variant = variant; bfs(h, depth, 2000000); });
	job(fmt("prior lasso %s variant %d length=%d words=%d", c.name().c_str(), variant, len, mv), [=]{ G->menu = menu; Prior<C> h; h.c.variant = variant; lasso(h, 0, mv, len, 2, [](int p, uint64_t k, int n){ return p ? (k * 7 + k / 5) % n : k % n; }, 10); });
}
using comps::Metric; using namespace comps;
void define(){
	bool const t = thorough(); int const d = t ? 2 : 0, len = t ? 400 : 100;
	comps::draw = ref::draw; comps::allocate = alloc_stained;
	std::vector<double> m = {0, 0.4, 0.9}, two = {0.2, 0.7};
#if PART == 0
	run<Bloom<13, 3>>(0, 4 + d, m, 9, len, 2); run<Bloom<64, 2>>(1, 4 + d, m, 9, len, 2); run<Bloom<9, 1>>(2, 4 + d, m, 9, len, 2);
	run<Cuckoo<4, 2, 3, 0>>(0, 4 + d, m, 6, len, 2); run<Cuckoo<2, 3, 5, 0>>(1, 4 + d, m, 6, len, 2); run<Cuckoo<8, 1, 8, 0>>(0, 4 + d, m, 6, len, 2); run<Cuckoo<2, 2, 4, 15>>(0, 4 + d, m, 6, len, 2);
	run<Ltc<int, int, 5>>(0, 5 + d, m, 9, len, 3); run<Ltc<float, unsigned, 1>>(1, 5 + d, m, 9, len, 3); run<Ltc<double, long, 20>>(2, 5 + d, m, 9, len, 3);
	run<Sample<ReservoirSampling, 3, 0>>(0, 6 + d, m, 9, len, 3); run<Sample<ReservoirSampling, 1, 0>>(0, 6 + d, m, 9, len, 3); run<Sample<ExponentialReservoirSampling, 3, 1>>(0, 6 + d, m, 9, len, 3); run<Sample<ExponentialReservoirSampling, 1, 1>>(0, 6 + d, m, 9, len, 3);
	run<Chained<3>>(0, 5 + d / 2, two, 8, len, 3); run<Chained<1>>(0, 6 + d, two, 8, len, 3); run<Chained<5>>(0, 5 + d / 2, two, 8, len, 3);
#elif PART == 1
	for(int v = 0; v < 4; ++v){ run<Mcnn<double, 2, 3>>(v, 4 + d, m, 9, len, 2); run<Mcnn<int, 1, 2>>(v, 4 + d, m, 9, len, 2); run<Mcnn<float, 3, 5>>(v, 4 + d, m, 9, len, 2); }
	run<Metric<::ErrorMetrics<true>, 2>>(0, 5 + d, m, 9, len, 2); run<Metric<::NoMetrics, 2>>(0, 4, m, 9, len, 2); run<Metric<::KappaMetrics<2>, 2>>(0, 5 + d, m, 9, len, 2); run<Metric<::KappaMetrics<3>, 3>>(0, 4 + d, m, 9, len, 2);
	run<Bayes<double, 2, 2>>(0, 4 + d, m, 9, len, 2); run<Bayes<float, 3, 1>>(1, 4, m, 9, len, 2); run<Bayes<int, 2, 3>>(2, 4 + d, m, 9, len, 2);
	run<Mlp<3, 2, 2, 1>>(0, 3 + d, {0.3, 0.8}, 4, len, 2); run<Mlp<2, 3, 2, 1>>(1, 3 + d, {0.3, 0.8}, 4, len, 2); run<Mlp<4, 1, 3, 2, 2>>(0, 3 + d, {0.3, 0.8}, 4, len, 2);
#elif PART == 2
	run<Hoeffding<double, 1, 2, 900>>(0, 4 + d, m, 9, len, 2); run<Hoeffding<double, 2, 2, 1301>>(1, 4 + d, m, 9, len, 2); run<Hoeffding<float, 3, 2, 2000>>(0, 4, m, 9, len, 2); run<Hoeffding<int, 1, 3, 777>>(0, 4, m, 9, len, 2);
	run<Mondrian<double, 1, 2, 1, 5, 0>>(0, 4 + d, two, 6, len, 2); run<Mondrian<double, 2, 2, 2, 7, 9>>(1, 3 + d, two, 3 + d, len, 2); run<Mondrian<float, 3, 3, 1, 4, 0>>(0, 3 + d, two, 4, len, 2); run<Mondrian<int, 1, 2, 3, 10, 5>>(1, 3 + d, two, 6, len, 2);
	run<Unbound<double, 1, 2, 1>>(0, 4 + d, two, 6, len, 2); run<Unbound<double, 2, 2, 2>>(1, 3, two, 3 + d, len, 2); run<Unbound<float, 3, 3, 2>>(0, 2 + d, two, 4, len, 2);
#else
	for(int k = 0; k < 6; ++k) for(int mode = 0; mode < 6; ++mode) if(k < 4 || mode == 5){ run<Coarse<double, 1, 2, 1, 5, 0>>(10 * k + mode, 3 + d, two, 5, len, 2); run<Coarse<double, 2, 2, 2, 9, 7>>(10 * k + mode, 2 + d, two, 6, len, 1 + t); }
	for(int k = 0; k < 6; ++k) for(int mode = 0; mode < 6; ++mode) if(k < 4 || mode == 5){ run<Grown<double, 1, 1, 9, 40>>(10 * k + mode, 3, two, 2 + d, len, 1); run<Grown<double, 2, 2, 12, 60>>(10 * k + mode, 2, two, 3 + d, len, 1); }
	run<Coarse<float, 3, 3, 1, 7, 0>>(1, 3, two, 5, len, 1 + t); run<Coarse<int, 1, 2, 3, 8, 0>>(5, 3, two, 5, len, 1 + t);
#endif
}
MC_MAIN(define)
