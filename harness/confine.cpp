// C46: every class under AddressSanitizer and UndefinedBehaviorSanitizer; objects, arrays and allocations have exactly their size.
#include "../mc/mc.hpp"
#include "comps.hpp"
using namespace mc;
static std::set<void*>* taken = new std::set<void*>; // memory taken by the code, given back after each path
#if MC_ASAN
static void* sut_new(size_t n){ void* p = malloc(n ? n : 1); memset(p, 0xA5, n ? n : 1); if(G && G->in_sut){ bool const s = G->in_sut; G->in_sut = false; taken->insert(p); G->in_sut = s; } return p; }
static void sut_delete(void* p){ if(G && G->in_sut && taken){ G->in_sut = false; taken->erase(p); G->in_sut = true; } free(p); }
void* operator new(size_t n){ return sut_new(n); }
void* operator new[](size_t n){ return sut_new(n); }
void operator delete(void* p) noexcept { sut_delete(p); }
void operator delete[](void* p) noexcept { sut_delete(p); }
void operator delete(void* p, size_t) noexcept { sut_delete(p); }
void operator delete[](void* p, size_t) noexcept { sut_delete(p); }
#endif
static void* user_malloc(size_t n){ bool const s = G->in_sut; G->in_sut = true; void* p = operator new(n); G->in_sut = s; return p; }
template<class C> struct Confine {
	typedef comps::Timed<C> Time; typedef typename C::S S;
	C c; S* sut = nullptr; typename Time::Clock clock; comps::Obs o; int warm;
	size_t size(){ return 0; }
	void clear(){ free(sut); sut = nullptr; for(void* p : *taken) free(p); taken->clear(); }
	void init(){
		clear(); sut = (S*)malloc(sizeof(S)); memset(sut, 0xA5, sizeof(S)); clock = 0; Time::set(c, &clock); c.make(sut);
		auto keep = G->policy; G->policy = [i = 0](int n) mutable { return i++ % n; };
		for(int i = 0; i < warm; ++i){ o.clear(); c.apply(*sut, (i * 3 + i / 4) % c.ops(), o); }
		G->policy = keep;
	}
	int ops(){ return c.ops(); }
	std::string describe(int op){ return fmt("operation %d of %s", op, c.name().c_str()); }
	void apply(int op){ o.clear(); c.apply(*sut, op, o); G->st.checks++; }
	void check(){ o.clear(); c.look(*sut, o); G->st.checks++; }
	void done(){ { Sut s; sut->~S(); } clear(); }
};
static std::vector<double> menu;
template<class C> void run(int variant, int depth, int free_answers, int warm, int len){
	C c; c.variant = variant; auto m = menu;
	job(fmt("confined %s variant %d depth=%d draws=%d free=%d warm=%d", c.name().c_str(), variant, depth, (int)m.size(), free_answers, warm), [=]{ G->menu = m; G->max_branch = free_answers; G->fallback = [](int n){ return 1 % n; }; Confine<C> h; h.c.variant = variant; h.warm = warm; stateless(h, depth); });
	job(fmt("confined lasso %s variant %d length=%d", c.name().c_str(), variant, len), [=]{ G->menu = m; Confine<C> h; h.c.variant = variant; h.warm = 0; lasso(h, 0, c.ops() > 9 ? 1 : 2, len, 3, [](int p, uint64_t k, int n){ return p == 0 ? k % n : p == 1 ? (k * 7 + k / 5) % n : n - 1; }, 10); h.clear(); });
}
struct Nowhere : std::streambuf { int overflow(int c) override { return c; } std::streamsize xsputn(char const*, std::streamsize n) override { return n; } };
using comps::Metric; using namespace comps;
void define(){
	bool const t = thorough(); int const d = t ? 1 : 0, len = t ? 600 : 120;
	comps::draw = rnd; comps::allocate = user_malloc; std::cout.rdbuf(new Nowhere);
	double const top = 1 - 1. / (1 << 30); menu = {0, 0.45, top};
#if PART == 0
	run<Bloom<1, 1>>(0, 4 + d, 9, 0, len); run<Bloom<7, 2>>(1, 4 + d, 9, 0, len); run<Bloom<8, 3>>(2, 4 + d, 9, 0, len); run<Bloom<9, 4>>(0, 4 + d, 9, 0, len); run<Bloom<65, 2>>(3, 4 + d, 9, 0, len);
	run<Ltc<int, int, 5>>(0, 4 + d, 9, 0, len); run<Ltc<float, unsigned, 1>>(1, 4 + d, 9, 0, len); run<Ltc<double, long, 0>>(1, 4 + d, 9, 0, len); run<Ltc<short, short, 7>>(1, 4 + d, 9, 0, len);
	run<Metric<::ErrorMetrics<true>, 2>>(0, 4, 9, 0, len); run<Metric<::NoMetrics, 2>>(0, 3, 9, 0, len); run<Metric<::KappaMetrics<2>, 2>>(0, 4, 9, 0, len); run<Metric<::KappaMetrics<3>, 3>>(0, 3 + d, 9, 0, len); run<Metric<::KappaMetrics<5, true>, 5>>(0, 2 + d, 9, 0, len);
#elif PART == 1
	menu[2] = 1; // rand() / RAND_MAX of the README
	run<Cuckoo<1, 1, 2, 0>>(0, 3 + d, 2, 0, len); run<Cuckoo<4, 2, 3, 0>>(0, 3 + d, 3, 0, len); run<Cuckoo<4, 2, 3, 0>>(1, 2 + d, 3, 7, len); run<Cuckoo<2, 3, 5, 0>>(1, 3 + d, 3, 3, len); run<Cuckoo<8, 1, 8, 0>>(0, 3 + d, 3, 0, len); run<Cuckoo<2, 2, 4, 15>>(0, 3, 3, 4, len); run<Cuckoo<16, 1, 7, 0>>(0, 2 + d, 3, 9, len); run<Cuckoo<1, 5, 3, 7>>(0, 3, 2, 4, len);
#elif PART == 2
	menu[2] = 1;
	run<Sample<ReservoirSampling, 3, 0>>(0, 6 + d, 9, 0, len); run<Sample<ReservoirSampling, 1, 0>>(0, 6 + d, 9, 0, len); run<Sample<ExponentialReservoirSampling, 3, 1>>(0, 4 + d, 9, 0, len); run<Sample<ExponentialReservoirSampling, 1, 1>>(0, 4 + d, 9, 0, len);
	menu = {0, 0.45, 0.8, 1}; run<Chained<3>>(0, 3 + d, 4, 3, len); run<Chained<1>>(0, 3 + d, 3, 1, len); run<Chained<2>>(1, 3 + d, 4, 0, len); run<Chained<5>>(0, 3, 3, 12, len);
#elif PART == 3
	for(int v = 0; v < 4; ++v){ run<Mcnn<double, 2, 3>>(v, 4 + d, 9, 0, len); run<Mcnn<int, 1, 1>>(v, 4 + d, 9, 0, len); run<Mcnn<float, 3, 2>>(v, 4, 9, 8, len); run<Mcnn<double, 1, 6>>(v, 4, 9, 11, len); }
	run<Bayes<double, 2, 2>>(0, 3 + d, 9, 0, len); run<Bayes<float, 3, 1>>(1, 3, 9, 5, len); run<Bayes<int, 1, 3>>(2, 4, 9, 0, len);
	run<Mlp<3, 2, 2, 1>>(0, 2 + d, 3, 0, len); run<Mlp<2, 3, 2, 1>>(1, 2 + d, 3, 0, len); run<Mlp<3, 2, 3, 2>>(1, 2 + d, 3, 0, len); run<Mlp<4, 1, 3, 2, 2>>(0, 2 + d, 3, 0, len); run<Mlp<2, 1, 1, 1>>(0, 2 + d, 3, 0, len);
#elif PART == 4
	run<Hoeffding<double, 1, 2, 700>>(0, 4 + d, 9, 0, len); run<Hoeffding<double, 2, 2, 1301>>(1, 4 + d, 9, 6, len); run<Hoeffding<float, 3, 2, 2000>>(0, 4, 9, 9, len); run<Hoeffding<int, 1, 3, 777>>(0, 3 + d, 9, 4, len); run<Hoeffding<double, 2, 2, 901>>(0, 4, 9, 12, len);
#elif PART == 5
	run<Mondrian<double, 1, 2, 1, 5, 0>>(0, 3 + d, 4, 0, len); run<Mondrian<double, 2, 2, 2, 7, 9>>(1, 3, 4 + d, 3, len); run<Mondrian<float, 3, 3, 1, 4, 0>>(0, 3, 3 + d, 4, len); run<Mondrian<int, 1, 2, 3, 10, 5>>(1, 3, 3 + d, 5, len); run<Mondrian<double, 1, 2, 1, 1, 3>>(0, 3 + d, 4, 0, len);
	run<Unbound<double, 1, 2, 1>>(0, 3 + d, 4, 0, t ? 200 : 60); run<Unbound<double, 2, 2, 2>>(1, 2 + d, 4, 2, t ? 200 : 60); run<Unbound<float, 3, 3, 2>>(0, 2, 4, 3, t ? 200 : 60);
#elif PART == 6
	for(int mode = 0; mode < 6; ++mode){ run<Coarse<double, 1, 2, 1, 5, 0>>(mode, 3, 3 + d, 3, len); for(int k = 1; k < 4; ++k) run<Coarse<double, 1, 2, 1, 5, 0>>(10 * k + mode, 3, 2 + d, 9, len); }
	run<Coarse<double, 1, 2, 1, 1, 0>>(1, 3, 3, 0, len); run<Coarse<double, 1, 2, 1, 2, 3>>(5, 3, 3, 1, len);
#else
	for(int k = 1; k < 6; ++k){ run<Coarse<double, 1, 2, 1, 7, 0>>(10 * k + 5, 3, 2 + d, k * 6, len); run<Coarse<double, 2, 2, 2, 9, 7>>(10 * k + 5, 2 + d, 3, 12, len); }
	for(int mode = 0; mode < 6; ++mode) run<Coarse<float, 3, 3, 2, 9, 0>>(mode + 10 * (mode % 3), 2, 4, 10, len);
	for(int mode = 0; mode < 6; ++mode){ run<Coarse<double, 1, 2, 2, 5, 0>>(100 + mode, 3, 2, 4, 40); run<Coarse<double, 1, 2, 2, 1, 0>>(100 + mode, 2, 2, 0, 10); }
	for(int v : {1, 2, 3, 4, 5, 22, 31, 45, 55, 101, 105}){ int const k = v < 100 ? 2 : 1; run<Deep<98, 230, 0>>(v, k, 2, 0, k); run<Deep<99, 230, 0>>(v, k, 2, 0, k); run<Deep<100, 230, 0>>(v, k, 2, 0, k); run<Deep<130, 290, 0>>(v, k, 2, 0, k); }
	for(int k = 0; k < 6; ++k) for(int mode = 0; mode < 6; ++mode) if(k < 4 || mode == 5) run<Grown<double, 2, 2, 9, 30>>(10 * k + mode, 2, 2, 4, 40);
	run<Coarse<int, 1, 2, 3, 8, 0>>(25, 2 + d, 4, 6, len); run<Coarse<int, 1, 2, 3, 3, 0>>(1, 3, 3, 0, len);
#endif
}
MC_MAIN(define)
