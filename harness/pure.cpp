// C51: two objects do the same things, and one of them is queried all the time: the queries change nothing and repeat themselves.
#include "../mc/mc.hpp"
#include "comps.hpp"
#include "mondrian_ref.hpp"
using namespace mc;
template<class C> struct Pure {
	typedef comps::Timed<C> Time; typedef typename C::S S;
	struct World { alignas(16) char sut[2][(sizeof(S) + 15) / 16 * 16]; alignas(16) typename Time::Clock clock[2]; };
	C c; int often; size_t room = 64 << 20; char* keep = (char*)malloc(64 << 20);
	World& w(){ return *world<World>(); }
	S& f(int k){ return *reinterpret_cast<S*>(w().sut[k]); }
	size_t size(){ return sizeof(World); }
	void use(int k){ Time::set(c, &w().clock[k]); if(k) ref::again(); else ref::record(); }
	void init(){ for(int k = 0; k < 2; ++k){ use(k); memset(w().sut[k], 0x5A, sizeof w().sut[k]); w().clock[k] = 0; use(k); c.make(w().sut[k]); } query(); }
	int ops(){ return c.ops(); }
	std::string describe(int op){ return fmt("operation %d of %s", op, c.name().c_str()); }
	void query(){
		static thread_local comps::Obs a, b; a.clear(); ref::record(); Time::set(c, &w().clock[1]); c.look(f(1), a);
		for(int i = 1; i < often; ++i){ b.clear(); c.look(f(1), b); CK("C51", b.same(a), "repeat", "%s: asked again, it answers %s instead of %s", c.name().c_str(), b.text().c_str(), a.text().c_str()); }
		CK("C51", ref::D->n == 0, "draws", "%s: queries take %d random numbers", c.name().c_str(), ref::D->n);
		memset(&a, 0, sizeof a); memset(&b, 0, sizeof b); ref::record();
	}
	void apply(int op){
		static thread_local comps::Obs o[2];
		for(int k = 0; k < 2; ++k){
			use(k); o[k].clear(); c.apply(f(k), op, o[k]);
			CK("C51", k == 0 || ref::D->at == ref::D->n, "draws", "%s: the operation draws %d numbers and %d if the object was queried", c.name().c_str(), ref::D->n, ref::D->at);
		}
		CK("C51", o[1].same(o[0]), "answer", "%s: an operation answers %s and %s if the object was queried", c.name().c_str(), o[0].text().c_str(), o[1].text().c_str());
		memset(o, 0, sizeof o); query();
	}
	void check(){ // the other object is queried too, and put back as it was
		static thread_local comps::Obs o[2]; size_t const n = G->used; if(n > room) abort();
		memcpy(keep, G->arena, n); ref::record();
		for(int k = 0; k < 2; ++k){ Time::set(c, &w().clock[k]); o[k].clear(); c.look(f(k), o[k]); }
		CK("C51", o[1].same(o[0]), "look", "%s: it shows %s and %s if it was queried before", c.name().c_str(), o[0].text().c_str(), o[1].text().c_str());
		memset(o, 0, sizeof o); G->used = n; memcpy(G->arena, keep, n);
	}
};
template<class C> void run(int variant, int depth, std::vector<double> menu, int free_answers, int len, int mv){
	C c; c.variant = variant;
	job(fmt("queries %s variant %d depth=%d draws=%d free=%d", c.name().c_str(), variant, depth, (int)menu.size(), free_answers), [=]{ G->menu = menu; G->max_branch = free_answers; G->fallback = [](int n){ return 1 % n; }; Pure<C> h; h.c.variant = variant; h.often = 3; bfs(h, depth, 2000000); });
	job(fmt("queries lasso %s variant %d length=%d words=%d", c.name().c_str(), variant, len, mv), [=]{ G->menu = menu; Pure<C> h; h.c.variant = variant; h.often = 2; lasso(h, 0, mv, len, 2, [](int p, uint64_t k, int n){ return p ? (k * 7 + k / 5) % n : k % n; }, 10); });
}
using comps::Metric; using namespace comps;
void define(){
	bool const t = thorough(); int const d = t ? 2 : 0, len = t ? 400 : 120;
	comps::draw = ref::draw; comps::allocate = arena_alloc;
	std::vector<double> m = {0, 0.4, 0.9}, two = {0.2, 0.7};
#if PART == 0
	run<Bloom<13, 3>>(0, 4 + d, m, 9, len, 2); run<Bloom<64, 2>>(1, 4 + d, m, 9, len, 2); run<Bloom<9, 1>>(2, 4 + d, m, 9, len, 2);
	run<Cuckoo<4, 2, 3, 0>>(0, 4 + d, m, 6, len, 2); run<Cuckoo<2, 3, 5, 0>>(1, 4 + d, m, 6, len, 2); run<Cuckoo<8, 1, 8, 0>>(0, 4 + d, m, 6, len, 2); run<Cuckoo<2, 2, 4, 15>>(0, 4 + d, m, 6, len, 2);
	run<Sample<ReservoirSampling, 3, 0>>(0, 6 + d, m, 9, len, 3); run<Sample<ReservoirSampling, 1, 0>>(0, 6 + d, m, 9, len, 3); run<Sample<ExponentialReservoirSampling, 3, 1>>(0, 6 + d, m, 9, len, 3); run<Sample<ExponentialReservoirSampling, 1, 1>>(0, 6 + d, m, 9, len, 3);
	run<Chained<3>>(0, 5 + d / 2, two, 8, len, 3); run<Chained<1>>(0, 6 + d, two, 8, len, 3); run<Chained<5>>(0, 5 + d / 2, two, 8, len, 3);
#elif PART == 1
	for(int v = 0; v < 4; ++v){ run<Mcnn<double, 2, 3>>(v, 5 + d, m, 9, len, 2); run<Mcnn<int, 1, 2>>(v, 5 + d, m, 9, len, 2); run<Mcnn<float, 3, 5>>(v, 5 + d, m, 9, len, 2); }
	run<Metric<::ErrorMetrics<true>, 2>>(0, 5 + d, m, 9, len, 2); run<Metric<::ErrorMetrics<false>, 2>>(0, 5 + d, m, 9, len, 2); run<Metric<::NoMetrics, 2>>(0, 4, m, 9, len, 2); run<Metric<::KappaMetrics<2>, 2>>(0, 5 + d, m, 9, len, 2); run<Metric<::KappaMetrics<3>, 3>>(0, 4 + d, m, 9, len, 2);
	run<Bayes<double, 2, 2>>(0, 5 + d, m, 9, len, 2); run<Bayes<float, 3, 1>>(1, 4, m, 9, len, 2); run<Bayes<int, 2, 3>>(2, 4 + d, m, 9, len, 2);
	run<Mlp<3, 2, 2, 1>>(0, 3 + d, {0.3, 0.8}, 4, len, 2); run<Mlp<2, 3, 2, 1>>(1, 3 + d, {0.3, 0.8}, 4, len, 2); run<Mlp<4, 1, 3, 2, 2>>(0, 3 + d, {0.3, 0.8}, 4, len, 2);
#elif PART == 2
	run<Hoeffding<double, 1, 2, 900>>(0, 4 + d, m, 9, len, 2); run<Hoeffding<double, 2, 2, 1301>>(1, 4 + d, m, 9, len, 2); run<Hoeffding<float, 3, 2, 2000>>(0, 4, m, 9, len, 2); run<Hoeffding<int, 1, 3, 777>>(0, 4, m, 9, len, 2);
	run<Mondrian<double, 1, 2, 1, 5, 0>>(0, 4 + d, two, 6, len, 2); run<Mondrian<double, 2, 2, 2, 7, 9>>(1, 3 + d, two, 3 + d, len, 2); run<Mondrian<float, 3, 3, 1, 4, 0>>(0, 3 + d, two, 4, len, 2); run<Mondrian<int, 1, 2, 3, 10, 5>>(1, 3 + d, two, 6, len, 2);
	run<Unbound<double, 1, 2, 1>>(0, 4 + d, two, 6, len, 2); run<Unbound<double, 2, 2, 2>>(1, 3, two, 3 + d, len, 2); run<Unbound<float, 3, 3, 2>>(0, 2 + d, two, 4, len, 2);
#else
	for(int k = 0; k < 6; ++k) for(int mode = 0; mode < 6; ++mode) if(k < 4 || mode == 5){ run<Coarse<double, 1, 2, 1, 5, 0>>(10 * k + mode, 3 + d, two, 5, len, 2); run<Coarse<double, 2, 2, 2, 9, 7>>(10 * k + mode, 2 + d, two, 6, len, 1 + t); }
	for(int k = 0; k < 6; ++k) for(int mode = 0; mode < 6; ++mode) if(k < 4 || mode == 5){ run<Grown<double, 1, 1, 9, 40>>(10 * k + mode, 3, two, 2 + d, len, 1); run<Grown<double, 2, 2, 12, 60>>(10 * k + mode, 2, two, 3 + d, len, 1); }
	run<Coarse<float, 3, 3, 1, 7, 0>>(1, 3, two, 5, len, 1 + t); run<Coarse<int, 1, 2, 3, 8, 0>>(5, 3, two, 5, len, 1 + t);
#endif
}
MC_MAIN(define)
