// C45: two objects of a class used in turns answer as each does when used alone.
#include "../mc/mc.hpp"
#include "comps.hpp"
using namespace mc;
static double const numbers[] = {0.1, 0.73, 0.35, 0.9, 0.02, 0.55, 0.81, 0.27, 0.64, 0.47, 0.99}; static uint64_t* position = nullptr; static int who = 0; // each object has random numbers of its own
static double draw_own(){ uint64_t const i = (*position)++; return numbers[(i * (who ? 7 : 3) + i / 3 + who) % 11]; }
template<class C> struct Indep {
	typedef comps::Timed<C> Time;
	struct World { alignas(16) char sut[2][(sizeof(typename C::S) + 15) / 16 * 16]; alignas(16) typename Time::Clock clock[2]; uint64_t at[2]; long code[2]; int len[2]; bool alive[2]; };
	C c[2]; int each, warm; bool last_level = false; std::vector<int> letters; // letters: the operations used
	std::map<long, std::vector<double>> alone[2];
	World& w(){ return *world<World>(); }
	typename C::S& f(int k){ return *reinterpret_cast<typename C::S*>(w().sut[k]); }
	size_t size(){ return sizeof(World); }
	int base(){ return letters.size() + 2; } // 1: construct or replace, then the letters
	void use(int k){ who = k; position = &w().at[k]; Time::set(c[k], &w().clock[k]); }
	void init(){ memset(&w(), 0, sizeof(World)); }
	// what object k answers to a letter
	void step(int k, int letter, comps::Obs& o){
		use(k); o.clear();
		if(letter == 1){
			if(w().alive[k]){ Sut s; typedef typename C::S S; f(k).~S(); }
			w().alive[k] = true; w().clock[k] = 0; c[k].make(w().sut[k]);
			comps::Obs ignored; for(int i = 0; i < warm; ++i){ ignored.clear(); c[k].apply(f(k), (i * 3 + i / 4) % c[k].ops(), ignored); }
		}
		else c[k].apply(f(k), letters[letter - 2], o);
		use(k); c[k].look(f(k), o);
	}
	void use_alone(int k){ // every sequence of one object
		for(int len = 1; len <= each; ++len){
			std::vector<int> s(len, 1); s[0] = 1;
			for(;;){
				fresh(size()); init(); long code = 0; comps::Obs o; std::vector<double> v;
				for(int x : s){ step(k, x, o); code = code * base() + x; G->progress++; }
				v.assign(o.v, o.v + o.n); alone[k][code] = v; G->st.transitions++;
				int i = len - 1; while(i > 0 && s[i] == base() - 1) s[i--] = 1; // the first letter constructs the object
				if(i == 0) break;
				s[i]++;
			}
		}
	}
	int ops(){ return 2 * (base() - 1); }
	std::string describe(int op){ int const k = op / (base() - 1), x = op % (base() - 1); return x ? fmt("operation %d of object %d", letters[x - 1], k) : fmt("object %d is created anew", k); }
	void apply(int op){
		int const k = op / (base() - 1), letter = op % (base() - 1) + 1;
		if(w().len[k] >= each || (!w().alive[k] && letter != 1)) return; // nothing happens: a state already seen
		static thread_local comps::Obs o; step(k, letter, o);
		w().code[k] = w().code[k] * base() + letter; w().len[k]++;
		auto it = alone[k].find(w().code[k]); if(it == alone[k].end()){ fprintf(stderr, "not explored\n"); abort(); }
		static thread_local comps::Obs want; want.n = it->second.size(); memcpy(want.v, it->second.data(), want.n * sizeof(double));
		CK("C45", o.same(want), "answer", "%s: object %d answers %s beside another one and %s alone", c[0].name().c_str(), k, o.text().c_str(), want.text().c_str());
		memset(&o, 0, sizeof o); memset(&want, 0, sizeof want); position = nullptr; who = 0;
	}
	void check(){ // looking at one object tells nothing about the other
		if(!w().alive[0] || !w().alive[1]) return;
		static thread_local comps::Obs o, want;
		for(int k : {0, 1, 0}){
			auto const& v = alone[k][w().code[k]]; want.n = v.size(); memcpy(want.v, v.data(), want.n * sizeof(double));
			o.clear(); use(k); c[k].look(f(k), o);
			int const from = want.n - o.n; if(from < 0) continue;
			bool same = true; for(int i = 0; i < o.n; ++i) same = same && (!memcmp(&o.v[i], &want.v[from + i], 8) || (std::isnan(o.v[i]) && std::isnan(want.v[from + i])));
			CK("C45", same, "look", "%s: object %d shows %s beside another one", c[0].name().c_str(), k, o.text().c_str());
		}
		memset(&o, 0, sizeof o); memset(&want, 0, sizeof want); position = nullptr; who = 0;
	}
};
template<class C> void run(int variant, int other, int each, int warm, std::vector<int> letters){
	C c; c.variant = variant;
	job(fmt("independent %s variants %d, %d each=%d warm=%d letters=%s", c.name().c_str(), variant, other, each, warm, join(letters).c_str()), [=]{
		Indep<C>* h = new Indep<C>; h->c[0].variant = variant; h->c[1].variant = other; h->each = each; h->warm = warm; h->letters = letters;
		G->prefill = 0x5A; h->use_alone(0); h->use_alone(1); bfs(*h, 2 * each, 4000000);
	});
}
using comps::Metric; using namespace comps;
void define(){
	int const d = thorough() ? 2 : 0;
	comps::draw = draw_own; comps::allocate = arena_alloc;
#if PART == 0
	for(int warm : {0, 5}){
		run<Bloom<13, 3>>(0, 1, 3 + d, warm, {0, 3, 5, 7}); run<Cuckoo<4, 2, 3, 0>>(0, 1, 3 + d, warm, {0, 1, 2, 4}); run<Cuckoo<2, 1, 8, 0>>(0, 2, 3 + d, warm, {0, 3, 6, 7}); run<Ltc<int, int, 5>>(0, 1, 4 + d, warm, {0, 1, 2}); run<Ltc<float, unsigned, 1>>(0, 3, 3 + d, warm, {0, 3, 4, 5});
		run<Sample<ReservoirSampling, 3, 0>>(0, 1, 5, warm, {0, 1}); run<Sample<ExponentialReservoirSampling, 3, 1>>(0, 1, 5, warm, {0, 1}); run<Chained<2>>(0, 1, 4, 9 + warm, {0, 1, 2}); run<Chained<3>>(0, 1, 3 + d / 2, 20 + warm, {0, 1, 2, 3});
	}
#elif PART == 1
	for(int warm : {0, 6}){
		run<Mcnn<double, 2, 3>>(0, 1, 3 + d, warm, {0, 1, 3, 6}); run<Mcnn<double, 2, 3>>(2, 3, 3 + d, warm, {0, 5, 2, 3}); run<Mcnn<int, 1, 2>>(1, 2, 3 + d, warm, {0, 1, 3, 4});
		run<Metric<::ErrorMetrics<true>, 2>>(0, 0, 3 + d, warm, {0, 1, 4, 5}); run<Metric<::KappaMetrics<2>, 2>>(0, 0, 3 + d, warm, {0, 1, 3, 5}); run<Metric<::NoMetrics, 2>>(0, 0, 3, warm, {0, 1, 5});
		run<Bayes<double, 2, 2>>(0, 1, 3 + d, warm, {0, 1, 3, 6}); run<Bayes<double, 3, 1>>(1, 1, 3 + d, warm, {0, 1, 2, 5});
		run<Mlp<3, 2, 2, 1>>(0, 1, 3 + d, warm, {0, 1, 2, 5}); run<Mlp<2, 3, 2, 1>>(1, 1, 3 + d, warm, {0, 2, 3, 6});
	}
#elif PART == 2
	for(int warm : {0, 7}){
		run<Hoeffding<double, 1, 2, 900>>(0, 1, 3 + d, warm, {0, 3, 4, 8}); run<Hoeffding<double, 2, 2, 1301>>(1, 1, 3 + d, warm, {0, 3, 5, 6});
		run<Mondrian<double, 1, 2, 1, 5, 0>>(0, 1, 3 + d, warm, {0, 3, 4, 6}); run<Mondrian<double, 2, 2, 2, 7, 9>>(1, 1, 3 + d, warm, {0, 3, 5, 6});
		run<Unbound<double, 1, 2, 1>>(0, 1, 3 + d / 2, warm, {0, 3, 4, 6}); run<Unbound<double, 2, 2, 2>>(1, 1, 3 + d / 2, warm, {0, 3, 5, 6});
	}
#else
	for(int k = 0; k < 6; ++k) for(int mode = 0; mode < 6; ++mode) if((k < 4 || mode == 5) && (thorough() || k != 2 || mode % 2)) run<Coarse<double, 1, 2, 1, 5, 0>>(10 * k + mode, 10 * ((k + 1) % 4) + mode, 3, k % 2 ? 9 : 2, k % 2 ? std::vector<int>{0, 3, 6, 7} : std::vector<int>{0, 3, 4, 8});
	for(int k = 0; k < 6; ++k) for(int mode = 0; mode < 6; ++mode) if(k < 4 || mode == 5) run<Grown<double, 1, 2, 8, 40>>(10 * k + mode, 10 * k + (mode + 1) % 6, 3, 0, {0, 7, 8, 11});
	run<Coarse<double, 2, 2, 2, 9, 7>>(1, 5, 3, 8, {0, 3, 5, 7}); run<Coarse<double, 2, 2, 2, 9, 7>>(15, 2, 3, 8, {0, 3, 5, 7});
#endif
}
MC_MAIN(define)
