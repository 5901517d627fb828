// C50: a copy of an object goes on like the object it was copied from, and copying changes nothing.
#include "../mc/mc.hpp"
#include "comps.hpp"
using namespace mc;
static double const numbers[] = {0.1, 0.73, 0.35, 0.9, 0.02, 0.55, 0.81, 0.27, 0.64, 0.47, 0.99}; static uint64_t* position = nullptr;
static double draw_own(){ uint64_t const i = (*position)++; return numbers[(i * 3 + i / 3) % 11]; }
template<class C, class = void> struct Assign { enum { can = 0 }; static void go(typename C::S&, typename C::S const&){} };
template<class C> struct Assign<C, typename std::enable_if<std::is_copy_assignable<typename C::S>::value>::type> { enum { can = 1 }; static void go(typename C::S& a, typename C::S const& b){ Sut s; a = b; } };
// a coarse forest shows its nodes: each is replaced by a copy of itself, made in memory that holds something else
template<class C, class = void> struct Nodes { enum { can = 0 }; static void go(typename C::S&, int){} };
template<class C> struct Nodes<C, decltype((void)C::node_count)> {
	enum { can = 1 };
	static void go(typename C::S& f, int assign){
		auto* n = f.get_nodes(); typedef typename std::remove_reference<decltype(*n)>::type Node; alignas(16) char to[sizeof(Node)];
		for(int i = 0; i < C::node_count; ++i){
			memset(to, assign ? 0x11 : 0xDD, sizeof to);
			{ Sut s; if(assign) *reinterpret_cast<Node*>(to) = n[i]; else new (to) Node(n[i]); }
			memcpy((void*)&n[i], to, sizeof(Node));
		}
	}
};
template<class C> struct Copy {
	typedef comps::Timed<C> Time; typedef typename C::S S;
	struct World { alignas(16) char sut[2][(sizeof(S) + 15) / 16 * 16]; alignas(16) typename Time::Clock clock[2]; uint64_t at[2]; long code; int len, copies, in; bool alive; };
	C c, o; int each, most, warm; std::vector<int> letters; // o: what another object is; letters: the operations used
	std::map<long, std::vector<double>> alone;
	World& w(){ return *world<World>(); }
	S& f(int k){ return *reinterpret_cast<S*>(w().sut[k]); }
	size_t size(){ return sizeof(World); }
	int base(){ return letters.size() + 2; } // 1: construct, then the letters
	void use(C& c, int k){ position = &w().at[k]; Time::set(c, &w().clock[k]); }
	void init(){ memset(&w(), 0, sizeof(World)); }
	void create(C& c, int k, int much){
		w().clock[k] = 0; use(c, k); c.make(w().sut[k]);
		comps::Obs ignored; for(int i = 0; i < much; ++i){ ignored.clear(); c.apply(f(k), (i * 3 + i / 4) % c.ops(), ignored); }
	}
	void step(int letter, comps::Obs& o){
		use(c, w().in); o.clear();
		if(letter == 1){ if(w().alive) scrap(w().in); w().alive = true; create(c, w().in, warm); }
		else c.apply(f(w().in), letters[letter - 2], o);
		use(c, w().in); c.look(f(w().in), o);
	}
	void scrap(int k){ { Sut s; f(k).~S(); } memset(w().sut[k], 0xDD, sizeof w().sut[k]); w().clock[k] = 0; w().at[k] = 0; }
	void use_alone(){ // every sequence without copies
		for(int len = 1; len <= each; ++len){
			std::vector<int> s(len, 1);
			for(;;){
				fresh(size()); init(); long code = 0; static thread_local comps::Obs o; std::vector<double> v;
				for(int x : s){ step(x, o); code = code * base() + x; G->progress++; }
				v.assign(o.v, o.v + o.n); alone[code] = v; G->st.transitions++;
				int i = len - 1; while(i > 0 && s[i] == base() - 1) s[i--] = 1;
				if(i == 0) break;
				s[i]++;
			}
		}
	}
	int ops(){ return base() - 1 + 6; }
	std::string describe(int op){
		int const x = op - (base() - 1);
		return x == 0 ? "the object is replaced by a copy of itself" : x == 1 ? "a copy is made, used and thrown away" : x == 2 ? "the object is assigned to another one that takes its place" : x == 3 ? "the object is assigned to itself" : x == 4 ? "each node is replaced by a copy of itself" : x == 5 ? "each node is assigned to another one that takes its place" : op ? fmt("operation %d", letters[op - 1]) : "the object is created anew";
	}
	void apply(int op){
		static thread_local comps::Obs got; int const kind = op - (base() - 1), a = w().in, b = 1 - a;
		if(!w().alive && op != 0) return; // nothing happens: a state already seen
		if(kind < 0){ if(w().len >= each) return; step(op + 1, got); w().code = w().code * base() + op + 1; w().len++; expect(got, 0); }
		else {
			if(w().copies >= most || ((kind == 2 || kind == 3) && !Assign<C>::can) || (kind >= 4 && !Nodes<C>::can)) return;
			w().copies++;
			if(kind == 0){ { Sut s; new (w().sut[b]) S(f(a)); } w().clock[b] = w().clock[a]; w().at[b] = w().at[a]; scrap(a); w().in = b; }
			else if(kind == 1){
				{ Sut s; new (w().sut[b]) S(f(a)); } w().clock[b] = w().clock[a]; w().at[b] = w().at[a] + 5; use(c, b);
				for(int i = 0; i < 2 * c.ops() + 1; ++i){ got.clear(); c.apply(f(b), i * 2 % c.ops(), got); }
				got.clear(); c.look(f(b), got); scrap(b);
			}
			else if(kind == 2){ create(o, b, warm / 2 + 2); Assign<C>::go(f(b), f(a)); w().clock[b] = w().clock[a]; w().at[b] = w().at[a]; scrap(a); w().in = b; }
			else if(kind == 3) Assign<C>::go(f(a), f(a));
			else Nodes<C>::go(f(a), kind - 4);
			use(c, w().in); got.clear(); c.look(f(w().in), got); expect(got, 1);
		}
		memset(&got, 0, sizeof got); position = nullptr; Time::set(c, nullptr); Time::set(o, nullptr);
	}
	void expect(comps::Obs const& got, int tail){ // tail: only what the object shows now
		auto const& v = alone[w().code]; int const from = tail ? (int)v.size() - got.n : 0;
		bool same = from >= 0 && (int)v.size() - from == got.n;
		for(int i = 0; same && i < got.n; ++i) same = !memcmp(&got.v[i], &v[from + i], 8) || (std::isnan(got.v[i]) && std::isnan(v[from + i]));
		static thread_local comps::Obs want; want.clear(); for(int i = std::max(0, from); i < (int)v.size(); ++i) want.add(v[i]);
		CK("C50", same, "copy", "%s: answers %s after it was copied and %s otherwise", c.name().c_str(), got.text().c_str(), want.text().c_str());
		memset(&want, 0, sizeof want);
	}
	void check(){}
};
template<class C> void run(int variant, int other, int each, int warm, std::vector<int> letters){
	C c; c.variant = variant;
	job(fmt("copies of %s variant %d over %d, each=%d warm=%d letters=%s", c.name().c_str(), variant, other, each, warm, join(letters).c_str()), [=]{
		Copy<C>* h = new Copy<C>; h->c.variant = variant; h->o.variant = other; h->each = each; h->most = thorough() ? 3 : 2; h->warm = warm; h->letters = letters;
		G->prefill = 0x5A; h->use_alone(); bfs(*h, each + h->most, 4000000);
	});
}
using comps::Metric; using namespace comps;
void define(){
	int const d = thorough() ? 2 : 1;
	comps::draw = draw_own; comps::allocate = arena_alloc;
#if PART == 0
	for(int warm : {0, 5}){
		run<Bloom<13, 3>>(0, 1, 4 + d, warm, {0, 3, 5, 7}); run<Bloom<64, 2>>(1, 0, 4, warm, {1, 2, 4, 6}); run<Cuckoo<4, 2, 3, 0>>(0, 1, 4 + d, warm, {0, 1, 2, 4}); run<Cuckoo<2, 1, 8, 0>>(0, 2, 4 + d, warm, {0, 3, 6, 7}); run<Cuckoo<8, 3, 5, 31>>(1, 0, 4, warm, {0, 1, 5, 6});
		run<Ltc<int, int, 5>>(0, 1, 5 + d, warm, {0, 1, 2}); run<Ltc<float, unsigned, 1>>(0, 3, 4 + d, warm, {0, 3, 4, 5});
		run<Sample<ReservoirSampling, 3, 0>>(0, 1, 6, warm, {0, 1}); run<Sample<ExponentialReservoirSampling, 3, 1>>(0, 1, 6, warm, {0, 1});
		run<Metric<::ErrorMetrics<true>, 2>>(0, 0, 4 + d, warm, {0, 1, 4, 5}); run<Metric<::ErrorMetrics<false>, 2>>(0, 0, 4 + d, warm, {0, 1, 4, 5}); run<Metric<::KappaMetrics<2>, 2>>(0, 0, 4 + d, warm, {0, 1, 3, 5}); run<Metric<::KappaMetrics<3>, 3>>(0, 0, 4, warm, {0, 1, 5, 10}); run<Metric<::NoMetrics, 2>>(0, 0, 4, warm, {0, 1, 5});
	}
	run<Bloom<4099, 4>>(0, 1, 3, 8, {0, 3, 7}); run<Cuckoo<64, 4, 7, 0>>(0, 1, 3, 30, {0, 1, 2, 4}); run<Sample<ReservoirSampling, 32, 0>>(0, 1, 4, 40, {0, 1}); run<Sample<ExponentialReservoirSampling, 32, 1>>(0, 1, 4, 40, {0, 1});
#elif PART == 1
	for(int warm : {0, 6}){
		run<Mcnn<double, 2, 3>>(0, 1, 4 + d, warm, {0, 1, 3, 6}); run<Mcnn<double, 2, 3>>(2, 3, 4 + d, warm, {0, 5, 2, 3}); run<Mcnn<int, 1, 2>>(1, 2, 4 + d, warm, {0, 1, 3, 4}); run<Mcnn<float, 3, 12>>(0, 3, 3 + d, 4 * warm, {0, 1, 3, 5});
		run<Bayes<double, 2, 2>>(0, 1, 4 + d, warm, {0, 1, 3, 6}); run<Bayes<double, 3, 1>>(1, 0, 4 + d, warm, {0, 1, 2, 9}); run<Bayes<float, 2, 5>>(1, 1, 3, warm, {0, 1, 3, 7});
		run<Mlp<3, 2, 2, 1>>(0, 1, 4 + d, warm, {0, 1, 2, 5}); run<Mlp<2, 3, 2, 1>>(1, 1, 4 + d, warm, {0, 2, 3, 6}); run<Mlp<2, 3, 2, 1>>(1, 1, 4 + d, warm, {1, 4, 6}); run<Mlp<4, 1, 2, 2, 1>>(1, 0, 3 + d, warm, {0, 2, 4, 6});
	}
#elif PART == 2
	for(int warm : {0, 7, 15}){
		run<Mondrian<double, 1, 2, 1, 5, 0>>(0, 1, 3 + d, warm, {0, 3, 4, 6}); run<Mondrian<double, 2, 2, 2, 7, 9>>(1, 1, 3 + d, warm, {0, 3, 5, 6}); run<Mondrian<double, 1, 3, 2, 20, 0>>(1, 0, 3 + d, warm, {0, 3, 4, 7});
	}
#else
	for(int k = 0; k < 6; ++k) for(int mode = 0; mode < 6; ++mode) if((k < 4 || mode == 5) && (thorough() || k != 2 || mode % 2)) run<Coarse<double, 1, 2, 1, 5, 0>>(10 * k + mode, 10 * ((k + 1) % 4) + mode, 3, k % 2 ? 9 : 2, k % 2 ? std::vector<int>{0, 3, 6, 7} : std::vector<int>{0, 3, 4, 8});
	for(int k = 4; k < 6; ++k) for(int mode = 1; mode < 6; ++mode) for(int warm : {6, 11}) run<Coarse<double, 1, 2, 1, 5, 0>>(10 * k + mode, 10 * k, 4, warm, {0, 4, 7});
	for(int k = 0; k < 6; ++k) for(int mode = 0; mode < 6; ++mode) if(k < 4 || mode == 5) run<Grown<double, 1, 2, 8, 40>>(10 * k + mode, 10 * k + (mode + 1) % 6, 3, 0, {0, 7, 8, 11});
	run<Coarse<double, 2, 2, 2, 9, 7>>(1, 5, 3, 8, {0, 3, 5, 7}); run<Coarse<double, 2, 2, 2, 9, 7>>(15, 2, 3, 8, {0, 3, 5, 7}); run<Coarse<double, 1, 2, 3, 20, 0>>(21, 2, 3, 14, {0, 3, 4, 7});
#endif
}
MC_MAIN(define)
