// C14..C16: chained reservoir sampling.
// What waits behind each slot is observed by discarding, on a copy of the state, one timestamp after the other.
#include "../mc/mc.hpp"
#include "chained_reservoir.hpp"
using namespace mc;
struct Func { static double random(){ return rnd(); } static void* malloc(size_t n){ return arena_alloc(n); } };
static double const TOP = 1 - 1.0 / (1ull << 53);
struct Big { double a; int id; char tail; };
inline void make(int& e, int i){ e = 10 * i + 3; }
inline int id(int const& e){ return (e - 3) % 10 || e < 3 ? -1000 : (e - 3) / 10; }
inline void make(Big& e, int i){ memset(&e, 0, sizeof e); e.a = -i; e.id = i; e.tail = (char)i; }
inline int id(Big const& e){ return e.a == -e.id && e.tail == (char)e.id ? e.id : -1000; }
inline void make(short& e, int i){ e = i % 30000; }
inline int id(short const& e){ return e; }
typedef std::vector<int> Chain;

template<class E, int n> struct Cha {
	typedef ChainedReservoirSampling<E, n, Func> S;
	struct World { alignas(16) char sut[sizeof(S)]; unsigned now; int seen; bool discarded; };
	std::vector<double> menu, grid; unsigned first; bool probing = true, exact = false; int pre = 0; 
	Cha(std::vector<double> menu, unsigned first = 1) : menu(menu), first(first) {}
	World& w(){ return *world<World>(); }
	S& f(){ return *reinterpret_cast<S*>(w().sut); }
	// the timestamps are kept behind the system under test, in the arena
	size_t size(){ return ((sizeof(World) + 15) & ~15) + 16 + cap * sizeof(unsigned); }
	unsigned* st(){ return reinterpret_cast<unsigned*>(G->arena + ((sizeof(World) + 15) & ~15) + 16); }
	int cap = 32;
	void init(){
		{ Sut s; new (w().sut) S(); }
		w().now = first; w().seen = 0; w().discarded = false;
		for(int i = 0; i < cap; ++i) st()[i] = 0;
		if(exact) for(int i = 0; i < n; ++i) make(f()[i], 0);
		bool const e = exact, p = probing; auto keep = G->policy; uint64_t c = 0; auto m = menu;
		if(pre){ exact = probing = false; menu = {0.05, 0.35, 0.55, 0.95}; G->policy = [&c](int k){ return (int)((c++ * 2654435761u) >> 11) % k; };
			for(int i = 0; i < pre; ++i) apply(i % 9 == 8 && !e ? 4 : 0);
			exact = e; probing = p; G->policy = keep; menu = m; }
		grid.clear();
	}
	int ops(){ return exact ? 1 : w().seen == 0 ? 4 : 8; }
	unsigned stale(int op){ // the timestamp declared obsolete by operation `op`
		int const k = w().seen;
		if(op == 2) return w().now; // everything so far
		if(op == 3) return 0;
		if(op == 4) return k > n ? st()[k - 1 - n] : w().now - 1; // all but the n most recent
		if(op == 5) return k > 1 ? st()[k - 2] : 0; // all but the most recent
		if(op == 6) return st()[0];
		if(op == 8) return k > n + 25 ? st()[k - 26 - n] : 0;
		return k > n / 2 + 1 ? st()[k - 2 - n / 2] : first; // all but a few
	}
	std::string describe(int op){ return op < 2 ? fmt("add(gap %d)", op ? 7 : 1) : op == 2 ? "discard all" : op == 3 ? "discard(0)" : op == 4 ? "discard all but the most recent, as many as slots" : op == 5 ? "discard all but the last" : op == 6 ? "discard the first" : "discard all but half the slots"; }
	int filled(){ return std::min(n, w().seen); }
	std::vector<int> shown(){ std::vector<int> r; S const& c = f(); for(int i = 0; i < filled(); ++i){ int a, b; { Sut s; a = id(c[i]); b = id(f()[i]); } r.push_back(a == b ? a : -1000); } return r; }
	int real(int id){ // element number of an id (short ids wrap)
		if(id < 0) return id;
		if(sizeof(E) == 2) while(id + 30000 < w().seen) id += 30000;
		return id;
	}
	Snap keepsake;
	std::vector<Chain> chains(){ // shown elements of each slot as ever later timestamps are discarded
		auto policy = G->policy; G->policy = [](int){ return 0; };
		save(keepsake);
		std::vector<Chain> r(filled());
		auto s0 = shown();
		for(size_t i = 0; i < r.size(); ++i) r[i].push_back(real(s0[i]));
		unsigned T = 0;
		for(;;){
			bool any = false; unsigned t = 0xFFFFFFFFu; // next timestamp shown, above T
			for(auto& c : r) if(c.back() >= 0 && c.back() < w().seen && st()[c.back()] > T && st()[c.back()] <= t){ t = st()[c.back()]; any = true; }
			if(!any) break;
			T = t;
			{ Sut s; f().obsolete(T); }
			auto s1 = shown();
			for(size_t i = 0; i < r.size(); ++i) if(real(s1[i]) != r[i].back()) r[i].push_back(real(s1[i]));
		}
		restore(keepsake);
		G->policy = policy;
		return r;
	}
	static std::string show(Chain const& c){ std::string s = "["; for(int x : c) s += fmt(" %d", x); return s + " ]"; }
	void apply(int op){
		std::vector<Chain> before; if(probing) before = chains();
		std::vector<int> s0 = shown();
		if(!exact) G->menu = menu;
		else {
			int const a = w().seen < n ? n : w().seen + 1; int x = a, y = n; while(y){ int t = x % y; x = y; y = t; }
			int const m = a / x * n;
			if((int)grid.size() != m){ grid.clear(); for(int i = 0; i < m; ++i) grid.push_back((i + 0.5) / m); G->menu = grid; }
		}
		int const k = w().seen;
		if(op < 2){
			if(k >= cap){ fprintf(stderr, "too many elements\n"); abort(); }
			if(k) w().now += op ? 7 : 1;
			st()[k] = w().now;
			E e; make(e, k);
			{ Sut s; f().add(e, w().now); }
			w().seen++;
			std::vector<int> s1 = shown(); int heads = 0;
			for(int i = 0; i < filled(); ++i){
				if(i < (int)s0.size()) CK("C14", s1[i] == s0[i] || real(s1[i]) == k, "changed", "size %d: the addition of element %d changes slot %d from element %d to %d", n, k, i, real(s0[i]), real(s1[i]));
				if(k < n) CK("C14", real(s1[i]) == (i == k ? k : real(s0[i])), "filling", "size %d: after element %d, slot %d shows element %d", n, k, i, real(s1[i]));
				heads += real(s1[i]) == k;
			}
			CK("C14", heads <= 1, "twice", "size %d: element %d is shown by %d slots", n, k, heads);
			if(probing){
				auto after = chains();
				for(int i = 0; i < (int)before.size(); ++i){
					Chain more = before[i]; more.push_back(k);
					CK("C14", after[i] == before[i] || after[i] == more || after[i] == Chain{k}, "chain", "size %d: the addition of element %d turns the elements of slot %d from %s into %s", n, k, i, show(before[i]).c_str(), show(after[i]).c_str());
				}
				if(k < n) CK("C14", after[k] == Chain{k}, "chain", "size %d: the new slot %d has the elements %s", n, k, show(after[k]).c_str());
			}
		}
		else {
			unsigned const T = stale(op);
			{ Sut s; f().obsolete(T); }
			w().discarded = true;
			std::vector<int> s1 = shown();
			bool recent = true; // the most recent elements, as many as there are slots, are all newer
			for(int j = 0; j < n; ++j) if(k - 1 - j >= 0 && st()[k - 1 - j] <= T) recent = false;
			for(int i = 0; i < filled(); ++i){
				int const a = real(s0[i]), b = real(s1[i]);
				CK("C14", b >= 0 && b < k, "foreign", "size %d: after discarding up to %u slot %d shows something that was never received", n, T, i);
				if(a >= 0 && st()[a] > T) CK("C16", a == b, "touched", "size %d: discarding up to %u changes slot %d from element %d (timestamp %u) to %d", n, T, i, a, st()[a], b);
				CK("C14", b >= a, "backwards", "size %d: discarding up to %u changes slot %d from element %d to the older %d", n, T, i, a, b);
				if(recent && b >= 0) CK("C16", st()[b] > T, "stale", "size %d: after discarding up to %u slot %d shows element %d of timestamp %u", n, T, i, b, st()[b]);
				if(a != b && b >= 0) CK("C16", st()[b] > T, "stale", "size %d: after discarding up to %u slot %d is changed to element %d of timestamp %u", n, T, i, b, st()[b]);
			}
			if(probing){
				auto after = chains();
				for(int i = 0; i < (int)before.size(); ++i){
					Chain want; bool stuck = true;
					for(int x : before[i]) if(x >= 0 && st()[x] > T){ want.push_back(x); stuck = false; }
					if(!stuck) CK("C16", after[i] == want, "lost", "size %d: discarding up to %u turns the elements of slot %d from %s into %s", n, T, i, show(before[i]).c_str(), show(after[i]).c_str());
					else CK("C16", after[i].size() <= before[i].size() && std::equal(after[i].rbegin(), after[i].rend(), before[i].rbegin()), "lost", "size %d: discarding up to %u turns the elements of slot %d from %s into %s", n, T, i, show(before[i]).c_str(), show(after[i]).c_str());
				}
			}
		}
	}
	void check(){
		if(sel("C15")) return;
		auto c = chains();
		for(int i = 0; i < (int)c.size(); ++i){
			for(size_t j = 0; j < c[i].size(); ++j){
				CK("C14", c[i][j] >= 0 && c[i][j] < w().seen, "foreign", "size %d: slot %d comes to show something that was never received", n, i);
				if(j) CK("C14", c[i][j] > c[i][j - 1], "order", "size %d: the elements of slot %d are %s", n, i, show(c[i]).c_str());
			}
			CK("C16", c[i].back() >= w().seen - n, "no successor", "size %d: after %d elements the newest of slot %d is element %d", n, w().seen, i, c[i].back());
		}
	}
	// ---- exact laws
	std::map<std::vector<int>, double> law;
	static double binomial(int a, int b){ double r = 1; for(int i = 0; i < b; ++i) r = r * (a - i) / (i + 1); return r; }
	void at(int t, double weight){
		auto s = shown(); for(int& x : s) x = real(x);
		if(!pre){ std::sort(s.begin(), s.end()); law[s] += weight; return; }
		// where the new element went, shown or waiting, and after how many more elements its successor arrives
		int const k = w().seen - 1; std::vector<int> slots, gap(n, 0), kind(n, 0);
		bool const p = probing; probing = false; auto c = chains();
		for(int i = 0; i < n && i < filled(); ++i) if(!c[i].empty() && c[i].back() == k){ slots.push_back(i); kind[i] = s[i] == k ? 0 : -1; }
		if(!slots.empty()){
			bool const e = exact; exact = false; menu = {0.9999}; // nothing else happens
			auto keep = G->policy; G->policy = [](int){ return 0; };
			std::vector<size_t> length; for(auto& x : c) length.push_back(x.size());
			size_t found = 0;
			for(int j = 1; j <= n && found < slots.size(); ++j){ apply(0); auto after = chains(); for(int i : slots) if(!gap[i] && after[i].size() > length[i]){ gap[i] = j; found++; } }
			exact = e; G->policy = keep; grid.clear();
		}
		probing = p;
		for(int i : slots) if(kind[i]) law[{-1, i, gap[i]}] += weight; else law[{i, gap[i]}] += weight;
	}
	void end(int t){
		if(!pre){
			int const k = t + 1; double const want = 1 / binomial(k, std::min(n, k));
			std::vector<double> inc(k, 0.0);
			for(auto& p : law) for(int x : p.first) if(x >= 0 && x < k) inc[x] += p.second;
			for(int i = 0; i < k; ++i) CK("C15", near(inc[i], std::min(n, k) / (double)k, 1e-9), "inclusion", "size %d: after %d elements, element %d is expected in %.9f slots, not %.9f", n, k, i, inc[i], std::min(n, k) / (double)k);
			for(auto& p : law) CK("C15", near(p.second, want, 1e-9), "not uniform", "size %d: after %d elements a content has probability %.12f, expected %.12f", n, k, p.second, want);
		}
		else for(int i = 0; i < n; ++i){
			double waits = 0; for(auto& p : law) if(p.first[0] == -1 && p.first[1] == i) waits += p.second;
			for(int g = 1; g <= n; ++g){
				double const want = pre < n ? (i == pre ? 1.0 / n : 0) : 1 / (pre + 1.0) / n, got = law.count({i, g}) ? law[{i, g}] : 0, later = law.count({-1, i, g}) ? law[{-1, i, g}] : 0;
				CK("C15", near(got, want, 1e-9), "step law", "size %d: element number %d takes slot %d, with a successor %d elements later, with probability %.12f, expected %.12f", n, pre + 1, i, g, got, want);
				CK("C15", near(later, waits / n, 1e-9) && (waits == 0 || pre < n || near(waits, 1 - 1 / (pre + 1.0), 1e-9)), "successor law", "size %d: element number %d waits behind slot %d with probability %.12f, and its successor comes %d elements later with probability %.12f", n, pre + 1, i, waits, g, later);
			}
		}
		law.clear();
	}
};
template<class E, int n> void explore(int depth, std::vector<double> menu, unsigned first = 1){
	job(fmt("chained size=%d element=%d depth=%d menu=%d first=%u", n, (int)sizeof(E), depth, (int)menu.size(), first), [=]{ G->prefill = 0xA5; Cha<E, n> h(menu, first); bfs(h, depth); });
}
template<class E, int n> void later(int pre, int depth, std::vector<double> menu){
	job(fmt("chained size=%d element=%d after=%d depth=%d menu=%d", n, (int)sizeof(E), pre, depth, (int)menu.size()), [=]{ Cha<E, n> h(menu); h.pre = pre; h.cap = pre + 16; bfs(h, depth); });
}
template<class E, int n> void longrun(int len, int mu, int mv, int every){
	job(fmt("chained lasso size=%d element=%d length=%d", n, (int)sizeof(E), len), [=]{
		Cha<E, n> h({0, 1e-6, 0.001, 0.1, 0.3, 0.5, 0.7, 0.9, TOP, 1}); h.cap = len + 16; h.probing = false;
		lasso(h, mu, mv, len, 6, [](int p, uint64_t c, int m){ return p == 0 ? 0 : p == 1 ? m - 1 : p == 2 ? (int)(c % 2) * (m - 1) : p == 3 ? (int)((c + 1) % 2) * (m - 1) : p == 4 ? (int)(c % m) : (int)((c * 2654435761u) >> 11); }, every);
	});
}
template<class E, int n> void stream(int len){ // a long stream with regular discards
	job(fmt("chained stream size=%d length=%d", n, len), [=]{
		Cha<E, n> h({0, 1e-6, 0.001, 0.1, 0.3, 0.5, 0.7, 0.9, TOP, 1}); h.cap = len + 16; h.probing = false;
		G->where = "stream"; attach(h);
		for(int p = 0; p < 6; ++p) for(int op : {4, 8}){
			uint64_t c = 0;
			G->policy = [&](int m){ uint64_t x = c++; return p == 0 ? 0 : p == 1 ? m - 1 : p == 2 ? (int)(x % 2) * (m - 1) : p == 3 ? (int)((x + 1) % 2) * (m - 1) : p == 4 ? (int)(x % m) : (int)(((x * 2654435761u) >> 11) % m); };
			fresh(h.size()); h.init();
			for(int i = 0; i < len; ++i){ h.apply(0); G->progress++; G->st.transitions++; if(i % 50 == 49) h.apply(op); if(i % 997 == 0) h.check(); }
			h.check(); G->policy = nullptr; G->st.executions++; G->st.traces++; G->st.states++;
		}
	});
}
template<class E, int n> void hoard(int len){ // no discard at all: everything waits
	job(fmt("chained without discard size=%d length=%d", n, len), [=]{
		Cha<E, n> h({0, 0.3, 0.6, 1}); h.cap = len + 16; h.probing = false;
		G->where = "hoard"; attach(h);
		for(int p = 0; p < 3; ++p){
			uint64_t c = 0;
			G->policy = [&](int m){ return p == 0 ? m - 1 : p == 1 ? (int)(c++ % (m - 1)) + 1 : (int)(((c++ * 2654435761u) >> 11) % m); };
			fresh(h.size()); h.init();
			for(int i = 0; i < len; ++i){ h.apply(0); G->progress++; G->st.transitions++; if(i % 1000 == 0) h.check(); }
			h.check(); G->policy = nullptr; G->st.executions++; G->st.traces++; G->st.states++;
		}
	});
}
template<int n> void law(int steps){
	job(fmt("chained law size=%d steps=%d", n, steps), [=]{
		Cha<int, n> h({}); h.exact = true; h.probing = false;
		dist(h, steps, [&](int t, double w){ h.at(t, w); }, [&](int t){ h.end(t); });
	});
}
template<int n> void step_law(int pre){
	job(fmt("chained step law size=%d after=%d", n, pre), [=]{
		Cha<int, n> h({}); h.exact = true; h.probing = false; h.pre = pre; h.cap = pre + 2 * n + 8;
		dist(h, 1, [&](int t, double w){ h.at(t, w); }, [&](int t){ h.end(t); });
	});
}
void define(){
	bool const t = thorough();
	std::vector<double> edge = {0, TOP, 1}, grid = {0, 0.3, 0.7, 1}, fine = {0, 0.2, 0.4, 0.6, 0.8, TOP, 1}, half = {0.25, 0.75};
	if(sel("C15")){
		law<1>(t ? 14 : 9); law<2>(t ? 6 : 5); law<3>(t ? 5 : 4);
		for(int pre : {1, 2, 5, 8, 15, 63, 255}) step_law<1>(pre);
		for(int pre : {1, 2, 3, 4, 5, 6, 7, 8, 9, 15, 31, 63}) step_law<2>(pre);
		for(int pre : {1, 2, 3, 4, 5, 6, 7, 8, 11}) step_law<3>(pre);
		for(int pre : {1, 2, 3, 4, 5, 6, 7, 11, 15}) step_law<4>(pre);
		if(t){ step_law<2>(127); step_law<4>(31); step_law<5>(9); step_law<3>(23); }
		return;
	}
	explore<int, 1>(t ? 9 : 7, edge); explore<int, 1>(t ? 7 : 6, grid, 4294967200u);
	explore<Big, 2>(t ? 7 : 6, half); explore<int, 2>(t ? 6 : 5, grid);
	explore<int, 2>(t ? 6 : 5, edge); explore<short, 3>(6, half); explore<Big, 3>(t ? 6 : 5, edge);
	explore<int, 4>(6, {0.1, 0.9}); explore<int, 5>(6, {0, 0.99});
	later<int, 2>(9, t ? 4 : 3, fine); later<int, 3>(20, t ? 3 : 2, grid); later<Big, 8>(40, t ? 3 : 2, half); later<int, 20>(100, 2, {0.001, 0.95});
	longrun<int, 1>(t ? 1500 : 400, 1, 2, 50); longrun<Big, 3>(t ? 1500 : 400, 1, 2, 50); longrun<int, 20>(t ? 800 : 300, 1, t ? 2 : 1, 50);
	hoard<int, 1>(4800); hoard<Big, 2>(4800);
	stream<int, 1>(70000); stream<int, 3>(70000); stream<Big, 20>(70000); stream<short, 300>(t ? 70000 : 5000);
}
MC_MAIN(define)
