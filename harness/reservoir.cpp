// C10..C13: reservoir sampling and exponential reservoir sampling.
#include "../mc/mc.hpp"
#include "reservoir_sampling.hpp"
using namespace mc;
struct Func { static double random(){ return rnd(); } static double floor(double x){ return std::floor(x); } };
static double const TOP = 1 - 1.0 / (1ull << 53);
struct Big { double a; int id; char tail; };
inline void make(int& e, int i){ e = 10 * i + 3; }
inline int id(int const& e){ return (e - 3) % 10 ? -1000 : (e - 3) / 10; }
inline void make(Big& e, int i){ memset(&e, 0, sizeof e); e.a = -i; e.id = i; e.tail = (char)i; }
inline int id(Big const& e){ return e.a == -e.id && e.tail == (char)e.id ? e.id : -1000; }
inline void make(unsigned char& e, int i){ e = i; }
inline int id(unsigned char const& e){ return e; }

// kind 0: ReservoirSampling, kind 1: ExponentialReservoirSampling. grid > 0: exact distributions.
template<template<class, unsigned int, class> class R, int kind, class E, unsigned int n> struct Res {
	typedef R<E, n, Func> S;
	struct World { alignas(16) char sut[sizeof(S)]; int slot[n]; int used; int seen; };
	std::vector<double> menu, grid; bool exact; int pre = 0; // pre: elements added before the step whose law is computed
	int used_before = 0; std::map<std::vector<int>, double> law, reference; // contents -> probability
	Res(std::vector<double> menu, bool exact = false) : menu(menu), exact(exact) {}
	World& w(){ return *world<World>(); }
	S& f(){ return *reinterpret_cast<S*>(w().sut); }
	size_t size(){ return sizeof(World); }
	void init(){
		{ Sut s; new (w().sut) S(); }
		for(int i = 0; i < (int)n; ++i) w().slot[i] = -1;
		w().used = w().seen = 0;
		if(exact) for(int i = 0; i < (int)n; ++i) make(f()[i], 0); // never read before they are filled, but part of the state
		fill();
	}
	void fill(){ // `pre` elements with fixed answers
		auto keep = G->policy; uint64_t c = 0;
		G->policy = [&c](int m){ return (int)((c++ * 2654435761u) >> 11) % m; };
		grid.clear(); bool const e = exact; exact = false; menu = {0.05, 0.55, 0.95, 0.9999};
		for(int i = 0; i < pre; ++i) apply(0);
		exact = e; G->policy = keep; used_before = w().used;
	}
	int ops(){ return exact ? 1 : 2; }
	std::string describe(int op){ return op == 0 ? "add" : "sample_index, then assign"; }
	char const* P(){ return kind == 0 ? "C10" : "C12"; }
	std::string name(){ return fmt("%s of %u", kind == 0 ? "ReservoirSampling" : "ExponentialReservoirSampling", n); }
	int modulus(int a, int b){ int x = a, y = b; while(y){ int t = x % y; x = y; y = t; } return a / x * b; }
	void apply(int op){
		if(!exact) G->menu = menu;
		else {
			int const k = kind == 0 ? w().seen + 1 : std::max(1, w().used);
			int const m = modulus(modulus(k, n), 2);
			if((int)grid.size() != m){ grid.clear(); for(int i = 0; i < m; ++i) grid.push_back((i + 0.5) / m); G->menu = grid; }
		}
		int const e = w().seen;
		E x; make(x, e);
		int idx;
		if(op == 0){ Sut s; idx = f().add(x); }
		else { { Sut s; idx = f().sample_index(); } if(idx >= 0 && idx < (int)n){ Sut s; f()[idx] = x; } }
		if(exact && (idx < -1 || idx >= (int)n)) idx = -1;
		CK(P(), idx >= -1 && idx < (int)n, "index", "%s: addition %d returns the index %d", name().c_str(), e, idx);
		if(kind == 0 && w().seen < (int)n) CK("C10", idx == w().seen, "filling", "%s: addition %d returns the index %d before the sample is full", name().c_str(), e, idx);
		if(kind == 1){
			CK("C12", idx >= 0 && idx <= w().used, "index", "%s: addition %d returns the index %d with %d slots in use", name().c_str(), e, idx, w().used);
			if(idx == w().used && w().used < (int)n) w().used++;
		}
		else if(w().used < (int)n) w().used++;
		w().seen++;
		if(idx >= 0) w().slot[idx] = e;
	}
	void check(){
		unsigned int c; { Sut s; c = f().count(); }
		CK(P(), (int)c == (kind == 0 ? w().seen : w().used), "count", "%s: count() is %u after %d additions, %d slots in use", name().c_str(), c, w().seen, w().used);
		std::set<int> seen;
		S const& cf = f();
		for(int i = 0; i < w().used; ++i){
			int got, got2; { Sut s; got = id(cf[i]); got2 = id(f()[i]); }
			int want = w().slot[i]; { E x; make(x, want); want = id(x); }
			CK(P(), got == want && got2 == want, "content", "%s: slot %d holds element %d, expected %d", name().c_str(), i, got, want);
			CK(P(), seen.insert(w().slot[i]).second, "twice", "%s: element %d is in two slots", name().c_str(), w().slot[i]);
		}
	}
	// ---- exact laws
	void at(int t, double weight){
		std::vector<int> c;
		unsigned const used = kind == 0 ? std::min<unsigned>(n, t + 1 + pre) : std::min<unsigned>(n, f().count());
		for(unsigned i = 0; i < used; ++i) c.push_back(id(f()[i]));
		if(kind == 0 && !pre) std::sort(c.begin(), c.end());
		law[c] += weight;
	}
	static double binomial(int a, int b){ double r = 1; for(int i = 0; i < b; ++i) r = r * (a - i) / (i + 1); return r; }
	static std::string show(std::vector<int> const& v){ std::string s; for(int x : v) s += fmt(" %d", x); return s; }
	void end(int t){
		if(pre){ // the law of one step: each slot in use has probability 1/(pre+1), resp. 1/n
			std::map<int, double> where; // slot of the new element -> probability
			for(auto& p : law){
				int at = -1; for(size_t i = 0; i < p.first.size(); ++i) if(p.first[i] == pre) at = i;
				where[at] += p.second;
			}
			if(kind == 0 && pre < (int)n){ law.clear(); return; }
			int const k = kind == 0 ? n : used_before;
			for(int i = 0; i < k; ++i){
				double const want = kind == 0 ? 1 / (pre + 1.0) : 1.0 / n;
				CK(kind == 0 ? "C11" : "C13", near(where[i], want, 1e-9), "step law", "%s: element number %d goes to slot %d with probability %.12f, expected %.12f", name().c_str(), pre + 1, i, where[i], want);
			}
			law.clear();
			return;
		}
		if(kind == 0){
			double const want = 1 / binomial(t + 1, std::min<int>(n, t + 1));
			for(auto& p : law) CK("C11", near(p.second, want, 1e-9), "not uniform", "%s: after %d elements the sample {%s } has probability %.12f, expected %.12f", name().c_str(), t + 1, show(p.first).c_str(), p.second, want);
			CK("C11", near((double)law.size() * want, 1, 1e-9), "support", "%s: after %d elements %d samples are possible, expected %.0f", name().c_str(), t + 1, (int)law.size(), 1 / want);
			std::vector<double> inc(t + 1, 0.0);
			for(auto& p : law) for(int x : p.first) if(x >= 0 && x <= t) inc[x] += p.second;
			for(int i = 0; i <= t; ++i) CK("C11", near(inc[i], std::min<int>(n, t + 1) / (t + 1.0), 1e-9), "inclusion", "%s: element %d of %d is in the sample with probability %f", name().c_str(), i, t + 1, inc[i]);
		}
		else {
			std::map<std::vector<int>, double> next;
			if(t == 0) next[{0}] = 1;
			else for(auto& p : reference){
				int const k = p.first.size();
				for(int i = 0; i < k; ++i){ auto c = p.first; c[i] = t; next[c] += p.second / n; }
				if(k < (int)n){ auto c = p.first; c.push_back(t); next[c] += p.second * (n - k) / n; }
			}
			reference = next;
			for(auto& p : next) CK("C13", near(law[p.first], p.second, 1e-9), "law", "%s: after %d elements the content (%s ) has probability %.12f, expected %.12f", name().c_str(), t + 1, show(p.first).c_str(), law[p.first], p.second);
			CK("C13", law.size() == next.size(), "support", "%s: after %d elements %d contents are possible, expected %d", name().c_str(), t + 1, (int)law.size(), (int)next.size());
		}
		law.clear();
	}
};
template<template<class, unsigned int, class> class R, int kind, class E, unsigned int n> void integrity(int depth, std::vector<double> menu){
	job(fmt("%s size=%u element=%d depth=%d menu=%d", kind ? "exponential" : "reservoir", n, (int)sizeof(E), depth, (int)menu.size()), [=]{ G->prefill = 0xA5; Res<R, kind, E, n> h(menu); bfs(h, depth); });
}
template<template<class, unsigned int, class> class R, int kind, class E, unsigned int n> void longrun(int len){
	job(fmt("%s lasso size=%u element=%d", kind ? "exponential" : "reservoir", n, (int)sizeof(E)), [=]{
		Res<R, kind, E, n> h({0, 1e-9, 1e-6, 0.001, 0.3, 0.5, 0.9, TOP, 1});
		// policies: constant 0, constant 1, alternations and a fixed mixing sequence
		lasso(h, 0, 2, len, 6, [](int p, uint64_t c, int m){ return p == 0 ? 0 : p == 1 ? m - 1 : p == 2 ? (int)(c % 2) * (m - 1) : p == 3 ? (int)((c + 1) % 2) * (m - 1) : p == 4 ? (int)(c % m) : (int)((c * 2654435761u) >> 11); }, 4001);
	});
}
template<template<class, unsigned int, class> class R, int kind, unsigned int n> void law(int steps){
	job(fmt("%s law size=%u steps=%d", kind ? "exponential" : "reservoir", n, steps), [=]{
		Res<R, kind, int, n> h({}, true);
		dist(h, steps, [&](int t, double w){ h.at(t, w); }, [&](int t){ h.end(t); });
	});
}
template<template<class, unsigned int, class> class R, int kind, unsigned int n> void step_law(int pre){
	job(fmt("%s step law size=%u after=%d", kind ? "exponential" : "reservoir", n, pre), [=]{
		Res<R, kind, int, n> h({}, true); h.pre = pre;
		dist(h, 1, [&](int t, double w){ h.at(t, w); }, [&](int t){ h.end(t); });
	});
}
template<template<class, unsigned int, class> class R, int kind> void all(){
	bool const t = thorough();
	std::vector<double> grid = {0, 0.25, 0.5, 0.75, TOP, 1}, fine = {0, 0.1, 0.2, 0.3, 0.4, 0.5, 0.6, 0.7, 0.8, 0.9, TOP, 1};
	if(sel_any({"C10", "C12"})){
		integrity<R, kind, int, 1>(t ? 30 : 16, grid);
		integrity<R, kind, int, 2>(t ? 14 : 11, grid);
		integrity<R, kind, Big, 3>(t ? 12 : 9, fine);
		integrity<R, kind, int, 4>(t ? 13 : 11, grid);
		integrity<R, kind, unsigned char, 5>(t ? 13 : 11, grid);
		integrity<R, kind, Big, 9>(t ? 13 : 11, {0, 0.5, 1});
		longrun<R, kind, int, 1>(70000);
		longrun<R, kind, int, 3>(70000);
		longrun<R, kind, Big, 64>(t ? 300000 : 70000);
		longrun<R, kind, int, 300>(t ? 300000 : 70000);
	}
	else {
		for(int pre : {2, 5, 15, 16, 64, 127, 128, 255, 256, 257, 1000}){ step_law<R, kind, 2>(pre); if(pre >= 15) step_law<R, kind, 16>(pre); }
		for(int pre : {32767, 65535, 65536}) step_law<R, kind, 2>(pre);
		for(int pre : {299, 599, 1199}) if(kind == 0) step_law<R, kind, 300>(pre);
		for(int pre : {4000, 70000}) if(kind == 1) step_law<R, kind, 300>(pre);
		for(int pre : {3, 7, 9, 11, 17, 23, 30, 40}) if(kind == 1) step_law<R, kind, 20>(pre);
		law<R, kind, 1>(t ? 300 : 100);
		law<R, kind, 2>(t ? (kind ? 60 : 40) : 24);
		law<R, kind, 3>(t ? (kind ? 24 : 16) : 11);
		law<R, kind, 4>(t ? (kind ? 10 : 12) : 9);
		law<R, kind, 5>(t ? (kind ? 9 : 11) : 8);
		if(kind == 0) law<R, kind, 8>(t ? 12 : 10);
		else law<R, kind, 6>(7);
	}
}
void define(){
	if(sel_any({"C10", "C11"})) all<ReservoirSampling, 0>();
	else all<ExponentialReservoirSampling, 1>();
}
MC_MAIN(define)
