// C33..C35: the Mondrian forests (fixed memory and unbounded) against a reference forest and each other.
// Paths whose outcome hangs on rounding (ties of measure zero) end there.
#include "../mc/mc.hpp"
using std::vector; using std::cout; using std::endl;
#include "mondrian.hpp"
#include "mondrian_unbound.hpp"
#include "mondrian_ref.hpp"
using namespace mc;
typedef std::vector<std::vector<double>> Points;

// the size of a node: by how much the class grows when there is room for one more
template<class T, int TREES, int F, int L, int M = 4096> constexpr int node_bytes(){
	constexpr int step = sizeof(MondrianForest<T, ref::Fn, TREES, F, L, M + 8>) - sizeof(MondrianForest<T, ref::Fn, TREES, F, L, M>);
	if constexpr(step > 0) return step; else return node_bytes<T, TREES, F, L, M + 8>();
}
template<class T, int F, int L, int TREES, int BYTES, int CAP, bool UNBOUND> struct Forest {
	typedef MondrianForest<T, ref::Fn, TREES, F, L, BYTES> S;
	typedef MondrianForestUnbound<T, ref::Fn, F, L> U;
	struct World { alignas(16) char sut[sizeof(S)]; alignas(16) char unb[sizeof(U)]; ref::Forest<F, L, TREES, CAP> model; bool dead; int trained, failed; };
	double lifetime, base, discount; Points points, probes; std::vector<int> prefix; int room;
	World& w(){ return *world<World>(); }
	S& f(){ return *reinterpret_cast<S*>(w().sut); }
	U& u(){ return *reinterpret_cast<U*>(w().unb); }
	size_t size(){ return sizeof(World); }
	void init(){
		room = std::min<int>(BYTES / node_bytes<T, TREES, F, L>(), CAP);
		{ Sut s; new (w().sut) S(lifetime, base, discount); if(UNBOUND) new (w().unb) U(lifetime, base, discount, TREES); }
		if(!UNBOUND) memset(w().unb, 0, sizeof w().unb);
		w().model.init(); w().dead = false; w().trained = w().failed = 0;
		auto old = G->policy; G->policy = [i = 0](int n) mutable { return i++ % n; };
		for(int op : prefix) if(!w().dead) apply(op);
		G->policy = old;
	}
	int letters(){ return points.size() * L; }
	int ops(){ return w().dead ? 0 : letters() + 1; }
	std::string describe(int op){ if(op == letters()) return "predict everything"; std::string s = "train("; for(double x : points[op / L]) s += fmt("%g ", x); return s + fmt("label %d)", op % L); }
	void apply(int op){
		if(op == letters()){ for(auto& q : probes){ T x[F]; for(int i = 0; i < F; ++i) x[i] = (T)q[i]; Sut s; f().predict(x); if(UNBOUND) u().predict(x); } return; }
		T x[F], y[F]; double d[F]; for(int i = 0; i < F; ++i)d[i] = y[i] = x[i] = (T)points[op / L][i];
		int const label = op % L; bool got, want = true, other = true;
		ref::record(); { Sut s; got = f().train(x, label); }
		CK("C35", memcmp(x, y, sizeof x) == 0, "input", "train changes the point");
		if(UNBOUND){ ref::again(); { Sut s; other = u().train(x, label); } CK("C35", memcmp(x, y, sizeof x) == 0, "input", "train changes the point"); }
		int const drawn = ref::D->at;
		ref::again(); int const refused = w().model.refused;
		for(int t = 0; t < TREES; ++t) want = w().model.train(t, d, label, lifetime, room) && want;
		if(w().model.nodes + 2 > CAP && room == CAP && CAP < BYTES / node_bytes<T, TREES, F, L>()) w().dead = true; // the model is full, not the code
		if(w().model.shaky) { w().dead = true; return; }
		if(w().model.refused && UNBOUND){ w().dead = true; return; } // the memory is exhausted: nothing to compare with
		w().trained++; w().failed += !got;
		CK("C34", got == want, "return", "train answers %d, expected %d: %d nodes of %d are used", got, want, w().model.nodes, room);
		if(UNBOUND){
			CK("C33", got == other, "return", "the bounded forest answers %d and the unbounded one %d", got, other);
			CK("C33", drawn == ref::D->n, "draws", "the bounded forest drew %d numbers and the unbounded one %d", ref::D->n, drawn);
		}
		(void)refused;
	}
	void check(){
		if(w().dead) return;
		for(auto& q : probes){
			T x[F], y[F]; double d[F]; for(int i = 0; i < F; ++i) d[i] = x[i] = y[i] = (T)q[i];
			double want[L], got[L + 1], oth[L + 1]; got[L] = oth[L] = 4242; int a, a2, b = 0;
			{ Sut s; a = f().predict(x, got); a2 = f().predict(x); if(UNBOUND) b = u().predict(x, oth); }
			if(UNBOUND && sel("C33")){
				CK("C33", a == b, "label", "the bounded forest predicts %d and the unbounded one %d for (%g...) after %d points", a, b, d[0], w().trained);
				for(int l = 0; l < L; ++l) CK("C33", near(got[l], oth[l], 1e-9), "score", "label %d scores %.12f in the bounded forest and %.12f in the unbounded one for (%g...) after %d points", l, got[l], oth[l], d[0], w().trained);
			}
			if(sel("C33")) continue;
			if(sel("C34") && !w().model.refused && !w().failed) continue;
			w().model.predict(d, base, discount, want);
			if(w().model.shaky){ w().model.shaky = false; continue; }
			CK("C35", memcmp(x, y, sizeof x) == 0, "input", "predict changes the point");
			CK("C35", got[L] == 4242 && oth[L] == 4242, "overrun", "more scores than labels");
			char const* P = G->prop.c_str();
			CK(P, a == a2, "repeat", "two predictions give %d and %d", a, a2);
			double sum = 0; for(int l = 0; l < L; ++l){
				CK(P, near(got[l], want[l], 1e-8), "score", "label %d scores %.12f for (%g...), expected %.12f, after %d points, %d of %d nodes", l, got[l], d[0], want[l], w().trained, w().model.nodes, room);
				if(UNBOUND) CK(P, near(oth[l], want[l], 1e-8), "score", "label %d scores %.12f for (%g...) in the unbounded forest, expected %.12f, after %d points", l, oth[l], d[0], want[l], w().trained);
				CK(P, got[l] >= -1e-9, "negative", "label %d scores %.12f", l, got[l]); sum += got[l];
			}
			if(near(base * L, 1)) CK(P, near(sum, 1, 1e-8), "sum", "the scores sum to %.12f after %d points", sum, w().trained);
			int best = 0; for(int l = 1; l < L; ++l) if(got[l] > got[best]) best = l;
			CK(P, a == best, "label", "label %d predicted, the scores favour %d", a, best);
			if(UNBOUND){ best = 0; for(int l = 1; l < L; ++l) if(oth[l] > oth[best]) best = l; CK(P, b == best, "label", "label %d predicted, the scores favour %d", b, best); }
		}
	}
};
struct Par { double lifetime, base, discount; };
static Points line(std::vector<double> v){ Points p; for(double x : v) p.push_back({x}); return p; }
static Points cross(std::vector<double> a, std::vector<double> b){ Points p; for(double x : a) for(double y : b) p.push_back({x, y}); return p; }
template<class T, int F, int L, int TREES, int BYTES, int CAP, bool UNBOUND> Forest<T, F, L, TREES, BYTES, CAP, UNBOUND> make(Par p, Points points, Points probes, std::vector<int> prefix = {}){
	Forest<T, F, L, TREES, BYTES, CAP, UNBOUND> h; h.lifetime = p.lifetime; h.base = p.base; h.discount = p.discount; h.points = points; h.probes = probes; h.prefix = prefix; return h;
}
static std::string menu_name(std::vector<double> const& m){ std::string s; for(double x : m) s += fmt(" %g", x); return s; }
// NODES: memory in nodes, plus some bytes
#define BYTES_OF(T, F, L, TREES, NODES, MORE) (NODES) * node_bytes<T, TREES, F, L>() + (MORE)
template<class T, int F, int L, int TREES, int NODES, int MORE, bool UNBOUND = false> void run(char const* type, int depth, Par p, Points points, Points probes, std::vector<double> menu, int free_answers, std::vector<int> prefix = {}){
	job(fmt("mondrian %s features=%d labels=%d trees=%d nodes=%d+%d unbounded=%d lifetime=%g base=%g discount=%g points=%d draws=%s free=%d prefix=%d depth=%d", type, F, L, TREES, NODES, MORE, UNBOUND, p.lifetime, p.base, p.discount, (int)points.size(), menu_name(menu).c_str(), free_answers, (int)prefix.size(), depth), [=]{
		G->prefill = 0xA5; G->menu = menu; G->max_branch = free_answers; G->fallback = [](int n){ return 1 % n; };
		auto h = make<T, F, L, TREES, BYTES_OF(T, F, L, TREES, NODES, MORE), UNBOUND ? 40 : NODES + 1, UNBOUND>(p, points, probes, prefix);
		bfs(h, depth);
	});
}
template<class T, int F, int L, int TREES, int NODES, int MORE, bool UNBOUND = false, int CAP = NODES + 1> void longrun(char const* type, int len, int mu, int mv, Par p, Points points, Points probes, std::vector<double> menu, int every = 20){
	job(fmt("mondrian lasso %s features=%d labels=%d trees=%d nodes=%d+%d unbounded=%d lifetime=%g base=%g discount=%g points=%d draws=%s length=%d words=%d,%d", type, F, L, TREES, NODES, MORE, UNBOUND, p.lifetime, p.base, p.discount, (int)points.size(), menu_name(menu).c_str(), len, mu, mv), [=]{
		G->prefill = 0xA5; G->menu = menu;
		auto h = make<T, F, L, TREES, BYTES_OF(T, F, L, TREES, NODES, MORE), CAP, UNBOUND>(p, points, probes);
		lasso(h, mu, mv, len, 3, [](int p, uint64_t count, int n){ return p == 0 ? count % n : p == 1 ? (count * 7 + count / 5 + count / 11) % n : (count / 3 + count / 17 * 2) % n; }, every);
	});
}
void define(){
	bool const t = thorough(); int const d = t ? 2 : 1;
	std::vector<double> m3 = {0.25, 0.8, 0.03}, m4 = {0, 0.15, 0.5, 0.9}, m2 = {0.2, 0.7}, edge = {0, 1 - 1. / (1 << 30), 0.4}, big = {0.011, 0.23, 0.37, 0.61, 0.83, 0.97, 0.05, 0.0002};
	Points p1 = line({0, 1, 3}), q1 = line({-2, 0, 0.1, 0.5, 0.9, 1, 1.7, 2.6, 3, 4, 1000}), pn = line({-5, -1, 0, 2.5}), qn = line({-80, -5, -4.1, -2, -1, -0.2, 0, 0.6, 1.9, 2.5, 9});
	Points p2 = {{0, 0}, {1, 2}, {-2, 2}, {1, -1}}, q2 = cross({-5, -2, -0.6, 0, 0.4, 1, 3}, {-3, -1, 0, 0.7, 2, 4}), p3 = {{0, 0, 0}, {1, 4, -1}, {1, 0, 2}}, q3 = {{0, 0, 0}, {1, 4, -1}, {0.5, 1, 0}, {0.9, 0.2, 1.7}, {-1, 5, 3}, {1, 0, 2}, {0, 3, -1}, {9, 9, 9}, {0.2, 2.2, 0.1}};
	Points p7 = {{0, 0, 1, 0, 2, 0, 0}, {1, 4, -1, 0, 2, 3, 5}, {1, 0, 2, 7, 2, -4, 5}}, q7 = {{0, 0, 1, 0, 2, 0, 0}, {1, 4, -1, 0, 2, 3, 5}, {0.5, 1, 0, 2, 2, 1, 1}, {-1, 5, 3, 0, 2, 0, 6}, {1, 0, 2, 7, 2, -4, 5}, {9, 9, 9, 9, 9, 9, 9}}, p4 = {{0, 0, 0, 0}, {1, 2, -3, 4}, {1, 0, 0, 4}}, q4 = {{0, 0, 0, 0}, {1, 2, -3, 4}, {0.3, 1, -1, 2}, {1, 0, 0, 4}, {1, -1, 0, 6}, {-3, 0, 1, 4}};
	Points i1 = line({-20, 0, 7, 100}), qi = line({-300, -20, -11, -3, 0, 2, 5, 7, 20, 50, 90, 100, 3000});
	Par a = {2, 0.5, 1}, b = {0.7, 0.5, 10}, c = {10, 0.5, 0.2}, third = {2, 1. / 3, 1}, biased = {1.5, 0.3, 2.5}, none = {2, 0.5, 0};
	bool const all = sel("C33") || sel("C35"), mem = sel("C34");
#if PART == 0
	if(all){
		for(Par p : {a, b, c, biased, none}) run<double, 1, 2, 1, 40, 0, true>("double", 4 + d, p, p1, q1, m3, 6);
		run<double, 1, 2, 1, 40, 0, true>("double", 3 + d, a, p1, q1, m4, 6); run<double, 1, 2, 1, 40, 0, true>("double", 3 + d, a, pn, qn, edge, 6); run<double, 1, 3, 1, 40, 0, true>("double", 3 + d, third, pn, qn, m2, 6);
		run<double, 1, 2, 1, 40, 0, true>("double", 4 + d, a, line({0, 2}), q1, m2, 5); run<double, 1, 2, 1, 40, 0, true>("double", 2 + d, a, p1, q1, m3, 6, {0, 5, 2, 1, 4}); run<double, 1, 2, 1, 40, 0, true>("double", 2 + d, c, pn, qn, m3, 6, {0, 7, 2, 1, 4});
	}
#endif
#if PART == 1
	if(all){
		run<double, 1, 2, 2, 40, 0, true>("double", 3, a, line({0, 2}), q1, m2, 6); run<double, 2, 2, 1, 40, 0, true>("double", 3, a, p2, q2, m2, 5); run<double, 2, 2, 1, 40, 0, true>("double", 3, c, p2, q2, m3, t ? 6 : 4); run<double, 2, 2, 1, 40, 0, true>("double", 2, b, p2, q2, m4, 6, {0, 3, 4, 7});
		run<double, 3, 2, 1, 40, 0, true>("double", 3, c, p3, q3, m3, 5); run<double, 3, 3, 2, 40, 0, true>("double", 2, third, p3, q3, m3, 6); run<float, 1, 2, 1, 40, 0, true>("float", 3, a, p1, q1, m3, 6); run<float, 2, 2, 2, 40, 0, true>("float", 2, a, p2, q2, m3, 6); run<int, 1, 2, 1, 40, 0, true>("int", t ? 4 : 3, {0.2, 0.5, 1}, i1, qi, m3, 6); run<int, 2, 2, 1, 40, 0, true>("int", 3, {0.5, 0.5, 1}, p2, q2, m2, 5);
		run<double, 1, 1, 3, 40, 0, true>("double", 3, {2, 1, 1}, p1, q1, m2, 6);
	}
#endif
#if PART == 2
	if(all){
		int const len = t ? 400 : 150;
		longrun<double, 1, 2, 1, 400, 0, true, 400>("double", len, 1, 2, a, p1, q1, big); longrun<double, 1, 2, 3, 600, 0, true, 600>("double", len, 0, 2, c, pn, qn, big); longrun<double, 2, 3, 2, 600, 0, true, 600>("double", len, 0, 2, third, p2, q2, big); longrun<double, 3, 2, 2, 600, 0, true, 600>("double", len, 0, 2, c, p3, q3, big); longrun<int, 1, 2, 2, 400, 0, true, 400>("int", len, 0, t ? 3 : 2, {0.2, 0.5, 1}, i1, qi, big);
		longrun<double, 1, 2, 1, 400, 0, true, 400>("double", t ? 70000 : 3000, 0, 2, a, line({0, 1}), q1, big, 200);
		longrun<double, 7, 5, 2, 400, 0, true, 400>("double", t ? 300 : 80, 0, 1, {3, 0.2, 1}, p7, q7, big); longrun<double, 1, 2, 9, 1200, 0, true, 1200>("double", 60, 0, 1, c, p1, q1, big); run<double, 4, 4, 1, 40, 0, true>("double", 3, {2, 0.25, 1}, p4, q4, m2, t ? 6 : 4);
		longrun<double, 1, 2, 1, 400, 0, true, 400>("double", 70000, 0, 1, b, line({0, 2}), q1, m2, 1000);
	}
#endif
#if PART == 3
	if(mem || sel("C35")){
		// memory for 1.. nodes, to the byte
		run<double, 1, 2, 1, 1, 0>("double", 4 + d, a, p1, q1, m2, 5); run<double, 1, 2, 1, 2, 0>("double", 4 + d, a, p1, q1, m2, 5); run<double, 1, 2, 1, 3, -1>("double", 4 + d, a, p1, q1, m2, 5); run<double, 1, 2, 1, 3, 0>("double", 4 + d, a, p1, q1, m2, 5); run<double, 1, 2, 1, 3, 7>("double", 3 + d, b, pn, qn, m3, 6); run<double, 1, 2, 1, 4, 0>("double", 3 + d, c, p1, q1, m3, 6); run<double, 1, 2, 1, 5, 0>("double", 3 + d, c, p1, q1, m3, 6); run<double, 1, 2, 1, 5, 0>("double", 4, a, line({0, 2}), q1, m2, 5);
	}
#endif
#if PART == 2
	if(mem || sel("C35")){
		run<double, 1, 2, 2, 1, 0>("double", 4, a, p1, q1, m2, 5); run<double, 1, 2, 2, 2, 0>("double", 4, a, p1, q1, m2, 5); run<double, 1, 2, 2, 3, 9>("double", 4, a, p1, q1, m2, 5); run<double, 1, 2, 2, 4, 0>("double", 3 + d, c, p1, q1, m2, 6); run<double, 1, 3, 3, 2, 0>("double", 3 + d, third, p1, q1, m2, 6); run<double, 1, 2, 2, 5, 0>("double", 3, c, p1, q1, m2, 8); run<double, 1, 2, 3, 6, 0>("double", 3, c, line({0, 2}), q1, m2, 7);
		run<double, 2, 2, 1, 3, 0>("double", 3, c, p2, q2, m3, 6); run<double, 2, 2, 1, 4, 0>("double", 3, c, p2, q2, m2, 6); run<float, 3, 2, 1, 5, 0>("float", 3, c, p3, q3, m2, 6); run<int, 1, 2, 1, 3, 0>("int", 4, {0.2, 0.5, 1}, i1, qi, m2, 6); run<double, 1, 2, 1, 5, 0>("double", 3 + d, a, p1, q1, m3, 6, {0, 5, 2, 1, 4});
	}
#endif
#if PART == 1
	if(mem || sel("C35")){
		int const len = t ? 600 : 200;
		longrun<double, 7, 5, 3, 11, 5>("double", len, 0, 1, {3, 0.2, 1}, p7, q7, big); longrun<float, 4, 4, 12, 60, 0>("float", len / 2, 0, 1, {4, 0.25, 1}, p4, q4, big); longrun<double, 1, 2, 1, 6, 0>("double", 70000, 0, 1, b, line({0, 2}), q1, m2, 1000); longrun<float, 2, 2, 2, 9, 0>("float", 70000, 0, 1, c, p2, q2, big, 1000); longrun<double, 1, 2, 1, 6, 0>("double", len, 1, 2, a, p1, q1, big); longrun<double, 1, 2, 1, 9, 0>("double", len, 1, 2, c, pn, qn, big); longrun<double, 2, 2, 2, 13, 5>("double", len, 0, 2, c, p2, q2, big); longrun<double, 3, 3, 3, 20, 0>("double", len, 0, 2, third, p3, q3, big); longrun<int, 1, 2, 5, 4, 0>("int", len, 0, 2, {0.2, 0.5, 1}, i1, qi, big); longrun<double, 1, 2, 1, 300, 0>("double", t ? 1500 : 500, 0, 2, {50, 0.5, 1}, pn, qn, big, 100);
	}
#endif
}
MC_MAIN(define)
