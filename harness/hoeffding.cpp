// C29..C32: the Hoeffding tree against a reference tree.
// Decisions within rounding error of the bound end the exploration of that path.
#include "../mc/mc.hpp"
#include "hoeffding_tree.hpp"
using namespace mc;
struct Fn { static double log(double x){ return std::log(x); } static double log2(double x){ return std::log2(x); } static bool isnan(double x){ return std::isnan(x); } };

// F features with bins b0, b1, b2; L labels; `bytes` of memory; NODES: capacity of the model
template<class T, int F, int L, int bytes, int NODES> struct Hoe {
	typedef HoeffdingTree<T, F, L, bytes, Fn> S;
	enum { B = 24 };
	struct Leaf { int feature; double value; int child[2]; int count[L]; int bin[L][B]; double limit[B], gain[B], lo[F], hi[F]; int n; };
	struct World { alignas(16) char sut[sizeof(S)]; Leaf node[NODES]; int nodes, leaves, refused, splits; bool dead; };
	std::vector<int> bins; double delta; std::vector<std::vector<double>> points, probes; std::vector<double> limits; std::vector<int> prefix; bool full = false;
	World& w(){ return *world<World>(); }
	S& f(){ return *reinterpret_cast<S*>(w().sut); }
	size_t size(){ return sizeof(World); }
	int sum(){ int s = 0; for(int b : bins) s += b; return s; }
	int cuts(){ return sum() - F; }
	int room(){ // leaves that fit in the memory
		int const counters = sizeof(int) + 2 * cuts() * sizeof(double) + sum() * sizeof(int) * L, node = sizeof(typename S::Node);
		int n = 0; while((2 * (n + 1) - 1) * node + (n + 1) * counters <= bytes) ++n; return n;
	}
	void clear(Leaf& n){ memset(&n, 0, sizeof n); n.feature = -1; }
	void init(){
		{ Sut s; new (w().sut) S(delta, bins.data()); }
		memset(w().node, 0, sizeof w().node); w().nodes = 1; w().leaves = 1; w().refused = w().splits = 0; w().dead = false;
		Leaf& r = w().node[0]; clear(r);
		for(int i = 0; i < F; ++i){ r.lo[i] = INFINITY; r.hi[i] = -INFINITY; }
		if(!limits.empty()){
			std::vector<double> l = limits; { Sut s; f().get_root()->set_limits(l.data()); }
			CK("C32", l == limits, "input", "set_limits changes its argument");
			for(int i = 0; i < cuts(); ++i) r.limit[i] = limits[i];
		}
		for(int op : prefix){ if(w().dead) break; apply(op); }
	}
	int ops(){ return w().dead ? 0 : points.size() * L; }
	std::string describe(int op){ std::string s = "train("; for(double x : points[op / L]) s += fmt("%g ", x); return s + fmt("label %d)", op % L); }
	bool below(double x, double limit, bool& unsure){
		if(std::fabs(x - limit) < 1e-9 * std::max(1.0, std::fabs(x)) && (x != limit || limit * 1024 != std::floor(limit * 1024))) unsure = true;
		return x <= limit;
	}
	int leaf(T const* x, bool& unsure){ int k = 0; while(w().node[k].feature >= 0) k = w().node[k].child[below(x[w().node[k].feature], w().node[k].value, unsure) ? 0 : 1]; return k; }
	static double entropy(int const* c, int n){ double e = 0; for(int l = 0; l < L; ++l) if(c[l] > 0) e -= (double)c[l] / n * std::log2((double)c[l] / n); return e; }
	std::vector<double> gains(Leaf const& n){
		std::vector<double> g; int at = 0;
		for(int k = 0; k < F; ++k){
			for(int c = 0; c < bins[k] - 1; ++c){
				int side[2][L] = {}, total[2] = {};
				for(int l = 0; l < L; ++l) for(int b = 0; b < bins[k]; ++b){ side[b > c][l] += n.bin[l][at + b]; total[b > c] += n.bin[l][at + b]; }
				double e = entropy(n.count, n.n);
				for(int s = 0; s < 2; ++s) if(total[s]) e -= (double)total[s] / n.n * entropy(side[s], total[s]);
				g.push_back(e);
			}
			at += bins[k];
		}
		return g;
	}
	bool learn(int k, T const* x, int label){ // true if the leaf should be split
		Leaf& n = w().node[k];
		n.n++; n.count[label]++;
		int at = 0, lim = 0;
		for(int i = 0; i < F; ++i){
			n.lo[i] = std::min<double>(n.lo[i], x[i]); n.hi[i] = std::max<double>(n.hi[i], x[i]);
			int b = 0; while(b < bins[i] - 1 && !below(x[i], n.limit[lim + b], w().dead)) b++;
			n.bin[label][at + b]++; at += bins[i]; lim += bins[i] - 1;
		}
		auto g = gains(n);
		for(size_t i = 0; i < g.size(); ++i) n.gain[i] += g[i];
		return false;
	}
	int best(Leaf& n){ // the cut to split on, or -1
		int const c = cuts(); if(c < 1) return -1;
		double top = -1, second = c > 1 ? -1 : 0; int at = -1;
		for(int i = 0; i < c; ++i){ double const g = n.gain[i] / n.n; if(g > top){ if(at >= 0) second = std::max(second, top); top = g; at = i; } else second = std::max(second, g); }
		double const bound = std::sqrt(4 * std::log(1 / delta) / (2.0 * n.n)), diff = top - second;
		if(std::fabs(diff - bound) < 1e-9) { w().dead = true; return -1; }
		if(top < 1e-9) return -1;
		return diff > bound ? at : -1;
	}
	void apply(int op){
		T x[F + 1]; for(int i = 0; i < F; ++i) x[i] = (T)points[op / L][i]; x[F] = (T)-77;
		T y[F + 1]; memcpy(y, x, sizeof x);
		int const label = op % L; bool want = true, got;
		bool unsure = false; int const k = leaf(x, unsure); if(unsure) w().dead = true;
		learn(k, x, label);
		int const cut = best(w().node[k]);
		if(cut >= 0){
			if(w().leaves >= room()){ want = false; w().refused++; }
			else if(w().nodes + 2 > NODES) { w().dead = true; full = true; }
			else {
				Leaf& n = w().node[k]; int feature = 0, c = cut; while(c >= bins[feature] - 1){ c -= bins[feature] - 1; feature++; }
				n.feature = feature; n.value = n.limit[cut]; w().leaves++; w().splits++;
				for(int side = 0; side < 2; ++side){
					int const id = w().nodes++; n.child[side] = id; Leaf& m = w().node[id]; clear(m);
					for(int i = 0; i < F; ++i){ m.lo[i] = n.lo[i]; m.hi[i] = n.hi[i]; }
					(side ? m.lo : m.hi)[feature] = n.value;
					int lim = 0; for(int i = 0; i < F; ++i) for(int b = 1; b < bins[i]; ++b) m.limit[lim++] = m.lo[i] + b * ((m.hi[i] - m.lo[i]) / bins[i]);
				}
				learn(n.child[below(x[feature], n.value, w().dead) ? 0 : 1], x, label);
			}
		}
		if(w().dead) return; // the code under test is not asked: nothing is compared from here on
		{ Sut s; got = f().train(x, label); }
		CK("C29", memcmp(x, y, sizeof x) == 0, "input", "train changes the point");
		CK("C31", got == want, "return", "train answers %d, expected %d: %d leaves, room for %d", got, want, w().leaves, room());
	}
	void check(){
		if(w().dead) return;
		bool leaf_; { Sut s; leaf_ = f().get_root()->is_leaf(); }
		CK("C30", leaf_ == (w().node[0].feature < 0), "root", "the root is %s, expected %s (%d points, delta %g)", leaf_ ? "a leaf" : "split", leaf_ ? "split" : "a leaf", w().node[0].n, delta);
		if(leaf_ && w().node[0].feature < 0 && w().node[0].n > 0 && cuts() > 0){
			double g[B + 1]; for(double& x : g) x = 4242; { Sut s; f().get_root()->compute_information_gain(g); }
			auto want = gains(w().node[0]);
			for(int i = 0; i < cuts(); ++i) CK("C32", near(g[i], want[i], 1e-9), "gain", "the gain of cut %d (at %g) is %.12f, expected %.12f, after %d points", i, w().node[0].limit[i], g[i], want[i], w().node[0].n);
			CK("C32", g[cuts()] == 4242, "overrun", "more gains than cuts");
		}
		bool const mine = sel("C29") || ((sel("C30") || sel("C32")) && w().splits) || (sel("C31") && w().leaves >= room());
		if(!mine) return;
		for(auto& q : probes){
			T x[F]; for(int i = 0; i < F; ++i) x[i] = (T)q[i];
			bool unsure = false; Leaf const& n = w().node[leaf(x, unsure)];
			if(unsure || n.n == 0) continue;
			double score[L + 1]; score[L] = 4242; int a, b; { Sut s; a = f().predict(x, score); b = f().predict(x); }
			CK("C29", score[L] == 4242, "overrun", "more scores than labels");
			int want = 0; for(int l = 1; l < L; ++l) if(n.count[l] > n.count[want]) want = l;
			CK(G->prop.c_str(), a == want && b == want, "label", "labels %d and %d predicted for (%g...), expected %d (%d leaves, room for %d, %d splits)", a, b, (double)x[0], want, w().leaves, room(), w().splits);
			for(int l = 0; l < L; ++l) CK(G->prop.c_str(), near(score[l], (double)n.count[l] / n.n, 1e-9), "score", "label %d scores %.9f for (%g...), expected %.9f (%d leaves, %d splits)", l, score[l], (double)x[0], (double)n.count[l] / n.n, w().leaves, w().splits);
		}
	}
};
typedef std::vector<std::vector<double>> Points;
static Points line(std::vector<double> v){ Points p; for(double x : v) p.push_back({x}); return p; }
static Points cross(std::vector<double> a, std::vector<double> b){ Points p; for(double x : a) for(double y : b) p.push_back({x, y}); return p; }
static std::vector<int> cycle(std::vector<int> v, int times){ std::vector<int> r; for(int i = 0; i < times; ++i) r.insert(r.end(), v.begin(), v.end()); return r; }
template<class T, int F, int L, int bytes, int NODES> void run(char const* type, int depth, std::vector<int> bins, double delta, Points points, Points probes, std::vector<double> limits = {}, std::vector<int> prefix = {}){
	std::string b; for(int x : bins) b += fmt(" %d", x);
	job(fmt("hoeffding %s bins%s labels=%d bytes=%d delta=%g points=%d limits=%d prefix=%d depth=%d", type, b.c_str(), L, bytes, delta, (int)points.size(), (int)limits.size(), (int)prefix.size(), depth), [=]{
		G->prefill = 0xA5; Hoe<T, F, L, bytes, NODES> h; h.bins = bins; h.delta = delta; h.points = points; h.probes = probes; h.limits = limits; h.prefix = prefix; bfs(h, depth);
	});
}
template<class T, int F, int L, int bytes, int NODES> void longrun(char const* type, int len, int mu, int mv, std::vector<int> bins, double delta, Points points, Points probes, std::vector<double> limits = {}){
	std::string b; for(int x : bins) b += fmt(" %d", x);
	job(fmt("hoeffding lasso %s bins%s labels=%d bytes=%d delta=%g points=%d limits=%d length=%d words=%d,%d", type, b.c_str(), L, bytes, delta, (int)points.size(), (int)limits.size(), len, mu, mv), [=]{
		G->prefill = 0xA5; Hoe<T, F, L, bytes, NODES> h; h.bins = bins; h.delta = delta; h.points = points; h.probes = probes; h.limits = limits;
		lasso(h, mu, mv, len, 1, [](int, uint64_t, int){ return 0; }, len > 50000 ? 1000 : 25);
	});
}
// each word many times: what the leaves of one split learn differs from what led to it
template<class T, int F, int L, int bytes, int NODES> void phases(char const* type, int times, int mv, std::vector<int> bins, double delta, Points points, Points probes, std::vector<double> limits = {}){
	std::string b; for(int x : bins) b += fmt(" %d", x);
	job(fmt("hoeffding phases %s bins%s labels=%d bytes=%d delta=%g points=%d limits=%d each word %d times words=2,%d", type, b.c_str(), L, bytes, delta, (int)points.size(), (int)limits.size(), times, mv), [=]{
		G->prefill = 0xA5; Hoe<T, F, L, bytes, NODES> h; h.bins = bins; h.delta = delta; h.points = points; h.probes = probes; h.limits = limits;
		lasso(h, 2, mv, (2 + mv) * times, 1, [](int, uint64_t, int){ return 0; }, 12, times);
	});
}
#include "hoeffding_jobs.hpp"
MC_MAIN(define)
