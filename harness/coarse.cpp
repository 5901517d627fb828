// C36..C41, C48, C49: the Mondrian forest under memory constraints, in every mode, against a reference that reads its nodes.
// Paths whose outcome hangs on rounding (ties of measure zero) end there.
#if PART == 3
#define UNBOUND_OPTIMIZE
#endif
#include <memory>
#include "../mc/mc.hpp"
using std::vector; using std::cout; using std::endl;
#include "mondrian.hpp"
#include "mondrian_coarse.hpp"
#include "mondrian_ref.hpp"
using namespace mc;
typedef std::vector<std::vector<double>> Points;
enum { NONE, ORIGINAL, GHOST, PARTIAL, NO_UPDATE, BARYCENTER };
struct Conf {
	double lifetime, base, discount; int mode; // extension
	int management = COBBLE_MANAGEMENT, size_type = NODE_SIZE, limit = -1, trim = TRIM_NONE; double max_trim = 1;
	int fed = 0, trigger = 0; double fep = 1, fc = 1; int helper = 0; double grow = 0; // the points spread out with time
	bool exact() const { return mode != BARYCENTER || (trigger == 0 && helper == 0); } // the reference knows how the trees grow
	std::string name() const { return fmt("lifetime=%g base=%g discount=%g mode=%d management=%d/%d limit=%d trim=%d/%g splits=%d,%d,%g,%g,%d grow=%g", lifetime, base, discount, mode, management, size_type, limit, trim, max_trim, fed, trigger, fep, fc, helper, grow); }
};
// the trees of a forest, and how they grow
template<int F, int L, int TREES, int CAP> struct Model : ref::Forest<F, L, TREES, CAP> {
	typedef ref::Forest<F, L, TREES, CAP> B; using B::n; using B::root; using B::nodes; using B::shaky; using B::side; using B::leaf;
	bool used[CAP]; int size[TREES];
	int take(int parent){ for(int k = 0; k < CAP; ++k) if(!used[k]){ used[k] = true; ++nodes; memset(&n[k], 0, sizeof n[k]); n[k].dim = n[k].left = n[k].right = -1; n[k].parent = parent; return k; } abort(); }
	int levels(int k){ return n[k].dim < 0 ? 1 : 1 + std::max(levels(n[k].left), levels(n[k].right)); }
	int count(int k){ return n[k].dim < 0 ? 1 : 1 + count(n[k].left) + count(n[k].right); }
	int above(int k){ int d = 0; while(n[k].parent >= 0) { k = n[k].parent; ++d; } return d; }
	int limit(Conf const& c, int room){
		if(c.management == ROBUR_MANAGEMENT){ int const l = c.limit > 0 ? c.limit : room / TREES; return l % 2 ? l : l - 1; }
		if(c.management == COBBLE_MANAGEMENT || c.management == OPTIMISTIC_COBBLE_MANAGEMENT) return c.limit > 0 ? c.limit : room;
		return room;
	}
	bool paused(Conf const& c, int tree, int k, int room){
		if(c.management == COBBLE_MANAGEMENT || c.management == OPTIMISTIC_COBBLE_MANAGEMENT) return levels(k) + above(k) + 1 > limit(c, room);
		if(c.management == ROBUR_MANAGEMENT || c.management == PAUSING_PHOENIX_MANAGEMENT) return size[tree] >= limit(c, room);
		return false;
	}
	void measure(Conf const& c){ for(int t = 0; t < TREES; ++t) size[t] = root[t] < 0 ? 0 : c.size_type == DEPTH_SIZE ? levels(root[t]) : count(root[t]); }
	bool train(Conf const& c, int tree, double const* x, int label, int room){
		if(root[tree] < 0){
			if(nodes >= room) return false;
			root[tree] = take(-1); leaf(root[tree], x, label, c.lifetime); return true;
		}
		if(c.mode == NONE && room - nodes <= 2) return false;
		for(int k = root[tree];;){
			double out[F], sum = 0, wait = 0; double const from = n[k].parent >= 0 ? n[n[k].parent].tau : 0;
			for(int i = 0; i < F; ++i){ out[i] = std::max(0.0, n[k].lo[i] - x[i]) + std::max(0.0, x[i] - n[k].hi[i]); sum += out[i]; }
			if(sum > 0){
				double const u = ref::draw(); wait = u == 0 ? 0 : -std::log1p(-u) / sum;
				if(std::fabs(from + wait - n[k].tau) < 1e-9 && !(u == 0 && from < n[k].tau - 1e-9)) shaky = true;
			}
			bool const branch = sum > 0 && from + wait < n[k].tau;
			if(branch && room - nodes >= 2 && !paused(c, tree, k, room)){ // the point branches off above this node
				double const v = ref::draw(); int d = -1; double acc = 0;
				for(int i = 0; i < F; ++i){ acc += out[i]; if(out[i] > 0 && v * sum < acc && d < 0) d = i; if(std::fabs(v * sum - acc) < 1e-9) shaky = shaky || v * sum != acc || v * 1024 != std::floor(v * 1024); }
				if(d < 0) for(int i = 0; i < F; ++i) if(out[i] > 0) d = i;
				bool const above = x[d] > n[k].hi[d];
				double const a = above ? n[k].hi[d] : x[d], b = above ? x[d] : n[k].lo[d], split = a + ref::draw() * (b - a);
				int const p = take(n[k].parent), s = take(p);
				n[p].dim = d; n[p].split = split; n[p].tau = from + wait;
				for(int i = 0; i < F; ++i){ n[p].lo[i] = std::min(n[k].lo[i], x[i]); n[p].hi[i] = std::max(n[k].hi[i], x[i]); }
				if(n[k].parent < 0) root[tree] = p; else if(n[n[k].parent].left == k) n[n[k].parent].left = p; else n[n[k].parent].right = p;
				n[k].parent = p; n[p].left = above ? k : s; n[p].right = above ? s : k;
				leaf(s, x, label, c.lifetime);
				if(c.mode == GHOST){ for(int l = 0; l < L; ++l) n[p].count[l] = n[k].count[l]; n[p].count[label]++; }
				return true;
			}
			if(branch && c.mode == PARTIAL) return true;
			if(branch && c.mode == GHOST){ n[k].count[label]++; return true; }
			if(!branch || c.mode != NO_UPDATE) for(int i = 0; i < F; ++i){
				if(x[i] < n[k].lo[i]) n[k].lo[i] += (x[i] - n[k].lo[i]) * (c.mode == BARYCENTER ? c.fep : 1);
				if(x[i] > n[k].hi[i]) n[k].hi[i] += (x[i] - n[k].hi[i]) * (c.mode == BARYCENTER ? c.fep : 1);
			}
			if(n[k].dim < 0 || c.mode == GHOST) n[k].count[label]++;
			if(n[k].dim < 0) return true;
			k = side(x[n[k].dim], n[k].split) ? n[k].right : n[k].left;
		}
	}
};
template<class T, int F, int L, int TREES, int ROOM, int MORE, int CAP> struct Coarse {
	typedef MondrianNode<F, L> N;
	enum { BYTES = ROOM * sizeof(N) + TREES * (sizeof(typename CoarseMondrianForest<T, ref::Fn, NoMetrics, F, L, 10000>::TreeBase)) + MORE };
	typedef CoarseMondrianForest<T, ref::Fn, NoMetrics, F, L, BYTES> S;
	typedef MondrianForest<T, ref::Fn, TREES, F, L, 20000> P;
	typedef Model<F, L, TREES, CAP> M;
	struct World { alignas(16) char sut[sizeof(S)]; alignas(16) char plain[sizeof(P)]; M model; bool dead; unsigned trained; long mass[TREES][L]; bool rooted[TREES]; double lo[TREES][F], hi[TREES][F]; bool refused; };
	Conf c; Points points, probes; std::vector<int> prefix; bool beside; // beside: a plain forest learns the same points
	World& w(){ return *world<World>(); }
	S& f(){ return *reinterpret_cast<S*>(w().sut); }
	P& p(){ return *reinterpret_cast<P*>(w().plain); }
	size_t size(){ return sizeof(World); }
	void init(){
		beside = sel("C39");
		{ Sut s; new (w().sut) S(c.lifetime, c.base, c.discount, TREES, c.management, c.size_type, c.limit, 0, false, c.fed, c.trigger, 1.0, true, true, c.fep, c.fc, c.helper, c.mode, c.trim, c.max_trim); if(beside) new (w().plain) P(c.lifetime, c.base, c.discount); }
		if(!beside) memset(w().plain, 0, sizeof w().plain);
		memset(&w().model, 0, sizeof(World) - offsetof(World, model)); w().model.init();
		for(bool& u : w().model.used) u = false; for(int& s : w().model.size) s = 0;
		auto old = G->policy; G->policy = [i = 0](int n) mutable { return i++ % n; };
		for(int op : prefix) if(!w().dead) apply(op);
		G->policy = old;
	}
	int letters(){ return points.size() * L; }
	int ops(){ return w().dead ? 0 : letters() + 1 + (c.trim != TRIM_NONE); }
	std::string describe(int op){ if(op == letters()) return "predict everything"; if(op > letters()) return "trim"; std::string s = "train("; for(double x : points[op / L]) s += fmt("%g ", (T)(x * (1 + c.grow * w().trained)) + 0.0); return s + fmt("label %d)", op % L); }
	N& node(int k){ return f().get_nodes()[k]; }
	int root(int t){ return f().get_bases()[t].root; }
	// reads the trees of the forest; false if they are not trees
	std::string read(M& m){
		m.init(); for(bool& u : m.used) u = false;
		std::vector<int> seen(ROOM, -1);
		std::string bad;
		std::function<int(int, int, int)> walk = [&](int id, int parent, int parent_id) -> int {
			if(id < 0 || id >= ROOM){ bad = fmt("a node is at position %d", id); return -1; }
			if(seen[id] >= 0){ bad = fmt("node %d is reachable twice", id); return -1; }
			seen[id] = 1; N const& a = node(id);
			if(a.available()) bad = fmt("node %d is in a tree and available", id);
			if(a.parent != parent_id) bad = fmt("the parent of node %d is %d instead of %d", id, a.parent, parent_id);
			if(m.nodes >= CAP){ bad = "more nodes than the model holds"; return -1; }
			int const k = m.take(parent); auto& b = m.n[k];
			b.dim = a.is_leaf() ? -1 : a.split_dimension; b.split = a.split_value; b.tau = a.tau;
			if(b.dim >= F || b.dim < -1) { bad = fmt("node %d is split on feature %d", id, b.dim); return k; }
			for(int i = 0; i < F; ++i){ b.lo[i] = a.bound_lower[i]; b.hi[i] = a.bound_upper[i]; }
			for(int l = 0; l < L; ++l) b.count[l] = a.counters[l];
			if(parent >= 0 && b.tau < m.n[parent].tau - 1e-9) bad = fmt("node %d has time %.12f and its parent %.12f", id, b.tau, m.n[parent].tau);
			if(b.dim < 0 && !near(b.tau, c.lifetime)) bad = fmt("leaf %d has time %.12f", id, b.tau);
			if(b.dim >= 0 && bad.empty()){ int const l = walk(a.child_left, k, id); m.n[k].left = l; if(!bad.empty()) return k; int const r = walk(a.child_right, k, id); m.n[k].right = r; }
			return k;
		};
		for(int t = 0; t < TREES && bad.empty(); ++t) m.root[t] = root(t) < 0 ? -1 : walk(root(t), -1, -1);
		return bad;
	}
	// what a tree looks like, without one of its leaves if `cut` is in it
	static void print(M const& m, int k, int cut, bool ghost, std::string& s){
		auto const& a = m.n[k];
		if(a.dim >= 0 && a.left == cut) return print(m, a.right, cut, ghost, s);
		if(a.dim >= 0 && a.right == cut) return print(m, a.left, cut, ghost, s);
		s += fmt("(%d %.12g %.12g", a.dim, a.dim < 0 ? 0.0 : a.split, a.tau); for(int i = 0; i < F; ++i) s += fmt(" %.12g..%.12g", a.lo[i], a.hi[i]);
		if(a.dim < 0 || ghost) for(int l = 0; l < L; ++l) s += fmt(" %d", a.count[l]);
		if(a.dim >= 0){ print(m, a.left, cut, ghost, s); print(m, a.right, cut, ghost, s); }
		s += ")";
	}
	static std::string print(M const& m, int t, int cut, bool ghost){ std::string s; if(m.root[t] >= 0) print(m, m.root[t], cut, ghost, s); else s = "nothing"; return s; }
	struct Leaf { int k; double weight; };
	void leaves(M const& m, int k, int id, std::vector<Leaf>& out){ // id: where the node is in the forest
		auto const& a = m.n[k];
		if(a.dim >= 0){ leaves(m, a.left, node(id).child_left, out); leaves(m, a.right, node(id).child_right, out); return; }
		double s = 0; for(int l = 0; l < L; ++l) s += a.count[l];
		out.push_back({k, c.trim == TRIM_FADING ? node(id).fading_score : s});
	}
	// the leaves that may be cut; -1: the tree is left alone
	std::vector<int> candidates(M const& m, int t){
		if(c.trim == TRIM_NONE || m.root[t] < 0 || m.n[m.root[t]].dim < 0) return {-1};
		std::vector<Leaf> all; leaves(m, m.root[t], root(t), all);
		std::vector<int> r; double least = all[0].weight, sum = 0; for(auto& x : all){ least = std::min(least, x.weight); sum += x.weight; }
		if(c.trim != TRIM_RANDOM && sum > 0 && least / sum > c.max_trim) return {-1};
		for(auto& x : all) if(c.trim == TRIM_RANDOM || x.weight <= least + 1e-12) r.push_back(x.k);
		return r;
	}
	void trim(){
		std::unique_ptr<M> hb(new M), ha(new M); M &before = *hb, &after = *ha;
		if(!read(before).empty()){ w().dead = true; return; }
		std::vector<std::vector<int>> cand; for(int t = 0; t < TREES; ++t) cand.push_back(candidates(before, t));
		{ Sut s; f().tree_trim(); }
		std::string const bad = read(after);
		CK("C49", bad.empty(), "tree", "after a trim %s", bad.c_str());
		for(int t = 0; t < TREES && bad.empty(); ++t){
			std::string const got = print(after, t, -2, c.mode == GHOST); bool found = false;
			for(int k : cand[t]) found = found || print(before, t, k, c.mode == GHOST) == got;
			CK("C49", found, "trim", "tree %d was %s, %d leaves may be cut, it becomes %s", t, print(before, t, -2, c.mode == GHOST).c_str(), (int)cand[t].size(), got.c_str());
		}
		if(bad.empty()) adopt(after, true);
	}
	void adopt(M const& m, bool keep_size){ // go on from the trees of the forest
		int size[TREES]; for(int t = 0; t < TREES; ++t) size[t] = w().model.size[t];
		w().model = m; for(int t = 0; t < TREES; ++t) w().model.size[t] = size[t];
		if(!keep_size) w().model.measure(c);
		account(m);
	}
	void account(M const& m){
		for(int t = 0; t < TREES; ++t){
			w().rooted[t] = m.root[t] >= 0;
			for(int l = 0; l < L; ++l) w().mass[t][l] = mass(m, t, l);
			for(int i = 0; i < F; ++i){ w().lo[t][i] = w().rooted[t] ? m.n[m.root[t]].lo[i] : 0; w().hi[t][i] = w().rooted[t] ? m.n[m.root[t]].hi[i] : 0; }
		}
	}
	static int of(M const& m, int k){ while(m.n[k].parent >= 0) k = m.n[k].parent; return k; } // the root above a node
	static long total(M const& m, int k, int l){ return m.n[k].dim < 0 ? m.n[k].count[l] : total(m, m.n[k].left, l) + total(m, m.n[k].right, l); }
	long mass(M const& m, int t, int l){ return m.root[t] < 0 ? 0 : c.mode == GHOST ? m.n[m.root[t]].count[l] : total(m, m.root[t], l); }
	bool nested(M const& m, int k, std::string& why){
		auto const& a = m.n[k]; if(a.dim < 0) return true;
		if(a.split < a.lo[a.dim] - 1e-9 || a.split > a.hi[a.dim] + 1e-9){ why = fmt("the split %g is not in %g..%g", a.split, a.lo[a.dim], a.hi[a.dim]); return false; }
		for(int s = 0; s < 2; ++s){
			auto const& b = m.n[s ? a.right : a.left];
			for(int i = 0; i < F; ++i) if(b.lo[i] < a.lo[i] - 1e-9 || b.hi[i] > a.hi[i] + 1e-9 || b.lo[i] > b.hi[i] + 1e-9){ why = fmt("a child has %g..%g inside %g..%g", b.lo[i], b.hi[i], a.lo[i], a.hi[i]); return false; }
			if(s ? b.lo[a.dim] < a.split - 1e-9 : b.hi[a.dim] > a.split + 1e-9){ why = fmt("the %s child of the split %g has %g..%g", s ? "right" : "left", a.split, b.lo[a.dim], b.hi[a.dim]); return false; }
		}
		return nested(m, a.left, why) && nested(m, a.right, why);
	}
	int room_left(M const& m){ return ROOM - m.nodes; }
	void apply(int op){
		if(op == letters()){ for(auto& q : probes){ T x[F]; for(int i = 0; i < F; ++i) x[i] = (T)q[i]; Sut s; f().predict(x); } return; }
		if(op > letters()) return trim();
		T x[F], y[F]; double d[F]; for(int i = 0; i < F; ++i) d[i] = y[i] = x[i] = (T)(points[op / L][i] * (1 + c.grow * w().trained));
		int const label = op % L; bool got, want = true, other = true;
		M& m = w().model; int const left = room_left(m);
		bool const trims = c.trim != TRIM_NONE && left <= 1 && w().trained % 100 == 0; // the forest trims itself first
		std::map<int, std::pair<double, int>> fading; // of the leaves, by position
		if(sel("C49") && c.trim == TRIM_FADING && !trims) for(int k = 0; k < ROOM; ++k) if(!node(k).available() && node(k).is_leaf()){ int s = 0; for(int l = 0; l < L; ++l) s += node(k).counters[l]; fading[k] = {node(k).fading_score, s}; }
		ref::record(); { Sut s; got = f().train(x, label); }
		if(beside){ ref::again(); { Sut s; other = p().train(x, label); } if(c.mode == ORIGINAL) CK("C39", got == other, "return", "the coarse forest answers %d and the plain one %d", got, other); }
		w().trained++;
		CK("C38", memcmp(x, y, sizeof x) == 0, "input", "train changes the point");
		if(c.exact() && !trims){
			ref::again();
			for(int t = 0; t < TREES; ++t) want = m.train(c, t, d, label, ROOM) && want;
			m.measure(c);
			if(m.shaky){ w().dead = true; return; }
			for(char const* P : {"C37", "C40"}) CK(P, got == want, "return", "train answers %d, expected %d: %d nodes of %d are used", got, want, m.nodes, ROOM);
		}
		if(m.nodes + 2 > CAP && CAP < ROOM){ w().dead = true; return; } // the model is full, not the forest
		M& now = *new M; std::unique_ptr<M> holder(&now);
		std::string const bad = read(now);
		if(bad == "more nodes than the model holds"){ w().dead = true; return; }
		CK("C36", bad.empty(), "tree", "after %u points: %s", w().trained, bad.c_str());
		if(!bad.empty()){ w().dead = true; return; }
		if(c.exact() && !trims){
			int taken = 0; for(int k = 0; k < ROOM; ++k) taken += !node(k).available();
			CK("C40", taken == m.nodes, "used", "%d nodes are used, expected %d of %d after %u points", taken, m.nodes, ROOM, w().trained);
			for(int t = 0; t < TREES; ++t) compare(now, now.root[t], m.root[t], t);
		}
		for(int t = 0; t < TREES && !trims; ++t){
			bool const has = now.root[t] >= 0;
			for(int l = 0; l < L; ++l){
				long const more = mass(now, t, l) - w().mass[t][l], point = l == label;
				bool ok = has ? more == point : more == 0;
				if(has && w().rooted[t] && c.mode == NONE) ok = (more == point && (got || TREES > 1)) || (more == 0 && !got);
				if(has && w().rooted[t] && c.mode == PARTIAL) ok = more == point || (more == 0 && (left < 2 || c.limit > 0 || TREES > 1 || c.management));
				CK("C37", ok, "count", "tree %d counts %ld points of label %d instead of %ld after a point of label %d", t, mass(now, t, l), l, w().mass[t][l] + point, label);
			}
			if(has && w().rooted[t] && c.mode != NO_UPDATE && c.mode != GHOST && c.mode != PARTIAL && c.mode != NONE && (c.mode != BARYCENTER || c.fep == 1)) for(int i = 0; i < F; ++i)
				CK("C38", near(now.n[now.root[t]].lo[i], std::min(w().lo[t][i], d[i])) && near(now.n[now.root[t]].hi[i], std::max(w().hi[t][i], d[i])), "root", "the box of tree %d was %g..%g and is %g..%g after the point %g", t, w().lo[t][i], w().hi[t][i], now.n[now.root[t]].lo[i], now.n[now.root[t]].hi[i], d[i]);
		}
		if(sel("C49") && c.trim == TRIM_FADING && !trims && c.exact()) for(auto& old : fading) if(!node(old.first).available() && node(old.first).is_leaf()){
			int s = 0; for(int l = 0; l < L; ++l) s += node(old.first).counters[l];
			double const expect = old.second.first * 0.995 + (s - old.second.second);
			CK("C49", near(node(old.first).fading_score, expect), "fading", "the score of a leaf goes from %.12f to %.12f with %d points more", old.second.first, node(old.first).fading_score, s - old.second.second);
		}
		if(c.exact() && !trims) account(now); else adopt(now, false);
	}
	void compare(M const& a, int i, int j, int t){
		M const& b = w().model;
		for(char const* P : {"C38", "C40"}) CK(P, (i < 0) == (j < 0), "grown", "tree %d %s", t, i < 0 ? "is empty" : "is not empty");
		if(i < 0 || j < 0) return;
		auto const &p = a.n[i], &q = b.n[j];
		for(char const* P : {"C38", "C40"}) CK(P, p.dim == q.dim, "shape", "a node of tree %d has dimension %d, expected %d", t, p.dim, q.dim);
		for(int l = 0; l < L; ++l) if(p.dim < 0 || c.mode == GHOST) CK("C37", p.count[l] == q.count[l], "counter", "a %s of tree %d has %d points of label %d, expected %d", p.dim < 0 ? "leaf" : "node", t, p.count[l], l, q.count[l]);
		for(int f = 0; f < F; ++f) CK("C38", near(p.lo[f], q.lo[f]) && near(p.hi[f], q.hi[f]), "box", "a node of tree %d has %g..%g, expected %g..%g", t, p.lo[f], p.hi[f], q.lo[f], q.hi[f]);
		CK("C38", near(p.tau, q.tau), "time", "a node of tree %d has time %.12f, expected %.12f", t, p.tau, q.tau);
		if(p.dim >= 0) CK("C38", near(p.split, q.split), "split", "a node of tree %d is split at %.12f, expected %.12f", t, p.split, q.split);
		if(p.dim != q.dim || p.dim < 0) return;
		compare(a, p.left, q.left, t); compare(a, p.right, q.right, t);
	}
	void check(){
		if(w().dead) return;
		M& m = *new M; std::unique_ptr<M> holder(&m);
		std::string const bad = read(m); CK("C36", bad.empty(), "tree", "after %u points: %s", w().trained, bad.c_str());
		if(!bad.empty()) return;
		int taken = 0; for(int k = 0; k < ROOM; ++k) taken += !node(k).available();
		CK("C40", taken == m.nodes, "leak", "%d nodes are marked as used and %d are in the trees, after %u points", taken, m.nodes, w().trained);
		for(int t = 0; t < TREES; ++t) if(m.root[t] >= 0){
			int const size = c.management == ROBUR_MANAGEMENT && c.size_type == NODE_SIZE ? m.count(m.root[t]) : m.levels(m.root[t]), limit = std::max(1, m.limit(c, ROOM));
			if(c.limit > 0 && c.management <= ROBUR_MANAGEMENT) CK("C40", size <= limit, "limit", "tree %d has size %d, its limit is %d", t, size, limit);
			std::string why;
			if(c.mode != NO_UPDATE && (c.mode != BARYCENTER || c.fep == 1)) CK("C38", nested(m, m.root[t], why), "nested", "tree %d: %s", t, why.c_str());
		}
		if(sel("C37")) for(int t = 0; t < TREES; ++t){
			long points, want = 0; double small, poor = 0;
			for(auto& n : m.n) if(&n - m.n < m.nodes && n.dim < 0 && of(m, &n - m.n) == m.root[t]){ long s = 0; for(int l = 0; l < L; ++l) s += n.count[l]; want += s; poor += s < 50; }
			{ Sut s; points = f().count_data_point_tree(t); small = f().count_dead_supply_tree(t); }
			CK("C37", points == want, "total", "tree %d says it counts %ld points and its leaves count %ld", t, points, want);
			CK("C37", small == poor, "poor", "tree %d says %g of its leaves have less than 50 points and %g have", t, small, poor);
		}
		if(!sel_any({"C39", "C41", "C48"})) return;
		m.stored = c.mode == GHOST;
		for(auto& q : probes){
			T x[F]; double d[F]; for(int i = 0; i < F; ++i) d[i] = x[i] = (T)q[i];
			double want[L], got[L + 1], plain[L]; got[L] = 4242; int a, a2;
			{ Sut s; a = f().predict(x, got); a2 = f().predict(x); }
			if(beside && c.mode == ORIGINAL){
				int b; { Sut s; b = p().predict(x, plain); }
				CK("C39", a == b, "label", "the coarse forest predicts %d and the plain one %d for (%g...) after %u points", a, b, d[0], w().trained);
				for(int l = 0; l < L; ++l) CK("C39", near(got[l], plain[l], 1e-9), "score", "label %d scores %.12f in the coarse forest and %.12f in the plain one for (%g...) after %u points", l, got[l], plain[l], d[0], w().trained);
				continue;
			}
			if(sel("C39")) continue;
			char const* Q = G->prop.c_str();
			for(int trees = TREES; trees >= 1; trees -= TREES > 1 ? TREES - 1 : 1){
				m.predict(d, c.base, c.discount, want, trees);
				if(m.shaky){ m.shaky = false; continue; }
				if(trees < TREES){ Sut s; a = a2 = f().predict(x, got, trees); }
				CK(Q, got[L] == 4242, "overrun", "more scores than labels"); CK(Q, a == a2, "repeat", "two predictions give %d and %d", a, a2);
				double sum = 0; for(int l = 0; l < L; ++l){
					CK(Q, near(got[l], want[l], 1e-8), "score", "label %d scores %.12f for (%g...), expected %.12f, after %u points, with %d trees", l, got[l], d[0], want[l], w().trained, trees);
					CK(Q, got[l] >= -1e-9, "negative", "label %d scores %.12f", l, got[l]); sum += got[l];
				}
				if(near(c.base * L, 1)) CK(Q, near(sum, 1, 1e-8), "sum", "the scores sum to %.12f after %u points", sum, w().trained);
				int best = 0; for(int l = 1; l < L; ++l) if(got[l] > got[best]) best = l;
				CK(Q, a == best, "label", "label %d predicted, the scores favour %d", a, best);
			}
		}
	}
};
static Points line(std::vector<double> v){ Points p; for(double x : v) p.push_back({x}); return p; }
static Points cross(std::vector<double> a, std::vector<double> b){ Points p; for(double x : a) for(double y : b) p.push_back({x, y}); return p; }
static std::string menu_name(std::vector<double> const& m){ std::string s; for(double x : m) s += fmt(" %g", x); return s; }
template<class T, int F, int L, int TREES, int ROOM, int MORE = 0> void run(char const* type, int depth, Conf c, Points points, Points probes, std::vector<double> menu, int free_answers, std::vector<int> prefix = {}){
	job(fmt("coarse %s features=%d labels=%d trees=%d nodes=%d+%d %s points=%d draws=%s free=%d prefix=%d depth=%d", type, F, L, TREES, ROOM, MORE, c.name().c_str(), (int)points.size(), menu_name(menu).c_str(), free_answers, (int)prefix.size(), depth), [=]{
		G->prefill = 0xA5; G->menu = menu; G->max_branch = free_answers; G->fallback = [](int n){ return 1 % n; };
		Coarse<T, F, L, TREES, ROOM, MORE, (ROOM < 30 ? ROOM + 1 : 30)> h; h.c = c; h.points = points; h.probes = probes; h.prefix = prefix;
		bfs(h, depth);
	});
}
template<class T, int F, int L, int TREES, int ROOM, int MORE = 0> void longrun(char const* type, int len, int mu, int mv, Conf c, Points points, Points probes, std::vector<double> menu, int every = 20){
	job(fmt("coarse lasso %s features=%d labels=%d trees=%d nodes=%d+%d %s points=%d draws=%s length=%d words=%d,%d", type, F, L, TREES, ROOM, MORE, c.name().c_str(), (int)points.size(), menu_name(menu).c_str(), len, mu, mv), [=]{
		G->prefill = 0xA5; G->menu = menu;
		Coarse<T, F, L, TREES, ROOM, MORE, ROOM + 1> h; h.c = c; h.points = points; h.probes = probes;
		lasso(h, mu, mv, len, 3, [](int p, uint64_t count, int n){ return p == 0 ? count % n : p == 1 ? (count * 7 + count / 5 + count / 11) % n : (count / 3 + count / 17 * 2) % n; }, every);
	});
}
// random trimming: which leaf goes, over every cell of the draws
template<int TREES, int ROOM> void law(std::vector<int> prefix, Points points, double scale){
	job(fmt("coarse random trimming trees=%d nodes=%d points=%d scale=%g", TREES, ROOM, (int)prefix.size(), scale), [=]{
		G->prefill = 0xA5; for(int i = 0; i < 12; ++i) G->menu.push_back((i + 0.5) / 12);
		typedef Coarse<double, 1, 2, TREES, ROOM, 0, ROOM + 1> C; struct Law : C {
			std::map<std::string, double>* seen; std::string first; int leaves = 0;
			int ops(){ return 1; }
			std::string print1(){ typename C::M m; if(!C::read(m).empty()) return "not a tree"; return C::print(m, TREES - 1, -2, false); }
			void init(){ C::init(); typename C::M m; C::read(m); first = C::print(m, TREES - 1, -2, false); leaves = C::w().model.nodes ? (m.count(m.root[TREES - 1]) + 1) / 2 : 0; }
			void apply(int){ ref::record(); Sut s; C::f().tree_trim(); }
		} h;
		Conf c = {scale, 0.5, 1, ORIGINAL}; c.trim = TRIM_RANDOM; h.c = c; h.points = points; h.prefix = prefix;
		std::map<std::string, double> seen; h.seen = &seen;
		dist(h, 1, [&](int, double w){ (*h.seen)[h.print1()] += w; }, [&](int){
			CK("C49", (int)seen.size() == h.leaves, "law", "%d outcomes of a random trim of a tree with %d leaves", (int)seen.size(), h.leaves);
			for(auto& x : seen) CK("C49", near(x.second, 1.0 / h.leaves, 1e-9), "law", "of a tree with %d leaves %s is left with probability %.9f", h.leaves, x.first.c_str(), x.second);
		});
		if(G->sample.size()) G->sample += fmt(", %d leaves", h.leaves);
	});
}
#include "coarse_jobs.hpp"
MC_MAIN(define)
