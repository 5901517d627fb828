// Reference Mondrian forest (Lakshminarayanan, Roy & Teh, 2014: algorithms 3, 4, 7, 8), with a budget of nodes.
#pragma once
namespace ref {
struct Draws { double log[20000]; int n, at; bool replay; }; // the random numbers of the current operation
static Draws* D = (Draws*)calloc(1, sizeof(Draws));
static void record(){ D->n = D->at = 0; D->replay = false; }
static void again(){ D->at = 0; D->replay = true; }
static double draw(){
	if(D->replay) return D->at < D->n ? D->log[D->at++] : (D->at++, 0.5);
	double const u = mc::rnd(); if(D->n < 20000) D->log[D->n++] = u; return u;
}
struct Fn { static double exp(double x){ return std::exp(x); } static double log(double x){ return std::log(x); } static double rand_uniform(){ return draw(); } static double power(double x, int n){ double r = 1; while(n-- > 0) r *= x; return r; } };

template<int F, int L, int TREES, int CAP> struct Forest {
	struct N { int dim; double split, lo[F], hi[F]; int left, right, parent; double tau; int count[L]; };
	N n[CAP]; int root[TREES], nodes, refused; bool shaky, stored; // stored: the counts of every node are those in count
	void init(){ memset(this, 0, sizeof *this); for(int& r : root) r = -1; }
	int fresh(int parent){ N& m = n[nodes]; memset(&m, 0, sizeof m); m.dim = m.left = m.right = -1; m.parent = parent; return nodes++; }
	void leaf(int k, double const* x, int label, double lifetime){ for(int i = 0; i < F; ++i) n[k].lo[i] = n[k].hi[i] = x[i]; n[k].count[label]++; n[k].tau = lifetime; }
	bool side(double x, double split){ if(x != split && std::fabs(x - split) < 1e-9 * std::max(1.0, std::fabs(x))) shaky = true; return x > split; }
	// returns false if the point has nowhere to go
	bool train(int tree, double const* x, int label, double lifetime, int budget){
		if(root[tree] < 0){
			if(nodes >= budget) { refused++; return false; }
			root[tree] = fresh(-1); leaf(root[tree], x, label, lifetime); return true;
		}
		int k = root[tree];
		for(;;){
			double out[F], sum = 0; double const from = n[k].parent >= 0 ? n[n[k].parent].tau : 0;
			for(int i = 0; i < F; ++i){ out[i] = std::max(0.0, n[k].lo[i] - x[i]) + std::max(0.0, x[i] - n[k].hi[i]); sum += out[i]; }
			if(sum > 0){
				double const u = draw(), wait = u == 0 ? 0 : -std::log1p(-u) / sum;
				if(u != 0 && std::fabs(from + wait - n[k].tau) < 1e-9) shaky = true;
				if(from + wait < n[k].tau){ // the point branches off above this node
					double const v = draw(); int d = -1; double acc = 0;
					for(int i = 0; i < F; ++i){ acc += out[i]; if(out[i] > 0 && v * sum < acc && d < 0) d = i; if(std::fabs(v * sum - acc) < 1e-9) shaky = shaky || v * sum != acc || v * 1024 != std::floor(v * 1024); }
					if(d < 0) for(int i = 0; i < F; ++i) if(out[i] > 0) d = i;
					bool const above = x[d] > n[k].hi[d];
					double const a = above ? n[k].hi[d] : x[d], b = above ? x[d] : n[k].lo[d], split = a + draw() * (b - a);
					if(nodes + 2 <= budget){
						int const p = fresh(n[k].parent), s = fresh(p);
						n[p].dim = d; n[p].split = split; n[p].tau = from + wait;
						for(int i = 0; i < F; ++i){ n[p].lo[i] = std::min(n[k].lo[i], x[i]); n[p].hi[i] = std::max(n[k].hi[i], x[i]); }
						if(n[k].parent < 0) root[tree] = p; else if(n[n[k].parent].left == k) n[n[k].parent].left = p; else n[n[k].parent].right = p;
						n[k].parent = p; n[p].left = above ? k : s; n[p].right = above ? s : k;
						leaf(s, x, label, lifetime);
						return true;
					}
					refused++;
				}
			}
			for(int i = 0; i < F; ++i){ n[k].lo[i] = std::min(n[k].lo[i], x[i]); n[k].hi[i] = std::max(n[k].hi[i], x[i]); }
			if(n[k].dim < 0){ n[k].count[label]++; return true; }
			k = side(x[n[k].dim], n[k].split) ? n[k].right : n[k].left;
		}
	}
	int tables(int k, int l){ return stored || n[k].dim < 0 ? n[k].count[l] : std::min(1, tables(n[k].left, l)) + std::min(1, tables(n[k].right, l)); }
	int total(int k, int l){ return n[k].dim < 0 ? n[k].count[l] : total(n[k].left, l) + total(n[k].right, l); }
	void predict(int tree, double const* x, double base, double discount, double* score){
		double g[L], s[L] = {}, stay = 1, from = 0; for(double& v : g) v = base;
		for(int k = root[tree]; k >= 0;){
			double eta = 0, const_delta = n[k].tau - from; for(int i = 0; i < F; ++i) eta += std::max(0.0, x[i] - n[k].hi[i]) + std::max(0.0, n[k].lo[i] - x[i]);
			double const p = -std::expm1(-const_delta * eta); int c[L], sum = 0, tab = 0;
			for(int l = 0; l < L; ++l){ c[l] = tables(k, l); sum += c[l]; tab += std::min(1, c[l]); }
			if(p > 0){ // a new node above this one, with the expected discount given that it exists
				double const d = eta / (eta + discount) * std::expm1(-(eta + discount) * const_delta) / std::expm1(-eta * const_delta);
				for(int l = 0; l < L; ++l) s[l] += stay * p * (tab ? (std::min(1, c[l]) - d * std::min(1, c[l]) + d * tab * g[l]) / tab : g[l]);
			}
			double const d = std::exp(-discount * const_delta);
			if(sum) for(int l = 0; l < L; ++l) g[l] = (c[l] - d * std::min(1, c[l]) + d * tab * g[l]) / sum;
			stay *= 1 - p; from = n[k].tau;
			if(n[k].dim < 0) { for(int l = 0; l < L; ++l) g[l] = s[l] + stay * g[l]; break; }
			k = side(x[n[k].dim], n[k].split) ? n[k].right : n[k].left;
		}
		for(int l = 0; l < L; ++l) score[l] = g[l];
	}
	void predict(double const* x, double base, double discount, double* score, int trees = TREES){
		for(int l = 0; l < L; ++l) score[l] = 0;
		for(int t = 0; t < trees; ++t){ double s[L]; predict(t, x, base, discount, s); for(int l = 0; l < L; ++l) score[l] += s[l] / trees; }
	}
};
}
