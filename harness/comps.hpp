// Every class of the library behind one small interface: construct, a few operations, what they answer.
//  struct C { typedef ... S; int variant; void make(void* at); int ops(); void apply(S&, int op, Obs&); void look(S&, Obs&); name(op) }
// Arrays given to the code have exactly the documented size (Arr), so that a sanitizer sees any access beyond them.
#pragma once
#include <memory>
using std::vector; using std::cout; using std::endl;
#include "bloom_filter.hpp"
#include "cuckoo_filter.hpp"
#include "ltc.hpp"
#include "reservoir_sampling.hpp"
#include "chained_reservoir.hpp"
#include "mc_nn.hpp"
#include "metrics.hpp"
#include "naive_bayes.hpp"
#include "perceptron.hpp"
#include "hoeffding_tree.hpp"
#include "mondrian.hpp"
#include "mondrian_unbound.hpp"
#include "mondrian_coarse.hpp"
namespace comps {
struct Obs { int n; double v[600]; void clear(){ n = 0; } void add(double x){ if(n < 600) v[n++] = x; }
	bool same(Obs const& o) const { if(n != o.n) return false; for(int i = 0; i < n; ++i) if(memcmp(&v[i], &o.v[i], 8) && !(std::isnan(v[i]) && std::isnan(o.v[i]))) return false; return true; }
	std::string text() const { std::string s; for(int i = 0; i < n && i < 12; ++i) s += mc::fmt("%.12g ", v[i]); return s; } };
static double (*draw)() = nullptr;           // where random numbers come from
static void* (*allocate)(size_t) = nullptr;  // where the user's malloc takes its memory
template<class T> struct Arr { // an array of exactly n elements
	T* p; T few[32]; int n; bool heap;
	Arr(int n) : n(n), heap(MC_ASAN || n > 32) { p = heap ? (T*)::malloc(n * sizeof(T) ? n * sizeof(T) : 1) : few; for(int i = 0; i < n; ++i) p[i] = T(); }
	~Arr(){ if(heap) ::free(p); } operator T*(){ return p; }
};
struct Env {
	static double random(){ return draw(); } static double rand_uniform(){ return draw(); } static double rand_cuckoo(){ return draw(); }
	static double floor(double x){ return std::floor(x); } static double exp(double x){ return std::exp(x); } static double log(double x){ return std::log(x); } static double log2(double x){ return std::log2(x); } static double sqrt(double x){ return std::sqrt(x); } static bool isnan(double x){ return std::isnan(x); }
	static double power(double x, int n){ double r = 1; while(n-- > 0) r *= x; return r; }
	static void* malloc(size_t n){ return allocate(n); }
	static double activation(double x){ return std::tanh(x); } static double derivative(double o){ return 1 - o * o; }
};
template<int buckets> struct CuckooEnv { // indexes of buckets
	static unsigned char fingerprint(int const* e){ return 1 + (*e * 5) % 3; }
	static unsigned int hash(int const* e){ return (*e * 3 + 1) % buckets; } static unsigned int hash(unsigned char const fp){ return (fp * 7 + 5) % buckets; }
};
static double draw_cuckoo(){ return draw(); }
template<int k, int bits> unsigned int bloom_hash(int* e){ return (*e * (k + 3) * 5 + k) % bits; }
template<int k, int bits> unsigned int bloom_edge(int* e){ return (*e + k) % 2 ? bits - 1 : (*e * k) % bits; }

template<int bits, int hashes> struct Bloom {
	typedef BloomFilter<int, bits, hashes> S; int variant = 0; enum { bytes = bits };
	void make(void* at){ unsigned int (*h[4])(int*) = {bloom_hash<0, bits>, bloom_edge<1, bits>, bloom_hash<2, bits>, bloom_hash<3, bits>}; Arr<unsigned int (*)(int*)> a(hashes); for(int i = 0; i < hashes; ++i) a[i] = h[(i + variant) % 4]; mc::Sut s; new (at) S(a); }
	int ops(){ return 8; }
	void apply(S& f, int op, Obs& o){
		int x = op % 3 + variant;
		if(op < 2){ mc::Sut s; f.add(&x); } else if(op == 2){ mc::Sut s; f.add(x); }
		else if(op == 3 || op == 4){ bool r; { mc::Sut s; r = op == 3 ? f.lookup(&x) : f.lookup(x); } o.add(r); }
		else if(op == 5){ mc::Sut s; f.clear(); }
		else { Arr<unsigned char> a(bytes); for(int i = 0; i < bytes; ++i) a[i] = (i + op) % 2; mc::Sut s; f.set(a); }
	}
	void look(S& f, Obs& o){ for(int x = 0; x < 8; ++x){ int y = x; bool a, b; { mc::Sut s; a = f.lookup(&y); b = f.lookup(y); } o.add(a * 2 + b); } }
	std::string name(){ return mc::fmt("BloomFilter<%d, %d>", bits, hashes); }
};
template<int buckets, int size, int width, int empty> struct Cuckoo {
	typedef CuckooFilter<int, buckets, size, width, CuckooEnv<buckets>, draw_cuckoo, empty> S; int variant = 0;
	void make(void* at){ mc::Sut s; new (at) S(); }
	int ops(){ return 8; }
	void apply(S& f, int op, Obs& o){
		int x = op % 4 + variant; bool r = false;
		if(op < 4){ { mc::Sut s; r = op % 2 ? f.add(x) : f.add(&x); } o.add(r); } else if(op < 6){ { mc::Sut s; r = f.lookup(&x); } o.add(r); if(r){ mc::Sut s; f.remove(&x); } }
		else if(op == 6){ mc::Sut s; f.remove(9 + variant); } else { mc::Sut s; f.clear(); }
	}
	void look(S& f, Obs& o){ for(int x = 0; x < 8; ++x){ int y = x; bool a, b; { mc::Sut s; a = f.lookup(&y); b = f.lookup(y); } o.add(a * 2 + b); } }
	std::string name(){ return mc::fmt("CuckooFilter<%d, %d, %d, %d>", buckets, size, width, empty); }
};
template<class V, class T, int eps> struct Ltc {
	typedef LTC<V, T, eps, 100, -100, 1> S; int variant = 0; struct W { S s; T now; };
	void make(void* at){ mc::Sut s; new (at) S(); }
	int ops(){ return 6; }
	void apply(S& f, int op, Obs& o){
		static V const v[] = {0, 3, -40, 100, -100, 7};
		T& now = *clock; now += op == 5 ? 7 : 1 + op % 2; int r; { mc::Sut s; r = f.add(now, v[(op + variant) % 6]); } o.add(r);
		if(r){ T t = 0; V x = 0; { mc::Sut s; f.get_value_to_transmit(t, x); } o.add(t); o.add(x); }
	}
	void look(S&, Obs&){}
	T* clock; // given by the harness, starts at 0
	typedef T Clock;
	std::string name(){ return mc::fmt("LTC<%s, %d>", std::is_integral<V>::value ? "int" : "float", eps); }
};
template<template<class, unsigned int, class> class R, unsigned n, int kind> struct Sample {
	typedef R<int, n, Env> S; int variant = 0; typedef unsigned Clock; Clock* clock;
	void make(void* at){ mc::Sut s; new (at) S(); }
	int ops(){ return 2; }
	void apply(S& f, int op, Obs& o){
		++*clock; int x = 10 * *clock + op + variant, r;
		if(op == 0){ mc::Sut s; r = f.add(x); } else { { mc::Sut s; r = f.sample_index(); } if(r >= 0){ mc::Sut s; f[r] = x; } }
		o.add(r);
	}
	void look(S& f, Obs& o){ S const& c = f; unsigned m; { mc::Sut s; m = c.count(); } o.add(m); unsigned const used = std::min(m, n); for(unsigned i = 0; i < used; ++i){ int a, b; { mc::Sut s; a = c[i]; b = f[i]; } o.add(a); o.add(b); } }
	std::string name(){ return mc::fmt("%s<%u>", kind ? "ExponentialReservoirSampling" : "ReservoirSampling", n); }
};
template<unsigned n> struct Chained {
	typedef ChainedReservoirSampling<int, n, Env> S; int variant = 0; typedef unsigned Clock; Clock* clock;
	void make(void* at){ mc::Sut s; new (at) S(); }
	int ops(){ return 4; }
	void apply(S& f, int op, Obs& o){
		if(op < 2){ *clock += 1 + op; mc::Sut s; f.add(10 * *clock + variant, *clock); }
		else { unsigned const t = op == 2 ? (*clock > 2 ? *clock - 2 : 0) : *clock; mc::Sut s; f.obsolete(t); }
	}
	void look(S& f, Obs& o){ if(*clock < 2 * n + 2) return; S const& c = f; for(unsigned i = 0; i < n; ++i){ int a, b; { mc::Sut s; a = c[i]; b = f[i]; } o.add(a); o.add(b); } }
	std::string name(){ return mc::fmt("ChainedReservoirSampling<%u>", n); }
};
static double const values[][6] = {{0, 1, -2, 4, 0.5, 3}, {0, 1, 2, 4, 7, 3}, {0, 200, 100, 250, 50, 255}, {-100, 120, 0, 90, -128, 127}, {-30000, 30000, 100, 32000, -32768, 1}, {-2000000000, 2000000000, 0, 2147483647, 5, -100000}};
static int series = 0; // which values the points have
template<class T, int F> void point(T* x, int i){ for(int f = 0; f < F; ++f) x[f] = (T)values[series][(i * (f + 1) + f) % 6]; }
template<class T, int F, int clusters> struct Mcnn {
	typedef MCNN<T, F, clusters> S; int variant = 0;
	void make(void* at){ mc::Sut s; if(variant == 3) new (at) S(); else new (at) S(1 + variant % 2, variant % 3, variant % 3 == 1 ? 30 : 5); }
	int ops(){ return 7; }
	void apply(S& f, int op, Obs& o){
		Arr<T> x(F); point<T, F>(x, op / 2); int r;
		if(op < 6){ mc::Sut s; r = f.train(x, op % 2 + (op == 5)); } else { mc::Sut s; r = f.predict(x); }
		o.add(r);
	}
	void look(S& f, Obs& o){ for(int i = 0; i < 6; ++i){ Arr<T> x(F); point<T, F>(x, i); int r; { mc::Sut s; r = f.predict(x); } o.add(r); } int a, b, c; { mc::Sut s; a = f.count_clusters(); b = f.get_error_thr(); c = f.get_performance_thr(); } o.add(a); o.add(b); o.add(c); }
	std::string name(){ return mc::fmt("MCNN<%d, %d> %d", F, clusters, variant); }
};
template<class M, int L> struct Metric {
	typedef M S; int variant = 0;
	void make(void* at){ mc::Sut s; new (at) S(); }
	int ops(){ return L * L + 3; }
	void apply(S& m, int op, Obs& o){
		if(op < L * L){ mc::Sut s; m.update(op / L, op % L); } else if(op == L * L){ mc::Sut s; m.increase_error(2); } else if(op == L * L + 1){ mc::Sut s; m.reset(); }
		else { S copy(m); mc::Sut s; m = copy; }
	}
	void look(S& m, Obs& o){ for(int size = 0; size < 3; ++size) for(int inv = 0; inv < 2; ++inv){ double r; { mc::Sut s; r = m.score(inv, size); } o.add(r); } bool r; { mc::Sut s; r = m.ratio(); } o.add(r); }
	std::string name(){ return mc::fmt("a metric of %d bytes for %d labels", (int)sizeof(M), L); }
};
template<class T, int L, int F> struct Bayes {
	typedef NaiveBayes<T, L, F, Env> S; int variant = 0;
	void make(void* at){ mc::Sut s; if(variant) new (at) S(0.25 * variant); else new (at) S(); }
	int ops(){ return 3 * L + 2; }
	void apply(S& f, int op, Obs& o){
		Arr<T> x(F);
		if(op < 3 * L){ point<T, F>(x, op / L + variant); bool r; { mc::Sut s; r = op % 3 == 2 ? f.train(x, op % L, 0.5) : f.train(x, op % L); } o.add(r); }
		else if(op == 3 * L){ mc::Sut s; f.set_smoothing(0.5 + variant); }
		else { point<T, F>(x, 2); int r; { mc::Sut s; r = f.predict(x); } o.add(r); }
	}
	void look(S& f, Obs& o){ for(int i = 0; i < 3; ++i){ Arr<T> x(F); point<T, F>(x, i + 1); Arr<double> out(L); int r; { mc::Sut s; r = f.predict(x, out); } o.add(r); for(int l = 0; l < L; ++l) o.add(out[l]); } double g; { mc::Sut s; g = f.get_smoothing(); } o.add(g); }
	std::string name(){ return mc::fmt("NaiveBayes<%d, %d>", L, F); }
};
template<int layers, int a, int b, int c, int d = 1> struct Mlp {
	enum { w1 = (a + 1) * b, w2 = layers > 2 ? (b + 1) * c : 0, w3 = layers > 3 ? (c + 1) * d : 0, weights = w1 + w2 + w3, neurons = a + b + (layers > 2 ? c : 0) + (layers > 3 ? d : 0), out = layers == 2 ? b : layers == 3 ? c : d };
	typedef MultiLayerPerceptron<layers, 2 * (weights > neurons ? weights : neurons) * sizeof(double), Env> S; int variant = 0;
	void make(void* at){ int const shape[4] = {a, b, c, d}; Arr<int> sh(layers); for(int i = 0; i < layers; ++i) sh[i] = shape[i]; mc::Sut s; if(variant) new (at) S(sh, 0.3); else new (at) S(sh); if(variant){ double x[a] = {}, y[out]; ((S*)at)->feed_forward(x, y); } }
	int ops(){ return variant ? 7 : 6; } // 6: what is propagated back is that of the last forward pass, whenever it was
	void apply(S& f, int op, Obs& o){
		if(op < 3){ Arr<double> x(a), y(out), t(out), z(out); for(int i = 0; i < a; ++i) x[i] = (i + op) % 3 - 0.5; for(int i = 0; i < out; ++i) t[i] = (i + op + variant) % 2; { mc::Sut s; f.feed_forward(x, y); } for(int i = 0; i < out; ++i) o.add(y[i]); if(op < 2){ double e; { mc::Sut s; e = f.backpropagate(t); } o.add(e); } }
		else if(op == 6){ Arr<double> t(out); for(int i = 0; i < out; ++i) t[i] = i % 2 ? 0.8 : -0.4; double e; { mc::Sut s; e = f.backpropagate(t); } o.add(e); }
		else if(op == 3){ Arr<double> w(a + 1); for(int i = 0; i <= a; ++i) w[i] = 0.1 * i + variant; mc::Sut s; f.set_weights(1, b - 1, w); }
		else if(op == 4){ int const l = layers - 1, from = layers == 2 ? a : layers == 3 ? b : c; Arr<double> w((from + 1) * out); for(int i = 0; i < (from + 1) * out; ++i) w[i] = 0.2 * i - 0.3; mc::Sut s; f.set_weights(l, w); }
		else { Arr<double> w(weights); for(int i = 0; i < weights; ++i) w[i] = (i % 5) * 0.1; mc::Sut s; f.set_weights(w); }
	}
	void look(S& f, Obs& o){ double const* w; { mc::Sut s; w = f.get_weights(); } for(int i = 0; i < weights; ++i) o.add(w[i]); }
	std::string name(){ return mc::fmt("MultiLayerPerceptron<%d>(%d, %d, %d, %d)", layers, a, b, c, d); }
};
template<class T, int F, int L, int bytes> struct Hoeffding {
	typedef HoeffdingTree<T, F, L, bytes, Env> S; int variant = 0; enum { bins = 3 };
	void make(void* at){ Arr<int> b(F); for(int f = 0; f < F; ++f) b[f] = bins - f % 2; mc::Sut s; new (at) S(variant ? 0.2 : 0.6, b); limits(at); }
	void limits(void* at){ int n = 0; for(int f = 0; f < F; ++f) n += bins - f % 2 - 1; Arr<double> l(n); int k = 0; for(int f = 0; f < F; ++f) for(int i = 0; i < bins - f % 2 - 1; ++i) l[k++] = i + 0.25; mc::Sut s; ((S*)at)->get_root()->set_limits(l); }
	int ops(){ return 4 * L + 1; }
	void apply(S& f, int op, Obs& o){
		Arr<T> x(F); point<T, F>(x, op / L + variant);
		if(op < 4 * L){ bool r; { mc::Sut s; r = f.train(x, op % L); } o.add(r); }
		else { int r; { mc::Sut s; r = f.predict(x); } if(!blank(f)) o.add(r); }
	}
	bool blank(S& f){ bool r; { mc::Sut s; r = f.get_root()->is_leaf(); } return r; } // a leaf without data has no scores
	void look(S& f, Obs& o){ bool const leaf = blank(f); o.add(leaf); if(!leaf) for(int i = 0; i < 6; ++i){ Arr<T> x(F); point<T, F>(x, i); Arr<double> out(L); int r; { mc::Sut s; r = f.predict(x, out); } o.add(r); for(int l = 0; l < L; ++l) o.add(out[l]); } }
	std::string name(){ return mc::fmt("HoeffdingTree<%d, %d, %d>", F, L, bytes); }
};
template<class T, int F, int L, class P> struct Forest {
	typedef P S; int variant = 0;
	int ops(){ return 3 * L + 1; }
	void apply(S& f, int op, Obs& o){
		Arr<T> x(F); point<T, F>(x, op / L * 2 + variant % 2); int r;
		if(op < 3 * L){ mc::Sut s; r = f.train(x, op % L); } else { mc::Sut s; r = f.predict(x); }
		o.add(r);
	}
	void look(S& f, Obs& o){ for(int i = 0; i < 5; ++i){ Arr<T> x(F); point<T, F>(x, i); Arr<double> out(L); int r; { mc::Sut s; r = f.predict(x, out); } o.add(r); for(int l = 0; l < L; ++l) o.add(out[l]); } }
};
template<class T, int F, int L, int trees, int nodes, int more> struct Mondrian : Forest<T, F, L, MondrianForest<T, Env, trees, F, L, nodes * ((16 * F + 4 * L + 32 + 7) / 8 * 8) + more>> {
	typedef typename Mondrian::S S;
	void make(void* at){ mc::Sut s; new (at) S(this->variant ? 5 : 2, 1.0 / L, this->variant ? 0.3 : 1); }
	std::string name(){ return mc::fmt("MondrianForest<%d, %d, %d> of %d nodes", trees, F, L, nodes); }
};
template<class T, int F, int L, int trees> struct Unbound : Forest<T, F, L, MondrianForestUnbound<T, Env, F, L>> {
	typedef typename Unbound::S S;
	void make(void* at){ mc::Sut s; new (at) S(this->variant ? 5 : 2, 1.0 / L, this->variant ? 0.3 : 1, trees); }
	std::string name(){ return mc::fmt("MondrianForestUnbound<%d, %d> of %d trees", F, L, trees); }
};
// variant: the extension mode in the last digit, then what else is on
template<class T, int F, int L, int trees, int nodes, int more> struct Coarse : Forest<T, F, L, CoarseMondrianForest<T, Env, NoMetrics, F, L, nodes * sizeof(MondrianNode<F, L>) + trees * sizeof(typename CoarseMondrianForest<T, Env, NoMetrics, F, L, 10000>::TreeBase) + more>> {
	typedef typename Coarse::S S; enum { node_count = nodes };
	void make(void* at){
		int const v = this->variant % 100, k = v / 10; bool const print = this->variant >= 100; mc::Sut s; // what is printed goes nowhere
		new (at) S(3, 1.0 / L, 1, trees, k == 1 ? ROBUR_MANAGEMENT : k == 2 ? OPTIMISTIC_COBBLE_MANAGEMENT : k == 3 ? PHOENIX_MANAGEMENT : COBBLE_MANAGEMENT, k == 1 && v % 2 ? DEPTH_SIZE : NODE_SIZE, k == 1 || k == 2 ? 3 : -1, 0, print, k % 4, k >= 4 ? k - 3 : 0, 1.0, true, true, k == 3 ? 0.5 : 1, k == 5 ? 0.9 : 1, k == 4 ? 1 : k == 5 ? 2 : 0, v % 10, k % 4, 1);
	}
	int ops(){ return 3 * L + 3; }
	void apply(S& f, int op, Obs& o){
		if(op < 3 * L + 1) return Forest<T, F, L, S>::apply(f, op, o);
		if(op == 3 * L + 1){ mc::Sut s; f.tree_trim(); }
		else { Arr<T> x(F); point<T, F>(x, 1); Arr<double> out(L); int r; { mc::Sut s; r = f.predict(x, out, 1); } o.add(r); for(int l = 0; l < L; ++l) o.add(out[l]); }
	}
	void look(S& f, Obs& o){ Forest<T, F, L, S>::look(f, o); int used = 0; for(int i = 0; i < nodes; ++i) used += !f.get_nodes()[i].available(); o.add(used); for(int t = 0; t < trees; ++t) if(f.get_bases()[t].root >= 0){ int c; { mc::Sut s; c = f.count_data_point_tree(t); } o.add(c); } }
	std::string name(){ return mc::fmt("CoarseMondrianForest<%d, %d> of %d trees, %d nodes, variant %d", F, L, trees, nodes, this->variant); }
};
// a tree that has grown one level with each of its points
template<int levels, int nodes, int more> struct Deep : Coarse<double, 1, 2, 1, nodes, more> {
	typedef typename Deep::S S; static int& at(){ static thread_local int n; return n; }
	static double narrow(){ int const n = at()++; return n % 3 == 0 ? 0.6 * (1 - (n / 3) / 400.) : n % 3 == 1 ? 0.4 : 0.5; } // earlier and earlier splits, above everything
	void make(void* to){
		Coarse<double, 1, 2, 1, nodes, more>::make(to); auto keep = draw; draw = narrow; at() = 0;
		for(int i = 0; i < levels; ++i){ Arr<double> x(1); x[0] = 10 + i; mc::Sut s; ((S*)to)->train(x, i % 2); }
		draw = keep;
	}
	void apply(S& f, int op, Obs& o){
		if(op != this->ops() - 1) return Coarse<double, 1, 2, 1, nodes, more>::apply(f, op, o);
		Arr<double> x(1); x[0] = 10 + levels; { auto keep = draw; draw = narrow; mc::Sut s; f.train(x, 1); draw = keep; } // one level more
	}
	int level(S& f, int k){ auto const& n = f.get_nodes()[k]; return n.is_leaf() ? 0 : 1 + std::max(level(f, n.child_left), level(f, n.child_right)); }
	std::string name(){ return mc::fmt("CoarseMondrianForest of %d nodes, variant %d, with %d levels", nodes, this->variant, levels); }
};
// a forest that has seen many points before; what it draws for them is fixed
template<class T, int F, int trees, int points, int nodes> struct Grown : Coarse<T, F, 2, trees, nodes, 0> {
	typedef typename Grown::S S; static int& at(){ static thread_local int n; return n; }
	static double fixed(){ int const n = at()++; return (n * 7 % 11 + 0.5 + 0.1 * (n % 3)) / 12; }
	void make(void* to){
		Coarse<T, F, 2, trees, nodes, 0>::make(to); auto keep = draw; draw = fixed; at() = this->variant;
		for(int i = 0; i < points; ++i){ Arr<T> x(F); for(int f = 0; f < F; ++f) x[f] = (T)((i * (5 + 2 * f) + f) % 11); mc::Sut s; ((S*)to)->train(x, i % 3 == 0); }
		draw = keep;
	}
	int ops(){ return Coarse<T, F, 2, trees, nodes, 0>::ops() + 3; }
	void apply(S& f, int op, Obs& o){ // and points among those it has
		int const n = Coarse<T, F, 2, trees, nodes, 0>::ops(); if(op < n) return Coarse<T, F, 2, trees, nodes, 0>::apply(f, op, o);
		Arr<T> x(F); for(int k = 0; k < F; ++k) x[k] = (T)((op - n) * 3 + 1 + k); bool r; { mc::Sut s; r = f.train(x, op % 2); } o.add(r);
	}
	std::string name(){ return mc::fmt("%s after %d points", Coarse<T, F, 2, trees, nodes, 0>::name().c_str(), points); }
};
// a clock for the classes that are given timestamps
template<class C, class = void> struct Timed { typedef unsigned Clock; static void set(C&, Clock*){} };
template<class C> struct Timed<C, decltype((void)sizeof(typename C::Clock))> { typedef typename C::Clock Clock; static void set(C& c, Clock* k){ c.clock = k; } };
}
