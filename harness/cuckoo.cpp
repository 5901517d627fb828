// C03..C06: Cuckoo filter against a multiset of (fingerprint, pair of buckets) classes.
#include "../mc/mc.hpp"
#include "cuckoo_filter.hpp"
using namespace mc;

static int const MAXE = 24;
static unsigned char fp_of[MAXE];
static unsigned int hash_of[MAXE], hash_fp[256];
static int n_classes; // elements 0..n_classes-1 all have different classes
struct Wide { double a; int id; char pad[5]; };
template<class E> E elem(int i);
template<> int elem<int>(int i){ return i - 7; }
template<> Wide elem<Wide>(int i){ Wide w; memset(&w, 0, sizeof w); w.a = i * 0.5; w.id = i; return w; }
inline int id(int const* e){ return *e + 7; }
inline int id(Wide const* e){ return e->id; }
template<class E> struct Funct {
	static unsigned char fingerprint(E const* e){ return fp_of[id(e)]; }
	static unsigned int hash(E const* e){ return hash_of[id(e)]; }
	static unsigned int hash(unsigned char const fp){ return hash_fp[fp]; }
};
static long draws; // draws in this operation
static double rnd_cuckoo(){ draws++; return rnd(); }

// elems: the elements that are added and removed; every class of the universe is looked up
template<class E, int buckets, int bsize, int width, int empty> struct Cuckoo {
	typedef CuckooFilter<E, buckets, bsize, width, Funct<E>, rnd_cuckoo, empty> F;
	static int const capacity = buckets * bsize;
	struct World {
		alignas(16) char sut[sizeof(F)];
		short count[MAXE];  // copies stored, per class
		bool refused;       // an addition was refused since the last clear
		char policy;
	};
	int elems, variant, policies, branch;
	std::vector<double> menu;
	Cuckoo(int elems, int variant, std::vector<double> menu, int branch, int policies) : elems(elems), variant(variant), policies(policies), branch(branch), menu(menu) {}
	World& w(){ return *world<World>(); }
	F& f(){ return *reinterpret_cast<F*>(w().sut); }
	size_t size(){ return sizeof(World); }
	unsigned int h1(int e){ return hash_of[e]; }
	unsigned int h2(int e){ return hash_of[e] ^ hash_fp[fp_of[e]]; }
	static bool same(int a, int b){ return fp_of[a] == fp_of[b] && (hash_of[a] == hash_of[b] || hash_of[a] == (hash_of[b] ^ hash_fp[fp_of[b]])); }
	void tables(){
		// the fingerprints in use: the extreme ones of the width, without the empty value
		std::vector<int> fps;
		int const top = 1 << width;
		std::vector<int> wish = variant == 0 ? std::vector<int>{1, top - 1, 0, top / 2, 2} : std::vector<int>{top - 1, top / 2, 0, 1, top - 2};
		for(int x : wish) if(x >= 0 && x < top && x != empty && std::find(fps.begin(), fps.end(), x) == fps.end() && fps.size() < 4) fps.push_back(x);
		for(int i = 0; i < 256; ++i) hash_fp[i] = variant == 2 ? 0 : (variant == 1 ? (i * 7 + 3) : (i + 1)) % buckets;
		std::vector<std::pair<int,int>> all;
		n_classes = 0;
		// collisions first: same bucket with different fingerprints, then same fingerprint in other buckets, last bucket included
		for(int r = 0; r < (int)fps.size() && n_classes < MAXE; ++r)
			for(int b : {0, buckets - 1, 1 % buckets, buckets / 2, 2 % buckets, buckets - 2 < 0 ? 0 : buckets - 2}){
				if(n_classes >= MAXE) break;
				int const e = n_classes;
				fp_of[e] = fps[(r + (b == 0 ? 0 : 1)) % fps.size()]; hash_of[e] = b;
				bool dup = false; for(int x = 0; x < e; ++x) if(same(x, e)) dup = true;
				if(!dup) n_classes++;
			}
		elems = std::min(elems, n_classes);
	}
	void environment(){
		draws = 0;
		G->menu = menu; G->max_branch = branch;
		int const p = w().policy;
		G->fallback = [p](int n){ return p == 0 ? 0 : p == 1 ? n - 1 : (int)((draws * 2654435761u) >> 13); };
	}
	void init(){
		tables();
		w().policy = choose(policies);
		environment();
		{ Sut s; new (w().sut) F(); }
		for(int i = 0; i < MAXE; ++i) w().count[i] = 0;
		w().refused = false;
	}
	int ops(){ return 3 * elems + 1; }
	std::string describe(int op){
		if(op == 3 * elems) return "clear()";
		int const e = op % elems;
		return fmt("%s(e%d: fp=%d buckets=%u,%u)", op < elems ? "add" : op < 2 * elems ? "remove" : "lookup", e, fp_of[e], h1(e), h2(e));
	}
	// the multiset of a filter, taken apart on a copy with the public operations
	void extract(short* out, F& of, int limit){
		F copy(of);
		for(int e = 0; e < n_classes; ++e){
			E x = elem<E>(e);
			int n = 0;
			while(n <= limit){ bool r; { Sut s; r = n % 2 ? copy.lookup(x) : copy.lookup(&x); } if(!r) break; { Sut s; if(n % 2) copy.remove(x); else copy.remove(&x); } n++; }
			out[e] = n;
		}
	}
	int total(){ int t = 0; for(int e = 0; e < n_classes; ++e) t += w().count[e]; return t; }
	bool must_fit(int e){ // a candidate bucket of e has a free entry, wherever the others are
		int near = 0, in1 = 0, in2 = 0;
		for(int x = 0; x < n_classes; ++x){
			bool a = h1(x) == h1(e) || h2(x) == h1(e), b = h1(x) == h2(e) || h2(x) == h2(e);
			if(a) in1 += w().count[x];
			if(b) in2 += w().count[x];
			if(a || b) near += w().count[x];
		}
		return in1 < bsize || in2 < bsize || (h1(e) != h2(e) && near < 2 * bsize);
	}
	std::string name(){ return fmt("%d buckets of %d entries of %d bits, empty=%d", buckets, bsize, width, empty); }
	void apply(int op){
		environment();
		int const e = op % elems;
		E x = elem<E>(e);
		if(op == 3 * elems){
			{ Sut s; f().clear(); }
			for(int i = 0; i < MAXE; ++i) w().count[i] = 0;
			w().refused = false;
		}
		else if(op < elems){
			bool const fits = must_fit(e);
			bool r; { Sut s; r = w().count[e] % 2 ? f().add(x) : f().add(&x); }
			if(fits) CK("C05", r, "refused with room", "CuckooFilter(%s): add(e%d) is refused although a candidate bucket has a free entry", name().c_str(), e);
			w().count[e] += 1;
			if(!r){
				w().refused = true;
				short got[MAXE]; extract(got, f(), capacity + 1);
				int missing = 0, extra = 0;
				for(int i = 0; i < n_classes; ++i){ if(got[i] < w().count[i]) missing += w().count[i] - got[i]; else extra += got[i] - w().count[i]; }
				CK("C05", missing == 1 && extra == 0, "cost of a refusal", "CuckooFilter(%s): after the refused add(e%d), %d copies are missing and %d are unexpected (1 and 0 expected)", name().c_str(), e, missing, extra);
				for(int i = 0; i < n_classes; ++i) w().count[i] = got[i];
			}
			else CK("C05", total() <= capacity, "more than capacity", "CuckooFilter(%s): %d additions accepted in %d entries", name().c_str(), total(), capacity);
		}
		else if(op < 2 * elems){
			if(w().count[e] == 0 && !sel("C04")) return; // only C04 is about removing what is not there
			{ Sut s; if(w().count[e] % 2) f().remove(x); else f().remove(&x); }
			if(w().count[e] > 0) w().count[e] -= 1;
		}
		else { bool r; { Sut s; r = w().count[e] % 2 ? f().lookup(x) : f().lookup(&x); } looked(e, r); }
	}
	void looked(int e, bool r){
		bool const in = w().count[e] > 0;
		if(!w().refused){
			if(in) CK("C03", r, "false negative", "CuckooFilter(%s): lookup(e%d) is false although it is stored", name().c_str(), e);
			CK("C04", r == in, "lookup", "CuckooFilter(%s): lookup(e%d) is %d, expected %d", name().c_str(), e, r, in);
		}
		else CK("C05", r || !in, "lost after a refusal", "CuckooFilter(%s): lookup(e%d) is false although it is stored", name().c_str(), e);
		if(total() == 0) CK("C06", !r, "not empty", "CuckooFilter(%s): lookup(e%d) is true although the filter is empty", name().c_str(), e);
	}
	void check(){
		for(int e = 0; e < n_classes; ++e){
			E x = elem<E>(e); bool r, q; { Sut s; r = f().lookup(&x); q = f().lookup(x); }
			looked(e, r); looked(e, q);
		}
		std::function<int(int)> keep = G->policy; G->policy = [](int n){ return n / 2; };
		if(sel_any({"C04", "C05"})){
			short got[MAXE]; extract(got, f(), capacity + 1);
			for(int e = 0; e < n_classes; ++e){
				if(!w().refused) CK("C04", got[e] == w().count[e], "copies", "CuckooFilter(%s): %d copies of e%d are stored, expected %d", name().c_str(), got[e], e, w().count[e]);
				CK("C05", got[e] == w().count[e], "copies", "CuckooFilter(%s): %d copies of e%d are stored, expected %d", name().c_str(), got[e], e, w().count[e]);
			}
		}
		if(sel("C06")){ // clear a copy, then fill each pair of buckets
			F copy(f());
			if(total() > 0){ Sut s; copy.clear(); }
			for(int e = 0; e < n_classes; ++e){
				E x = elem<E>(e);
				bool r; { Sut s; r = copy.lookup(x); }
				CK("C06", !r, "not empty after clear", "CuckooFilter(%s): lookup(e%d) is true after clear()", name().c_str(), e);
			}
			bool used[buckets] = {false};
			for(int e = 0; e < n_classes; ++e){
				if(used[h1(e)] || used[h2(e)]) continue;
				used[h1(e)] = used[h2(e)] = true;
				E x = elem<E>(e);
				int const room = h1(e) == h2(e) ? bsize : 2 * bsize;
				for(int i = 0; i < room; ++i){
					bool r; { Sut s; r = copy.add(x); }
					CK("C06", r, "capacity", "CuckooFilter(%s): after clear() only %d of %d copies of e%d fit", name().c_str(), i, room, e);
				}
				short got[MAXE]; extract(got, copy, capacity + 1);
				CK("C06", got[e] == room, "capacity", "CuckooFilter(%s): after clear() and %d additions of e%d, %d are stored", name().c_str(), room, e, got[e]);
			}
			{ Sut s; copy.clear(); }
			for(int e = 0; e < n_classes; ++e){
				E x = elem<E>(e);
				bool r; { Sut s; r = copy.lookup(x); }
				CK("C06", !r, "not empty after clear", "CuckooFilter(%s): lookup(e%d) is true after filling the filter and clear()", name().c_str(), e);
			}
		}
		G->policy = keep;
	}
};
template<class E, int buckets, int bsize, int width, int empty> void add_job(int elems, int variant, std::vector<double> menu, int branch, int policies, int depth){
	job(fmt("cuckoo %dx%dx%d empty=%d elems=%d variant=%d depth=%d element=%d", buckets, bsize, width, empty, elems, variant, depth, (int)sizeof(E)), [=]{
		G->prefill = width % 2 ? 0xA5 : 0xFF;
		Cuckoo<E, buckets, bsize, width, empty> h(elems, variant, menu, branch, policies); bfs(h, depth);
	});
	if(depth < 100) job(fmt("cuckoo lasso %dx%dx%d empty=%d variant=%d", buckets, bsize, width, empty, variant), [=]{
		Cuckoo<E, buckets, bsize, width, empty> h(elems, variant, menu, branch, 1);
		auto pol = [](int p, uint64_t c, int n){ return p == 0 ? 0 : p == 1 ? n - 1 : (int)((c * 2654435761u) >> 13); };
		int const big = buckets * bsize > 10;
		if(thorough()) lasso(h, 1, 2, big ? 150 : 3 * buckets * bsize, 3, pol, 7);
		else lasso(h, big ? 0 : 1, 2, big ? 40 : 3 * buckets * bsize, 3, pol, 7);
	});
}
static double const TOP = 1 - 1.0 / (1ull << 53);
void define(){
	std::vector<double> two = {0.2, 0.8}, three = {0.2, 0.5, 0.8}, edge = {0, TOP}, four = {0.2, 0.3, 0.6, 0.8};
	bool const t = thorough();
	int const b = t ? 8 : 5;
	add_job<int, 1, 1, 1, 0>(3, 0, two, b, 3, 1000);
	add_job<int, 1, 2, 1, 1>(3, 0, two, b, 3, 1000);
	add_job<int, 2, 1, 2, 0>(4, 0, two, b, 3, 1000);
	add_job<int, 2, 2, 2, 3>(4, 0, two, b, 3, t ? 1000 : 7);
	add_job<int, 2, 3, 3, 5>(3, 1, two, t ? 6 : 4, 3, 7);
	add_job<int, 4, 1, 3, 0>(5, 0, two, b, 3, t ? 1000 : 6);
	add_job<Wide, 4, 2, 5, 31>(4, 1, edge, t ? 6 : 4, 3, t ? 8 : 6);
	add_job<int, 2, 4, 4, 0>(3, 0, three, t ? 5 : 3, 3, t ? 10 : 8);
	add_job<int, 4, 1, 8, 255>(5, 0, two, b, 3, t ? 9 : 5);
	add_job<int, 8, 2, 7, 0>(5, 1, two, 4, 2, t ? 7 : 5);
	add_job<int, 8, 1, 6, 63>(5, 2, two, 4, 2, t ? 7 : 5);
	add_job<Wide, 1, 5, 8, 7>(3, 0, four, t ? 3 : 2, 3, t ? 9 : 7);
	add_job<int, 16, 3, 6, 17>(6, 1, two, 3, 2, t ? 5 : 4);
	add_job<int, 64, 4, 8, 0>(6, 0, three, 3, 2, t ? 5 : 4);
	add_job<int, 256, 4, 8, 200>(6, 1, three, 2, 1, t ? 4 : 3);
	add_job<int, 2048, 4, 8, 0>(5, 0, two, 2, 1, t ? 4 : 3);   // more than 2^16 bits
	add_job<int, 131072, 1, 1, 0>(4, 1, two, 2, 1, t ? 4 : 3); // more than 2^16 buckets
	add_job<int, 2, 2, 4, 15>(4, 2, two, b, 2, t ? 1000 : 6);
}
MC_MAIN(define)
