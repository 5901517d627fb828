// C01, C02: Bloom filter against a set of indexes.
#include "../mc/mc.hpp"
#include "bloom_filter.hpp"
using namespace mc;

// The hash functions are tables: table[k][e] is the index of element e for the function k.
static int const MAXH = 12, MAXE = 6;
static unsigned int table[MAXH][MAXE];
template<class E> int id(E const* e);
template<> int id<int>(int const* e){ return *e - 100; }
struct Pair { double a; char b; };
template<> int id<Pair>(Pair const* e){ return (int)e->a + e->b; }
template<> int id<unsigned char>(unsigned char const* e){ return *e; }
template<class E> E elem(int i);
template<> int elem<int>(int i){ return 100 + i; }
template<> Pair elem<Pair>(int i){ return Pair{(double)(i / 2), (char)(i - i / 2)}; }
template<> unsigned char elem<unsigned char>(int i){ return i; }
template<class E, int k> unsigned int hash_fn(E* e){ return table[k][id<E>(e)]; }
template<class E> void functions(unsigned int (**h)(E*), int n){
	static unsigned int (*all[MAXH])(E*) = {hash_fn<E,0>,hash_fn<E,1>,hash_fn<E,2>,hash_fn<E,3>,hash_fn<E,4>,hash_fn<E,5>,hash_fn<E,6>,hash_fn<E,7>,hash_fn<E,8>,hash_fn<E,9>,hash_fn<E,10>,hash_fn<E,11>};
	for(int i = 0; i < n; ++i) h[i] = all[i];
}

template<class E, int bits, int hashes, int elems> struct Bloom {
	struct World {
		alignas(16) char sut[sizeof(BloomFilter<E, bits, hashes>)];
		bool bit[bits];      // the model: which indexes are on
		int added;           // elements added since the last clear (the model of C01)
		bool was_set;        // set() was used since the last clear
	};
	typedef BloomFilter<E, bits, hashes> F;
	std::vector<std::vector<unsigned int>> menu; // menu[k*elems+e]: the possible indexes
	bool choose_tables;
	Bloom(bool c) : choose_tables(c) {}
	World& w(){ return *world<World>(); }
	F& f(){ return *reinterpret_cast<F*>(w().sut); }
	size_t size(){ return sizeof(World); }
	void init(){
		for(int k = 0; k < hashes; ++k) for(int e = 0; e < elems; ++e){
			if(choose_tables){
				unsigned int const m[3] = {0, (unsigned)bits / 2, (unsigned)bits - 1};
				table[k][e] = m[choose(bits == 1 ? 1 : bits == 2 ? 2 : 3)] % bits;
			}
			else { // elements spread over the whole array, with the last indexes in use and many overlaps
				unsigned int const v = e * 37u + k * (unsigned)(bits / hashes + 1) + (e == 2 ? k * k : 0);
				table[k][e] = e == 1 ? (unsigned)bits - 1 - (k % bits) : e == 3 ? (k + bits / 2) % bits : v % bits;
			}
		}
		unsigned int (*h[hashes])(E*);
		functions<E>(h, hashes);
		new (w().sut) F(h);
		for(int i = 0; i < bits; ++i) w().bit[i] = false;
		w().added = 0; w().was_set = false;
		for(int i = 0; i < hashes; ++i) h[i] = nullptr; // the array given to the constructor is the caller's
	}
	int ops(){ return 4 * elems + 1 + 3; }
	std::string describe(int op){
		if(op < elems) return fmt("add(&e%d)", op);
		if(op < 2 * elems) return fmt("add(e%d)", op - elems);
		if(op < 3 * elems) return fmt("lookup(&e%d)", op - 2 * elems);
		if(op < 4 * elems) return fmt("lookup(e%d)", op - 3 * elems);
		if(op == 4 * elems) return "clear()";
		return fmt("set(pattern %d)", op - 4 * elems - 1);
	}
	bool model_lookup(int e){ for(int k = 0; k < hashes; ++k) if(!w().bit[table[k][e]]) return false; return true; }
	void model_add(int e){ for(int k = 0; k < hashes; ++k) w().bit[table[k][e]] = true; w().added |= 1 << e; }
	void looked(int e, bool r, char const* how){
		if(w().added >> e & 1) CK("C01", r, fmt("false negative bits=%d hashes=%d", bits, hashes), "BloomFilter<%d bits, %d hashes>: %s(e%d) is false although e%d was added", bits, hashes, how, e, e);
		CK("C02", r == model_lookup(e), fmt("inexact bits=%d hashes=%d", bits, hashes), "BloomFilter<%d bits, %d hashes>: %s(e%d) is %d, expected %d", bits, hashes, how, e, r, model_lookup(e));
	}
	void apply(int op){
		int const e = op % elems;
		E x = elem<E>(e);
		if(op < elems){ { Sut s; f().add(&x); } model_add(e); }
		else if(op < 2 * elems){ { Sut s; f().add(x); } model_add(e); }
		else if(op < 3 * elems){ bool r; { Sut s; r = f().lookup(&x); } looked(e, r, "lookup(pointer)"); }
		else if(op < 4 * elems){ bool r; { Sut s; r = f().lookup(x); } looked(e, r, "lookup"); }
		else if(op == 4 * elems){ { Sut s; f().clear(); } for(int i = 0; i < bits; ++i) w().bit[i] = false; w().added = 0; w().was_set = false; }
		else {
			if(!sel("C02")) return;
			unsigned char p[bits]; // one byte per index
			int const k = op - 4 * elems - 1;
			for(int i = 0; i < bits; ++i) p[i] = k == 0 ? 0 : k == 1 ? 1 : (i % 2 == 0 || i == bits - 1);
			{ Sut s; f().set(p); }
			for(int i = 0; i < bits; ++i) w().bit[i] = p[i];
			for(int i = 0; i < bits; ++i) p[i] = 1 - p[i];
			w().added = 0; w().was_set = true;
		}
	}
	void check(){
		for(int e = 0; e < elems; ++e){
			E x = elem<E>(e);
			bool r1, r2; { Sut s; r1 = f().lookup(&x); r2 = f().lookup(x); }
			looked(e, r1, "lookup(pointer)"); looked(e, r2, "lookup");
		}
	}
};
template<class E, int bits, int hashes, int elems> void add_job(bool tables){
	job(fmt("bloom bits=%d hashes=%d elems=%d tables=%d size=%d", bits, hashes, elems, tables, (int)sizeof(E)), [=]{ G->prefill = tables ? 0xA5 : 0xFF; Bloom<E, bits, hashes, elems> h(tables); bfs(h, 1000); });
}
void define(){
	add_job<int, 1, 1, 2>(true);
	add_job<int, 2, 2, 2>(true);
	add_job<int, 7, 2, 2>(true);
	add_job<int, 8, 2, 3>(true);
	add_job<int, 9, 1, 3>(true);
	add_job<int, 9, 3, 2>(true);
	add_job<Pair, 16, 2, 3>(true);
	add_job<unsigned char, 17, 2, 3>(true);
	add_job<int, 31, 5, 6>(false);
	add_job<int, 33, 4, 6>(false);
	add_job<Pair, 64, 8, 6>(false);
	add_job<int, 65, 9, 6>(false);
	add_job<unsigned char, 255, 7, 6>(false);
	add_job<int, 256, 3, 6>(false);
	add_job<int, 257, 12, 6>(false);
	add_job<int, 1000, 10, 6>(false);
	add_job<int, 4099, 12, 6>(false);
	add_job<int, 70001, 3, 3>(false);
	add_job<int, 131080, 2, 3>(false);
	if(thorough()){
		add_job<int, 3, 3, 3>(true);
		add_job<Pair, 10, 4, 2>(true);
		add_job<int, 8, 3, 3>(true);
		add_job<int, 12, 2, 4>(true);
	}
}
MC_MAIN(define)
