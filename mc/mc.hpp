// A small explicit-state / stateless model checker for the header-only classes of OrpailleCC.
//
// The system under test is the real template code of /repo/src.  It lives, together with a reference
// model, in one arena at a fixed address, so that a state is a copy of bytes.  Everything the code asks
// of its environment (random numbers, hashes...) goes through mc::choose(), so that the explorer controls
// and enumerates it.
//
//  bfs()       explicit-state search with deduplication of byte-identical states, all operation sequences
//              and all environment answers up to a depth (or until no new state appears: a fixpoint)
//  stateless() the same without snapshots: every path is re-executed from the start (used with sanitizers)
//  lasso()     every word u.v^k for short u and v and a large k (long histories)
//  dist()      exact propagation of a probability distribution over states (uniformity laws)
#pragma once
#include <cassert>
#include <cmath>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <ctime>
#include <algorithm>
#include <functional>
#include <iostream>
#include <limits>
#include <map>
#include <new>
#include <set>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <vector>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

#if defined(__SANITIZE_ADDRESS__)
#define MC_ASAN 1
#include <sanitizer/asan_interface.h>
#else
#define MC_ASAN 0
#endif

extern "C" char __data_start[], _end[];

namespace mc {

struct Violation { std::string tag, msg; };
struct Step { int op; std::vector<int> choices; };

struct Stats {
	uint64_t states = 0, transitions = 0, executions = 0, checks = 0, choices = 0, fixpoints = 0, complete = 1, maxdepth = 0, traces = 0;
};

struct Engine {
	// environment answers
	std::vector<int> pre;
	std::vector<std::pair<int,int>> taken;
	long max_branch = 1 << 30; // after that many free answers in one step, answers follow `fallback`
	std::function<int(int)> fallback;
	std::function<int(int)> policy; // if set, never branch: answers are decided by the policy
	std::vector<double> menu;
	// arena
	char* arena = nullptr; size_t arena_size = 0; size_t used = 0; size_t base = 0;
	bool in_sut = false;
	// path
	std::vector<Step> trail; Step cur; std::string where;
	std::function<std::vector<Step>()> full_trail;
	std::function<std::string(int)> describe;
	// job
	std::string prop, tier, job, out, replay_file; bool thorough = false;
	std::vector<std::string> known; std::set<std::string> known_hit;
	bool replaying = false; std::vector<Step> replay; std::string replay_word;
	Stats st; int worker_fd = -1;
	uint64_t progress = 0; uint64_t last_progress = 0; int stuck = 0;
	double deadline = 0;
	size_t glob_size = 0;
	std::vector<char> pristine_globals;
	int prefill = 0xA5, alloc_fill = -1; // alloc_fill: what memory newly taken by the code contains
	std::string sample; bool reported = false;
};
inline Engine* G = nullptr;

inline double now(){ timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
inline bool thorough(){ return G->thorough; }
inline bool sel(char const* id){ return G->prop == id; }
inline bool sel_any(std::initializer_list<char const*> l){ for(auto i : l) if(G->prop == i) return true; return false; }
inline bool late(){ return G->deadline > 0 && now() > G->deadline; }

inline std::string fmt(char const* f, ...){
	char b[4096]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); return b;
}

inline std::string join(std::vector<int> const& v){ std::string s; for(int x : v) s += (s.empty() ? "" : ",") + std::to_string(x); return s.empty() ? "-" : s; }
inline std::string esc(std::string s){ for(char& c : s) if(c == '\n' || c == '\t') c = ' '; return s; }

// ---------------------------------------------------------------- answers of the environment
inline int choose(int n){
	bool const s = G->in_sut; G->in_sut = false;
	G->st.choices++;
	int v;
	if(G->policy) v = n > 0 ? ((G->policy(n) % n) + n) % n : 0;
	else if((long)G->taken.size() >= G->max_branch){ v = G->fallback ? ((G->fallback(n) % n) + n) % n : 0; }
	else {
		size_t const p = G->taken.size();
		v = p < G->pre.size() ? G->pre[p] : 0;
		if(v >= n) v = n - 1;
		G->taken.push_back({v, n});
	}
	G->in_sut = s;
	return v;
}
inline double rnd(){ return G->menu[choose((int)G->menu.size())]; }
inline bool next_choices(){ // advance `pre` to the next unexplored answers; false when all are done
	auto& t = G->taken;
	for(int i = (int)t.size() - 1; i >= 0; --i)
		if(t[i].first + 1 < t[i].second){
			G->pre.clear();
			for(int j = 0; j < i; ++j) G->pre.push_back(t[j].first);
			G->pre.push_back(t[i].first + 1);
			return true;
		}
	return false;
}
inline std::vector<int> taken_values(){ std::vector<int> r; for(auto& p : G->taken) r.push_back(p.first); return r; }

struct Sut { bool old; Sut(){ old = G->in_sut; G->in_sut = true; } ~Sut(){ G->in_sut = old; } };

inline std::vector<int> taken_values();
inline void report(std::string const& tag, std::string const& msg){
	if(G->reported) return; G->reported = true; G->in_sut = false;
	std::string path = G->out + "/" + G->prop + "-" + std::to_string(getpid()) + ".replay";
	FILE* f = G->replaying ? nullptr : fopen(path.c_str(), "w");
	if(f){
		fprintf(f, "property %s\njob %s\ntag %s\nmessage %s\nmode %s\n", G->prop.c_str(), G->job.c_str(), esc(tag).c_str(), esc(msg).c_str(), G->where.c_str());
		fflush(f);
		std::vector<Step> t = G->full_trail ? G->full_trail() : G->trail;
		t.push_back({G->cur.op, taken_values()});
		if(t.size() < 100000)
		for(auto& s : t) fprintf(f, "step %d %s # %s\n", s.op, join(s.choices).c_str(), G->describe ? G->describe(s.op).c_str() : "");
		fclose(f);
	}
	std::string line = "V\t" + esc(tag) + "\t" + esc(msg) + "\t" + path + "\n";
	if(G->worker_fd >= 0){ ssize_t r = write(G->worker_fd, line.data(), line.size()); (void)r; }
	if(G->replaying) fprintf(stderr, "VIOLATED: %s: %s\n", tag.c_str(), msg.c_str());
}
// ---------------------------------------------------------------- checks
inline void fail(char const* id, std::string tag, std::string msg){
	if(G->prop != id) return;
	for(auto& k : G->known) if(k == tag){ G->known_hit.insert(tag); return; }
	report(tag, msg); // now, while the objects of the explorer exist
	throw Violation{tag, msg};
}
#define CK(id, cond, tag, ...) do{ mc::G->st.checks++; if(!(cond)) mc::fail(id, tag, mc::fmt(__VA_ARGS__)); }while(0)

inline bool near(double a, double b, double tol = 1e-9){
	if(std::isnan(a) || std::isnan(b)) return std::isnan(a) && std::isnan(b);
	if(a == b) return true;
	if(std::isinf(a) || std::isinf(b)) return false;
	return std::fabs(a - b) <= tol * std::max(1.0, std::max(std::fabs(a), std::fabs(b)));
}

// ---------------------------------------------------------------- arena and snapshots
inline void* arena_alloc(size_t n){
	n = (n + 15) & ~size_t(15);
	if(G->used + n > G->arena_size){ fprintf(stderr, "arena exhausted\n"); abort(); }
	void* p = G->arena + G->used; G->used += n; return p;
}
template<class W> W* world(){ return reinterpret_cast<W*>(G->arena); }

struct Snap { std::vector<char> b; size_t used; };
inline void save(Snap& s){
	s.used = G->used;
	s.b.resize(G->used + G->glob_size);
	memcpy(s.b.data(), G->arena, G->used);
	if(G->glob_size) memcpy(s.b.data() + G->used, __data_start, G->glob_size);
}
inline void restore(Snap const& s){
	G->used = s.used;
	memcpy(G->arena, s.b.data(), s.used);
	if(G->glob_size) memcpy(__data_start, s.b.data() + s.used, G->glob_size);
}
inline void fresh(size_t world_size){
	memset(G->arena, G->prefill, std::max(G->used, world_size) + 64);
	G->used = (world_size + 15) & ~size_t(15);
	if(G->glob_size) memcpy(__data_start, G->pristine_globals.data(), G->glob_size);
}
typedef std::pair<uint64_t,uint64_t> Key;
struct KeyHash { size_t operator()(Key const& k) const { return k.first ^ (k.second * 0x9E3779B97F4A7C15ull); } };
inline Key key_of(std::vector<char> const& b){
	uint64_t h1 = 0x243F6A8885A308D3ull ^ b.size(), h2 = 0x13198A2E03707344ull;
	size_t i = 0; uint64_t w;
	auto mix = [&](uint64_t x){
		h1 = (h1 ^ x) * 0xFF51AFD7ED558CCDull; h1 ^= h1 >> 32;
		h2 = (h2 + x) * 0xC4CEB9FE1A85EC53ull; h2 ^= h2 >> 29; h2 += h1;
	};
	for(; i + 8 <= b.size(); i += 8){ memcpy(&w, &b[i], 8); mix(w); }
	w = 0; if(i < b.size()) memcpy(&w, &b[i], b.size() - i); mix(w); mix(b.size());
	return {h1, h2};
}

// ---------------------------------------------------------------- reports
inline void on_signal(int sig){
	if(sig == SIGVTALRM){
		if(G->progress != G->last_progress){ G->last_progress = G->progress; G->stuck = 0; return; }
		if(++G->stuck < 40) return;
		G->in_sut = false; // 40 s of CPU time inside one operation
		report("hang", "an operation did not return after 40 s of CPU time");
		_exit(3);
	}
	G->in_sut = false;
	signal(sig, SIG_DFL);
	report(std::string("crash:") + strsignal(sig), std::string("the code under test ended the process: ") + strsignal(sig));
	_exit(3);
}

// ---------------------------------------------------------------- explorers
// A harness H provides: size_t size() (bytes of the world at the start of the arena), void init(),
// int ops(), void apply(int op), void check(), std::string describe(int op).
struct Node { int parent; int op; std::vector<int> choices; bool leaf = true; };
inline void sample(std::vector<Step> const& t){ // one of the paths of this run, written out
	if(!G->sample.empty() || !G->describe) return;
	std::string s = G->job + ": ";
	for(auto& x : t){ s += G->describe(x.op); if(!x.choices.empty()) s += "[" + join(x.choices) + "]"; s += "; "; if(s.size() > 600){ s += "..."; break; } }
	G->sample = s;
}

template<class H> void attach(H& h){
	G->describe = [&h](int op){ return op < 0 ? std::string("init") : h.describe(op); };
	G->trail.clear(); G->cur = {-1, {}}; G->pre.clear(); G->taken.clear();
}
template<class H> bool replay_path(H& h){
	if(!G->replaying) return false;
	attach(h);
	size_t const fb = G->max_branch;
	for(size_t i = 0; i < G->replay.size(); ++i){
		Step const& s = G->replay[i];
		G->pre = s.choices; G->taken.clear(); G->cur.op = s.op;
		fprintf(stderr, "  %s [%s]\n", s.op < 0 ? "init" : h.describe(s.op).c_str(), join(s.choices).c_str());
		if(s.op < 0){ fresh(h.size()); h.init(); }
		else h.apply(s.op);
		G->trail.push_back(s);
		h.check();
	}
	(void)fb;
	return true;
}

template<class H> void bfs(H& h, int depth, size_t max_states = 4000000){
	G->where = "bfs";
	if(replay_path(h)) return;
	attach(h);
	std::vector<Node> nodes;
	std::unordered_set<Key, KeyHash> seen;
	std::vector<std::pair<int, Snap>> frontier, next;
	int parent = -1;
	G->full_trail = [&](){
		std::vector<Step> t;
		for(int i = parent; i >= 0; i = nodes[i].parent) t.push_back({nodes[i].op, nodes[i].choices});
		std::reverse(t.begin(), t.end());
		return t;
	};
	Snap tmp;
	size_t held = 0; // bytes of the states that wait
	int d = -1;
	auto visit = [&](int par, int op, std::vector<std::pair<int, Snap>>& into){
		G->progress++;
		G->st.transitions++;
		save(tmp);
		if(!seen.insert(key_of(tmp.b)).second) return;
		G->st.states++;
		h.check();
		nodes.push_back({par, op, taken_values()});
		if(par >= 0) nodes[par].leaf = false;
		if(d + 1 < depth){ into.push_back({(int)nodes.size() - 1, tmp}); held += tmp.b.size(); } // the states of the last level are not expanded
		else if(into.empty()) into.push_back({(int)nodes.size() - 1, Snap()});
	};
	G->pre.clear();
	do{ // initial states
		G->taken.clear(); G->cur.op = -1; parent = -1;
		fresh(h.size());
		h.init();
		visit(-1, -1, frontier);
	}while(next_choices());
	bool complete = true;
	for(d = 0; d < depth && !frontier.empty(); ++d){
		next.clear();
		for(auto& f : frontier){
			if(late() || seen.size() > max_states || held > (size_t(5) << 29)){ complete = false; break; }
			parent = f.first;
			restore(f.second);
			int const n = h.ops();
			for(int op = 0; op < n; ++op){
				G->pre.clear();
				do{
					restore(f.second);
					G->taken.clear(); G->cur.op = op;
					h.apply(op);
					visit(f.first, op, next);
				}while(next_choices());
			}
			held -= f.second.b.size();
			Snap().b.swap(f.second.b);
		}
		if(!complete) break;
		frontier.swap(next);
	}
	for(auto& n : nodes) if(n.leaf) G->st.traces++;
	if(!nodes.empty()){ parent = (int)nodes.size() - 1; sample(G->full_trail()); }
	if(complete && frontier.empty()) G->st.fixpoints++;
	G->st.maxdepth = std::max<uint64_t>(G->st.maxdepth, d);
	if(!complete) G->st.complete = 0;
	G->st.executions++;
	G->full_trail = nullptr;
}

// Without snapshots: each path from the initial state is executed again.
template<class H> void stateless(H& h, int depth, uint64_t max_runs = 1ull << 40){
	G->where = "stateless";
	if(replay_path(h)) return;
	attach(h);
	std::vector<int> pre; // answers of the whole path: the operation at each step, then the answers in it
	uint64_t runs = 0;
	std::vector<std::pair<int,int>> all;
	for(;;){
		if(late() || runs >= max_runs){ G->st.complete = 0; break; }
		all.clear();
		size_t p = 0;
		auto step = [&](int op, std::function<void()> f){
			G->cur.op = op; G->taken.clear();
			G->pre.assign(pre.begin() + std::min(p, pre.size()), pre.end());
			f();
			for(auto& t : G->taken) all.push_back(t);
			p += G->taken.size();
			G->trail.push_back({op, taken_values()});
			G->progress++; G->st.transitions++; G->st.states++;
		};
		G->trail.clear();
		fresh(h.size());
		step(-1, [&]{ h.init(); h.check(); });
		for(int d = 0; d < depth; ++d){
			int const n = h.ops();
			if(n <= 0) break;
			int op = p < pre.size() ? pre[p] : 0;
			if(op >= n) op = n - 1;
			all.push_back({op, n}); p++;
			step(op, [&]{ h.apply(op); h.check(); });
		}
		h.done();
		sample(G->trail);
		runs++; G->st.executions++; G->st.traces++;
		int i = (int)all.size() - 1;
		while(i >= 0 && all[i].first + 1 >= all[i].second) --i;
		if(i < 0) break;
		pre.clear();
		for(int j = 0; j < i; ++j) pre.push_back(all[j].first);
		pre.push_back(all[i].first + 1);
	}
	G->st.maxdepth = std::max<uint64_t>(G->st.maxdepth, depth);
}

// Every word u.v^k (|u| <= mu, 1 <= |v| <= mv) up to `len` operations; answers follow each policy in turn.
template<class H> void lasso(H& h, int mu, int mv, int len, int policies, std::function<int(int, uint64_t, int)> pol, int check_every = 0, int times = 1){ // u is repeated that many times
	attach(h);
	std::vector<int> letters;
	int nops = 0;
	{ G->policy = [](int){ return 0; }; fresh(h.size()); h.init(); nops = h.ops(); G->policy = nullptr; }
	auto word = [&](long idx, int l){ std::vector<int> w; for(int i = 0; i < l; ++i){ w.push_back(idx % nops); idx /= nops; } return w; };
	auto power = [&](int l){ long r = 1; for(int i = 0; i < l; ++i) r *= nops; return r; };
	for(int lu = 0; lu <= mu; ++lu) for(long iu = 0; iu < power(lu); ++iu)
	for(int lv = 1; lv <= mv; ++lv) for(long iv = 0; iv < power(lv); ++iv)
	for(int p = 0; p < policies; ++p){
		if(late()){ G->st.complete = 0; return; }
		std::vector<int> u = word(iu, lu), v = word(iv, lv);
		G->where = "lasso u=" + join(u) + (times > 1 ? fmt("*%d", times) : "") + " v=" + join(v) + " policy=" + std::to_string(p);
		if(G->replaying && G->where != G->replay_word) continue;
		uint64_t count = 0;
		G->policy = [&](int n){ return pol(p, count++, n); };
		fresh(h.size());
		G->trail.clear(); G->cur.op = -1;
		h.init();
		h.check();
		for(int i = 0; i < len; ++i){
			int const op = i < lu * times ? u[i % lu] : v[(i - lu * times) % lv];
			G->cur.op = op;
			if(op >= h.ops()) break;
			h.apply(op);
			G->progress++; G->st.transitions++;
			if(check_every > 0 && (i % check_every == 0 || i < 40 || (i >= lu * times && i < lu * times + 40) || (i & (i + 1)) == 0 || (i & (i - 1)) == 0)) h.check();
		}
		h.check();
		G->policy = nullptr;
		if(G->sample.empty()) G->sample = G->job + ": " + G->where + ", operations " + h.describe(v[0]) + "...";
		G->st.executions++; G->st.states++; G->st.traces++;
	}
	G->policy = nullptr;
}

// Exact law: the answers given by rnd() are equally likely; weights are propagated over merged states.
// at_step(t, weight) is called for every state of the distribution after step t.
template<class H> void dist(H& h, int steps, std::function<void(int, double)> at_step, std::function<void(int)> end_step){
	G->where = "dist";
	if(replay_path(h)) return;
	attach(h);
	typedef std::unordered_map<Key, std::pair<Snap, double>, KeyHash> Map;
	Map cur, nxt;
	Snap tmp;
	G->pre.clear();
	do{
		G->taken.clear(); fresh(h.size()); h.init();
		double w = 1; for(auto& t : G->taken) w /= t.second;
		save(tmp); auto& e = cur[key_of(tmp.b)]; e.first = tmp; e.second += w;
	}while(next_choices());
	for(int t = 0; t < steps; ++t){
		nxt.clear();
		for(auto& kv : cur){
			int const n = h.ops();
			for(int op = 0; op < n; ++op){
				G->pre.clear();
				do{
					restore(kv.second.first);
					G->taken.clear(); G->cur.op = op;
					h.apply(op);
					double w = kv.second.second / n; for(auto& c : G->taken) w /= c.second;
					save(tmp);
					auto& e = nxt[key_of(tmp.b)]; if(e.first.b.empty()){ e.first = tmp; G->st.states++; }
					e.second += w;
					G->progress++; G->st.transitions++;
				}while(next_choices());
			}
		}
		cur.swap(nxt);
		for(auto& kv : cur){ restore(kv.second.first); at_step(t, kv.second.second); }
		end_step(t);
	}
	G->st.traces += cur.size();
	if(G->sample.empty()) G->sample = G->job + fmt(": exact distribution over %d steps, %d states at the end", steps, (int)cur.size());
	G->st.executions++;
	G->st.maxdepth = std::max<uint64_t>(G->st.maxdepth, steps);
}

// ---------------------------------------------------------------- jobs
struct Job { std::string name; std::function<void()> run; };
inline std::vector<Job>& jobs(){ static std::vector<Job>* j = new std::vector<Job>; return *j; }
inline void job(std::string name, std::function<void()> f){ jobs().push_back({name, f}); }

inline void run_job(Job& j){
	G->job = j.name;
	try{ j.run(); }
	catch(Violation& v){ report(v.tag, v.msg); }
	catch(std::bad_alloc&){ G->in_sut = false; G->st.complete = 0; } // the code under test has its own memory
	catch(std::exception& e){ report("exception", e.what()); }
}

inline int main_(int argc, char** argv, void (*define)()){
	G = new Engine;
	int workers = 8; double budget = 600; std::string only;
	for(int i = 1; i + 1 < argc; i += 2){
		std::string a = argv[i], v = argv[i + 1];
		if(a == "--prop") G->prop = v;
		else if(a == "--tier"){ G->tier = v; G->thorough = v == "thorough"; }
		else if(a == "--out") G->out = v;
		else if(a == "--workers") workers = atoi(v.c_str());
		else if(a == "--budget") budget = atof(v.c_str());
		else if(a == "--job") only = v;
		else if(a == "--known") G->known.push_back(v);
		else if(a == "--replay") G->replay_file = v;
	}
	G->arena_size = 8u << 20;
	G->arena = (char*)mmap(MC_ASAN ? nullptr : (void*)0x100000000000ull, G->arena_size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | (MC_ASAN ? 0 : MAP_FIXED_NOREPLACE), -1, 0);
	if(G->arena == MAP_FAILED){ perror("mmap"); return 2; }
	G->deadline = now() + budget;
	define();
	for(auto& j : jobs()) (void)j;
	if(!MC_ASAN){
		G->glob_size = _end - __data_start;
		G->pristine_globals.assign(__data_start, _end);
	}
	struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = on_signal; sa.sa_flags = SA_NODEFER | SA_ONSTACK;
	stack_t ss; ss.ss_sp = malloc(1 << 20); ss.ss_size = 1 << 20; ss.ss_flags = 0; sigaltstack(&ss, nullptr);
	auto handlers = [&]{ for(int s : {SIGABRT, SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGVTALRM}) sigaction(s, &sa, nullptr);
		struct itimerval tv = {{1, 0}, {1, 0}}; setitimer(ITIMER_VIRTUAL, &tv, nullptr);
		if(!MC_ASAN){ struct rlimit rl = {6ull << 30, 6ull << 30}; setrlimit(RLIMIT_AS, &rl); } };
	if(!G->replay_file.empty()){
		FILE* f = fopen(G->replay_file.c_str(), "r"); char line[1 << 20];
		while(f && fgets(line, sizeof line, f)){
			std::string l = line; while(!l.empty() && l.back() == '\n') l.pop_back();
			if(l.compare(0, 4, "job ") == 0) only = l.substr(4);
			if(l.compare(0, 5, "mode ") == 0) G->replay_word = l.substr(5);
			if(l.compare(0, 5, "step ") == 0){
				int op; char ch[1 << 16]; sscanf(l.c_str(), "step %d %65535s", &op, ch);
				Step s{op, {}}; if(ch[0] != '-' ) for(char* p = strtok(ch, ","); p; p = strtok(nullptr, ",")) s.choices.push_back(atoi(p));
				G->replay.push_back(s);
			}
		}
		G->replaying = true; handlers();
		for(auto& j : jobs()) if(j.name == only) run_job(j);
		return 0;
	}
	// pool of worker processes, one per job
	struct W { pid_t pid; int fd; size_t job; std::string buf; double t0; };
	std::vector<W> ws; size_t next = 0; Stats total; uint64_t violations = 0, njobs = 0; std::set<std::string> hit;
	double t0 = now();
	FILE* res = fopen((G->out + "/result.txt").c_str(), "w");
	auto finish = [&](W& w){
		char b[4096]; ssize_t r; while((r = read(w.fd, b, sizeof b)) > 0) w.buf.append(b, r);
		close(w.fd);
		int st; waitpid(w.pid, &st, 0);
		bool ok = false; size_t p = 0;
		while(p < w.buf.size()){
			size_t e = w.buf.find('\n', p); if(e == std::string::npos) break;
			std::string l = w.buf.substr(p, e - p); p = e + 1;
			if(l[0] == 'V'){ fprintf(res, "%s\n", l.c_str()); violations++; ok = true; }
			if(l[0] == 'K') hit.insert(l.substr(2));
			if(l[0] == 'P') fprintf(res, "%s\n", l.c_str());
			if(l[0] == 'S'){ Stats s; sscanf(l.c_str(), "S %lu %lu %lu %lu %lu %lu %lu %lu %lu", &s.states, &s.transitions, &s.executions, &s.checks, &s.choices, &s.fixpoints, &s.complete, &s.maxdepth, &s.traces);
				fprintf(res, "J\t%.1f\t%lu\t%lu\t%s\n", now() - w.t0, s.states, s.transitions, jobs()[w.job].name.c_str()); total.states += s.states; total.transitions += s.transitions; total.executions += s.executions; total.checks += s.checks; total.choices += s.choices; total.fixpoints += s.fixpoints; total.traces += s.traces; if(!s.complete){ total.complete = 0; fprintf(res, "I\t%s\n", jobs()[w.job].name.c_str()); } total.maxdepth = std::max(total.maxdepth, s.maxdepth); ok = true; }
		}
		if(!ok){
			std::string path = G->out + "/" + G->prop + "-job.replay"; FILE* f = fopen(path.c_str(), "w");
			if(f){ fprintf(f, "property %s\njob %s\nmessage the worker ended without an answer (status %d)\n", G->prop.c_str(), jobs()[w.job].name.c_str(), st); fclose(f); }
			bool const killed = WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL; // out of memory: no answer, not a violation
			fprintf(res, "%s\tworker\tjob %s ended without an answer, wait status %d\t%s\n", killed ? "E" : "V", jobs()[w.job].name.c_str(), st, path.c_str()); violations++;
		}
	};
	while(next < jobs().size() || !ws.empty()){
		while(next < jobs().size() && (int)ws.size() < workers && violations == 0){
			if(!only.empty() && jobs()[next].name.find(only) == std::string::npos){ next++; continue; }
			int fd[2]; if(pipe(fd)) return 2;
			fflush(nullptr);
			pid_t pid = fork();
			if(pid == 0){
				close(fd[0]); G->worker_fd = fd[1]; G->st = Stats(); handlers();
				if(!getenv("MC_VERBOSE")){ int dn = open("/dev/null", O_WRONLY); dup2(dn, 1); }
				if(G->glob_size) G->pristine_globals.assign(__data_start, _end);
				run_job(jobs()[next]);
				G->in_sut = false;
				Stats& s = G->st;
				std::string l = fmt("S %lu %lu %lu %lu %lu %lu %lu %lu %lu\n", s.states, s.transitions, s.executions, s.checks, s.choices, s.fixpoints, s.complete, s.maxdepth, s.traces);
				if(!G->sample.empty()) l += "P\t" + esc(G->sample) + "\n";
				for(auto& k : G->known_hit) l += "K\t" + k + "\n";
				ssize_t r = write(fd[1], l.data(), l.size()); (void)r;
				_exit(0);
			}
			close(fd[1]);
			ws.push_back({pid, fd[0], next, "", now()}); njobs++; next++;
		}
		if(ws.empty()) break;
		if(violations && next < jobs().size()) next = jobs().size();
		// wait for any pipe to close
		fd_set rs; FD_ZERO(&rs); int mx = 0; for(auto& w : ws){ FD_SET(w.fd, &rs); mx = std::max(mx, w.fd); }
		if(select(mx + 1, &rs, nullptr, nullptr, nullptr) < 0) continue;
		for(size_t i = 0; i < ws.size();){
			if(FD_ISSET(ws[i].fd, &rs)){
				char b[4096]; ssize_t r = read(ws[i].fd, b, sizeof b);
				if(r > 0){ ws[i].buf.append(b, r); ++i; }
				else { finish(ws[i]); ws.erase(ws.begin() + i); }
			} else ++i;
		}
		if(violations){ for(auto& w : ws){ kill(w.pid, SIGKILL); close(w.fd); waitpid(w.pid, nullptr, 0); } ws.clear(); }
	}
	for(auto& k : hit) fprintf(res, "K\t%s\n", k.c_str());
	fprintf(res, "S\tjobs=%lu\tstates=%lu\ttransitions=%lu\texecutions=%lu\tchecks=%lu\tchoices=%lu\tfixpoints=%lu\tcomplete=%lu\tmaxdepth=%lu\ttraces=%lu\twall=%.3f\n", njobs, total.states, total.transitions, total.executions, total.checks, total.choices, total.fixpoints, total.complete, total.maxdepth, total.traces, now() - t0);
	fclose(res);
	return violations ? 1 : 0;
}
} // namespace mc

#define MC_MAIN(define) int main(int argc, char** argv){ return mc::main_(argc, argv, define); }

// Memory taken by the code under test comes from the arena, so that it belongs to the state.
#if !MC_ASAN
void* operator new(size_t n){ if(mc::G && mc::G->in_sut){ void* p = mc::arena_alloc(n); if(mc::G->alloc_fill >= 0) memset(p, mc::G->alloc_fill, n); return p; } void* p = malloc(n ? n : 1); if(!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n){ return operator new(n); }
inline bool mc_in_arena(void* p){ return mc::G && (char*)p >= mc::G->arena && (char*)p < mc::G->arena + mc::G->arena_size; }
void operator delete(void* p) noexcept { if(!mc_in_arena(p)) free(p); }
void operator delete[](void* p) noexcept { if(!mc_in_arena(p)) free(p); }
void operator delete(void* p, size_t) noexcept { if(!mc_in_arena(p)) free(p); }
void operator delete[](void* p, size_t) noexcept { if(!mc_in_arena(p)) free(p); }
#endif
