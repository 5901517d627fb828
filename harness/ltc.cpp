// C07, C08, C09: LTC compression against the samples it was given.
#include "../mc/mc.hpp"
#include "ltc.hpp"
using namespace mc;

template<class V, class T, int eps, int maxv, int minv, int unit, int N> struct Ltc {
	typedef LTC<V, T, eps, maxv, minv, unit> L;
	struct Point { T t; V v; };
	struct World {
		alignas(16) char sut[sizeof(L)];
		alignas(16) char twin[sizeof(L)]; // fed with shifted timestamps
		T now; int given;                  // samples given
		bool transmitted; Point last;      // last transmitted point
		Point first;
		int n; Point s[N];                 // samples not older than the last transmitted point
	};
	std::vector<double> values, gaps, starts; double shift;
	Ltc(std::vector<double> values, std::vector<double> gaps, std::vector<double> starts, double shift) : values(values), gaps(gaps), starts(starts), shift(shift) {}
	World& w(){ return *world<World>(); }
	L& f(){ return *reinterpret_cast<L*>(w().sut); }
	L& twin(){ return *reinterpret_cast<L*>(w().twin); }
	size_t size(){ return sizeof(World); }
	std::string name(){ return fmt("eps=%d max=%d min=%d unit=%d value type of %d bytes (%s)", eps, maxv, minv, unit, (int)sizeof(V), std::is_integral<V>::value ? "integral" : "floating"); }
	double bound(){ return std::is_integral<V>::value ? eps + 1.0 - 1e-9 : eps + (sizeof(V) == 4 ? 2e-3 * std::max(1.0, eps / 100.0) : 1e-6); }
	void init(){
		memset(&w(), 0, sizeof(World));
		{ Sut s; new (w().sut) L(); new (w().twin) L(); }
		w().now = (T)starts[choose(starts.size())];
	}
	int ops(){ return values.size() * gaps.size(); }
	std::string describe(int op){ return fmt("add(+%g, %g)", gaps[op / values.size()], values[op % values.size()]); }
	void segment(Point a, Point b, Point const* s, int n){
		for(int i = 0; i < n; ++i){
			if(s[i].t < a.t || s[i].t > b.t) continue;
			double const line = (double)a.v + ((double)b.v - (double)a.v) * ((double)(s[i].t - a.t) / (double)(b.t - a.t));
			double const err = fabs(line - (double)s[i].v);
			CK("C07", err <= bound(), "error above epsilon", "LTC(%s): sample (%g,%g) is %g away from the line between (%g,%g) and (%g,%g)", name().c_str(), (double)s[i].t, (double)s[i].v, err, (double)a.t, (double)a.v, (double)b.t, (double)b.v);
		}
	}
	// a transmission observed on object o after giving it the samples s[0..n) since the last transmitted point, s[n-1] being the cause
	Point received(L& o, bool has_last, Point last, Point const* s, int n){
		Point p, q;
		{ Sut x; o.get_value_to_transmit(p.t, p.v); o.get_value_to_transmit(q.t, q.v); }
		CK("C08", p.t == q.t && p.v == q.v, "unstable", "LTC(%s): reading the point twice gives two different points", name().c_str());
		if(!has_last) CK("C08", p.t == w().first.t && p.v == w().first.v, "first point", "LTC(%s): the first transmitted point is (%g,%g), the first sample is (%g,%g)", name().c_str(), (double)p.t, (double)p.v, (double)w().first.t, (double)w().first.v);
		else {
			CK("C08", p.t > last.t, "not increasing", "LTC(%s): the point at %g follows the point at %g", name().c_str(), (double)p.t, (double)last.t);
			bool known = false; for(int i = 0; i < n - 1; ++i) if(s[i].t == p.t) known = true;
			CK("C08", known, "unknown timestamp", "LTC(%s): the transmitted timestamp %g is not that of an earlier sample", name().c_str(), (double)p.t);
			segment(last, p, s, n);
		}
		return p;
	}
	// gives jumps to a copy until everything received so far has been transmitted; *next receives the next transmitted point
	void flush(bool checked, Point* next, bool* has_next){
		*has_next = false;
		if(w().given == 0) return;
		L copy(f());
		std::vector<Point> s(w().s, w().s + w().n);
		bool has = w().transmitted; Point last = w().last; T t = w().now; T const end = w().now;
		for(int i = 0; i < 12; ++i){
			t = t + 1;
			V const v = (V)(i % 2 ? maxv : minv);
			s.push_back({t, v});
			int r; { Sut x; r = copy.add(t, v); }
			if(!r) continue;
			Point p;
			if(checked) p = received(copy, has, last, s.data(), s.size());
			else { Sut x; copy.get_value_to_transmit(p.t, p.v); }
			if(!*has_next){ *has_next = true; *next = p; if(!checked) return; }
			has = true; last = p;
			if(last.t >= end) return;
		}
		CK("C07", false, "never transmitted", "LTC(%s): the samples up to %g are still not transmitted after 12 jumps between the extreme values", name().c_str(), (double)end);
		CK("C09", false, "never transmitted", "LTC(%s): the samples up to %g are still not transmitted after 12 jumps between the extreme values", name().c_str(), (double)end);
	}
	void apply(int op){
		T const t = w().now + (T)gaps[op / values.size()];
		V const v = (V)values[op % values.size()];
		Point origin; bool has_origin = false;
		if(sel("C09")) flush(false, &origin, &has_origin);
		w().now = t;
		if(w().given++ == 0) w().first = {t, v};
		if(w().n >= N){ fprintf(stderr, "too many samples\n"); abort(); }
		w().s[w().n++] = {t, v};
		int r, r2;
		{ Sut x; r = f().add(t, v); r2 = twin().add((T)(t + (T)shift), v); }
		CK("C08", !r == !r2, "shift", "LTC(%s): a transmission depends on a shift of the timestamps by %g", name().c_str(), shift);
		if(sel("C09")){
			double lo = -INFINITY, hi = INFINITY; int others = 0; bool exact = has_origin && (unit & (unit - 1)) == 0; // exact: every slope is a short binary fraction, nothing is rounded
			auto brief = [](double x){ return x * 65536 == std::floor(x * 65536) && std::fabs(x) < 1e6; };
			if(has_origin && !brief((double)origin.v)) exact = false;
			if(has_origin) for(int i = 0; i < w().n; ++i){
				Point const p = w().s[i];
				if(!(p.t > origin.t)) continue;
				if(i < w().n - 1) others++;
				double const dt = (double)(p.t - origin.t);
				lo = std::max(lo, (std::max((double)p.v - eps, (double)minv) - (double)origin.v) / dt);
				hi = std::min(hi, (std::min((double)p.v + eps, (double)maxv) - (double)origin.v) / dt);
				if(!brief((std::max((double)p.v - eps, (double)minv) - (double)origin.v) / dt) || !brief((std::min((double)p.v + eps, (double)maxv) - (double)origin.v) / dt)) exact = false;
			}
			bool const fits = !has_origin || others == 0 || lo <= hi;
			double const margin = fabs(hi - lo) / std::max(1.0, std::max(fabs(lo), fabs(hi)));
			if(!(has_origin && others && margin < 1e-9) || exact) CK("C09", fits == !r, r ? "early transmission" : "missing transmission", "LTC(%s): (%g,%g) %s; slopes from (%g,%g) must be in [%g,%g]", name().c_str(), (double)t, (double)v, r ? "is cut off although a line fits" : "is kept although no line fits", has_origin ? (double)origin.t : 0., has_origin ? (double)origin.v : 0., lo, hi);
		}
		if(r){
			Point p = received(f(), w().transmitted, w().last, w().s, w().n), q;
			{ Sut x; twin().get_value_to_transmit(q.t, q.v); }
			CK("C08", q.t == (T)(p.t + (T)shift) && q.v == p.v, "shift", "LTC(%s): with timestamps shifted by %g, (%g,%g) is transmitted instead of (%g,%g)", name().c_str(), shift, (double)q.t, (double)q.v, (double)(p.t + shift), (double)p.v);
			w().transmitted = true; w().last = p;
			int k = 0; for(int i = 0; i < w().n; ++i) if(w().s[i].t >= p.t) w().s[k++] = w().s[i];
			for(int i = k; i < w().n; ++i) memset(&w().s[i], 0, sizeof(Point));
			w().n = k;
		}
		else if(w().transmitted){
			Point p; { Sut x; f().get_value_to_transmit(p.t, p.v); }
			CK("C08", p.t == w().last.t && p.v == w().last.v, "changed", "LTC(%s): the point to transmit changes without a transmission", name().c_str());
		}
	}
	void check(){
		Point p; bool has;
		if(sel_any({"C07", "C08"})) flush(true, &p, &has);
	}
};
template<class V, class T, int eps, int maxv, int minv, int unit> void add_job(std::vector<double> values, std::vector<double> gaps, std::vector<double> starts, double shift, int quick, int deep){
	std::string n = fmt("ltc eps=%d max=%d min=%d unit=%d value=%d%s time=%d%s", eps, maxv, minv, unit, (int)sizeof(V), std::is_integral<V>::value ? "i" : "f", (int)sizeof(T), std::is_integral<T>::value ? "i" : "f");
	int const depth = thorough() ? deep + 1 : quick + 1;
	job(n + fmt(" depth=%d ops=%d", depth, (int)(values.size() * gaps.size())), [=]{ G->prefill = 0xA5; Ltc<V, T, eps, maxv, minv, unit, 16> h(values, gaps, starts, shift); bfs(h, depth, 20000000); });
	job(n + " lasso", [=]{
		Ltc<V, T, eps, maxv, minv, unit, 800> h(values, gaps, {starts[0]}, shift);
		lasso(h, 1, 2, thorough() ? 600 : 100, 1, [](int, uint64_t, int){ return 0; }, 50);
		if(thorough()) lasso(h, 0, 3, 40, 1, [](int, uint64_t, int){ return 0; }, 20);
	});
}
void define(){
	// values: constant, inside and outside the margin, exactly on it, extremes
	add_job<double, int, 2, 32767, -32768, 1>({0, 1, 2, 4, 5, -3}, {1}, {0}, 100, 6, 7);
	add_job<double, int, 2, 32767, -32768, 1>({0, 2, 3.5, -2.25}, {1, 3}, {-7, 5}, 1 << 20, 5, 6);
	add_job<double, double, 1, 32767, -32768, 1>({0, 1, 0.75, -1.5, 10}, {0.25, 2}, {0}, 1024, 4, 5);
	add_job<double, int, 0, 32767, -32768, 1>({0, 1, 2, 3, -1}, {1, 2}, {0}, 64, 4, 6);
	add_job<float, int, 3, 100, -100, 1>({0, 2, 6, 97, 100, -100}, {1, 2}, {1000}, 1000, 4, 5);
	add_job<float, unsigned, 5, 32767, -32768, 10>({0, 5, 10, 20, -11}, {1, 7}, {3000000000.}, 1000000, 4, 5);
	add_job<int, int, 1, 32767, -32768, 1>({0, 1, 2, 3, -2}, {1, 2}, {0, 100}, 1000, 4, 6);
	add_job<int, int, 10, 32767, -32768, 1>({0, 9, 21, -10, 100}, {1, 5}, {1}, 1700000000, 4, 6);
	add_job<int, long long, 4, 1000000, -1000000, 1>({0, 4, 9, 999999, -5}, {1, 1000000}, {1}, 1.7e18, 4, 6);
	add_job<short, int, 7, 32767, -32768, 3>({0, 7, 15, 32767, -32768}, {1, 4}, {0}, 10000, 4, 6);
	add_job<signed char, short, 3, 127, -128, 1>({0, 3, 7, 127, -128}, {1, 2}, {0}, 100, 4, 6);
	add_job<double, long, 20, 500, -500, 1000>({0, 20, 41, 480, 500, -500}, {1, 60}, {0}, 1 << 28, 4, 5);
	add_job<double, unsigned short, 2, 32767, -32768, 1>({0, 3, 6, 9}, {1, 20}, {0}, 5000, 5, 6);
}
MC_MAIN(define)
