// C26..C28: the multi-layer perceptron against a textbook implementation.
#include "../mc/mc.hpp"
#include "perceptron.hpp"
using namespace mc;
struct Sigmoid { static double random(){ return rnd(); } static double activation(double x){ return 1 / (1 + std::exp(-x)); } static double derivative(double o){ return o * (1 - o); } };
struct Identity { static double random(){ return rnd(); } static double activation(double x){ return x; } static double derivative(double){ return 1; } };
struct Tanh { static double random(){ return rnd(); } static double activation(double x){ return std::tanh(x); } static double derivative(double o){ return 1 - o * o; } };
struct Leaky { static double random(){ return rnd(); } static double activation(double x){ return x > 0 ? 2 * x : x / 4; } static double derivative(double o){ return o > 0 ? 2 : 0.25; } };

template<int L, int max_size, class Fn> struct Mlp {
	typedef MultiLayerPerceptron<L, max_size, Fn> S;
	enum { N = max_size / 16 + 1 };
	struct World { alignas(16) char sut[sizeof(S)]; double weight[N], out[N]; bool passed; };
	std::vector<int> shape; double rate; bool default_rate = false;
	std::vector<std::vector<double>> inputs, targets; bool setters;
	World& w(){ return *world<World>(); }
	S& f(){ return *reinterpret_cast<S*>(w().sut); }
	size_t size(){ return sizeof(World); }
	int weights(int layers){ int n = 0; for(int l = 1; l < layers; ++l) n += (shape[l - 1] + 1) * shape[l]; return n; }
	int base(int l){ return weights(l); }
	int neurons(){ int n = 0; for(int s : shape) n += s; return n; }
	double pattern(int p, int i){ return p == 0 ? ((i * 7 + 3) % 11 - 5) * 0.25 : p == 1 ? ((i * 5 + 1) % 7) * 0.125 - 0.3 : 1.0 / (i + 2); }
	void init(){
		if(weights(L) > N || neurons() > N){ fprintf(stderr, "the shape does not fit\n"); abort(); }
		auto keep = G->policy; int c = 0; G->menu = {0, 0.125, 0.25, 0.5, 0.6, 0.75, 0.9, 1};
		G->policy = [&](int m){ c++; return (c * 5 + c / 8) % m; };
		{ Sut s; if(default_rate) new (w().sut) S(shape.data()); else new (w().sut) S(shape.data(), rate); }
		G->policy = keep;
		double const* g; { Sut s; g = f().get_weights(); }
		for(int i = 0; i < N; ++i) w().weight[i] = w().out[i] = 0;
		for(int i = 0; i < weights(L); ++i) w().weight[i] = g[i];
		w().passed = false;
	}
	// operations: forward, backward, then the setters: network, layers, neurons
	int forwards(){ return inputs.size(); }
	int backwards(){ return targets.size(); }
	int units(){ int n = 1 + (L - 1); for(int l = 1; l < L; ++l) n += shape[l]; return n; }
	int ops(){ return forwards() + backwards() + (setters ? 2 * units() : 2); }
	std::string describe(int op){
		if(op < forwards()){ std::string s = "feed_forward("; for(double x : inputs[op]) s += fmt("%g ", x); return s + ")"; }
		op -= forwards();
		if(op < backwards()){ std::string s = "backpropagate("; for(double x : targets[op]) s += fmt("%g ", x); return s + ")"; }
		op -= backwards(); int l, n; unit(op / 2, l, n);
		return l == 0 ? "set_weights(all)" : n < 0 ? fmt("set_weights(layer %d)", l) : fmt("set_weights(layer %d, neuron %d)", l, n);
	}
	void unit(int u, int& l, int& n){ l = 0; n = -1; if(u == 0) return; u--; if(u < L - 1){ l = u + 1; return; } u -= L - 1; for(l = 1; u >= shape[l]; ++l) u -= shape[l]; n = u; }
	int at(int l, int n, int i){ return base(l) + n * (shape[l - 1] + 1) + i; }
	int first(int l){ int n = 0; for(int k = 0; k < l; ++k) n += shape[k]; return n; }
	void compare(char const* id, char const* tag, std::string what){
		double const* g; { Sut s; g = f().get_weights(); }
		for(int l = 1; l < L; ++l) for(int n = 0; n < shape[l]; ++n) for(int i = 0; i <= shape[l - 1]; ++i){
			int const k = at(l, n, i);
			CK(id, near(g[k], w().weight[k], 1e-10), tag, "%s: the %s %d of neuron %d of layer %d is %.12f, expected %.12f", what.c_str(), i == shape[l - 1] ? "bias" : "weight", i, n, l, g[k], w().weight[k]);
			w().weight[k] = g[k]; // rounding does not accumulate
		}
	}
	std::vector<double> pass(std::vector<double> const& in){
		std::vector<double> out(neurons());
		for(int i = 0; i < shape[0]; ++i) out[i] = in[i];
		for(int l = 1; l < L; ++l) for(int n = 0; n < shape[l]; ++n){
			double sum = w().weight[at(l, n, shape[l - 1])];
			for(int i = 0; i < shape[l - 1]; ++i) sum += w().weight[at(l, n, i)] * out[first(l - 1) + i];
			out[first(l) + n] = Fn::activation(sum);
		}
		return out;
	}
	void forward(std::vector<double> const& in){
		std::vector<double> x = in, got(shape[L - 1] + 2, 4242.5);
		x.push_back(-77);
		{ Sut s; f().feed_forward(x.data(), got.data()); }
		x.pop_back();
		CK("C26", x == in, "input", "feed_forward changes its input");
		CK("C26", got[shape[L - 1]] == 4242.5 && got[shape[L - 1] + 1] == 4242.5, "overrun", "feed_forward writes more outputs than the last layer has");
		auto out = pass(in);
		for(int n = 0; n < shape[L - 1]; ++n) CK("C26", near(got[n], out[first(L - 1) + n]), "output", "output %d is %.12f, expected %.12f", n, got[n], out[first(L - 1) + n]);
		for(int i = 0; i < neurons(); ++i) w().out[i] = out[i];
		w().passed = true;
	}
	void apply(int op){
		std::string const what = describe(op);
		if(op < forwards()){ forward(inputs[op]); compare("C26", "weights", what); return; }
		op -= forwards();
		if(op < backwards()){
			if(!w().passed) return; // backpropagation follows a forward pass
			std::vector<double> t = targets[op]; double error = 0, got;
			std::vector<double> delta(neurons());
			for(int n = 0; n < shape[L - 1]; ++n){ double const o = w().out[first(L - 1) + n], e = o - t[n]; error += e * e; delta[first(L - 1) + n] = e * Fn::derivative(o); }
			for(int l = L - 2; l >= 0; --l) for(int i = 0; i < shape[l]; ++i){
				double s = 0; for(int n = 0; n < shape[l + 1]; ++n) s += delta[first(l + 1) + n] * w().weight[at(l + 1, n, i)];
				delta[first(l) + i] = s * Fn::derivative(w().out[first(l) + i]);
			}
			for(int l = 1; l < L; ++l) for(int n = 0; n < shape[l]; ++n) for(int i = 0; i <= shape[l - 1]; ++i)
				w().weight[at(l, n, i)] -= (default_rate ? 0.1 : rate) * delta[first(l) + n] * (i == shape[l - 1] ? 1 : w().out[first(l - 1) + i]);
			t.push_back(-5);
			{ Sut s; got = f().backpropagate(t.data()); }
			t.pop_back();
			CK("C27", t == targets[op], "input", "backpropagate changes the targets");
			CK("C27", near(got, error / shape[L - 1]), "error", "backpropagate returns %.12f, expected %.12f", got, error / shape[L - 1]);
			compare("C27", "step", what);
			w().passed = false;
			return;
		}
		op -= backwards();
		int l, n; int const p = op % 2; unit(op / 2, l, n);
		int const from = l == 0 ? 0 : n < 0 ? base(l) : at(l, n, 0), count = l == 0 ? weights(L) : n < 0 ? (shape[l - 1] + 1) * shape[l] : shape[l - 1] + 1;
		std::vector<double> v; for(int i = 0; i < count; ++i) v.push_back(pattern(p, i + 3 * l + n));
		for(int i = 0; i < count; ++i) w().weight[from + i] = v[i];
		v.push_back(999); v.push_back(-999);
		{ Sut s; if(l == 0) f().set_weights(v.data()); else if(n < 0) f().set_weights(l, v.data()); else f().set_weights(l, n, v.data()); }
		compare("C28", "set", what);
		double const* g; { Sut s; g = f().get_weights(); }
		for(int i = 0; i < count; ++i) CK("C28", g[from + i] == v[i], "read back", "%s: weight %d is read back as %.17g, not %.17g", what.c_str(), from + i, g[from + i], v[i]);
	}
	void check(){
		// a pass on a copy gives the output of the current weights, whatever happened before
		if(!sel("C26")) return;
		Snap keep; save(keep);
		forward(inputs[0]); forward(inputs.back());
		restore(keep);
	}
};
template<int L, int max_size, class Fn> void run(char const* name, std::vector<int> shape, double rate, int depth, int len, bool default_rate = false){
	auto make = [=](bool setters){
		Mlp<L, max_size, Fn> h; h.shape = shape; h.rate = rate; h.default_rate = default_rate; h.setters = setters;
		for(int k = 0; k < 3; ++k){ std::vector<double> v; for(int i = 0; i < shape[0]; ++i) v.push_back(k == 0 ? 0 : k == 1 ? 1 - 0.5 * (i % 4) : -0.75 * (i + 1) / shape[0]); h.inputs.push_back(v); }
		for(int k = 0; k < 2; ++k){ std::vector<double> v; for(int i = 0; i < shape[L - 1]; ++i) v.push_back(k == 0 ? (i + 1) % 2 : 0.25 - 0.5 * i); h.targets.push_back(v); }
		return h;
	};
	std::string s; for(int x : shape) s += fmt(" %d", x);
	bool const c28 = sel("C28");
	int const dd = c28 ? std::min(depth, shape.size() > 4 ? 2 : thorough() ? 4 : 3) : depth;
	job(fmt("mlp %s shape%s rate=%g bytes=%d depth=%d", name, s.c_str(), rate, max_size, dd), [=]{ G->prefill = 0xA5; auto h = make(c28); bfs(h, dd); });
	job(fmt("mlp lasso %s shape%s rate=%g length=%d", name, s.c_str(), rate, len), [=]{ G->prefill = 0xA5; auto h = make(c28); lasso(h, c28 ? 0 : 1, 2, len, 1, [](int, uint64_t, int){ return 0; }, 0); });
}
void define(){
	bool const t = thorough(); int const d = t ? 3 : 1, n = t ? 2000 : 300;
	// max_size 16 N - 8 gives exactly N weights and N outputs
	run<2, 16 * 2 - 8, Sigmoid>("sigmoid", {1, 1}, 0.5, 6 + d, n); run<2, 16 * 4 - 8, Identity>("identity", {3, 1}, 0.1, 6 + d, n, true); run<2, 16 * 8 - 8, Tanh>("tanh", {1, 4}, 0.2, 6 + d, n);
	run<2, 16 * 9 - 8, Leaky>("leaky", {2, 3}, 0.05, 6 + d, n); run<2, 200, Sigmoid>("sigmoid", {2, 3}, 0.3, 5 + d, n); run<2, 16 * 12 - 3, Sigmoid>("sigmoid", {3, 3}, 0, 4, n);
	run<3, 16 * 9 - 8, Sigmoid>("sigmoid", {2, 2, 1}, 0.7, 6 + d, n); run<3, 16 * 21 - 8, Identity>("identity", {3, 4, 1}, 0.01, 5 + d, n); run<3, 16 * 14 - 8, Tanh>("tanh", {4, 1, 3}, 0.1, 5 + d, n, true);
	run<3, 16 * 27 - 8, Leaky>("leaky", {1, 5, 3 - 1}, 0.02, 5 + d, n); run<4, 16 * 23 - 8, Sigmoid>("sigmoid", {2, 3, 1, 4 + 1}, 0.4, 5 + d, n); run<4, 16 * 60 - 8, Tanh>("tanh", {5, 2, 6, 3}, 0.1, 4 + d, n);
	run<5, 16 * 10 - 8, Sigmoid>("sigmoid", {1, 1, 1, 1, 1}, 0.9, 6 + d, n); run<5, 1024, Leaky>("leaky", {3, 2, 4, 2, 3}, 0.01, 4 + d, n); run<3, 16 * 500, Sigmoid>("sigmoid", {20, 12, 9}, 0.2, 3, 20);
	run<6, 2048, Tanh>("tanh", {2, 3, 2, 1, 2, 2}, 0.3, 4 + d, n);
}
MC_MAIN(define)
