#define DRV_MAIN
#include "common.hpp"
#include <deepworks/nn.hpp>
#include <deepworks/model.hpp>
#include <deepworks/serialization.hpp>
#include <deepworks/initializers.hpp>
#include "expression/call_impl.hpp"
#include "expression/placeholder_impl.hpp"
#include <fstream>
#include <set>
#include <unistd.h>
using dw::Shape; using dw::Tensor; using A2 = std::array<int, 2>; using TV = std::vector<Tensor>;
using D = std::vector<double>;
static std::string file(const std::string& n) { const char* d = std::getenv("DRV_TMP"); return std::string(d ? d : ".") + "/" + n; }
static std::string load_bytes(const std::string& p) { std::ifstream f(p, std::ios::binary); std::stringstream s; s << f.rdbuf(); return s.str(); }
static void save_bytes(const std::string& p, const std::string& b) { std::ofstream(p, std::ios::binary) << b; }

// ---- a random acyclic wiring of layers over [B, F] data --------------------------------------
struct Node { int kind; std::vector<int> in; int units; float alpha; std::string name; };    // produces data number index + n_in
enum { RELU, LEAKY, ELU_, SIGMOID, LINEAR, ADD, BN, SOFTMAX, NK };
struct Net { int B, nin; std::vector<int> F; std::vector<Node> ops; std::vector<int> outs; std::vector<dw::Placeholder> ph; std::vector<int> in_order; };
static const char* TYPE[NK] = {"ReLU", "LeakyReLU", "ELU", "Sigmoid", "Linear", "Add", "BatchNorm1D", "Softmax"};
static Net net(Case& c, bool named = true) {
    std::string ord = std::to_string(c.pick("order", 0, 5)); setenv("ADE_STUB_ORDER", ord.c_str(), 1);
    Net n; n.B = c.pick("B", 1, 4); if (n.B > 100) throw Skip{}; n.nin = c.pick("inputs", 1, 3);
    int f = c.pick("W", 1, 4); if (f > 60) throw Skip{};
    for (int i = 0; i < n.nin; ++i) { n.F.push_back(f); n.ph.push_back(dw::Placeholder(Shape{n.B, f})); }
    int k = c.pick("layers", 1, 8); std::set<int> used;
    auto put = [&](Node o) {
        dw::Placeholder p; int i = o.in[0]; int fo = n.F[i]; std::string nm = o.name = (named || c.rng() % 2) ? "layer" + std::to_string(n.ops.size()) : "";
        switch (o.kind) {
        case RELU: p = dw::ReLU(nm)(n.ph[i]); break;
        case LEAKY: p = dw::LeakyReLU(o.alpha, nm)(n.ph[i]); break;
        case ELU_: p = dw::ELU(o.alpha, nm)(n.ph[i]); break;
        case SIGMOID: p = dw::Sigmoid(nm)(n.ph[i]); break;
        case LINEAR: p = dw::Linear(o.units, nm)(n.ph[i]); fo = o.units; break;
        case ADD: p = dw::Add(nm)(n.ph[i], n.ph[o.in[1]]); break;
        case BN: p = dw::BatchNorm1D(0.125f, 0.25f, nm)(n.ph[i]); break;
        case SOFTMAX: p = dw::Softmax(nm)(n.ph[i]); break;
        }
        for (int a : o.in) used.insert(a);
        n.ph.push_back(p); n.F.push_back(fo); n.ops.push_back(o);
    };
    for (int j = 0; j < k; ++j) {
        Node o; o.kind = c.rng() % NK; o.alpha = (float)(1 + c.rng() % 60) / 64; o.units = c.rng() % 2 ? f : 1 + (int)(c.rng() % 4);
        int m = (int)n.ph.size(), a = c.rng() % 3 ? m - 1 - (int)(c.rng() % std::min(m, 2)) : (int)(c.rng() % m); o.in = {a};
        if (o.kind == ADD) { std::vector<int> same; for (int b = 0; b < m; ++b) if (n.F[b] == n.F[a]) same.push_back(b); o.in.push_back(same[c.rng() % same.size()]); if (c.rng() % 2) std::swap(o.in[0], o.in[1]); }
        if (o.kind == BN && n.B < 2) o.kind = RELU;
        put(o);
    }
    for (int i = 0; i < n.nin; ++i) if (!used.count(i)) { Node o; o.kind = SIGMOID; o.units = 0; o.alpha = 0; o.in = {i}; put(o); }   // every input is used
    std::vector<int> leaf; for (int d = n.nin; d < (int)n.ph.size(); ++d) if (!used.count(d)) leaf.push_back(d);
    std::shuffle(leaf.begin(), leaf.end(), c.rng); n.outs = leaf;
    for (int i = 0; i < n.nin; ++i) n.in_order.push_back(i);
    std::shuffle(n.in_order.begin(), n.in_order.end(), c.rng);
    return n;
}
static std::vector<dw::Placeholder> sel(const Net& n, const std::vector<int>& v) { std::vector<dw::Placeholder> r; for (int i : v) r.push_back(n.ph[i]); return r; }
static dw::Model model(const Net& n) { return dw::Model(sel(n, n.in_order), sel(n, n.outs)); }
struct Par { D w, b, g, be, rm, rv; };
struct Ref {                      // reference evaluation in double
    const Net& n; std::vector<Par> P; std::vector<D> x, gx; std::vector<D> xc, sd; std::vector<Par> G; bool train = true;
    Ref(const Net& m) : n(m), P(m.ops.size()), G(m.ops.size()) {}
    void forward(const std::vector<D>& in) {
        int B = n.B; x.assign(n.ph.size(), {}); xc.assign(n.ops.size(), {}); sd.assign(n.ops.size(), {});
        for (int i = 0; i < n.nin; ++i) x[i] = in[i];
        for (size_t k = 0; k < n.ops.size(); ++k) {
            auto& o = n.ops[k]; auto& a = x[o.in[0]]; int F = n.F[o.in[0]]; int fo = n.F[n.nin + k]; D y((size_t)B * fo);
            switch (o.kind) {
            case RELU: for (size_t i = 0; i < y.size(); ++i) y[i] = a[i] > 0 ? a[i] : 0; break;
            case LEAKY: for (size_t i = 0; i < y.size(); ++i) y[i] = a[i] > 0 ? a[i] : o.alpha * a[i]; break;
            case ELU_: for (size_t i = 0; i < y.size(); ++i) y[i] = a[i] > 0 ? a[i] : o.alpha * (std::exp(a[i]) - 1); break;
            case SIGMOID: for (size_t i = 0; i < y.size(); ++i) y[i] = 1 / (1 + std::exp(-a[i])); break;
            case ADD: for (size_t i = 0; i < y.size(); ++i) y[i] = a[i] + x[o.in[1]][i]; break;
            case LINEAR: for (int b = 0; b < B; ++b) for (int u = 0; u < fo; ++u) { double s = P[k].b[u]; for (int f = 0; f < F; ++f) s += a[b * F + f] * P[k].w[u * F + f]; y[b * fo + u] = s; } break;
            case SOFTMAX: for (int b = 0; b < B; ++b) { double m = a[b * F], s = 0; for (int f = 0; f < F; ++f) m = std::max(m, a[b * F + f]); for (int f = 0; f < F; ++f) s += y[b * F + f] = std::exp(a[b * F + f] - m); for (int f = 0; f < F; ++f) y[b * F + f] /= s; } break;
            case BN: {
                xc[k].resize((size_t)B * F); sd[k].resize(F);
                for (int f = 0; f < F; ++f) {
                    double m = 0, v = 0;
                    if (train) { for (int b = 0; b < B; ++b) m += a[b * F + f] / B; for (int b = 0; b < B; ++b) v += (a[b * F + f] - m) * (a[b * F + f] - m) / B;
                        P[k].rm[f] = P[k].rm[f] * 0.25 + m * 0.75; P[k].rv[f] = P[k].rv[f] * 0.25 + v * 0.75; }
                    else { m = P[k].rm[f]; v = P[k].rv[f]; }
                    sd[k][f] = std::sqrt(v + 0.125);
                    for (int b = 0; b < B; ++b) { xc[k][b * F + f] = a[b * F + f] - m; y[b * F + f] = xc[k][b * F + f] / sd[k][f] * P[k].g[f] + P[k].be[f]; }
                }
            } }
            x[n.nin + k] = y;
        }
    }
    void backward(const std::vector<D>& gout) {
        int B = n.B; gx.assign(n.ph.size(), {}); for (size_t d = 0; d < x.size(); ++d) gx[d].assign(x[d].size(), 0);
        for (size_t j = 0; j < n.outs.size(); ++j) gx[n.outs[j]] = gout[j];
        for (size_t k = n.ops.size(); k-- > 0;) {
            auto& o = n.ops[k]; auto& a = x[o.in[0]]; auto& y = x[n.nin + k]; auto& gy = gx[n.nin + k]; auto& ga = gx[o.in[0]]; int F = n.F[o.in[0]], fo = n.F[n.nin + k];
            switch (o.kind) {
            case RELU: for (size_t i = 0; i < y.size(); ++i) ga[i] += a[i] > 0 ? gy[i] : 0; break;
            case LEAKY: for (size_t i = 0; i < y.size(); ++i) ga[i] += a[i] > 0 ? gy[i] : o.alpha * gy[i]; break;
            case ELU_: for (size_t i = 0; i < y.size(); ++i) ga[i] += a[i] > 0 ? gy[i] : o.alpha * std::exp(a[i]) * gy[i]; break;
            case SIGMOID: for (size_t i = 0; i < y.size(); ++i) ga[i] += gy[i] * y[i] * (1 - y[i]); break;
            case ADD: { auto& gb = gx[o.in[1]]; for (size_t i = 0; i < y.size(); ++i) { ga[i] += gy[i]; gb[i] += gy[i]; } break; }
            case LINEAR: G[k].w.assign((size_t)fo * F, 0); G[k].b.assign(fo, 0);
                for (int b = 0; b < B; ++b) for (int u = 0; u < fo; ++u) { G[k].b[u] += gy[b * fo + u]; for (int f = 0; f < F; ++f) { G[k].w[u * F + f] += gy[b * fo + u] * a[b * F + f]; ga[b * F + f] += gy[b * fo + u] * P[k].w[u * F + f]; } } break;
            case SOFTMAX: for (int b = 0; b < B; ++b) { double s = 0; for (int f = 0; f < F; ++f) s += gy[b * F + f] * y[b * F + f]; for (int f = 0; f < F; ++f) ga[b * F + f] += y[b * F + f] * (gy[b * F + f] - s); } break;
            case BN: G[k].g.assign(F, 0); G[k].be.assign(F, 0);
                for (int f = 0; f < F; ++f) { double s = 0, t = 0, sx = 0;
                    for (int b = 0; b < B; ++b) { double h = xc[k][b * F + f] / sd[k][f]; G[k].g[f] += gy[b * F + f] * h; G[k].be[f] += gy[b * F + f]; double q = gy[b * F + f] * P[k].g[f]; s += q; t += q * h; sx += h; }
                    for (int b = 0; b < B; ++b) { double h = xc[k][b * F + f] / sd[k][f]; ga[b * F + f] += (gy[b * F + f] * P[k].g[f] * B - s - h * t) / (B * sd[k][f]); } } break;
            }
        }
    }
};
static std::string pname(const Net& n, size_t k, const char* p) { return n.ops[k].name + "." + p; }
static void sync(Case& c, const Net& n, dw::Model& m, Ref& r) {     // fresh random parameters into model and reference
    auto& ps = m.params(); auto& st = m.state();
    for (size_t k = 0; k < n.ops.size(); ++k) {
        auto take = [&](const char* p, D& d) { require(("parameter " + pname(n, k, p)).c_str(), ps.count(pname(n, k, p))); Tensor t = ps.at(pname(n, k, p)).data(); c.fill(t); d = c.copy(t); };
        if (n.ops[k].kind == LINEAR) { take("weight", r.P[k].w); take("bias", r.P[k].b); }
        if (n.ops[k].kind == BN) { take("gamma", r.P[k].g); take("beta", r.P[k].be); r.P[k].rm = c.copy(st.at(pname(n, k, "running_mean"))); r.P[k].rv = c.copy(st.at(pname(n, k, "running_var"))); }
    }
}
static bool kink(const Net& n, const Ref& r) { for (auto& o : n.ops) if (o.kind <= ELU_) for (double v : r.x[o.in[0]]) if (std::fabs(v) < 1e-3) return true; return false; }
static void step(Case& c, const Net& n, dw::Model& m, Ref& r, bool back, bool single) {
    std::vector<D> in(n.nin); TV X, Y, GY; std::vector<D> gout;
    for (int i : n.in_order) { X.push_back(c.tensor({n.B, n.F[i]})); in[i] = c.copy(X.back()); }
    for (int d : n.outs) { Y.push_back(c.tensor({n.B, n.F[d]})); GY.push_back(c.tensor({n.B, n.F[d]})); gout.push_back(c.copy(GY.back())); }
    r.forward(in);
    if (single) m.forward(X[0], Y[0]); else m.forward(X, Y);
    for (size_t j = 0; j < n.outs.size(); ++j) for (size_t i = 0; i < Y[j].total(); ++i) near("output", Y[j].data()[i], r.x[n.outs[j]][i], (long)i, 2e-3);
    for (size_t i = 0; i < X.size(); ++i) same("input unchanged", X[i], in[n.in_order[i]]);
    for (size_t k = 0; k < n.ops.size(); ++k) if (n.ops[k].kind == BN) { same("running mean", m.state().at(pname(n, k, "running_mean")), r.P[k].rm); }
    if (!back || kink(n, r)) return;
    r.backward(gout);
    if (single) m.backward(X[0], Y[0], GY[0]); else m.backward(X, Y, GY);
    auto grad = [&](size_t k, const char* p, const D& w) { auto& t = m.params().at(pname(n, k, p)).grad(); double mx = 1; for (double v : w) mx = std::max(mx, std::fabs(v)); require("gradient size", t.total() == w.size()); for (size_t i = 0; i < w.size(); ++i) if (!(std::fabs(t.data()[i] - w[i]) <= 5e-3 * mx)) near(("gradient of " + std::string(TYPE[n.ops[k].kind]) + " " + p).c_str(), t.data()[i], w[i], (long)i, 0); };
    for (size_t k = 0; k < n.ops.size(); ++k) {
        if (n.ops[k].kind == LINEAR) { grad(k, "weight", r.G[k].w); grad(k, "bias", r.G[k].b); }
        if (n.ops[k].kind == BN) { grad(k, "gamma", r.G[k].g); grad(k, "beta", r.G[k].be); }
    }
    for (size_t j = 0; j < GY.size(); ++j) same("output gradient unchanged", GY[j], gout[j]);
}
TEST_CASE("C24", "training steps") {
    Net n = net(c); dw::Model m = model(n); m.compile(); Ref r(n); sync(c, n, m, r);
    bool single = n.nin == 1 && n.outs.size() == 1 && c.pick("single", 0, 1);
    for (long k = 0, s = c.pick("steps", 1, 4); k < s; ++k) step(c, n, m, r, c.rng() % 4 != 0, single);
    m.train(false); r.train = false; step(c, n, m, r, false, single);
    m.train(true); r.train = true; step(c, n, m, r, true, single);
}
TEST_CASE("C24", "layers and parameters") {
    Net n = net(c); dw::Model m = model(n); auto& ls = m.layers();
    require("one layer per operation", ls.size() == n.ops.size());
    std::map<std::string, size_t> pos; size_t np = 0;
    for (size_t i = 0; i < ls.size(); ++i) { require("layer names are distinct", !pos.count(ls[i].name())); pos[ls[i].name()] = i; }
    for (size_t k = 0; k < n.ops.size(); ++k) {
        auto& o = n.ops[k]; require("layer listed", pos.count(o.name)); auto l = m.getLayer(o.name); require("layer type", l.type() == TYPE[o.kind]);
        require("one input per argument", l.inputs().size() == o.in.size()); require("one output", l.outputs().size() == 1);
        std::multiset<const void*> got, want; for (auto& p : l.inputs()) got.insert(p.m_impl.get()); for (int a : o.in) want.insert(n.ph[a].m_impl.get());
        require("layer inputs", got == want); require("layer output", l.outputs()[0].m_impl == n.ph[n.nin + k].m_impl);
        for (int a : o.in) if (a >= n.nin) require("layers are listed after the layers they depend on", pos.at(n.ops[a - n.nin].name) < pos.at(o.name));
        np += o.kind == LINEAR || o.kind == BN ? 2 : 0;
    }
    require("every parameter once", m.params().size() == np);
    require("unknown layer refused", throws([&] { m.getLayer("none"); }));
}
TEST_CASE("C24", "generated names") {
    Net n = net(c, false); dw::Model m = model(n); std::set<std::string> s;
    for (auto& l : m.layers()) { require("a layer without a name", !l.name().empty()); require("names are distinct", s.insert(l.name()).second); }
    for (size_t k = 0; k < n.ops.size(); ++k) if (!n.ops[k].name.empty()) require("a given name is kept", m.getLayer(n.ops[k].name).type() == TYPE[n.ops[k].kind]);
}
TEST_CASE("C24", "equal names refused") {
    dw::Placeholder in(Shape{2, 3}); auto a = dw::ReLU("same")(in); auto b = dw::Sigmoid(c.pick("how", 0, 1) ? "same" : "other")(a);
    bool twice = c.fixed.size() ? c.fixed["how"] : b.impl().call.value().impl().info.name() == "same";
    require("two layers of one name", throws([&] { dw::Model(in, b); }) == twice);
}
// ---- state ----------------------------------------------------------------------------------
static bool bits(const Tensor& a, const Tensor& b) { return a.shape() == b.shape() && !std::memcmp(a.data(), b.data(), a.total() * sizeof(float)); }
static dw::Model::StateDict rstate(Case& c, int lo = 0) {
    dw::Model::StateDict s; long k = c.pick("entries", lo, 6);
    for (long i = 0; i < k; ++i) { Shape sh; for (int r = 1 + c.rng() % 4, j = 0; j < r; ++j) sh.push_back(1 + (int)(c.rng() % 5)); Tensor t(sh);
        for (size_t j = 0; j < t.total(); ++j) { unsigned u = (unsigned)c.rng(); if (c.rng() % 4) t.data()[j] = c.val(); else std::memcpy(t.data() + j, &u, 4); }
        std::string nm = "l" + std::to_string(i) + std::string(c.rng() % 20, 'x'); if (c.rng() % 4 == 0) nm += std::string(1, '\0') + "z"; if (i == 0 && c.rng() % 5 == 0) nm = ""; s.emplace(nm, t); }
    return s;
}
static dw::Model::StateDict other(Case& c, const dw::Model::StateDict& s) { dw::Model::StateDict o; for (auto& [k, t] : s) o.emplace(k, c.tensor(t.shape())); return o; }
TEST_CASE("C22", "state dictionaries") {
    auto s = rstate(c); auto o = other(c, s); std::map<std::string, float*> where; for (auto& [k, t] : o) where[k] = t.data();
    std::string p = file("s.bin"); dw::save_state(s, p); dw::load_state(o, p);
    require("number of entries", o.size() == s.size());
    for (auto& [k, t] : s) { require("name kept", o.count(k)); require("restored bit for bit", bits(t, o.at(k))); require("restored in place", o.at(k).data() == where[k]); }
}
TEST_CASE("C22", "models") {
    Net n = net(c); Net n2 = n; dw::Model m = model(n); Ref r(n); sync(c, n, m, r);
    for (auto& [k, t] : m.state()) c.fill(t);
    auto cfg = m.cfg(); dw::Model q = dw::Model::Build(cfg);
    std::string p = file("m.bin"); dw::save_state(m.state(), p); dw::load_state(q.state(), p);
    size_t np = 0; for (auto& [k, v] : m.params()) { ++np; require("parameter restored", q.params().count(k) && bits(v.data(), q.params().at(k).data())); }
    for (auto& l : m.layers()) { auto l2 = q.getLayer(l.name()); for (auto& [k, b] : l.buffers()) { ++np; require("buffer restored", bits(b, l2.buffers().at(k))); } for (auto& [k, b] : l.params()) require("layer parameter restored", bits(b.data(), l2.params().at(k).data())); }
    require("every parameter and buffer is part of the state", m.state().size() == np);
    for (auto& [k, v] : m.params()) require("the state is the parameter", m.state().at(k).data() == v.data().data());
}
TEST_CASE("C22", "other states refused") {
    auto s = rstate(c, 1); std::string p = file("s.bin"); dw::Model::StateDict o = other(c, s);
    std::vector<std::string> ks; for (auto& [k, t] : s) ks.push_back(k); std::string k = ks[c.rng() % ks.size()];
    dw::save_state(s, p);
    switch (c.pick("how", 0, 6)) {
    case 0: o.erase(k); break;                                                                  // a name the model does not have
    case 1: { auto s2 = s; s2.erase(k); dw::save_state(s2, p); break; }                         // a name the file does not have
    case 2: { Tensor t = o.at(k); o.erase(k); o.emplace(k + "q", t); break; }                   // renamed
    case 3: { Shape sh = o.at(k).shape(); sh[c.rng() % sh.size()] += 1; o.at(k) = c.tensor(sh); break; }
    case 4: { Shape sh = o.at(k).shape(); sh.push_back(1); o.at(k) = c.tensor(sh); break; }     // same size, other rank
    case 5: { Shape sh = o.at(k).shape(), q = sh; std::reverse(q.begin(), q.end()); if (q == sh) throw Skip{}; o.at(k) = c.tensor(q); break; }
    case 6: p = file("missing.bin"); break;
    }
    require("a state file for other names or shapes is refused", throws([&] { dw::load_state(o, p); }));
}
TEST_CASE("C22", "truncated files refused") {
    auto s = rstate(c, 0); auto o = other(c, s); std::string p = file("s.bin"); dw::save_state(s, p);
    auto b = load_bytes(p); long how = c.pick("how", 0, 2); size_t cut = how == 0 ? b.size() - 1 - c.rng() % std::min<size_t>(b.size(), 16) : c.rng() % b.size();
    save_bytes(p, b.substr(0, cut));
    require("a truncated state file is refused", throws([&] { dw::load_state(o, p); }));
}
TEST_CASE("C22", "other files refused") {
    Net n = net(c); dw::Model m = model(n); std::string p = file("x.bin");
    if (c.pick("how", 0, 1)) { dw::save_cfg(m.cfg(), p); require("a configuration is no state", throws([&] { dw::load_state(m.state(), p); })); }
    else { dw::save_state(m.state(), p); require("a state is no configuration", throws([&] { dw::load_cfg(p); })); }
}
TEST_CASE("C22", "unwritable path refused") {
    auto s = rstate(c); Net n = net(c); dw::Model m = model(n); std::string p = file("no/such/dir.bin");
    switch (c.pick("what", 0, 2)) { case 0: require("a state is lost", throws([&] { dw::save_state(s, p); })); break; case 1: require("a configuration is lost", throws([&] { dw::save_cfg(m.cfg(), p); })); break; case 2: require("a model is lost", throws([&] { dw::save(m, p); })); }
}
// ---- configuration --------------------------------------------------------------------------
static bool attr_eq(const dw::Attribute& a, const dw::Attribute& b) {
    if (a.type() != b.type() || a.shape() != b.shape()) return false;
    bool arr = a.shape() == dw::AttrShape::ARRAY2, in = a.type() == dw::AttrType::INT;
    if (arr) return in ? a.get<A2>() == b.get<A2>() : !std::memcmp(&a.get<std::array<float, 2>>(), &b.get<std::array<float, 2>>(), 8);
    return in ? a.get<int>() == b.get<int>() : !std::memcmp(&a.get<float>(), &b.get<float>(), 4);
}
static void attrs_eq(const dw::Attributes& a, const dw::Attributes& b) { require("number of attributes", a.size() == b.size()); for (auto& [k, v] : a) require("attribute kept", b.count(k) && attr_eq(v, b.at(k))); }
static void same_cfg(const dw::Model::Config& a, const dw::Model::Config& b) {
    require("input ids", a.input_ids == b.input_ids); require("output ids", a.output_ids == b.output_ids);
    require("number of placeholders", a.ph_map.size() == b.ph_map.size());
    for (auto& [i, p] : a.ph_map) require("placeholder", b.ph_map.count(i) && b.ph_map.at(i).id == p.id && b.ph_map.at(i).shape == p.shape);
    require("number of operations", a.sorted_ops.size() == b.sorted_ops.size());
    for (size_t k = 0; k < a.sorted_ops.size(); ++k) { auto &x = a.sorted_ops[k], &y = b.sorted_ops[k];
        require("operation name", x.name == y.name); require("operation type", x.type == y.type); require("operation inputs", x.in_ids == y.in_ids); require("operation outputs", x.out_ids == y.out_ids); attrs_eq(x.attrs, y.attrs); }
}
static dw::Model::Config rcfg(Case& c) {
    dw::Model::Config g; auto ids = [&](std::vector<int>& v, int hi) { for (int k = c.rng() % (hi + 1); k-- > 0;) v.push_back((int)(c.rng() % 1000) - 5); };
    ids(g.input_ids, 4); ids(g.output_ids, 4);
    for (int k = c.pick("ph", 0, 5); k-- > 0;) { int id = (int)(c.rng() % 4000000000u); Shape s; for (int j = c.rng() % 5; j-- > 0;) s.push_back((int)(c.rng() % 2000) - 1); g.ph_map.emplace(id, dw::Model::Config::PlaceholderInfo{s, id}); }
    auto word = [&] { std::string s; for (int j = c.rng() % 30; j-- > 0;) s += (char)c.rng(); return s; };
    for (int k = c.pick("ops", 0, 5); k-- > 0;) { dw::Model::Config::OperationInfo o; o.name = word(); o.type = word(); ids(o.in_ids, 3); ids(o.out_ids, 3);
        for (int j = c.rng() % 5; j-- > 0;) switch (c.rng() % 4) { case 0: o.attrs.emplace(word(), (int)c.rng()); break; case 1: o.attrs.emplace(word(), c.val() * 0.1f); break; case 2: o.attrs.emplace(word(), A2{(int)c.rng(), (int)c.rng()}); break; case 3: o.attrs.emplace(word(), std::array<float, 2>{c.val(), c.val() / 3}); break; }
        g.sorted_ops.push_back(o); }
    return g;
}
TEST_CASE("C23", "configurations") { auto g = rcfg(c); std::string p = file("c.bin"); dw::save_cfg(g, p); same_cfg(g, dw::load_cfg(p)); }
TEST_CASE("C23", "truncated configurations refused") {
    auto g = rcfg(c); std::string p = file("c.bin"); dw::save_cfg(g, p); auto b = load_bytes(p);
    size_t cut = c.pick("how", 0, 1) ? b.size() - 1 - c.rng() % std::min<size_t>(b.size(), 9) : c.rng() % b.size(); save_bytes(p, b.substr(0, cut));
    require("a truncated configuration is refused", throws([&] { dw::load_cfg(p); }));
}
TEST_CASE("C23", "arrays of another length refused") {
    dw::Model::Config g; dw::Model::Config::OperationInfo o; o.name = "n"; o.type = "t"; bool fl = c.pick("float", 0, 1);
    if (fl) o.attrs.emplace("k", std::array<float, 2>{1, 2}); else o.attrs.emplace("k", A2{1, 2});
    g.sorted_ops.push_back(o); std::string p = file("c.bin"); dw::save_cfg(g, p); auto b = load_bytes(p);
    size_t at = b.size() - 16; unsigned long k; std::memcpy(&k, b.data() + at, 8); if (k != 2) throw Skip{};      // another layout: not applicable
    k = (unsigned long)c.choose("length", {0, 1, 3, 64}); std::memcpy(&b[at], &k, 8); b += std::string(400, 'a'); save_bytes(p, b);
    require("an array of another length is refused", throws([&] { dw::load_cfg(p); }));
}
TEST_CASE("C23", "a missing file is refused") { require("a missing configuration is refused", throws([&] { dw::load_cfg(file("none.bin")); })); require("a missing model is refused", throws([&] { dw::load(file("none.bin")); })); }
static void equivalent(Case& c, const Net& n, dw::Model& m, dw::Model& q) {       // q was built from m's configuration
    require("number of layers", m.layers().size() == q.layers().size());
    std::map<const void*, const void*> to; auto link = [&](const dw::Placeholder& a, const dw::Placeholder& b) { auto r = to.emplace(a.m_impl.get(), b.m_impl.get()); require("wiring", r.first->second == b.m_impl.get()); require("placeholder shape", a.shape() == b.shape()); };
    require("number of inputs", m.inputs().size() == q.inputs().size()); require("number of outputs", m.outputs().size() == q.outputs().size());
    for (size_t i = 0; i < m.inputs().size(); ++i) link(m.inputs()[i], q.inputs()[i]);
    for (size_t i = 0; i < m.outputs().size(); ++i) link(m.outputs()[i], q.outputs()[i]);
    for (auto& l : m.layers()) { auto k = q.getLayer(l.name()); require("layer type", k.type() == l.type());
        auto& A = l.outputs()[0].impl().call.value().impl(); auto& B = k.outputs()[0].impl().call.value().impl();
        link(l.outputs()[0], k.outputs()[0]); require("number of arguments", A.args.size() == B.args.size());
        for (size_t i = 0; i < A.args.size(); ++i) link(A.args[i], B.args[i]);
        attrs_eq(A.info.impl().attrs, B.info.impl().attrs); }
    std::set<const void*> img; for (auto& [a, b] : to) require("two data nodes became one", img.insert(b).second);
    // same function: with the same state, the same outputs
    Ref r(n); sync(c, n, m, r); for (auto& [k, t] : m.state()) { require("state name", q.state().count(k)); Tensor d = q.state().at(k); t.copyTo(d); }
    m.compile(); q.compile();
    std::vector<D> in(n.nin); TV X, Y, Z; for (int i : n.in_order) { X.push_back(c.tensor({n.B, n.F[i]})); } for (int d : n.outs) { Y.push_back(c.tensor({n.B, n.F[d]})); Z.push_back(c.tensor({n.B, n.F[d]})); }
    m.forward(X, Y); q.forward(X, Z);
    for (size_t j = 0; j < Y.size(); ++j) for (size_t i = 0; i < Y[j].total(); ++i) near("the rebuilt model computes something else", Z[j].data()[i], Y[j].data()[i], (long)i);
}
TEST_CASE("C23", "models") {
    Net n = net(c); dw::Model m = model(n); std::string p = file("c.bin");
    dw::save_cfg(m.cfg(), p); auto g = dw::load_cfg(p); same_cfg(m.cfg(), g);
    dw::Model q = dw::Model::Build(g); equivalent(c, n, m, q);
}
TEST_CASE("C23", "whole models") {
    Net n = net(c); dw::Model m = model(n); for (auto& [k, t] : m.state()) c.fill(t);
    std::string p = file("w.bin"); dw::save(m, p); dw::Model q = dw::load(p);
    for (auto& [k, t] : m.state()) require("state restored", q.state().count(k) && bits(t, q.state().at(k)));
    equivalent(c, n, m, q);
}
static void every(Case& c, dw::Placeholder out, dw::Placeholder in) {
    dw::Model m(in, out); std::string p = file("e.bin"); dw::save(m, p); dw::Model q = dw::load(p);
    auto& a = m.layers()[0]; auto& b = q.layers()[0]; require("type", a.type() == b.type()); require("name", a.name() == b.name()); require("output shape", m.outputs()[0].shape() == q.outputs()[0].shape());
    attrs_eq(a.outputs()[0].impl().call.value().impl().info.impl().attrs, b.outputs()[0].impl().call.value().impl().info.impl().attrs);
    for (auto& [k, t] : m.state()) require("state", bits(t, q.state().at(k)));
}
TEST_CASE("C23", "every kind of layer") {
    dw::Placeholder i2(Shape{2, 5}), i4(Shape{2, 3, 6, 7}); A2 k{(int)c.pick("kh", 1, 3), (int)c.pick("kw", 1, 3)}, p{(int)(c.rng() % k[0]), (int)(c.rng() % k[1])}, s{(int)c.pick("sh", 1, 3), (int)c.pick("sw", 1, 3)}; float al = (float)(1 + c.rng() % 100) / 101, e = (float)(1 + c.rng() % 100) / 1001;
    switch (c.pick("kind", 0, 11)) {
    case 0: every(c, dw::Linear(1 + c.rng() % 9, "n")(i2), i2); break; case 1: every(c, dw::ReLU("n")(i2), i2); break;
    case 2: every(c, dw::Softmax("n")(i2), i2); break; case 3: every(c, dw::BatchNorm1D(e, al, "n")(i2), i2); break;
    case 4: every(c, dw::ELU(al, "n")(i2), i2); break; case 5: every(c, dw::MaxPooling(k, p, s, "n")(i4), i4); break;
    case 6: every(c, dw::Convolution(1 + c.rng() % 4, k, p, s, "n")(i4), i4); break; case 7: every(c, dw::LeakyReLU(al, "n")(i4), i4); break;
    case 8: every(c, dw::Sigmoid("")(i4), i4); break; case 9: every(c, dw::Dropout(al, "n")(i2), i2); break;
    case 10: every(c, dw::GlobalAvgPooling("n")(i4), i4); break; case 11: every(c, dw::BatchNorm2D(e, al, "n")(i4), i4); break;
    }
}
