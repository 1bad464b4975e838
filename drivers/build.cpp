#define DRV_MAIN
#include "common.hpp"
#include <deepworks/nn.hpp>
#include <deepworks/initializers.hpp>
#include "runtime/cpu/layers/cpulayer.hpp"
#include "expression/call_impl.hpp"
#include "expression/placeholder_impl.hpp"

using dw::Shape; using dw::Tensor; using A2 = std::array<int, 2>; using TV = std::vector<Tensor>;
static const std::vector<std::string> KINDS = {"Linear", "ReLU", "Softmax", "Sigmoid", "ELU", "LeakyReLU", "BatchNorm1D", "BatchNorm2D", "MaxPooling", "Convolution", "Dropout", "GlobalAvgPooling", "Add"};
static Shape rshape(Case& c, int lo, int hi, const char* p = "d") { long r = c.pick((std::string(p) + "rank").c_str(), lo, hi); Shape s; for (long i = 0; i < r; ++i) s.push_back((int)c.pick((p + std::to_string(i)).c_str(), 1, 6)); size_t t = 1; for (int d : s) t *= d; if (t > 300000) throw Skip{}; return s; }
struct Cfg { int units, oc; float alpha, eps; A2 k, p, s; };
static Cfg cfg(Case& c) {
    Cfg f; f.units = c.pick("units", 1, 7); f.oc = c.pick("out_channels", 1, 5); f.alpha = (float)(1 + c.rng() % 60) / 64; f.eps = (float)(1 + c.rng() % 8) / 32;
    for (int i : {0, 1}) { std::string h = i ? "w" : "h"; f.k[i] = c.pick(("k" + h).c_str(), 1, 4); f.p[i] = c.pick(("p" + h).c_str(), 0, f.k[i] - 1); f.s[i] = c.pick(("s" + h).c_str(), 1, 3); }
    return f;
}
struct Made { dw::Placeholder out; dw::LayerInfo info; };
template <class Op> static Made put(Op op, const std::vector<dw::Placeholder>& in) { auto o = op(in); return {o, op.m_info}; }
static Made build(const std::string& t, const Cfg& f, const std::vector<dw::Placeholder>& in, const std::string& n) {
    if (t == "Linear") return put(dw::Linear(f.units, n), in);
    if (t == "ReLU") return put(dw::ReLU(n), in);
    if (t == "Softmax") return put(dw::Softmax(n), in);
    if (t == "Sigmoid") return put(dw::Sigmoid(n), in);
    if (t == "ELU") return put(dw::ELU(f.alpha, n), in);
    if (t == "LeakyReLU") return put(dw::LeakyReLU(f.alpha, n), in);
    if (t == "BatchNorm1D") return put(dw::BatchNorm1D(f.eps, f.alpha, n), in);
    if (t == "BatchNorm2D") return put(dw::BatchNorm2D(f.eps, f.alpha, n), in);
    if (t == "MaxPooling") return put(dw::MaxPooling(f.k, f.p, f.s, n), in);
    if (t == "Convolution") return put(dw::Convolution(f.oc, f.k, f.p, f.s, n), in);
    if (t == "Dropout") return put(dw::Dropout(f.alpha, n), in);
    if (t == "GlobalAvgPooling") return put(dw::GlobalAvgPooling(n), in);
    return put(dw::Add(n), in);
}
static Shape inshape(Case& c, const std::string& t, const Cfg& f) {
    if (t == "Linear") return rshape(c, 2, 5);
    if (t == "Softmax" || t == "BatchNorm1D") return rshape(c, 2, 2);
    if (t == "BatchNorm2D" || t == "GlobalAvgPooling") return rshape(c, 4, 4);
    if (t == "MaxPooling" || t == "Convolution") { Shape s = rshape(c, 4, 4); for (int i : {0, 1}) if (s[2 + i] + 2 * f.p[i] < f.k[i]) throw Skip{}; return s; }
    return rshape(c, 1, 5);
}
static Shape expected(const std::string& t, const Cfg& f, const Shape& s) {
    if (t == "Linear") return {s[0], f.units};
    if (t == "GlobalAvgPooling") return {s[0], s[1], 1, 1};
    if (t == "MaxPooling" || t == "Convolution") { Shape o = s; if (t == "Convolution") o[1] = f.oc; for (int i : {0, 1}) o[2 + i] = (s[2 + i] + 2 * f.p[i] - f.k[i]) / f.s[i] + 1; return o; }
    return s;
}
static std::map<std::string, Shape> params(const std::string& t, const Cfg& f, const Shape& s) {
    if (t == "Linear") { int n = 1; for (size_t i = 1; i < s.size(); ++i) n *= s[i]; return {{"weight", {f.units, n}}, {"bias", {f.units}}}; }
    if (t == "Convolution") return {{"weight", {f.oc, s[1], f.k[0], f.k[1]}}, {"bias", {f.oc}}};
    if (t == "BatchNorm1D" || t == "BatchNorm2D") return {{"gamma", {s[1]}}, {"beta", {s[1]}}};
    if (t == "Dropout") return {{"mask", s}};
    return {};
}
static std::map<std::string, Shape> buffers(const std::string& t, const Shape& s) {
    if (t == "BatchNorm1D" || t == "BatchNorm2D") return {{"running_mean", {s[1]}}, {"running_var", {s[1]}}};
    return {};
}
static void all(const char* w, const Tensor& t, float v) { for (size_t i = 0; i < t.total(); ++i) if (t.data()[i] != v) throw Fail{w}; }
static void check(const std::string& t, const Cfg& f, const Shape& s, Made& m, const std::vector<dw::Placeholder>& in, const std::string& n) {
    require("output shape", m.out.shape() == expected(t, f, s));
    for (auto& p : in) require("input shape changed", p.shape() == s);
    auto& I = m.info.impl();
    require("type", m.info.type() == t); require("name", m.info.name() == n);
    auto ps = params(t, f, s); auto bs = buffers(t, s);
    require("parameter names", I.params.size() == ps.size()); require("buffer names", I.buffers.size() == bs.size());
    for (auto& [k, v] : ps) { require(("parameter " + k).c_str(), I.params.count(k)); auto& p = I.params.at(k);
        require(("shape of " + k).c_str(), p.data().shape() == v && p.grad().shape() == v); require("trainable", p.is_trainable());
        if (k == "gamma") all("gamma starts at 1", p.data(), 1); else if (k != "weight") all((k + " starts at 0").c_str(), p.data(), 0); }
    for (auto& [k, v] : bs) { require(("buffer " + k).c_str(), I.buffers.count(k)); require(("shape of " + k).c_str(), I.buffers.at(k).shape() == v); all("running statistics start at 0", I.buffers.at(k), 0); }
    require("the output records its call", m.out.impl().call.has_value());
    auto& call = m.out.impl().call.value().impl();
    require("number of inputs recorded", call.args.size() == in.size());
    for (size_t i = 0; i < in.size(); ++i) require("inputs recorded in order", call.args[i].m_impl == in[i].m_impl);
    require("layer recorded", &call.info.impl() == &m.info.impl());
    std::map<std::string, double> want;
    size_t na = 0;
    auto num = [&](const char* k, float v) { ++na; require(k, I.attrs.count(k) && I.attrs.at(k).type() == dw::AttrType::FLOAT && I.attrs.at(k).shape() == dw::AttrShape::VALUE && I.attrs.at(k).get<float>() == v); };
    auto integer = [&](const char* k, int v) { ++na; require(k, I.attrs.count(k) && I.attrs.at(k).type() == dw::AttrType::INT && I.attrs.at(k).shape() == dw::AttrShape::VALUE && I.attrs.at(k).get<int>() == v); };
    auto pair = [&](const char* k, A2 v) { ++na; require(k, I.attrs.count(k) && I.attrs.at(k).type() == dw::AttrType::INT && I.attrs.at(k).shape() == dw::AttrShape::ARRAY2 && I.attrs.at(k).get<A2>() == v); };
    if (t == "Linear") integer("units", f.units);
    if (t == "ELU" || t == "LeakyReLU") num("alpha", f.alpha);
    if (t == "BatchNorm1D" || t == "BatchNorm2D") { num("eps", f.eps); num("alpha", f.alpha); }
    if (t == "Dropout") num("p", f.alpha);
    if (t == "Convolution") integer("out_channels", f.oc);
    if (t == "MaxPooling" || t == "Convolution") { pair("kernel", f.k); pair("padding", f.p); pair("stride", f.s); }
    require("number of attributes", I.attrs.size() == na);
}
static std::vector<dw::Placeholder> inputs(const std::string& t, const Shape& s) { std::vector<dw::Placeholder> v; v.emplace_back(s); if (t == "Add") v.emplace_back(s); return v; }
static void share(Made& from, Made& to) { for (auto& [k, p] : from.info.impl().params) { Tensor d = to.info.impl().params.at(k).data(); p.data().copyTo(d); } for (auto& [k, b] : from.info.impl().buffers) { Tensor d = to.info.impl().buffers.at(k); b.copyTo(d); } }
static TV run(Case& c, const Made& m, const TV& x) { auto l = dw::cpu::ICPULayer::create(m.info); TV y{c.tensor(m.out.shape())}; l->forward(x, y); return y; }
TEST_CASE("C19", "shapes") {
    std::string t = KINDS[c.pick("kind", 0, (long)KINDS.size() - 1)]; Cfg f = cfg(c); Shape s = inshape(c, t, f);
    auto in = inputs(t, s); Made m = build(t, f, in, "nm"); check(t, f, s, m, in, "nm");
    TV x; for (size_t i = 0; i < in.size(); ++i) x.push_back(c.tensor(s));
    run(c, m, x);                                      // the computation fills exactly that shape (ASan)
}
TEST_CASE("C19", "refusals") {
    std::string t = KINDS[c.pick("kind", 0, (long)KINDS.size() - 1)]; Cfg f = cfg(c); Shape s = rshape(c, 1, 6);
    auto in = inputs(t, s); size_t r = s.size();
    if (t == "Linear") { if (r != 1) throw Skip{}; }
    else if (t == "BatchNorm1D") { if (r == 2) throw Skip{}; }
    else if (t == "BatchNorm2D" || t == "GlobalAvgPooling") { if (r == 4) throw Skip{}; }
    else if (t == "MaxPooling" || t == "Convolution") { if (r == 4 && s[2] + 2 * f.p[0] >= f.k[0] && s[3] + 2 * f.p[1] >= f.k[1]) throw Skip{}; }
    else if (t == "Add") { Shape q = rshape(c, 1, 6, "q"); if (c.rng() % 2) { q = s; q[c.rng() % q.size()] += 1; } if (q == s) throw Skip{}; in[1] = dw::Placeholder(q); }
    else if (t == "Softmax") { if (r == 2) throw Skip{}; Made m = build(t, f, in, "nm"); TV x{c.tensor(s)}; require("softmax of another rank is accepted", throws([&] { run(c, m, x); })); return; }
    else throw Skip{};
    require((t + ": unsupported input accepted").c_str(), throws([&] { build(t, f, in, "nm"); }));
}
TEST_CASE("C20", "created again") {
    std::string t = KINDS[c.pick("kind", 0, (long)KINDS.size() - 1)]; Cfg f = cfg(c); Shape s = inshape(c, t, f);
    auto in = inputs(t, s); Made m = build(t, f, in, "first"); check(t, f, s, m, in, "first");
    auto in2 = inputs(t, s);
    Made n; n.out = dw::make_layer(t, "second", m.info.impl().attrs, in2); n.info = n.out.impl().call.value().impl().info;
    check(t, f, s, n, in2, "second");
    for (auto& [k, p] : m.info.impl().params) { c.fill(p.data()); require("the layers share a parameter", n.info.impl().params.at(k).data().data() != p.data().data()); }
    for (auto& [k, b] : m.info.impl().buffers) { c.fill(b); for (size_t i = 0; i < b.total(); ++i) b.data()[i] = std::fabs(b.data()[i]); }
    share(m, n);
    TV x; for (size_t i = 0; i < in.size(); ++i) x.push_back(c.tensor(s));
    for (auto* q : {&m, &n}) for (auto& [k, p] : q->info.impl().params) p.train(t != "Dropout");
    bool train = c.pick("train", 0, 1); if (t == "BatchNorm1D" || t == "BatchNorm2D") for (auto* q : {&m, &n}) for (auto& [k, p] : q->info.impl().params) p.train(train);
    TV a = run(c, m, x), b = run(c, n, x);
    for (size_t i = 0; i < a[0].total(); ++i) near("the layers differ", b[0].data()[i], a[0].data()[i], (long)i);
    for (auto& [k, bu] : m.info.impl().buffers) for (size_t i = 0; i < bu.total(); ++i) near("the statistics differ", n.info.impl().buffers.at(k).data()[i], bu.data()[i], (long)i);
}
TEST_CASE("C20", "unknown kinds") {
    std::string t = KINDS[c.pick("kind", 0, (long)KINDS.size() - 1)]; Cfg f = cfg(c); Shape s = inshape(c, t, f); auto in = inputs(t, s);
    Made m = build(t, f, in, "x"); std::string u = t;
    switch (c.pick("how", 0, 4)) { case 0: u += "x"; break; case 1: u = ""; break; case 2: u[0] = (char)std::tolower(u[0]); break; case 3: u.pop_back(); break; default: u = " " + u; }
    require("an unknown kind is created", throws([&] { dw::make_layer(u, "n", m.info.impl().attrs, in); }));
    require("an unknown kind has a computation", throws([&] { dw::cpu::ICPULayer::create(dw::LayerInfo("n", u)); }));
}
