#define DRV_MAIN
#include "common.hpp"
#include <deepworks/nn.hpp>
#include <memory>
#include <omp.h>
#include "runtime/cpu/layers/cpulayer.hpp"
#include "utils/generator.hpp"

using dw::Shape; using dw::Tensor; using V = std::vector<Tensor>;
using dw::cpu::ICPULayer;

struct L {                                  // one layer of any kind with tensors around it
    std::string kind; dw::LayerInfo info; std::vector<Shape> ins; Shape out;
};
static const char* KINDS[] = {"ReLU", "LeakyReLU", "ELU", "Sigmoid", "Softmax", "Linear", "Convolution", "MaxPooling", "Add", "GlobalAvgPooling", "Dropout", "BatchNorm1D", "BatchNorm2D"};
template <class Op> static L one(const std::string& k, Op op, Shape s, int n = 1) {
    std::vector<dw::Placeholder> p(n, dw::Placeholder(s));
    auto o = op(p);
    return {k, op.m_info, std::vector<Shape>(n, s), o.shape()};
}
static L make(Case& c, const std::string& k, bool big) {
    int m = big ? 3 : 1;
    auto D = [&](const char* n, long lo, long hi) { return (int)c.pick(n, lo, hi * m); };
    int B = big ? (int)c.pick("B", 2, 24) : (int)c.pick("B", 1, 4);
    if (k == "Softmax" || k == "BatchNorm1D" || k == "Dropout" || k == "Linear") {
        Shape s{B, D("C", 1, 5)};
        if (k == "Softmax") return one(k, dw::Softmax("l"), s);
        if (k == "Dropout") return one(k, dw::Dropout(c.pick("p8", 0, 7) / 8.f, "l"), s);
        if (k == "Linear") return one(k, dw::Linear(D("O", 1, 5), "l"), s);
        return one(k, dw::BatchNorm1D(0.001f, 0.5f, "l"), s);
    }
    int C = D("C", 1, 3), H = D("H", 1, 5), W = D("W", 1, 5);
    Shape s{B, C, H, W};
    if (k == "ReLU") return one(k, dw::ReLU("l"), s);
    if (k == "Sigmoid") return one(k, dw::Sigmoid("l"), s);
    if (k == "LeakyReLU") return one(k, dw::LeakyReLU(0.25f, "l"), s);
    if (k == "ELU") return one(k, dw::ELU(0.5f, "l"), s);
    if (k == "Add") return one(k, dw::Add("l"), s, 2);
    if (k == "GlobalAvgPooling") return one(k, dw::GlobalAvgPooling("l"), s);
    if (k == "BatchNorm2D") return one(k, dw::BatchNorm2D(0.001f, 0.5f, "l"), s);
    int kh = D("kh", 1, 3), kw = D("kw", 1, 3), sh = c.pick("sh", 1, 3), sw = c.pick("sw", 1, 3);
    int ph = c.pick("ph", 0, kh - 1), pw = c.pick("pw", 0, kw - 1);
    if (H + 2 * ph < kh || W + 2 * pw < kw) throw Skip{};
    if (k == "MaxPooling") return one(k, dw::MaxPooling({kh, kw}, {ph, pw}, {sh, sw}, "l"), s);
    return one(k, dw::Convolution(D("O", 1, 3), {kh, kw}, {ph, pw}, {sh, sw}, "l"), s);
}
struct T {
    V x, y, gy, gx;
    T(Case& c, const L& l) { for (auto& s : l.ins) { x.push_back(c.tensor(s)); gx.push_back(c.tensor(s)); } y.push_back(c.tensor(l.out)); gy.push_back(c.tensor(l.out)); }
};
static void twice(Case& c, const std::string& k) {
    L l = make(c, k, false);
    auto cpu = ICPULayer::create(l.info);
    for (auto& p : l.info.impl().params) { c.fill(p.second.data()); if (k != "Dropout") c.fill(p.second.grad()); }
    T t(c, l);
    cpu->forward(t.x, t.y);
    std::vector<std::vector<double>> x0, g0; for (auto& x : t.x) x0.push_back(c.copy(x)); for (auto& g : t.gx) g0.push_back(c.copy(g));
    auto y0 = c.copy(t.y[0]), gy0 = c.copy(t.gy[0]);
    std::map<std::string, std::vector<double>> P, G; for (auto& p : l.info.impl().params) { P[p.first] = c.copy(p.second.data()); if (!p.second.grad().empty()) G[p.first] = c.copy(p.second.grad()); }
    auto unchanged = [&] {
        for (size_t i = 0; i < t.x.size(); ++i) exact("input changed by backward", t.x[i], x0[i]);
        exact("output changed by backward", t.y[0], y0); exact("output gradient changed by backward", t.gy[0], gy0);
        for (auto& p : l.info.impl().params) { exact("parameter changed by backward", p.second.data(), P[p.first]); if (G.count(p.first)) exact("parameter gradient changed by backward", p.second.grad(), G[p.first]); }
    };
    cpu->backward(t.x, t.y, t.gy, t.gx); unchanged();
    std::vector<std::vector<double>> g1; for (auto& g : t.gx) g1.push_back(c.copy(g));
    if (c.pick("update", 0, 1)) { cpu->updateGradients(t.x, t.gy); for (auto& p : l.info.impl().params) if (!p.second.grad().empty()) G[p.first] = c.copy(p.second.grad()); }
    int more = c.pick("more", 1, 2);
    for (int r = 0; r < more; ++r) { cpu->backward(t.x, t.y, t.gy, t.gx); unchanged(); }
    for (size_t i = 0; i < t.gx.size(); ++i) for (size_t j = 0; j < g0[i].size(); ++j) near("accumulated input gradient", t.gx[i].data()[j], g0[i][j] + (1 + more) * (g1[i][j] - g0[i][j]), (long)j, 1e-3);
}
static std::vector<std::vector<double>> pass(Case& c, const L& l0, unsigned seed, int threads) {
    Case d; d.rng.seed(seed);
    L l = l0; omp_set_num_threads(threads);
    dw::utils::generator().seed(seed);
    auto cpu = ICPULayer::create(l.info);
    for (auto& p : l.info.impl().params) if (l.kind != "Dropout") { d.fill(p.second.data()); d.fill(p.second.grad()); }
    T t(d, l);
    cpu->forward(t.x, t.y); cpu->backward(t.x, t.y, t.gy, t.gx); cpu->updateGradients(t.x, t.gy);
    std::vector<std::vector<double>> r; r.push_back(d.copy(t.y[0])); for (auto& g : t.gx) r.push_back(d.copy(g));
    if (l.kind != "Dropout") for (auto& p : l.info.impl().params) r.push_back(d.copy(p.second.grad()));
    return r;
}
static void threads(Case& c, const std::string& k) {
    if (k != "Convolution" && k != "Add" && c.rng() % 6) throw Skip{};
    L l = make(c, k, true);
    unsigned seed = (unsigned)c.pick("seed", 1, 1000000);
    auto a = pass(c, l, seed, 1);
    for (int r = 0; r < 3; ++r) {
        auto b = pass(c, l, seed, r % 2 ? 3 : 8);
        for (size_t i = 0; i < a.size(); ++i) for (size_t j = 0; j < a[i].size(); ++j) near("result depends on the number of threads", b[i][j], a[i][j], (long)j, 1e-3);
    }
}
static int init = [] {
    for (auto k : KINDS) {
        std::string s = k;
        tests()["C13"].push_back({s, [s](Case& c) { twice(c, s); }});
        tests()["C14"].push_back({s, [s](Case& c) { threads(c, s); }});
    }
    return 0;
}();
