#define DRV_MAIN
#include "common.hpp"
#include <algorithm>
#include <array>
#include <numeric>
#include <set>
#include <unordered_map>
#include <deepworks/initializers.hpp>
#include <deepworks/loss.hpp>
#include <deepworks/metrics.hpp>
#include <deepworks/optimizer.hpp>
#include <deepworks/dataloader.hpp>

using dw::Shape; using dw::Tensor;
static dw::Tensor labels(Case& c, const Shape& s, int C) { Tensor t(s); for (size_t i = 0; i < t.total(); ++i) t.data()[i] = (float)(c.rng() % C); return t; }
// ---------------------------------------------------------------- C15
static Tensor probs(Case& c, int B, int C) {
    Tensor p({B, C});
    for (size_t i = 0; i < p.total(); ++i) {
        switch (c.rng() % 12) { case 0: p.data()[i] = 1.f; break; case 1: p.data()[i] = 1.f / 1024; break; case 2: p.data()[i] = 1e-7f; break;
            default: p.data()[i] = (float)(1 + c.rng() % 64) / 64.f; }
    }
    return p;
}
static void loss_once(Case& c, dw::loss::CrossEntropyLoss& L, int B, int C) {
    Tensor p = probs(c, B, C), t = labels(c, {B, 1}, C);
    auto p0 = c.copy(p), t0 = c.copy(t);
    double w = 0; for (int i = 0; i < B; ++i) w -= std::log(p0[(size_t)i * C + (int)t0[i]]);
    near("loss", L.forward(p, t), w / B);
    exact("predictions", p, p0); exact("targets", t, t0);
    Tensor g = c.tensor({B, C});
    L.backward(p, t, g);
    std::vector<double> e((size_t)B * C, 0);
    for (int i = 0; i < B; ++i) { size_t k = (size_t)i * C + (int)t0[i]; e[k] = -1.0 / p0[k] / B; }
    same("gradient", g, e);
    for (size_t i = 0; i < e.size(); ++i) if (e[i] == 0 && g.data()[i] != 0) throw Fail{"gradient outside the targets"};
    exact("predictions", p, p0); exact("targets", t, t0);
    require("gradient shape", g.shape() == Shape({B, C}));
}
TEST_CASE("C15", "history of batches") {
    dw::loss::CrossEntropyLoss L; int n = c.pick("batches", 1, 4);
    for (int k = 0; k < n; ++k) {
        int B = c.pick(("B" + std::to_string(k)).c_str(), 1, 9), C = c.pick(("C" + std::to_string(k)).c_str(), 1, 8);
        loss_once(c, L, B, C);
    }
}
TEST_CASE("C15", "one batch") { dw::loss::CrossEntropyLoss L; int B = c.pick("B", 1, 70), C = c.pick("C", 1, 40); loss_once(c, L, B, C); }
TEST_CASE("C15", "backward alone, same class everywhere") {
    dw::loss::CrossEntropyLoss L; int B = c.pick("B", 1, 9), C = c.pick("C", 1, 6), k = c.pick("k", 0, C - 1);
    Tensor p = probs(c, B, C), t = Tensor::constant({B, 1}, (float)k), g = c.tensor({B, C});
    L.backward(p, t, g);
    for (int i = 0; i < B; ++i) for (int j = 0; j < C; ++j) near("gradient", g.data()[i * C + j], j == k ? -1.0 / p.data()[i * C + j] / B : 0);
}
// ---------------------------------------------------------------- C16
static int first_max(const float* p, int n) { int b = 0; for (int i = 1; i < n; ++i) if (p[i] > p[b]) b = i; return b; }
static Tensor scores(Case& c, int B, int C) {
    Tensor p({B, C}); int kind = c.rng() % 3;
    for (size_t i = 0; i < p.total(); ++i) p.data()[i] = kind == 0 ? (float)(c.rng() % 3) : kind == 1 ? -(float)(1 + c.rng() % 50) : c.val();   // ties, all negative, any
    return p;
}
TEST_CASE("C16", "accuracy") {
    int B = c.pick("B", 1, 9), C = c.pick("C", 1, 8);
    Tensor p = scores(c, B, C), t = labels(c, c.pick("col", 0, 1) ? Shape{B, 1} : Shape{B}, C);
    for (int i = 0; i < B; ++i) if (c.rng() % 2) t.data()[i] = (float)first_max(p.data() + i * C, C);
    if (c.pick("frac", 0, 3) == 0) t.data()[0] += 0.5f;                 // not a class number: never predicted
    auto p0 = c.copy(p), t0 = c.copy(t);
    int hit = 0; for (int i = 0; i < B; ++i) hit += (float)first_max(p.data() + i * C, C) == t.data()[i];
    near("accuracy", dw::metric::accuracy(p, t), (double)hit / B, -1, 1e-6);
    exact("predictions", p, p0); exact("labels", t, t0);
}
TEST_CASE("C16", "one hot") {
    int B = c.pick("B", 1, 9), C = c.pick("C", 1, 8);
    Tensor p = scores(c, B, C), t = c.pick("hot", 0, 1) ? Tensor::zeros({B, C}) : scores(c, B, C);
    for (int i = 0; i < B; ++i) if (c.rng() % 2) t.data()[i * C + (c.rng() % 2 ? first_max(p.data() + i * C, C) : (int)(c.rng() % C))] = 4.f;
    auto p0 = c.copy(p), t0 = c.copy(t);
    int hit = 0; for (int i = 0; i < B; ++i) hit += first_max(p.data() + i * C, C) == first_max(t.data() + i * C, C);
    near("accuracy", dw::metric::accuracyOneHot(p, t), (double)hit / B, -1, 1e-6);
    exact("predictions", p, p0); exact("labels", t, t0);
}
// ---------------------------------------------------------------- C17
struct Slot { std::string name; Shape s; bool tr; std::vector<double> w, g, a, b; };
struct Zoo {
    dw::ParamMap m; std::vector<Slot> v;
    Zoo(Case& c) {
        int n = c.pick("params", 0, 5);
        for (int k = 0; k < n; ++k) {
            Slot s; s.name = std::string(1, (char)('a' + c.rng() % 3)) + std::to_string(k);
            int r = c.pick(("rank" + std::to_string(k)).c_str(), 1, 4); for (int i = 0; i < r; ++i) s.s.push_back(1 + c.rng() % 4);
            s.tr = c.pick(("train" + std::to_string(k)).c_str(), 0, 3) != 0;
            Tensor t = c.tensor(s.s); s.w = c.copy(t); s.a.assign(s.w.size(), 0); s.b = s.a;
            m.emplace(s.name, dw::Parameter(std::move(t), s.tr)); v.push_back(s);
        }
    }
    void grads(Case& c) { for (auto& s : v) { c.fill(m.at(s.name).grad()); s.g = c.copy(m.at(s.name).grad()); } }
    void toggle(Case& c) { for (auto& s : v) if (c.rng() % 6 == 0) { s.tr = !s.tr; m.at(s.name).train(s.tr); } }
    void check() { for (auto& s : v) { same(("parameter " + s.name).c_str(), m.at(s.name).data(), s.w); exact(("gradient " + s.name).c_str(), m.at(s.name).grad(), s.g);
        require("parameter shape", m.at(s.name).data().shape() == s.s); } require("parameters were added or dropped", m.size() == v.size()); }
};
static double rate(Case& c) { return (1 + c.rng() % 16) / 32.0; }
template <class O, class R> static void train(Case& c, Zoo& z, O& o, R rule, float lr) {
    int n = c.pick("steps", 1, 6);
    for (int k = 1; k <= n; ++k) {
        require("get_lr", o.get_lr() == lr);
        z.grads(c); o.step();
        for (auto& s : z.v) if (s.tr) for (size_t i = 0; i < s.w.size(); ++i) rule(s, i, k, lr);
        z.check();
        if (c.rng() % 3 == 0) { lr = (float)rate(c); o.set_lr(lr); }
        z.toggle(c);
    }
}
TEST_CASE("C17", "SGD") { Zoo z(c); float lr = (float)rate(c); dw::optimizer::SGD o(z.m, lr);
    train(c, z, o, [](Slot& s, size_t i, int, double lr) { s.w[i] -= lr * s.g[i]; }, lr); }
TEST_CASE("C17", "momentum") { Zoo z(c); float lr = (float)rate(c); float g = (float)(c.rng() % 8) / 8;
    dw::optimizer::SGDMomentum o(z.m, lr, g);
    train(c, z, o, [=](Slot& s, size_t i, int, double lr) { s.a[i] = g * s.a[i] + lr * s.g[i]; s.w[i] -= s.a[i]; }, lr); }
TEST_CASE("C17", "Adam") { Zoo z(c); float lr = (float)rate(c); float b1 = (float)(1 + c.rng() % 7) / 8, b2 = c.rng() % 3 ? (float)(1 + c.rng() % 15) / 16 : 1 - 1.f / 512, eps = (float)(1 + c.rng() % 64) / 64; int n0 = c.pick("start", 0, 3);
    dw::optimizer::Adam o(z.m, lr, {b1, b2}, eps, n0);
    train(c, z, o, [=](Slot& s, size_t i, int k, double lr) {
        s.a[i] = b1 * s.a[i] + (1 - b1) * s.g[i]; s.b[i] = b2 * s.b[i] + (1 - b2) * s.g[i] * s.g[i];
        s.w[i] -= lr * (s.a[i] / (1 - std::pow(b1, k + n0))) / (std::sqrt(s.b[i] / (1 - std::pow(b2, k + n0))) + eps); }, lr); }
TEST_CASE("C17", "defaults") { Zoo z(c); float lr = (float)rate(c); int which = c.pick("which", 0, 1);
    if (which) { dw::optimizer::SGDMomentum o(z.m, lr); train(c, z, o, [=](Slot& s, size_t i, int, double lr) { s.a[i] = 0.9f * s.a[i] + lr * s.g[i]; s.w[i] -= s.a[i]; }, lr); }
    else { dw::optimizer::Adam o(z.m, lr); train(c, z, o, [=](Slot& s, size_t i, int k, double lr) {
        s.a[i] = 0.9f * s.a[i] + (1 - 0.9f) * s.g[i]; s.b[i] = 0.999f * s.b[i] + (1 - 0.999f) * s.g[i] * s.g[i];
        s.w[i] -= lr * (s.a[i] / (1 - std::pow(0.9f, k))) / (std::sqrt(s.b[i] / (1 - std::pow((double)0.999f, k))) + 0.001); }, lr); } }
// ---------------------------------------------------------------- C18
struct Set : dw::IDataset {
    size_t n; Shape sx, sy; std::vector<int> log; std::string err;
    size_t size() override { return n; }
    OutShape shape() override { return {sx, sy}; }
    static float X(int i, size_t k) { return (float)(i * 97 + (int)k % 89); }
    static float Y(int i, size_t k) { return (float)(-1 - i * 31 - (int)k % 29); }
    void pull(int i, Tensor& x, Tensor& y) override {
        if (i < 0 || (size_t)i >= n) { err = "sample index out of range"; return; }
        if (x.shape() != sx || y.shape() != sy) { err = "sample tensors of a wrong shape"; return; }
        for (size_t k = 0; k < x.total(); ++k) x.data()[k] = X(i, k);
        for (size_t k = 0; k < y.total(); ++k) y.data()[k] = Y(i, k);
        log.push_back(i);
    }
};
static Shape small(Case& c, const char* p) { Shape s; long r = c.pick(p, 1, 4); for (long i = 0; i < r; ++i) s.push_back(1 + c.rng() % 4); return s; }
static void pulls(Case& c, bool shuffle, bool given) {
    auto d = std::make_shared<Set>(); d->n = c.pick("size", 0, 12); d->sx = small(c, "rx"); d->sy = small(c, "ry");
    int B = c.pick("batch", 1, 6);
    dw::DataLoader dl(d, B, shuffle);
    Shape bx{B}, by{B}; bx.insert(bx.end(), d->sx.begin(), d->sx.end()); by.insert(by.end(), d->sy.begin(), d->sy.end());
    Tensor X, Y; if (given) { X = c.tensor(bx); Y = c.tensor(by); }
    size_t pos = 0; int n = c.pick("pulls", 1, 9);
    for (int k = 0; k < n; ++k) {
        d->log.clear();
        bool more = pos + B <= d->n;
        std::vector<double> x0, y0; if (!X.empty()) { x0 = c.copy(X); y0 = c.copy(Y); }
        require("end of the epoch", dl.pull(X, Y) == more);
        require(d->err.c_str(), d->err.empty());
        require("batch shape", X.shape() == bx && Y.shape() == by);
        if (!more) { pos = 0; if (!x0.empty()) { exact("a refused pull changed the batch", X, x0); exact("a refused pull changed the labels", Y, y0); } continue; }
        size_t nx = X.total() / B, ny = Y.total() / B; std::set<int> seen;
        for (int i = 0; i < B; ++i) {
            int s = (int)X.data()[i * nx] / 97;
            if (!shuffle && s != (int)pos + i) throw Fail{"row " + std::to_string(i) + " holds sample " + std::to_string(s)};
            require("a sample appears twice", seen.insert(s).second);
            require("a sample out of range", s >= 0 && (size_t)s < d->n);
            for (size_t k = 0; k < nx; ++k) near("image", X.data()[i * nx + k], Set::X(s, k), (long)(i * nx + k), 0);
            for (size_t k = 0; k < ny; ++k) near("label", Y.data()[i * ny + k], Set::Y(s, k), (long)(i * ny + k), 0);
        }
        pos += B;
    }
}
TEST_CASE("C18", "in order") { pulls(c, false, c.pick("given", 0, 1)); }
TEST_CASE("C18", "shuffled") { pulls(c, true, c.pick("given", 0, 1)); }
TEST_CASE("C18", "wrong batch tensors") {
    auto d = std::make_shared<Set>(); d->n = 9; d->sx = small(c, "rx"); d->sy = small(c, "ry"); int B = c.pick("batch", 1, 4);
    dw::DataLoader dl(d, B, c.pick("shuffle", 0, 1));
    Shape bx{B}, by{B}; bx.insert(bx.end(), d->sx.begin(), d->sx.end()); by.insert(by.end(), d->sy.begin(), d->sy.end());
    bool which = c.pick("which", 0, 1); Shape& w = which ? bx : by; w[c.rng() % w.size()] += 1;
    Tensor X = c.tensor(bx), Y = c.tensor(by); auto x0 = c.copy(X), y0 = c.copy(Y);
    require("a batch tensor of a wrong shape is accepted", throws([&] { dl.pull(X, Y); }));
    exact("batch", X, x0); exact("labels", Y, y0);
}
