#define DRV_MAIN
#include "common.hpp"
#include <deepworks/initializers.hpp>
#include <deepworks/utils/utils.hpp>

using dw::Shape; using dw::Tensor;
static Shape rshape(Case& c, const char* pre, int lo = 1, int hi = 6, int mx = 4) {
    long r = c.pick((std::string(pre) + "rank").c_str(), lo, hi); Shape s;
    for (long i = 0; i < r; ++i) s.push_back((int)c.pick((std::string(pre == std::string("d") ? "d" : pre) + std::to_string(i)).c_str(), 1, mx));
    size_t t = 1; for (int d : s) t *= d;
    if (t > 200000) throw Skip{};
    return s;
}
static size_t prod(const Shape& s) { size_t t = 1; for (int d : s) t *= d; return t; }
static void geometry(const Tensor& t, const Shape& s) {
    require("shape", t.shape() == s);
    require("element count", t.total() == prod(s));
    require("number of strides", t.strides().size() == s.size());
    size_t m = 1;
    for (int k = (int)s.size() - 1; k >= 0; --k) { if ((size_t)t.strides()[k] != m) throw Fail{"stride " + std::to_string(k)}; m *= s[k]; }
    require("empty() is wrong", t.empty() == (t.total() == 0));
    for (size_t i = 0; i < t.total(); ++i) t.data()[i] = (float)(i % 1000);          // ASan watches the bounds
}
static void holds(const char* w, const Tensor& t) { for (size_t i = 0; i < t.total(); ++i) if (t.data()[i] != (float)(i % 1000)) throw Fail{w}; }
TEST_CASE("C01", "construct") {
    Shape s = rshape(c, "d");
    Tensor t(s); geometry(t, s);
    std::vector<float> mem(prod(s) + 2, -7.f);
    Tensor v(s, mem.data() + 1); require("view memory", v.data() == mem.data() + 1);
    geometry(v, s); require("view overruns", mem.front() == -7.f && mem.back() == -7.f);
    require("view refers to the memory given", mem[1] == 0.f);
}
TEST_CASE("C01", "a view becomes an owner") {
    Shape s = rshape(c, "d", 1, 4), e = c.pick("same", 0, 1) ? s : rshape(c, "e", 1, 4);
    std::vector<float> mem(prod(s), -7.f);
    Tensor v(s, mem.data()); v.allocate(e); geometry(v, e);
    require("an allocated tensor still refers to the memory it viewed", v.data() + v.total() <= mem.data() || v.data() >= mem.data() + mem.size());
    for (float f : mem) require("memory of the user changed", f == -7.f);
}
TEST_CASE("C01", "history") {
    Tensor t; require("default tensor is not empty", t.empty() && t.total() == 0 && t.shape().empty());
    std::vector<Tensor> h; Shape s; int n = c.pick("steps", 1, 6); bool have = false;
    for (int k = 0; k < n; ++k) {
        int op = c.pick(("op" + std::to_string(k)).c_str(), 0, 3);
        std::string pre = "s" + std::to_string(k) + "_";
        if (op == 0 || !have) { s = rshape(c, pre.c_str(), 1, 4); t.allocate(s); have = true; geometry(t, s); }
        else if (op == 1) { h.push_back(t); }
        else if (op == 2) {           // a compatible reshape: split off / merge extents
            Shape e; int rest = (int)prod(s);
            for (int d = 2; d <= rest && e.size() < 3; ++d) while (rest % d == 0 && e.size() < 3 && c.rng() % 2) { e.push_back(d); rest /= d; }
            e.push_back(rest); geometry(t, s);
            t.reshape(e); require("reshape: shape", t.shape() == e); holds("reshape moved elements", t); s = e; geometry(t, s);
        } else {
            Shape e = rshape(c, pre.c_str(), 1, 4);
            if (prod(e) == prod(s)) throw Skip{};
            geometry(t, s);
            require("a reshape to another element count is accepted", throws([&] { t.reshape(e); }));
            require("refused reshape changed the shape", t.shape() == s); holds("refused reshape changed data", t);
        }
        for (auto& o : h) { require("a copied handle lost the shape", o.shape() == t.shape() && o.data() == t.data() && o.total() == t.total() && o.strides() == t.strides()); }
    }
}
TEST_CASE("C01", "negative extents") {
    Shape s = rshape(c, "d", 1, 4);
    Tensor ok({(int)prod(s)});
    int a = c.pick("at", 0, (long)s.size() - 1), b = c.pick("at2", 0, (long)s.size() - 1);
    s[a] = -s[a]; if (b != a) s[b] = -s[b];
    require("constructor accepts negative extents", throws([&] { Tensor t(s); }));
    require("allocate accepts negative extents", throws([&] { Tensor t; t.allocate(s); }));
    float f[4]; require("view accepts negative extents", throws([&] { Tensor t(s, f); }));
    require("reshape accepts negative extents", throws([&] { ok.reshape(s); }));
}
TEST_CASE("C02", "copyTo") {
    Shape s = rshape(c, "d", 1, 5);
    Tensor a = c.tensor(s), b = c.tensor(s), o = c.tensor({5});
    auto a0 = c.copy(a), o0 = c.copy(o);
    a.copyTo(b); exact("copied", b, a0); exact("source changed", a, a0); exact("another tensor changed", o, o0);
    require("destination shape", b.shape() == s);
    if (b.total()) { b.data()[0] += 1; exact("the copy shares memory with its source", a, a0); }
    Tensor e; require("copying into an unallocated tensor is accepted", throws([&] { a.copyTo(e); }));
    Shape q = rshape(c, "q", 1, 5); if (c.pick("perm", 0, 1)) { q = s; std::swap(q[0], q.back()); }
    if (q == s) return;
    Tensor d = c.tensor(q); require("copying between different shapes is accepted", throws([&] { a.copyTo(d); }));
}
TEST_CASE("C02", "initialisers") {
    Shape s = rshape(c, "d", 1, 5, 6);
    size_t n = prod(s); int st = c.pick("static", 0, 1);
    std::vector<float> mem(n + 8, -77.f);
    auto guard = [&](const char* w) { for (int i = 0; i < 4; ++i) if (mem[i] != -77.f || mem[n + 4 + i] != -77.f) throw Fail{std::string(w) + " writes outside the tensor"}; };
    Tensor t = st ? Tensor() : Tensor(s, mem.data() + 4);
    auto fresh = [&] { if (!st) std::fill_n(t.data(), n, 1e30f); };
    fresh(); if (st) t = Tensor::zeros(s); else dw::initializer::zeros(t);
    exact("zeros", t, std::vector<double>(n, 0.)); guard("zeros");
    float v = c.val(); fresh(); if (st) t = Tensor::constant(s, v); else dw::initializer::constant(t, v);
    exact("constant", t, std::vector<double>(n, v)); guard("constant");
    float lo = c.val(), hi = c.val(); if (lo > hi) std::swap(lo, hi);
    fresh(); if (st) t = Tensor::uniform(s, lo, hi); else dw::initializer::uniform(t, lo, hi);
    for (size_t i = 0; i < n; ++i) if (!(t.data()[i] >= lo && t.data()[i] <= hi)) near("uniform draw outside the range", t.data()[i], lo, i, -1);
    if (n >= 8 && hi > lo) { bool diff = false; for (size_t i = 1; i < n; ++i) diff |= t.data()[i] != t.data()[0]; require("uniform: all draws equal", diff); }
    guard("uniform");
    fresh(); if (st) t = Tensor::xavierUniform(s); else dw::initializer::xavierUniform(t);
    double fin = s.size() == 2 ? s[0] : n / s[0], fout = s.size() == 2 ? s[1] : s[0], a = std::sqrt(6 / (fin + fout)) * (1 + 1e-6);
    for (size_t i = 0; i < n; ++i) if (!(std::fabs(t.data()[i]) <= a)) near("Xavier draw outside the range", t.data()[i], a, i, -1);
    if (n >= 8) { bool diff = false; for (size_t i = 1; i < n; ++i) diff |= t.data()[i] != t.data()[0]; require("Xavier: all draws equal", diff); }
    guard("Xavier"); require("initialiser changed the shape", t.shape() == s);
}
