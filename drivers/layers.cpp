#define DRV_MAIN
#include "common.hpp"
#include <deepworks/nn.hpp>
#include "runtime/cpu/layers/cpulayer.hpp"
#include <deepworks/utils/utils.hpp>
#include "utils/generator.hpp"

using dw::Shape; using dw::Tensor; using V = std::vector<Tensor>;
using dw::cpu::ICPULayer;

static double ref_act(const std::string& k, double x, double a) {
    if (k == "ReLU") return x > 0 ? x : 0;
    if (k == "LeakyReLU") return x < 0 ? a * x : x;
    if (k == "ELU") return x < 0 ? a * (std::exp(x) - 1) : x;
    return 1 / (1 + std::exp(-x));
}
static double ref_actg(const std::string& k, double x, double g, double a) {
    if (k == "ReLU") return x > 0 ? g : 0;
    if (k == "LeakyReLU") return x < 0 ? a * g : g;
    if (k == "ELU") return x < 0 ? a * std::exp(x) * g : g;
    double y = 1 / (1 + std::exp(-x)); return g * y * (1 - y);
}
static Shape rnd_shape(Case& c, long lo = 1, long hi = 4, long mx = 5) {
    long r = c.pick("rank", lo, hi); Shape s;
    const char* n[] = {"d0", "d1", "d2", "d3", "d4"};
    for (long i = 0; i < r; ++i) s.push_back((int)c.pick(n[i], 1, mx));
    return s;
}
template <class Op> static void activation(Case& c, const char* kind, Op op, double alpha) {
    Shape s = rnd_shape(c);
    dw::Placeholder in(s);
    auto out = op(in);
    require("output shape", out.shape() == s);
    auto l = ICPULayer::create(op.m_info);
    Tensor x = c.tensor(s), y = c.tensor(s), gy = c.tensor(s), gx = c.tensor(s);
    auto x0 = c.copy(x), g0 = c.copy(gy), gx0 = c.copy(gx);
    V xi{x}, yo{y}, go{gy}, gi{gx};
    l->forward(xi, yo);
    for (size_t i = 0; i < x0.size(); ++i) near("forward", y.data()[i], ref_act(kind, x0[i], alpha), i);
    exact("input changed by forward", x, x0);
    l->backward(xi, yo, go, gi);
    for (size_t i = 0; i < x0.size(); ++i) near("backward", gx.data()[i], gx0[i] + ref_actg(kind, x0[i], g0[i], alpha), i);
    exact("grad_output changed by backward", gy, g0); exact("input changed by backward", x, x0);
}
TEST_CASE("C03", "relu") { activation(c, "ReLU", dw::ReLU("l"), 0); }
TEST_CASE("C03", "leakyrelu") { double a = c.pick("alpha8", -4, 16) / 8.0; activation(c, "LeakyReLU", dw::LeakyReLU(a, "l"), a); }
TEST_CASE("C03", "elu") { double a = c.pick("alpha8", -4, 16) / 8.0; activation(c, "ELU", dw::ELU(a, "l"), a); }
TEST_CASE("C03", "sigmoid") { activation(c, "Sigmoid", dw::Sigmoid("l"), 0); }

TEST_CASE("C04", "softmax") {
    int B = c.pick("B", 1, 5), C = c.pick("C", 1, 6); long sc = c.choose("scale", {1, 1, 1, 40, 1000, 100000});
    long off = c.choose("offset", {0, 0, 0, -500, 500});
    Shape s{B, C}; dw::Placeholder in(s); dw::Softmax op("l"); auto out = op(in);
    require("output shape", out.shape() == s);
    auto l = ICPULayer::create(op.m_info);
    Tensor x = c.tensor(s), y = c.tensor(s), gy = c.tensor(s), gx = c.tensor(s);
    for (size_t i = 0; i < x.total(); ++i) x.data()[i] = x.data()[i] * sc + off;
    auto x0 = c.copy(x), g0 = c.copy(gy), gx0 = c.copy(gx);
    V xi{x}, yo{y}, go{gy}, gi{gx};
    l->forward(xi, yo);
    for (int b = 0; b < B; ++b) {
        double m = -1e300, d = 0, sum = 0;
        for (int k = 0; k < C; ++k) m = std::max(m, x0[b * C + k]);
        for (int k = 0; k < C; ++k) d += std::exp(x0[b * C + k] - m);
        for (int k = 0; k < C; ++k) { near("softmax", y.data()[b * C + k], std::exp(x0[b * C + k] - m) / d, b * C + k); sum += y.data()[b * C + k]; }
        near("row sum", sum, 1, b);
    }
    auto y0 = c.copy(y);
    l->backward(xi, yo, go, gi);
    for (int b = 0; b < B; ++b) {
        double dot = 0; for (int k = 0; k < C; ++k) dot += g0[b * C + k] * y0[b * C + k];
        for (int k = 0; k < C; ++k) near("softmax grad", gx.data()[b * C + k], gx0[b * C + k] + y0[b * C + k] * (g0[b * C + k] - dot), b * C + k);
    }
    exact("input", x, x0); exact("output", y, y0); exact("grad_output", gy, g0);
}

TEST_CASE("C05", "linear") {
    Shape s = rnd_shape(c, 2, 4, 4); int O = c.pick("O", 1, 5), N = s[0], I = 1; for (size_t i = 1; i < s.size(); ++i) I *= s[i];
    dw::Placeholder in(s); dw::Linear op(O, "l"); auto out = op(in);
    require("output shape", out.shape() == (Shape{N, O}));
    auto l = ICPULayer::create(op.m_info);
    auto& P = op.m_info.impl().params;
    Tensor W = P.at("weight").data(), b = P.at("bias").data(), gW = P.at("weight").grad(), gb = P.at("bias").grad();
    require("weight shape", W.shape() == (Shape{O, I}) && gW.shape() == W.shape() && b.shape() == (Shape{O}) && gb.shape() == b.shape());
    int reps = c.pick("reps", 1, 2);
    for (int rep = 0; rep < reps; ++rep) {
        if (rep) { N = c.pick("N2", 1, 5); s[0] = N; }
        c.fill(W); c.fill(b); c.fill(gW); c.fill(gb);
        Tensor x = c.tensor(s), y = c.tensor({N, O}), gy = c.tensor({N, O}), gx = c.tensor(s);
        auto x0 = c.copy(x), w0 = c.copy(W), b0 = c.copy(b), g0 = c.copy(gy), gx0 = c.copy(gx);
        V xi{x}, yo{y}, go{gy}, gi{gx};
        l->forward(xi, yo);
        for (int n = 0; n < N; ++n) for (int o = 0; o < O; ++o) { double v = b0[o]; for (int k = 0; k < I; ++k) v += x0[n * I + k] * w0[o * I + k]; near("forward", y.data()[n * O + o], v, n * O + o); }
        l->backward(xi, yo, go, gi);
        for (int n = 0; n < N; ++n) for (int k = 0; k < I; ++k) { double v = gx0[n * I + k]; for (int o = 0; o < O; ++o) v += g0[n * O + o] * w0[o * I + k]; near("input grad", gx.data()[n * I + k], v, n * I + k); }
        l->updateGradients(xi, go);
        for (int o = 0; o < O; ++o) { double v = 0; for (int n = 0; n < N; ++n) v += g0[n * O + o]; near("bias grad", gb.data()[o], v, o);
            for (int k = 0; k < I; ++k) { double u = 0; for (int n = 0; n < N; ++n) u += g0[n * O + o] * x0[n * I + k]; near("weight grad", gW.data()[o * I + k], u, o * I + k); } }
        exact("weight", W, w0); exact("bias", b, b0); exact("input", x, x0); exact("grad_output", gy, g0);
    }
}

struct Geo { int B, C, H, W, kh, kw, sh, sw, ph, pw, OH, OW; };
static Geo geo(Case& c, bool pool) {
    Geo g; g.B = c.pick("B", 1, 3); g.C = c.pick("C", 1, 3); g.H = c.pick("H", 1, 6); g.W = c.pick("W", 1, 6);
    g.kh = c.pick("kh", 1, 4); g.kw = c.pick("kw", 1, 4); g.sh = c.pick("sh", 1, 3); g.sw = c.pick("sw", 1, 3);
    g.ph = c.pick("ph", 0, pool ? g.kh - 1 : 3); g.pw = c.pick("pw", 0, pool ? g.kw - 1 : 3);
    if (g.H + 2 * g.ph < g.kh || g.W + 2 * g.pw < g.kw) throw Skip{};
    g.OH = (g.H + 2 * g.ph - g.kh) / g.sh + 1; g.OW = (g.W + 2 * g.pw - g.kw) / g.sw + 1;
    return g;
}
static void conv(Case& c, bool grads) {
    Geo g = geo(c, false); int O = c.pick("O", 1, 3);
    Shape s{g.B, g.C, g.H, g.W}; dw::Placeholder in(s);
    dw::Convolution op(O, {g.kh, g.kw}, {g.ph, g.pw}, {g.sh, g.sw}, "l"); auto out = op(in);
    require("output shape", out.shape() == (Shape{g.B, O, g.OH, g.OW}));
    auto l = ICPULayer::create(op.m_info);
    auto& P = op.m_info.impl().params;
    Tensor W = P.at("weight").data(), b = P.at("bias").data(), gW = P.at("weight").grad(), gb = P.at("bias").grad();
    require("weight shape", W.shape() == (Shape{O, g.C, g.kh, g.kw}) && b.total() == (size_t)O);
    int reps = c.pick("reps", 1, 3);
    for (int rep = 0; rep < reps; ++rep) {
        int B = rep ? (int)c.pick(rep == 1 ? "B2" : "B3", 1, 4) : g.B;
        c.fill(W); c.fill(b); c.fill(gW); c.fill(gb);
        Tensor x = c.tensor({B, g.C, g.H, g.W}), y = c.tensor({B, O, g.OH, g.OW});
        auto x0 = c.copy(x), w0 = c.copy(W), b0 = c.copy(b);
        auto X = [&](int n, int k, int i, int j) { return x0[((n * g.C + k) * g.H + i) * g.W + j]; };
        auto Wt = [&](int o, int k, int i, int j) { return w0[((o * g.C + k) * g.kh + i) * g.kw + j]; };
        V xi{x}, yo{y};
        l->forward(xi, yo);
        for (int n = 0; n < B; ++n) for (int o = 0; o < O; ++o) for (int r = 0; r < g.OH; ++r) for (int t = 0; t < g.OW; ++t) {
            double v = b0[o];
            for (int k = 0; k < g.C; ++k) for (int i = 0; i < g.kh; ++i) for (int j = 0; j < g.kw; ++j) {
                int h = r * g.sh + i - g.ph, w = t * g.sw + j - g.pw;
                if (h >= 0 && h < g.H && w >= 0 && w < g.W) v += Wt(o, k, i, j) * X(n, k, h, w);
            }
            long at = ((n * O + o) * g.OH + r) * g.OW + t; near("forward", y.data()[at], v, at);
        }
        exact("input", x, x0); exact("weight", W, w0); exact("bias", b, b0);
        if (!grads) continue;
        Tensor gy = c.tensor(y.shape()), gx = c.tensor(x.shape());
        auto g0 = c.copy(gy), gx0 = c.copy(gx);
        V go{gy}, gi{gx};
        std::vector<double> ex = gx0, ew(w0.size(), 0), eb(O, 0);
        for (int n = 0; n < B; ++n) for (int o = 0; o < O; ++o) for (int r = 0; r < g.OH; ++r) for (int t = 0; t < g.OW; ++t) {
            double u = g0[((n * O + o) * g.OH + r) * g.OW + t]; eb[o] += u;
            for (int k = 0; k < g.C; ++k) for (int i = 0; i < g.kh; ++i) for (int j = 0; j < g.kw; ++j) {
                int h = r * g.sh + i - g.ph, w = t * g.sw + j - g.pw;
                if (h >= 0 && h < g.H && w >= 0 && w < g.W) { ex[((n * g.C + k) * g.H + h) * g.W + w] += u * Wt(o, k, i, j); ew[((o * g.C + k) * g.kh + i) * g.kw + j] += u * X(n, k, h, w); }
            }
        }
        // the order used by the model: backward then updateGradients; parameters may also be updated first
        if (c.pick("order", 0, 1)) { l->updateGradients(xi, go); l->backward(xi, yo, go, gi); }
        else { l->backward(xi, yo, go, gi); Tensor z; l->updateGradients(xi, go); }
        same("input grad", gx, ex);
        exact("grad_output", gy, g0); exact("input", x, x0); exact("weight", W, w0);
        same("weight grad", gW, ew); same("bias grad", gb, eb);
    }
}
TEST_CASE("C06", "convolution") { conv(c, false); }
TEST_CASE("C07", "convolution gradients") { conv(c, true); }

TEST_CASE("C08", "max pooling") {
    Geo g = geo(c, true);
    Shape s{g.B, g.C, g.H, g.W}; dw::Placeholder in(s);
    dw::MaxPooling op({g.kh, g.kw}, {g.ph, g.pw}, {g.sh, g.sw}, "l"); auto out = op(in);
    require("output shape", out.shape() == (Shape{g.B, g.C, g.OH, g.OW}));
    auto l = ICPULayer::create(op.m_info);
    int reps = c.pick("reps", 1, 3);
    for (int rep = 0; rep < reps; ++rep) {
        int B = rep ? (int)c.pick(rep == 1 ? "B2" : "B3", 1, 4) : g.B;
        long mode = c.pick(rep == 0 ? "values" : rep == 1 ? "values2" : "values3", 0, 3);
        Tensor x = c.tensor({B, g.C, g.H, g.W}), y = c.tensor({B, g.C, g.OH, g.OW}), gy = c.tensor({B, g.C, g.OH, g.OW}), gx = c.tensor({B, g.C, g.H, g.W});
        if (mode == 1) for (size_t i = 0; i < x.total(); ++i) x.data()[i] = -1 - std::fabs(x.data()[i]);
        if (mode == 2) for (size_t i = 0; i < x.total(); ++i) x.data()[i] = (float)((int)x.data()[i] % 2);
        if (mode == 3) for (size_t i = 0; i < x.total(); ++i) x.data()[i] *= 1e20f;
        auto x0 = c.copy(x), g0 = c.copy(gy), ex = c.copy(gx);
        V xi{x}, yo{y}, go{gy}, gi{gx};
        l->forward(xi, yo);
        for (int n = 0; n < B * g.C; ++n) for (int r = 0; r < g.OH; ++r) for (int t = 0; t < g.OW; ++t) {
            double best = 0; long at = -1;
            for (int i = 0; i < g.kh; ++i) for (int j = 0; j < g.kw; ++j) {
                int h = r * g.sh + i - g.ph, w = t * g.sw + j - g.pw;
                if (h < 0 || h >= g.H || w < 0 || w >= g.W) continue;
                double v = x0[(n * g.H + h) * g.W + w];
                if (at < 0 || v > best) { best = v; at = (n * g.H + h) * g.W + w; }
            }
            long o = (n * g.OH + r) * g.OW + t;
            near("forward", y.data()[o], best, o);
            ex[at] += g0[o];
        }
        l->backward(xi, yo, go, gi);
        same("input grad", gx, ex); exact("input", x, x0); exact("grad_output", gy, g0);
    }
}
TEST_CASE("C09", "add") {
    Shape s = rnd_shape(c); dw::Placeholder a(s), b(s); dw::Add op("l"); auto out = op(a, b);
    require("output shape", out.shape() == s);
    auto l = ICPULayer::create(op.m_info);
    Tensor x = c.tensor(s), z = c.tensor(s), y = c.tensor(s), gy = c.tensor(s), gx = c.tensor(s), gz = c.tensor(s);
    auto x0 = c.copy(x), z0 = c.copy(z), g0 = c.copy(gy), a0 = c.copy(gx), b0 = c.copy(gz);
    V xi{x, z}, yo{y}, go{gy}, gi{gx, gz};
    l->forward(xi, yo); l->backward(xi, yo, go, gi);
    for (size_t i = 0; i < x0.size(); ++i) { near("add", y.data()[i], x0[i] + z0[i], i); near("add grad 0", gx.data()[i], a0[i] + g0[i], i); near("add grad 1", gz.data()[i], b0[i] + g0[i], i); }
    exact("input 0", x, x0); exact("input 1", z, z0); exact("grad_output", gy, g0);
}
TEST_CASE("C09", "add of a tensor to itself") {
    Shape s = rnd_shape(c); dw::Placeholder a(s); dw::Add op("l"); auto out = op(a, a);
    auto l = ICPULayer::create(op.m_info);
    Tensor x = c.tensor(s), y = c.tensor(s), gy = c.tensor(s), gx = c.tensor(s);
    auto x0 = c.copy(x), g0 = c.copy(gy), a0 = c.copy(gx);
    V xi{x, x}, yo{y}, go{gy}, gi{gx, gx};
    l->forward(xi, yo); l->backward(xi, yo, go, gi);
    for (size_t i = 0; i < x0.size(); ++i) { near("add", y.data()[i], 2 * x0[i], i); near("add grad", gx.data()[i], a0[i] + 2 * g0[i], i); }
}
TEST_CASE("C09", "global average pooling") {
    int B = c.pick("B", 1, 4), C = c.pick("C", 1, 4), H = c.pick("H", 1, 5), W = c.pick("W", 1, 5);
    Shape s{B, C, H, W}, os{B, C, 1, 1}; dw::Placeholder in(s); dw::GlobalAvgPooling op("l"); auto out = op(in);
    require("output shape", out.shape() == os);
    auto l = ICPULayer::create(op.m_info);
    Tensor x = c.tensor(s), y = c.tensor(os), gy = c.tensor(os), gx = c.tensor(s);
    auto x0 = c.copy(x), g0 = c.copy(gy), gx0 = c.copy(gx);
    V xi{x}, yo{y}, go{gy}, gi{gx};
    l->forward(xi, yo); l->backward(xi, yo, go, gi);
    for (int n = 0; n < B * C; ++n) { double v = 0; for (int k = 0; k < H * W; ++k) { v += x0[n * H * W + k]; near("gap grad", gx.data()[n * H * W + k], gx0[n * H * W + k] + g0[n] / (H * W), n * H * W + k); } near("gap", y.data()[n], v / (H * W), n); }
    exact("input", x, x0); exact("grad_output", gy, g0);
}

template <class Op> static void bn(Case& c, bool two, int part) {
    int C = c.pick("C", 1, 4), H = two ? c.pick("H", 1, 3) : 1, W = two ? c.pick("W", 1, 3) : 1;
    float eps = (float)c.choose("eps1000", {1, 10, 1000}) / 1000.f, al = (float)c.pick("alpha8", 0, 8) / 8.f;
    int B = c.pick("B", 1, 4);
    auto sh = [&](int b) { return two ? Shape{b, C, H, W} : Shape{b, C}; };
    dw::Placeholder in(sh(B)); Op op(eps, al, "l"); auto out = op(in);
    require("output shape", out.shape() == sh(B));
    auto l = ICPULayer::create(op.m_info);
    auto& P = op.m_info.impl().params; auto& Bf = op.m_info.impl().buffers;
    Tensor ga = P.at("gamma").data(), be = P.at("beta").data(), gga = P.at("gamma").grad(), gbe = P.at("beta").grad();
    Tensor rm = Bf.at("running_mean"), rv = Bf.at("running_var");
    int reps = c.pick("reps", 1, 3);
    for (int rep = 0; rep < reps; ++rep) {
        if (rep) B = c.pick(rep == 1 ? "B2" : "B3", 1, 5);
        bool train = part != 0 || c.pick(rep == 0 ? "train" : rep == 1 ? "train2" : "train3", 0, 1);
        P.at("gamma").train(train); P.at("beta").train(train);
        c.fill(ga); c.fill(be); c.fill(gga); c.fill(gbe);
        if (c.pick(rep == 0 ? "stats" : rep == 1 ? "stats2" : "stats3", 0, 1)) { c.fill(rm); c.fill(rv); for (int k = 0; k < C; ++k) rv.data()[k] = 0.25f + std::fabs(rv.data()[k]); }
        Tensor x = c.tensor(sh(B)), y = c.tensor(sh(B)), gy = c.tensor(sh(B)), gx = c.tensor(sh(B));
        auto x0 = c.copy(x), ga0 = c.copy(ga), be0 = c.copy(be), rm0 = c.copy(rm), rv0 = c.copy(rv), g0 = c.copy(gy), gx0 = c.copy(gx);
        int S = H * W; long n = (long)B * S;
        V xi{x}, yo{y}, go{gy}, gi{gx};
        l->forward(xi, yo);
        std::vector<double> mean(C, 0), var(C, 0);
        auto at = [&](int b, int k, int s) { return (b * C + k) * S + s; };
        for (int k = 0; k < C; ++k) {
            for (int b = 0; b < B; ++b) for (int s = 0; s < S; ++s) mean[k] += x0[at(b, k, s)] / n;
            for (int b = 0; b < B; ++b) for (int s = 0; s < S; ++s) { double d = x0[at(b, k, s)] - mean[k]; var[k] += d * d / n; }
            double mu = train ? mean[k] : rm0[k], va = train ? var[k] : rv0[k], sd = std::sqrt(va + eps);
            if (part == 0) {
                for (int b = 0; b < B; ++b) for (int s = 0; s < S; ++s) near("forward", y.data()[at(b, k, s)], (x0[at(b, k, s)] - mu) / sd * ga0[k] + be0[k], at(b, k, s), 1e-3);
                near("running mean", rm.data()[k], train ? rm0[k] * al + mean[k] * (1 - al) : rm0[k], k, train ? 1e-3 : 0);
                near("running var", rv.data()[k], train ? rv0[k] * al + var[k] * (1 - al) : rv0[k], k, train ? 1e-3 : 0);
            }
        }
        exact("gamma", ga, ga0); exact("beta", be, be0); exact("input", x, x0);
        if (part == 0) continue;
        if (c.pick(rep == 0 ? "order" : rep == 1 ? "order2" : "order3", 0, 1)) { l->updateGradients(xi, go); l->backward(xi, yo, go, gi); } else { l->backward(xi, yo, go, gi); l->updateGradients(xi, go); }
        for (int k = 0; k < C; ++k) {
            double sd = std::sqrt(var[k] + eps), sg = 0, sgx = 0;
            for (int b = 0; b < B; ++b) for (int s = 0; s < S; ++s) { double xh = (x0[at(b, k, s)] - mean[k]) / sd; sg += g0[at(b, k, s)]; sgx += g0[at(b, k, s)] * xh; }
            near("beta grad", gbe.data()[k], sg, k, 2e-3); near("gamma grad", gga.data()[k], sgx, k, 2e-3);
            for (int b = 0; b < B; ++b) for (int s = 0; s < S; ++s) { double xh = (x0[at(b, k, s)] - mean[k]) / sd; double e = ga0[k] / sd * (g0[at(b, k, s)] - sg / n - xh * sgx / n);
                near("input grad", gx.data()[at(b, k, s)], gx0[at(b, k, s)] + e, at(b, k, s), 2e-3 * std::max(1.0, std::fabs(ga0[k] / sd))); }
        }
        exact("grad_output", gy, g0);
    }
}
TEST_CASE("C10", "batch norm 1d") { bn<dw::BatchNorm1D>(c, false, 0); }
TEST_CASE("C10", "batch norm 2d") { bn<dw::BatchNorm2D>(c, true, 0); }
TEST_CASE("C11", "batch norm 1d gradients") { bn<dw::BatchNorm1D>(c, false, 1); }
TEST_CASE("C11", "batch norm 2d gradients") { bn<dw::BatchNorm2D>(c, true, 1); }

TEST_CASE("C12", "dropout") {
    Shape s = rnd_shape(c, 1, 4, 6); float p = c.pick("p8", 0, 7) / 8.f;
    dw::Placeholder in(s); dw::Dropout op(p, "l"); auto out = op(in);
    require("output shape", out.shape() == s);
    auto l = ICPULayer::create(op.m_info);
    auto& P = op.m_info.impl().params;
    bool train = c.pick("train", 0, 1); P.at("mask").train(train);
    Tensor x = c.tensor(s), y = c.tensor(s), gy = c.tensor(s), gx = c.tensor(s);
    for (size_t i = 0; i < x.total(); ++i) if (x.data()[i] == 0) x.data()[i] = 1;
    auto x0 = c.copy(x), g0 = c.copy(gy), gx0 = c.copy(gx);
    V xi{x}, yo{y}, go{gy}, gi{gx};
    l->forward(xi, yo);
    exact("input", x, x0);
    if (!train) { exact("evaluation mode is the identity", y, x0); return; }
    for (size_t i = 0; i < x0.size(); ++i) if (y.data()[i] != 0) near("kept element", y.data()[i], x0[i] / (1 - p), i);
    if (p == 0) for (size_t i = 0; i < x0.size(); ++i) require("p = 0 keeps every element", y.data()[i] != 0);
    auto y0 = c.copy(y);
    l->backward(xi, yo, go, gi);
    for (size_t i = 0; i < x0.size(); ++i) near("dropout grad", gx.data()[i], gx0[i] + (y0[i] != 0 ? g0[i] / (1 - p) : 0), i);
    exact("grad_output", gy, g0);
}
// a draw that equals the drop probability: both directions must agree on it
TEST_CASE("C12", "dropout boundary draw") {
    int n = c.pick("N", 1, 8);
    dw::utils::generator().seed((unsigned)c.pick("gseed", 1, 1000000));
    auto g = dw::utils::generator(); std::uniform_real_distribution<float> d(0.f, 1.f);
    std::vector<float> u; for (int i = 0; i < n; ++i) u.push_back(d(g));
    float p = u[c.pick("which", 0, n - 1)];
    dw::Placeholder in(Shape{1, n}); dw::Dropout op(p, "l"); op(in);
    auto l = ICPULayer::create(op.m_info);
    Tensor x = Tensor::constant({1, n}, 1.f), y({1, n}), gy = Tensor::constant({1, n}, 1.f), gx = Tensor::zeros({1, n});
    V xi{x}, yo{y}, go{gy}, gi{gx};
    l->forward(xi, yo); l->backward(xi, yo, go, gi);
    for (int i = 0; i < n; ++i) near("gradient follows the mask of the forward pass", gx.data()[i], y.data()[i] != 0 ? 1 / (1 - (double)p) : 0, i);
}
TEST_CASE("C12", "dropout rate") {
    float p = c.pick("p8", 0, 7) / 8.f; int n = 20000;
    dw::Placeholder in(Shape{n}); dw::Dropout op(p, "l"); op(in);
    auto l = ICPULayer::create(op.m_info);
    Tensor x = Tensor::constant({n}, 1.f), y({n}); V xi{x}, yo{y};
    l->forward(xi, yo);
    long z = 0; for (int i = 0; i < n; ++i) z += y.data()[i] == 0;
    double sd = std::sqrt(n * p * (1 - p)) + 1e-9;
    require("fraction of dropped elements is p (8 sigma)", std::fabs(z - n * p) <= 8 * sd);
}

TEST_CASE("C21", "layout round trip") {
    int N = c.pick("N", 1, 4), C = c.pick("C", 1, 5), H = c.pick("H", 1, 5), W = c.pick("W", 1, 5);
    Tensor a = c.tensor({N, C, H, W}), b = c.tensor({N, H, W, C}), d = c.tensor({N, C, H, W}), e = c.tensor({N, H, W, C});
    auto a0 = c.copy(a);
    dw::utils::NCHW2NHWC(a, b);
    for (int n = 0; n < N; ++n) for (int k = 0; k < C; ++k) for (int h = 0; h < H; ++h) for (int w = 0; w < W; ++w) near("nhwc", b.data()[((n * H + h) * W + w) * C + k], a0[((n * C + k) * H + h) * W + w], 0, 0);
    auto b0 = c.copy(b);
    dw::utils::NHWC2NCHW(b, d); exact("round trip", d, a0);
    dw::utils::NCHW2NHWC(d, e); exact("round trip 2", e, b0); exact("source", a, a0); exact("source 2", b, b0);
}
