#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <algorithm>
#include <functional>
#include <numeric>
#include <set>
#include <string>
#include <unordered_map>
#include <vector>
#include <deepworks/nn.hpp>
#include <deepworks/tensor.hpp>
#include <deepworks/initializers.hpp>
#include <deepworks/loss.hpp>
#include <deepworks/metrics.hpp>
#include <deepworks/optimizer.hpp>
#include <deepworks/dataloader.hpp>
#include <deepworks/utils/utils.hpp>
#include "runtime/cpu/layers/cpulayer.hpp"
#include "expression/call_impl.hpp"
#include "expression/placeholder_impl.hpp"
namespace dw = deepworks;
using dw::Tensor; using dw::Shape; using TV = std::vector<Tensor>;
static Tensor mk(const Shape& s, std::function<float(int)> f) { Tensor t(s); for (size_t i = 0; i < t.total(); ++i) t.data()[i] = f((int)i); return t; }
static Tensor cst(const Shape& s, float v) { return mk(s, [=](int) { return v; }); }
static int bad = 0;
static void eq(const char* w, double a, double b, double tol = 1e-3) { if (!(std::fabs(a - b) <= tol * (1 + std::fabs(b)))) { std::printf("%s: got %g want %g\n", w, a, b); bad = 1; } }
static void ok(const char* w, bool c) { if (!c) { std::printf("%s\n", w); bad = 1; } }
