// Concrete oracle runs of the real code (bounded audit and replay of failed obligations).
#pragma once
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <random>
#include <sstream>
#include <string>
#include <vector>
#include <stdexcept>
#include <deepworks/tensor.hpp>
namespace dw = deepworks;

struct Skip {};
struct Case {                       // one concrete case: named choices, recorded for replay
    std::map<std::string, long> fixed; bool replay = false;
    std::mt19937_64 rng; std::ostringstream rec; std::string kind;
    long pick(const char* n, long lo, long hi) {
        long v;
        auto it = fixed.find(n);
        if (it != fixed.end()) v = it->second;
        else v = lo + (long)(rng() % (unsigned long)(hi - lo + 1));
        if (it == fixed.end() && !consts().empty() && extent(n) && rng() % 6 == 0) {   // thresholds found in the code
            long w = (long)consts()[rng() % consts().size()] + (long)(rng() % 3) - 1;
            if (w >= lo && w <= (std::strcmp(n, "start") ? 70 : 5000)) v = w;
        }
        rec << " " << n << "=" << v;
        return v;
    }
    long choose(const char* n, std::vector<long> vs) {
        auto it = fixed.find(n);
        long v = it != fixed.end() ? it->second : vs[rng() % vs.size()];
        rec << " " << n << "=" << v;
        return v;
    }
    static const std::vector<double>& consts() {
        static std::vector<double> c = [] { std::vector<double> v; const char* e = std::getenv("DRV_CONSTS"); if (!e) return v;
            std::stringstream ss(e); std::string t; while (std::getline(ss, t, ',')) if (!t.empty()) v.push_back(std::atof(t.c_str())); return v; }();
        return c;
    }
    static bool extent(const std::string& n) { return n == "B" || n == "C" || n == "H" || n == "W" || n == "O" || n == "N" || n == "N2" || n == "start" || (n.size() == 2 && n[0] == 'd'); }
    // data values: multiples of 1/8 in [-3,3], sometimes zero
    float val() { if (!consts().empty() && rng() % 12 == 0) return (float)(consts()[rng() % consts().size()] + ((long)(rng() % 3) - 1) / 8.0) * (rng() % 2 ? 1 : -1); long k = (long)(rng() % 49) - 24; return k / 8.0f; }
    void fill(dw::Tensor& t) { for (size_t i = 0; i < t.total(); ++i) t.data()[i] = val(); }
    dw::Tensor tensor(const dw::Shape& s) { dw::Tensor t(s); fill(t); return t; }
    std::vector<double> copy(const dw::Tensor& t) { return std::vector<double>(t.data(), t.data() + t.total()); }
};
struct Fail { std::string what; };
inline void near(const char* what, double got, double want, long at = -1, double tol = 2e-4) {
    bool ok = std::isfinite(want) ? (std::isfinite(got) && std::fabs(got - want) <= tol * (1.0 + std::fabs(want))) : (got == want || (std::isnan(got) && std::isnan(want)));
    if (ok) return;
    char b[512]; std::snprintf(b, sizeof b, "%s[%ld]: got %.9g, want %.9g", what, at, got, want);
    throw Fail{b};
}
inline void same(const char* what, const dw::Tensor& t, const std::vector<double>& w) {
    if (t.total() != w.size()) throw Fail{std::string(what) + ": wrong number of elements"};
    for (size_t i = 0; i < w.size(); ++i) near(what, t.data()[i], w[i], (long)i);
}
inline void exact(const char* what, const dw::Tensor& t, const std::vector<double>& w) {
    if (t.total() != w.size()) throw Fail{std::string(what) + ": wrong number of elements"};
    for (size_t i = 0; i < w.size(); ++i) if (!((double)t.data()[i] == w[i])) near(what, t.data()[i], w[i], (long)i, -1);
}
inline void require(const char* what, bool ok) { if (!ok) throw Fail{what}; }
template <class F> bool throws(F f) { try { f(); } catch (const std::exception&) { return true; } return false; }

using Test = std::function<void(Case&)>;
std::map<std::string, std::vector<std::pair<std::string, Test>>>& tests();   // property -> named tests
struct Reg { Reg(const char* p, const char* n, Test t) { tests()[p].push_back({n, t}); } };
#define CAT2(a,b) a##b
#define CAT(a,b) CAT2(a,b)
#define TEST_CASE(prop, name) static void CAT(tc_,__LINE__)(Case& c); static Reg CAT(reg_,__LINE__)(prop, name, CAT(tc_,__LINE__)); static void CAT(tc_,__LINE__)(Case& c)

// usage: drv PROP SEED COUNT            every test of PROP, COUNT random cases each
//        drv PROP --case NAME SEED k=v...   one case
inline int run_one(const std::string& prop, const std::string& name, const Test& t, unsigned long seed, std::map<std::string, long> fixed) {
    Case c; c.rng.seed(seed); c.fixed = fixed; c.replay = !fixed.empty();
    // announced before running: a crash (sanitizer) still leaves the case on record
    try { t(c); }
    catch (const Skip&) { return 2; }
    catch (const Fail& f) { std::printf("FAIL property=%s test=%s seed=%lu%s :: %s\n", prop.c_str(), name.c_str(), seed, c.rec.str().c_str(), f.what.c_str()); std::fflush(stdout); return 1; }
    catch (const std::exception& e) { std::printf("FAIL property=%s test=%s seed=%lu%s :: unexpected exception: %s\n", prop.c_str(), name.c_str(), seed, c.rec.str().c_str(), e.what()); std::fflush(stdout); return 1; }
    return 0;
}
#ifdef DRV_MAIN
std::map<std::string, std::vector<std::pair<std::string, Test>>>& tests() { static std::map<std::string, std::vector<std::pair<std::string, Test>>> m; return m; }
int main(int argc, char** argv) {
    if (argc < 3) return 64;
    std::string prop = argv[1];
    if (!std::strcmp(argv[2], "--case")) {
        std::map<std::string, long> fixed;
        for (int i = 5; i < argc; ++i) { char* e = std::strchr(argv[i], '='); if (e) { *e = 0; fixed[argv[i]] = std::atol(e + 1); } }
        for (auto& t : tests()[prop]) if (t.first == argv[3]) {
            int r = run_one(prop, t.first, t.second, std::strtoul(argv[4], 0, 10), fixed);
            std::printf(r == 1 ? "REPLAY: violated\n" : r == 2 ? "REPLAY: case not applicable\n" : "REPLAY: holds\n");
            return r == 1 ? 1 : 0;
        }
        return 64;
    }
    unsigned long seed = std::strtoul(argv[2], 0, 10); long n = std::atol(argv[3]);
    const char* skip = argc > 4 ? argv[4] : "";          // test to skip (used after a crash)
    long ran = 0, skipped = 0; int bad = 0;
    for (auto& t : tests()[prop]) {
        if (t.first == skip) continue;
        for (long k = 0; k < n; ++k) {
            unsigned long s = seed * 1000003ul + (unsigned long)k;
            std::fprintf(stderr, "CASE test=%s seed=%lu\n", t.first.c_str(), s);
            int r = run_one(prop, t.first, t.second, s, {});
            if (r == 2) ++skipped; else ++ran;
            if (r == 1) { bad = 1; break; }
        }
    }
    std::printf("RAN %ld cases, %ld not applicable, %zu tests\n", ran, skipped, tests()[prop].size());
    return bad;
}
#endif
