// Bounded runs of the real code.  Everything here uses the public interface
// only and compares with independent double-precision oracles.
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cmath>
#include <ctime>
#include <string>
#include <sstream>
#include <vector>
#include <map>
#include <set>
#include <algorithm>
#include <distributions/models/bb.hpp>
#include <distributions/models/bnb.hpp>
#include <distributions/models/dd.hpp>
#include <distributions/models/dpd.hpp>
#include <distributions/models/gp.hpp>
#include <distributions/models/nich.hpp>
#include <distributions/models/niw.hpp>
#include <distributions/clustering.hpp>
#include <distributions/mixture.hpp>
#include <distributions/sparse.hpp>
#include "common.cc"
#include "special.cc"
#include "random.cc"
#include "vector_math.cc"
#include "clustering.cc"
#include "models/gp.cc"
#include "models/nich.cc"
#include "models/niw.cc"
using namespace distributions;
static std::mt19937 mt;
static rng_t gen;
static long cases = 0, fails = 0;
static double deadline;
static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }
static bool go_on() { return now() < deadline && fails < 20; }
static double U() { return std::uniform_real_distribution<double>(0, 1)(mt); }
static int I(int n) { return std::uniform_int_distribution<int>(0, n - 1)(mt); }
static double N() { return std::normal_distribution<double>()(mt); }
static double logu(double a, double b) { return a * std::pow(b / a, U()); }
struct Case {
    std::ostringstream s;
    template<class T> Case & operator<<(const T & t) { s << t; return *this; }
    std::string str() const { return s.str(); }
};
static double slack = 0;   // documented approximation error of the special functions used
static std::string current;
static void begin(const std::string & s) { current = s; slack = s.compare(0, 4, "nich") == 0 ? .02 : 0; ++cases; printf("CASE %s\n", s.substr(0, 600).c_str()); if ((cases & 63) == 0) fflush(stdout); }
static void fail(const std::string & s) { ++fails; printf("CASE-FAIL %s [%s]\n", s.c_str(), current.substr(0, 900).c_str()); fflush(stdout); }
static bool near(double a, double b, double scale = 0) {
    if (a == b) return true;
    return std::fabs(a - b) <= slack + 2e-3 + 3e-4 * (std::fabs(a) + std::fabs(b) + scale);
}
static void check(const std::string & what, double got, double want, double scale = 0) {
    if (!near(got, want, scale)) { Case c; c << what << ": got " << got << ", want " << want; fail(c.str()); }
}
static void check_eq(const std::string & what, double got, double want) {
    if (!(got == want)) { Case c; c << what << ": got " << got << ", want " << want; fail(c.str()); }
}
static void check_true(const std::string & what, bool b) { if (!b) fail(what); }
// throws are failures unless expected
template<class F> void guarded(F f) {
    try { f(); } catch (const std::exception & e) { fail(std::string("exception ") + e.what()); }
}
static int dyn_main(int argc, char ** argv, void (*run)()) {
    setvbuf(stdout, nullptr, _IOFBF, 1 << 16);
    mt.seed(argc > 1 ? atoi(argv[1]) : 1); gen.seed(mt());
    double secs = argc > 2 ? atof(argv[2]) : 5;
    deadline = now() + secs;
    run();
    printf("CASES %ld\n", cases);
    fflush(stdout);
    return fails ? 1 : 0;
}
static double lg(double x) { return ::lgamma(x); }

// ---------------------------------------------------------------- models
typedef BetaBernoulli BB;
typedef BetaNegativeBinomial BNB;
typedef GammaPoisson GP;
typedef NormalInverseChiSq NICH;
typedef DirichletDiscrete<16> DD;
typedef DirichletProcessDiscrete DPD;
typedef NormalInverseWishart<-1> NIW;

template<class M> struct Tr;
template<> struct Tr<BB> {
    static const char * name() { return "bb"; }
    static BB::Shared shared() { BB::Shared s; s.alpha = logu(.1, 20); s.beta = logu(.1, 20); return s; }
    static BB::Shared other(const BB::Shared & s) { BB::Shared t = s; int k = I(3); if (k != 1) t.alpha = logu(.1, 20); if (k != 0) t.beta = logu(.1, 20); return t; }
    static std::string show(const BB::Shared & s) { Case c; c << "alpha=" << s.alpha << " beta=" << s.beta; return c.str(); }
    static bool value(const BB::Shared &) { return I(2); }
    static std::string showv(bool v) { return v ? "1" : "0"; }
    static std::vector<double> stats(const BB::Shared &, const BB::Group & g) { return {double(g.heads), double(g.tails)}; }
    static std::vector<double> ostats(const BB::Shared &, const std::vector<bool> & d) { double h = 0, t = 0; for (bool v : d) (v ? h : t) += 1; return {h, t}; }
    static double data(const BB::Shared & s, const std::vector<bool> & d) {
        auto t = ostats(s, d); double a = s.alpha, b = s.beta;
        return lg(a + t[0]) + lg(b + t[1]) - lg(a + b + t[0] + t[1]) + lg(a + b) - lg(a) - lg(b);
    }
};
template<> struct Tr<BNB> {
    static const char * name() { return "bnb"; }
    static BNB::Shared shared() { BNB::Shared s; s.alpha = logu(.2, 20); s.beta = logu(.2, 20); s.r = 1 + I(6); return s; }
    static BNB::Shared other(const BNB::Shared & s) { BNB::Shared t = s, u = shared(); int k = I(4); if (k == 0 || k == 3) t.alpha = u.alpha; if (k == 1 || k == 3) t.beta = u.beta; if (k == 2 || k == 3) t.r = u.r; return t; }
    static std::string show(const BNB::Shared & s) { Case c; c << "alpha=" << s.alpha << " beta=" << s.beta << " r=" << s.r; return c.str(); }
    static uint32_t value(const BNB::Shared &) { return I(4) ? I(6) : I(40); }
    static std::string showv(uint32_t v) { return std::to_string(v); }
    static std::vector<double> stats(const BNB::Shared &, const BNB::Group & g) { return {double(g.count), double(g.sum)}; }
    static std::vector<double> ostats(const BNB::Shared &, const std::vector<uint32_t> & d) { double s = 0; for (auto v : d) s += v; return {double(d.size()), s}; }
    static double data(const BNB::Shared & s, const std::vector<uint32_t> & d) {
        auto t = ostats(s, d); double a = s.alpha, b = s.beta, r = s.r;
        return lg(a + b) - lg(a) - lg(b) + lg(a + r * t[0]) + lg(b + t[1]) - lg(a + r * t[0] + b + t[1]);
    }
};
template<> struct Tr<GP> {
    static const char * name() { return "gp"; }
    static GP::Shared shared() { GP::Shared s; s.alpha = logu(.1, 20); s.inv_beta = logu(.1, 10); return s; }
    static GP::Shared other(const GP::Shared & s) { GP::Shared t = s; int k = I(3); if (k != 1) t.alpha = logu(.1, 20); if (k != 0) t.inv_beta = logu(.1, 10); return t; }
    static std::string show(const GP::Shared & s) { Case c; c << "alpha=" << s.alpha << " inv_beta=" << s.inv_beta; return c.str(); }
    static uint32_t value(const GP::Shared &) { return I(4) ? I(8) : I(50); }
    static std::string showv(uint32_t v) { return std::to_string(v); }
    static std::vector<double> stats(const GP::Shared &, const GP::Group & g) { return {double(g.count), double(g.sum), double(g.log_prod)}; }
    static std::vector<double> ostats(const GP::Shared &, const std::vector<uint32_t> & d) { double s = 0, l = 0; for (auto v : d) { s += v; l += lg(v + 1.); } return {double(d.size()), s, l}; }
    static double data(const GP::Shared & s, const std::vector<uint32_t> & d) {
        auto t = ostats(s, d); double a = s.alpha, b = s.inv_beta;
        return lg(a + t[1]) - lg(a) + a * log(b) - (a + t[1]) * log(b + t[0]) - t[2];
    }
};
template<> struct Tr<NICH> {
    static const char * name() { return "nich"; }
    static NICH::Shared shared() { NICH::Shared s; s.mu = 2 * N(); s.kappa = logu(.1, 5); s.sigmasq = logu(.2, 5); s.nu = logu(.5, 10); return s; }
    static NICH::Shared other(const NICH::Shared & s) { NICH::Shared t = s, u = shared(); int k = I(5); if (k == 0 || k == 4) t.mu = u.mu; if (k == 1 || k == 4) t.kappa = u.kappa; if (k == 2 || k == 4) t.sigmasq = u.sigmasq; if (k == 3 || k == 4) t.nu = u.nu; return t; }
    static std::string show(const NICH::Shared & s) { Case c; c << "mu=" << s.mu << " kappa=" << s.kappa << " sigmasq=" << s.sigmasq << " nu=" << s.nu; return c.str(); }
    static float value(const NICH::Shared & s) { return I(8) ? s.mu + 2 * N() : float(I(5) - 2); }
    static std::string showv(float v) { return std::to_string(v); }
    static std::vector<double> stats(const NICH::Shared &, const NICH::Group & g) { return {double(g.count), double(g.mean), double(g.count_times_variance)}; }
    static std::vector<double> ostats(const NICH::Shared &, const std::vector<float> & d) {
        double m = 0, q = 0; for (float v : d) m += v; if (d.size()) m /= d.size(); for (float v : d) q += (v - m) * (v - m);
        return {double(d.size()), m, q};
    }
    static double data(const NICH::Shared & s, const std::vector<float> & d) {
        auto t = ostats(s, d); double n = t[0], k = s.kappa + n, nu = s.nu + n, df = t[1] - s.mu;
        double S = s.nu * s.sigmasq + t[2] + (n * s.kappa / k) * df * df, sig = S / nu;
        return lg(nu / 2) - lg(s.nu / 2.) + .5 * log(s.kappa / k) + .5 * s.nu * log(double(s.nu) * s.sigmasq) - .5 * nu * log(nu * sig) - .5 * n * log(M_PI);
    }
};
template<> struct Tr<DD> {
    static const char * name() { return "dd"; }
    static DD::Shared make(int dim) { DD::Shared s; s.dim = dim; for (int i = 0; i < s.dim; ++i) s.alphas[i] = logu(.1, 8); for (int i = s.dim; i < 16; ++i) s.alphas[i] = 1e9; return s; }
    static DD::Shared shared() { return make(1 + I(16)); }
    static DD::Shared other(const DD::Shared & s) { DD::Shared t = s; if (I(3)) { t.alphas[I(s.dim)] = logu(.1, 8); return t; } return make(s.dim); }
    static std::string show(const DD::Shared & s) { Case c; c << "alphas="; for (int i = 0; i < s.dim; ++i) c << s.alphas[i] << ","; return c.str(); }
    static int value(const DD::Shared & s) { return I(s.dim); }
    static std::string showv(int v) { return std::to_string(v); }
    static std::vector<double> stats(const DD::Shared & s, const DD::Group & g) {
        std::vector<double> r = {double(g.dim), double(g.count_sum)};
        for (int i = 0; i < s.dim; ++i) r.push_back(g.counts[i]); return r;
    }
    static std::vector<double> ostats(const DD::Shared & s, const std::vector<int> & d) { std::vector<double> r(s.dim + 2); r[0] = s.dim; r[1] = d.size(); for (int v : d) r[2 + v] += 1; return r; }
    static double data(const DD::Shared & s, const std::vector<int> & d) {
        auto t = ostats(s, d); double A = 0, sc = 0;
        for (int i = 0; i < s.dim; ++i) { A += s.alphas[i]; sc += lg(s.alphas[i] + t[2 + i]) - lg(s.alphas[i]); }
        return sc + lg(A) - lg(A + d.size());
    }
};
template<> struct Tr<DPD> {
    static const char * name() { return "dpd"; }
    static DPD::Shared make(const std::vector<uint32_t> & ids) {
        DPD::Shared s; s.gamma = logu(.2, 5); s.alpha = logu(.2, 10);
        std::vector<double> w; double t = 0; for (size_t i = 0; i <= ids.size(); ++i) { w.push_back(.05 + U()); t += w.back(); }
        for (size_t i = 0; i < ids.size(); ++i) { s.betas.add(ids[i], w[i] / t); s.counts.add(ids[i], 1); }
        s.beta0 = w.back() / t;
        return s;
    }
    static DPD::Shared shared() {
        std::vector<uint32_t> ids; int k = 1 + I(7); uint32_t b = I(3) ? 0 : 1000 * I(100);
        for (int i = 0; i < k; ++i) { ids.push_back(b); b += 1 + (I(3) == 0 ? I(9) : 0); }
        return make(ids);
    }
    static std::vector<uint32_t> ids(const DPD::Shared & s) { std::vector<uint32_t> r; for (auto & i : s.betas) r.push_back(i.first); std::sort(r.begin(), r.end()); return r; }
    static DPD::Shared other(const DPD::Shared & s) {
        if (I(2)) { DPD::Shared t = s; t.alpha = logu(.2, 10); return t; }
        return make(ids(s));
    }
    static std::string show(const DPD::Shared & s) { Case c; c << "alpha=" << s.alpha << " beta0=" << s.beta0 << " betas="; for (auto i : ids(s)) c << i << ":" << s.betas.get(i) << ","; return c.str(); }
    static uint32_t value(const DPD::Shared & s) { auto r = ids(s); return r[I(r.size())]; }
    static std::string showv(uint32_t v) { return std::to_string(v); }
    static std::vector<double> stats(const DPD::Shared & s, const DPD::Group & g) {
        std::vector<double> r = {double(g.counts.get_total())};
        for (auto i : ids(s)) r.push_back(g.counts.get_count(i));
        double zero = 0; for (auto & i : g.counts) zero += i.second == 0; r.push_back(zero);
        return r;
    }
    static std::vector<double> ostats(const DPD::Shared & s, const std::vector<uint32_t> & d) {
        std::vector<double> r = {double(d.size())}; for (auto i : ids(s)) r.push_back(std::count(d.begin(), d.end(), i)); r.push_back(0); return r;
    }
    static double data(const DPD::Shared & s, const std::vector<uint32_t> & d) {
        double sc = lg(s.alpha) - lg(s.alpha + d.size());
        for (auto i : ids(s)) { double p = s.alpha * s.betas.get(i); sc += lg(p + std::count(d.begin(), d.end(), i)) - lg(p); }
        return sc;
    }
};
template<> struct Tr<NIW> {
    static const char * name() { return "niw"; }
    static NIW::Shared make(int n) {
        NIW::Shared s; s.mu.resize(n); s.psi.resize(n, n); s.kappa = logu(.3, 5); s.nu = n - 1 + logu(.7, 8);
        Eigen::MatrixXf a(n, n); for (int i = 0; i < n; ++i) { s.mu(i) = N(); for (int j = 0; j < n; ++j) a(i, j) = .5 * N(); }
        s.psi = a * a.transpose() + Eigen::MatrixXf::Identity(n, n) * logu(.7, 3);
        return s;
    }
    static NIW::Shared shared() { return make(1 + I(3)); }
    static NIW::Shared other(const NIW::Shared & s) { return make(s.mu.rows()); }
    static std::string show(const NIW::Shared & s) { Case c; c << "mu=" << s.mu.transpose() << " kappa=" << s.kappa << " nu=" << s.nu << " psi="; for (int i = 0; i < s.psi.size(); ++i) c << s.psi(i) << ","; return c.str(); }
    static NIW::Value value(const NIW::Shared & s) { NIW::Value v(s.mu.rows()); for (int i = 0; i < v.rows(); ++i) v(i) = s.mu(i) + N(); return v; }
    static std::string showv(const NIW::Value & v) { Case c; c << "(" << v.transpose() << ")"; return c.str(); }
    static std::vector<double> stats(const NIW::Shared &, const NIW::Group & g) {
        std::vector<double> r = {double(g.count)}; for (int i = 0; i < g.sum_x.size(); ++i) r.push_back(g.sum_x(i)); for (int i = 0; i < g.sum_xxT.size(); ++i) r.push_back(g.sum_xxT(i)); return r;
    }
    static std::vector<double> ostats(const NIW::Shared & s, const std::vector<NIW::Value> & d) {
        int n = s.mu.rows(); Eigen::VectorXd x = Eigen::VectorXd::Zero(n); Eigen::MatrixXd q = Eigen::MatrixXd::Zero(n, n);
        for (auto & v : d) { Eigen::VectorXd w = v.cast<double>(); x += w; q += w * w.transpose(); }
        std::vector<double> r = {double(d.size())}; for (int i = 0; i < n; ++i) r.push_back(x(i)); for (int i = 0; i < n * n; ++i) r.push_back(q(i)); return r;
    }
    static double lmg(int p, double a) { double r = p * (p - 1) / 4. * log(M_PI); for (int j = 1; j <= p; ++j) r += lg(a + (1 - j) / 2.); return r; }
    static double data(const NIW::Shared & s, const std::vector<NIW::Value> & d) {
        int p = s.mu.rows(); double n = d.size();
        Eigen::VectorXd x = Eigen::VectorXd::Zero(p); for (auto & v : d) x += v.cast<double>(); if (n) x /= n;
        Eigen::MatrixXd P = s.psi.cast<double>(); double d0 = P.determinant();
        for (auto & v : d) { Eigen::VectorXd w = v.cast<double>() - x; P += w * w.transpose(); }
        Eigen::VectorXd w = x - s.mu.cast<double>(); if (n) P += s.kappa * n / (s.kappa + n) * w * w.transpose();
        double nu = s.nu + n;
        return -n * p / 2 * log(M_PI) + lmg(p, nu / 2) - lmg(p, s.nu / 2.) + s.nu / 2. * log(d0) - nu / 2 * log(P.determinant()) + p / 2. * log(s.kappa / (s.kappa + n));
    }
};
template<class M> std::vector<typename M::Value> draw(const typename M::Shared & s, int n) {
    std::vector<typename M::Value> d; for (int i = 0; i < n; ++i) d.push_back(Tr<M>::value(s)); return d;
}
template<class M> typename M::Group filled(const typename M::Shared & s, const std::vector<typename M::Value> & d) {
    typename M::Group g; g.init(s, gen); for (const auto & v : d) { typename M::Value w = v; g.add_value(s, w, gen); } return g;
}
template<class M> std::string showd(const std::vector<typename M::Value> & d) { std::string r; for (const auto & v : d) { typename M::Value w = v; r += Tr<M>::showv(w) + " "; } return r; }
template<class M> void same_stats(const std::string & what, const typename M::Shared & s, const typename M::Group & g, const std::vector<typename M::Value> & d) {
    auto a = Tr<M>::stats(s, g), b = Tr<M>::ostats(s, d);
    if (a.size() != b.size()) { fail(what + ": dimension"); return; }
    double scale = 1; for (auto x : b) scale += std::fabs(x);
    for (size_t i = 0; i < a.size(); ++i) if (!near(a[i], b[i], scale * .2)) { Case c; c << Tr<M>::name() << " " << what << ": statistic " << i << " is " << a[i] << ", want " << b[i]; fail(c.str()); return; }
}
template<class M> double mag(const typename M::Shared & s, const std::vector<typename M::Value> & d) {
    double m = 20; for (double x : Tr<M>::ostats(s, d)) m += std::fabs(x); return m * log(m) / 15;   // float rounding of log-gamma at these arguments
}
#define ALL_MODELS(F) F<BB>(); F<BNB>(); F<GP>(); F<NICH>(); F<DD>(); F<DPD>(); F<NIW>();
#define MIX_MODELS(F) F<BB>(); F<BNB>(); F<GP>(); F<NICH>(); F<DD>(); F<DPD>();
