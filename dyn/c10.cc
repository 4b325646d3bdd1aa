// C10: discrete sampling and normalisation against a double-precision oracle
// for the draw the generator is about to produce.
#include "lib.hpp"
typedef std::vector<float> F;
static double unit() { rng_t g = gen; return sample_unif01(g); }
template<class V> V scores() {
    V v(1 + (I(8) ? I(6) : I(60)));
    double c = I(3) ? 0 : N() * 200, w = I(3) == 0 ? 30 : 2;
    int kind = I(5);
    for (auto & x : v) { x = c + (kind == 0 ? 0 : N() * w); if (kind == 1 && I(3) == 0) x = -1e4; if (kind == 2 && I(9) == 0) x = -INFINITY; }
    v[I(v.size())] = c + N();
    return v;
}
template<class V> std::string show(const V & v) { Case c; c.s.precision(9); for (float x : v) c << x << ","; return c.str(); }
template<class V> std::vector<double> exps(const V & s, double & mx, double & tot) {
    mx = -1e300; for (float x : s) mx = std::max(mx, (double) x);
    std::vector<double> r; tot = 0; for (float x : s) { r.push_back(exp(x - mx)); tot += r.back(); } return r;
}
static void index(const std::string & what, size_t k, const std::vector<double> & w, double t, double total) {
    if (k >= w.size()) { fail(what + ": index out of range"); return; }
    double p = 0; for (size_t i = 0; i < k; ++i) p += w[i];
    double tol = 1e-4 * total;
    if (p > t + tol) fail(what + ": index too large " + std::to_string(k));
    if (p + w[k] < t - tol && k + 1 < w.size()) fail(what + ": index too small " + std::to_string(k));
}
template<class V> void kernels(const char * name) {
    V s = scores<V>();
    begin(std::string(name) + " " + show(s));
    double mx, tot; auto w = exps(s, mx, tot);
    { V v = s; double r = scores_to_likelihoods(v); check("total likelihood", r, tot); for (size_t i = 0; i < v.size(); ++i) check("likelihood", v[i], w[i]); if (v.size() != s.size()) fail("size"); }
    { V v = s; scores_to_probs(v); for (size_t i = 0; i < v.size(); ++i) check("probability", v[i], w[i] / tot); }
    { V v = s; check("log_sum_exp", log_sum_exp(v), mx + log(tot)); if (!(v == s)) fail("log_sum_exp changes its input"); }
    { size_t k = I(s.size()); if (s[k] > -1e30) { V v = s; check("score_from_scores", score_from_scores_overwrite(gen, k, v), s[k] - mx - log(tot)); } }
    { V v = s; double u = unit(); size_t k = sample_from_scores_overwrite(gen, v); index("sample_from_scores_overwrite", k, w, u * tot, tot); }
    { V v = s; double u = unit(); size_t k = sample_from_scores(gen, v); index("sample_from_scores", k, w, u * tot, tot); if (!(v == s)) fail("sample_from_scores changes its input"); }
    { V v = s; double u = unit(); auto r = sample_prob_from_scores_overwrite(gen, v); index("sample_prob", r.first, w, u * tot, tot); if (r.first < w.size()) check("reported probability", r.second, w[r.first] / tot); }
    V l(s.size()); double sum = 0; for (auto & x : l) { x = I(4) ? logu(1e-3, 10) : 0; } l[I(l.size())] = 1;
    std::vector<double> lw(l.begin(), l.end()); for (double x : lw) sum += x;
    { double u = unit(); index("sample_from_likelihoods", sample_from_likelihoods(gen, l), lw, u * sum, sum); }
    { double u = unit(); index("sample_from_likelihoods total", sample_from_likelihoods(gen, l, (float) sum), lw, u * sum, sum); }
    V q = l; for (auto & x : q) x /= sum; std::vector<double> qw(q.begin(), q.end());
    { double u = unit(); index("sample_from_probs", sample_from_probs(gen, q), qw, u, 1); }
    { double u = unit(); index("sample_discrete", sample_discrete(gen, q.size(), q.data()), qw, u, 1); }
}
static void urns() {
    std::vector<int> u(1 + I(5)); for (size_t i = 0; i < u.size(); ++i) u[i] = 10 * i + I(10);
    begin("urn of " + std::to_string(u.size()));
    std::map<int, int> c; int n = 4000;
    for (int i = 0; i < n; ++i) { int v = sample_from_urn(gen, u); if (v / 10 < 0 || v / 10 >= (int) u.size() || u[v / 10] != v) { fail("not a member"); return; } ++c[v]; }
    for (int v : u) if (std::fabs(c[v] - n / (double) u.size()) > 6 * sqrt(n)) fail("sample_from_urn is not uniform");
    if (u.size() < 2) return;
    std::map<std::pair<int, int>, int> d;
    for (int i = 0; i < n; ++i) { auto v = sample_pair_from_urn(gen, u); if (v.first == v.second) { fail("pair with repetition"); return; } ++d[{v.first / 10, v.second / 10}]; }
    double e = n / (double) (u.size() * (u.size() - 1));
    for (size_t a = 0; a < u.size(); ++a) for (size_t b = 0; b < u.size(); ++b) if (a != b && std::fabs(d[{a, b}] - e) > 6 * sqrt(n)) fail("sample_pair_from_urn is not uniform");
}
static void sparse_dirichlets() {
    // many components of tiny concentration: their gamma draws are mostly, but not all, zero
    size_t n = 1500 + I(1500); double al = logu(2e-4, 2e-3); F a(n, al), p(n, -1.f); bool big = I(2); if (big) a[I(n)] = 1;
    begin("dirichlet of " + std::to_string(n) + " components " + std::to_string(al) + (big ? " and one of 1" : ""));
    double t = 0, mean = 0, s = 0; for (float x : a) t += x;
    size_t h = n / 2; double th = 0; for (size_t j = 0; j < h; ++j) th += a[j];
    int k = 40; for (int i = 0; i < k; ++i) {
        sample_dirichlet(gen, n, a.data(), p.data()); s = 0;
        for (size_t j = 0; j < n; ++j) { s += p[j]; if (j < h) mean += p[j] / k; if (!(p[j] >= 0)) { fail("bad component"); return; } }
        check("sum of a dirichlet draw", s, 1);
    }
    double m = th / t; if (std::fabs(mean - m) > 7 * .5 / sqrt(k)) fail("mean of the dirichlet draws");
}
static void dirichlets() {
    size_t n = 1 + I(6); F a(n), p(n, -1.f); for (auto & x : a) x = I(4) ? logu(.3, 20) : 1; if (n > 1 && I(3) == 0) a[I(n)] = 0;
    double t = 0; for (float x : a) t += x;
    begin("dirichlet " + show(a));
    if (!(t > 0)) return;
    F b = a; rng_t g = gen;
    sample_dirichlet(gen, n, a.data(), p.data()); if (!(a == b)) fail("parameters changed");
    { F q = a; sample_dirichlet(g, n, q.data(), q.data()); if (!(q == p)) fail("sample_dirichlet in place differs"); }
    double s = 0; for (size_t i = 0; i < n; ++i) { s += p[i]; if (!(p[i] >= 0) || (a[i] == 0 && p[i] != 0)) fail("bad component"); } check("sum of a dirichlet draw", s, 1);
    double m = logu(1e-6, 1); sample_dirichlet_safe(gen, n, a.data(), p.data(), m);
    s = 0; for (size_t i = 0; i < n; ++i) { s += p[i]; if (!(p[i] >= m / (1 + m * n) * .999)) fail("component below the bound"); } check("sum of a safe dirichlet draw", s, 1);
    double x = sample_beta(gen, logu(.01, 9), logu(.01, 9)); if (!(x >= 0 && x <= 1)) fail("beta out of range");
    double y = sample_beta_safe(gen, logu(.01, 9), logu(.01, 9), m); if (!(y > m / (1 + m) * .999 && y <= 1.00001)) fail("safe beta out of range");
    if (I(200)) return;
    int k = 3000; std::vector<double> mean(n); double mb = 0, al = logu(.5, 5), be = logu(.5, 5);
    for (int i = 0; i < k; ++i) { sample_dirichlet(gen, n, a.data(), p.data()); for (size_t j = 0; j < n; ++j) mean[j] += p[j] / k; mb += sample_beta(gen, al, be) / k; }
    for (size_t j = 0; j < n; ++j) if (std::fabs(mean[j] - a[j] / t) > 6 * .5 / sqrt(k)) fail("mean of the dirichlet draws");
    if (std::fabs(mb - al / (al + be)) > 6 * .5 / sqrt(k)) fail("mean of the beta draws");
}
static void all() {
    int n = 0;
    while (go_on()) { guarded([] { kernels<F>("std::vector"); }); guarded([] { kernels<VectorFloat>("VectorFloat"); }); guarded(dirichlets); if (n % 50 == 0) guarded(urns); if (n++ % 20 == 0) guarded(sparse_dirichlets); }
}
int main(int argc, char ** argv) { return dyn_main(argc, argv, all); }
