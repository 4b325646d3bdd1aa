// C11: special functions of the real build against libm in double precision:
// every exponent, boundary and random mantissas; every row of exact Stirling
// numbers; every table entry.
#include "lib.hpp"
static float bits(uint32_t b) { float f; memcpy(&f, &b, 4); return f; }
static std::string show(double x) { Case c; c.s.precision(12); c << x; return c.str(); }
static void within(const char * f, double x, double got, double want, double tol) {
    if (!(std::fabs(got - want) <= tol)) { begin(std::string(f) + " " + show(x)); fail(std::string(f) + "(" + show(x) + ") = " + show(got) + ", want " + show(want)); }
}
static double lnu(double v) {
    if (v < 1e4) return lg(v / 2 + .5) - lg(v / 2);
    double z = v / 2;     // asymptotic series of the difference
    return .5 * log(z) - 1 / (8 * z) + 1 / (192 * z * z * z);
}
static void one(float x) {
    ++cases;
    if (x >= 1.1754944e-38f && x < INFINITY) {
        double l = log((double) x);
        within("fast_log", x, fast_log(x), l, 8e-5 + 1e-6 * std::fabs(l));
        within("eric_log", x, eric_log(x), l, 8e-5 + 1e-6 * std::fabs(l));
    }
    if (x >= 1.1754944e-38f && x < 4294967296.f) {
        double g = lg(x);
        within("fast_lgamma", x, fast_lgamma(x), g, 4e-5 + 1.1e-5 * std::fabs(g));
        double n = lnu(x);
        within("fast_lgamma_nu", x, fast_lgamma_nu(x), n, .0165 + 1e-5 * std::fabs(n));
    }
    if (x >= 4294967296.f && x < 1e30f) { double g = lg(x); within("fast_lgamma", x, fast_lgamma(x), g, 1e-5 * g); }
    if (std::fabs(x) < 87) within("fast_exp", x, fast_exp(x), exp((double) x), (2e-6 + 1.2e-7 * std::fabs(x)) * exp((double) x));
    if (x >= 89 && x < INFINITY) { double e = fast_exp(x); if (!(e > 1.6e38)) within("fast_exp", x, e, INFINITY, 0); }
    if (x <= -89 && x > -INFINITY) within("fast_exp", x, fast_exp(x), 0, 1e-37);
}
static void indices(uint32_t b) {
    // the logarithm's table is read for any pattern (checked by the sanitizer)
    volatile float r = fast_log(bits(b)); (void) r;
    one(bits(b));
}
static void stirling() {
    static std::vector<std::vector<double>> S;
    if (S.empty()) {
        S.push_back({1});
        for (int n = 1; n < 32; ++n) {
            std::vector<double> r(n + 1, 0.);
            for (int k = 1; k <= n; ++k) r[k] = (k < n ? (n - 1) * S[n - 1][k] : 0) + S[n - 1][k - 1];
            S.push_back(r);
        }
    }
    size_t n = I(5) ? I(32) : 32 + I(200);
    begin("stirling row " + std::to_string(n));
    std::vector<float> row = log_stirling1_row(n);
    std::vector<float, aligned_allocator<float>> row2; row2.resize(I(40)); get_log_stirling1_row(n, row2);
    if (row.size() != n + 1 || row2.size() != n + 1) { fail("row has the wrong length"); return; }
    for (size_t k = 0; k <= n; ++k) {
        if (row[k] != row2[k]) fail("rows differ by allocator");
        if (k == n) { check_eq("last entry", row[k], 0); continue; }
        if (k == 0) { if (!(row[k] < -1e30)) fail("first entry of row " + std::to_string(n) + " is " + show(row[k])); continue; }
        if (n < 32) within("log S(n,k)", n * 100 + k, row[k], log(S[n][k]), 2e-5 + 1e-6 * std::fabs(log(S[n][k])));
        else if (!(row[k] > -1 && row[k] < 1.2 * lg(n + 1.) + 50)) fail("entry out of range");
    }
}
static void derived() {
    float a = logu(1e-3, 1e4), b = logu(1e-3, 1e4);
    begin("derived " + show(a) + " " + show(b));
    double s = std::fabs(lg(a)) + std::fabs(lg(b)) + std::fabs(lg(a + b));
    within("log_beta", a, log_beta(a, b), lg(a) + lg(b) - lg((double) a + b), 1e-4 + 1e-5 * s);
    within("fast_log_beta", a, fast_log_beta(a, b), lg(a) + lg(b) - lg((double) a + b), 2e-4 + 3e-5 * s);
    float N = I(300), k = I(N + 1);
    double c = lg(N + 1.) - lg(k + 1.) - lg(N - k + 1.);
    within("log_binom", N, log_binom(N, k), c, 1e-4 + 3e-6 * lg(N + 1.));
    within("fast_log_binom", N, fast_log_binom(N, k), c, 3e-4 + 3e-5 * lg(N + 1.));
}
static void pairs() {
    float c = ::N() * 300, x = c + ::N() * 20, y = I(8) ? c + ::N() * 20 : x;
    begin("pair " + show(x) + " " + show(y));
    double m = std::max(x, y), r = m + log(exp(x - m) + exp(y - m));
    within("log_sum_exp", x, log_sum_exp(x, y), r, 1e-4);
    within("fast_log_sum_exp", x, fast_log_sum_exp(x, y), r, 3e-4);
    unsigned d = 1 + I(I(4) ? 12 : 90); float a = (d - 1) / 2. + logu(.05, 1e3);
    double g = .25 * d * (d - 1) * log(M_PI), sc = 0;
    for (unsigned j = 0; j < d; ++j) { double l = lg(a - .5 * j); g += l; sc += std::fabs(l); }
    within("lmultigamma", d, lmultigamma(d, a), g, 1e-3 + 3e-5 * (sc + std::fabs(g)));
}
static void factorials(uint32_t n) {
    ++cases;
    double g = lg(n + 1.);
    within("fast_log_factorial", n, fast_log_factorial(n), g, 4e-5 + 1.1e-5 * g);
}
static void run() {
    for (uint32_t n = 0; n < 5000; ++n) factorials(n);
    for (uint32_t n : {0x7fffffffu, 0x80000000u, 0xfffffffeu, 0xffffffffu}) factorials(n);
    for (uint32_t e = 0; e < 512; ++e) for (uint32_t m : {0u, 1u, 511u, 512u, 0x3fffffu, 0x400000u, 0x7ffe00u, 0x7fffffu}) indices(e << 23 | m);
    for (uint32_t m = 0; m < (1u << 23); m += 512) { indices(127u << 23 | m); indices(127u << 23 | (m + 511)); }
    for (float t : {2.5f, 4294967040.f, 4294967296.f, .0625f}) { uint32_t b; memcpy(&b, &t, 4); for (int d = -3; d <= 3; ++d) one(bits(b + d)); }
    while (go_on()) {
        guarded(stirling); guarded(derived); guarded(pairs);
        factorials(mt());
        for (int i = 0; i < 200; ++i) indices(mt());
        for (int i = 0; i < 200; ++i) one(bits((120u + I(40)) << 23 | (mt() & 0x7fffff)));
    }
}
int main(int argc, char ** argv) { return dyn_main(argc, argv, run); }
