// C12: every vector kernel against its per-element definition on regions of
// larger arrays, and the packed containers and aligned storage.
#include "lib.hpp"
typedef std::vector<double> V;
struct Arr {   // `size` floats at offset `off` inside a longer array
    VectorFloat v; size_t off, n; V old;
    Arr(size_t n, bool pos) : off(I(2) ? 0 : I(9)), n(n) {
        v.resize(off + n + (I(2) ? 0 : I(20)) + (n == 0));
        for (auto & x : v) x = pos ? logu(1e-3, 300) : I(9) == 0 ? 0 : N() * 3;
        old.assign(v.begin(), v.end());
    }
    float * p() { return v.data() + off; }
    double was(size_t i) const { return old[off + i]; }
    void same(const std::string & w, size_t lo, size_t hi) { for (size_t i = lo; i < hi; ++i) if (!(v[i] == old[i])) { fail(w + ": element " + std::to_string((long)i - (long)off) + " changed"); return; } }
    void kept(const std::string & w) { same(w, 0, v.size()); }
    template<class F> void is(const std::string & w, F f) {
        same(w + " (outside the region)", 0, off); same(w + " (outside the region)", off + n, v.size());
        for (size_t i = 0; i < n; ++i) check(w + " element " + std::to_string(i) + " of " + std::to_string(n), v[off + i], f(i));
    }
};
static double nu(double x) { return lgamma(x / 2 + .5) - lgamma(x / 2); }
void kernels(size_t n) {
    bool pos = I(3) == 0;
    begin("vectors of size " + std::to_string(n));
    double s = N() * 2;
#define OP1(K, E) { Arr a(n, pos); K(n, a.p()); a.is(#K, [&](size_t i) { double x = a.was(i); (void) x; return E; }); }
#define OPS(K, E) { Arr a(n, pos); K(n, a.p(), (float) s); a.is(#K, [&](size_t i) { double x = a.was(i); return E; }); }
#define OP2(K, E) { Arr a(n, pos), b(n, pos); K(n, a.p(), b.p()); a.is(#K, [&](size_t i) { double x = a.was(i), y = b.was(i); return E; }); b.kept(#K " input"); }
#define OP3(K, E) { Arr a(n, pos), b(n, pos), c(n, pos); K(n, a.p(), b.p(), c.p()); a.is(#K, [&](size_t i) { double x = a.was(i), y = b.was(i), z = c.was(i); return E; }); b.kept(#K " input"); c.kept(#K " input"); }
#define MAP(K, E, P) { Arr a(n, P), b(n, P); K(n, a.p(), b.p()); b.is(#K, [&](size_t i) { double x = a.was(i); return E; }); a.kept(#K " input"); \
                       K(n, a.p()); a.is(#K " in place", [&](size_t i) { double x = a.was(i); return E; }); }
    OP1(vector_zero, 0.) OP1(vector_negate, -x)
    OPS(vector_shift, x + (float) s) OPS(vector_scale, x * (float) s)
    OP2(vector_add, x + y) OP2(vector_negate_and_add, y - x)
    OP3(vector_add_add, x + y + z) OP3(vector_add_subtract, x + y - z) OP3(vector_multiply_add, x + y * z)
    { Arr a(n, pos), b(n, pos); vector_add_subtract(n, a.p(), (float) s, b.p()); a.is("vector_add_subtract scalar", [&](size_t i) { return a.was(i) + s - b.was(i); }); b.kept("vector_add_subtract scalar"); }
    MAP(vector_exp, exp(x > 40 ? 0 : x), I(2)*0 == 1)
    MAP(vector_log, log(x), true)
    slack = .02; MAP(vector_lgamma, lgamma(x), true) MAP(vector_lgamma_nu, nu(x), true) slack = 0;
    Arr a(n, pos), b(n, pos); double t = 0, d = 0, m = 0, lo = 1e30, hi = -1e30;
    for (size_t i = 0; i < n; ++i) { t += a.was(i); d += a.was(i) * b.was(i); m += fabs(a.was(i)) * (1 + fabs(b.was(i))); lo = std::min(lo, a.was(i)); hi = std::max(hi, a.was(i)); }
    check("vector_sum", vector_sum(n, a.p()), t, m); check("vector_dot", vector_dot(n, a.p(), b.p()), d, m);
    if (n) { check_eq("vector_min", vector_min(n, a.p()), lo); check_eq("vector_max", vector_max(n, a.p()), hi); }
    a.kept("reductions"); b.kept("reductions");
    if (n) {   // extremes of nearby and of very large and small elements
        Arr c(n, pos); float q = pow(10., I(31) - 15), o = I(2) ? 0 : N() * q * 1e4; lo = 1e30; hi = -1e30;
        for (size_t i = 0; i < n; ++i) { float & x = c.v[c.off + i]; x = o + x * q; c.old[c.off + i] = x; lo = std::min(lo, (double) x); hi = std::max(hi, (double) x); }
        check_eq("vector_min of scaled elements", vector_min(n, c.p()), lo); check_eq("vector_max of scaled elements", vector_max(n, c.p()), hi);
        c.kept("extremes");
    }
}
template<class T, class A> void packed(const std::string & what, T (*mk)()) {
    begin("Packed_ of " + what);
    Packed_<T, A> p; std::vector<T> o;
    for (int k = 0; k < 60; ++k) {
        int op = o.empty() ? I(2) : I(5);
        if (op < 3) {
            T x = mk();
            if (I(2)) p.packed_add(x); else p.packed_add() = x;
            o.push_back(x);
        } else {
            size_t i = I(3) ? I(o.size()) : I(2) ? 0 : o.size() - 1;
            p.packed_remove(i);
            o[i] = o.back(); o.pop_back();
        }
        if (p.size() != o.size()) { fail("packed size"); return; }
        for (size_t i = 0; i < o.size(); ++i) if (!(p[i] == o[i])) { fail("packed element " + std::to_string(i)); return; }
    }
    bool threw = false; try { p.packed_remove(p.size() + I(3)); } catch (...) { threw = true; }
    check_true("packed_remove of an absent position is refused", threw);
}
static float mkf() { return N(); }
static unsigned mku() { return mt(); }
static std::vector<int> mkv() { return std::vector<int>(1 + I(5), I(1000)); }
void run() {
    size_t n = 0;
    while (n < 300 || (n < 1000000 && go_on())) {
        if (fails >= 20) break;
        guarded([&] { kernels(n < 140 ? n : I(4) ? I(100) : I(3000)); });
        guarded([&] {
            packed<float, aligned_allocator<float>>("float", mkf);
            packed<unsigned, std::allocator<unsigned>>("unsigned", mku);
            packed<std::vector<int>, std::allocator<std::vector<int>>>("vector", mkv);
            begin("aligned storage");
            VectorFloat v(1 + I(400)); for (int j = I(40); j; --j) v.push_back(j);
            check_true("storage is aligned", size_t(v.data()) % 32 == 0);
            AlignedFloats a(v);
            check_true("view", a.data() == v.data() && a.size() == v.size() && &a[v.size() - 1] == &v.back());
            auto w = v; check_true("equal copies", w == v && w.data() != v.data());
            bool threw = false; try { AlignedFloats b(v.data() + 1, 1); } catch (...) { threw = true; }
            check_true("misaligned view refused", threw);
        });
        ++n;
    }
}
int main(int c, char ** v) { return dyn_main(c, v, run); }
