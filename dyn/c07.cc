// C07: Pitman-Yor scores against the process' own probabilities in double precision.
#include "lib.hpp"
typedef Clustering<int> CL;
typedef CL::PitmanYor PY;
static double inc(double a, double d, double c, double K, double n, double E) { return c == 0 ? log((a + d * K) / ((n + a) * E)) : log((c - d) / (n + a)); }
static double eppf(double a, double d, const std::vector<int> & c) {
    double s = 0, n = 0, K = 0;
    for (double x : c) if (x) { s += log(a + d * K) + lg(x - d) - lg(1 - d); n += x; K += 1; }
    return s - (lg(a + n) - lg(a));
}
static int cnt() { return I(3) ? I(5) : I(2) ? I(60) : I(3000); }
static void partitions(const PY & py, const std::string & pre) {
    std::vector<int> c; int k = I(9); std::string h;
    for (int i = 0; i < k; ++i) { c.push_back(cnt()); h += std::to_string(c.back()) + ","; }
    begin(pre + " counts " + h);
    double n = 0, K = 0; for (int x : c) { n += x; K += x > 0; }
    double want = eppf(py.alpha, py.d, c), got = py.score_counts(c), sc = n * .3;
    check("score_counts", got, want, sc);
    std::vector<int> p = c; std::shuffle(p.begin(), p.end(), mt);
    check("score_counts, groups reordered", py.score_counts(p), got, sc);
    for (int j = 1 + I(3); j; --j) p.insert(p.begin() + I(p.size() + 1), 0);
    check("score_counts with empty groups", py.score_counts(p), got, sc);
    if (n < 200) {   // seat the members one at a time in a random order
        std::vector<int> who, at(k); for (int i = 0; i < k; ++i) for (int j = 0; j < c[i]; ++j) who.push_back(i);
        std::shuffle(who.begin(), who.end(), mt);
        double s = 0; int kk = 0, m = 0;
        for (int g : who) { s += py.score_add_value(at[g], kk, m); if (!at[g]) ++kk; ++at[g]; ++m; }
        check("sum of incremental scores", s, got, sc);
    }
    for (int i = 0; i < k; ++i) {
        int E = 1 + I(5);
        check("score_add_value", py.score_add_value(c[i], K, n, E), inc(py.alpha, py.d, c[i], K, n, E));
        check("score_add_value, one empty group", py.score_add_value(c[i], K, n), inc(py.alpha, py.d, c[i], K, n, 1));
        if (c[i]) {
            double back = inc(py.alpha, py.d, c[i] - 1, K - (c[i] == 1), n - 1, E);
            check("score_remove_value", py.score_remove_value(c[i], K, n, E), -back);
            check("score_remove_value, one empty group", py.score_remove_value(c[i], K, n), -inc(py.alpha, py.d, c[i] - 1, K - (c[i] == 1), n - 1, 1));
            check("score_remove_value against score_add_value", py.score_remove_value(c[i], K, n, E), -py.score_add_value(c[i] - 1, K - (c[i] == 1), n - 1, E));
        }
    }
}
template<class Mix> static void scores(const std::string & n, const PY & py, Mix & m, const std::vector<int> & c) {
    check_eq(n + " number of groups", m.counts().size(), c.size());
    if (m.counts().size() != c.size()) return;
    VectorFloat out(c.size()); for (auto & x : out) x = I(9);
    m.score_value(py, AlignedFloats(out));
    double N = 0, K = 0, E = 0, tot = 0; for (int x : c) { N += x; K += x > 0; E += x == 0; }
    for (size_t i = 0; i < c.size(); ++i) { tot += exp(out[i]); check(n + " score of group " + std::to_string(i), out[i], inc(py.alpha, py.d, c[i], K, N, E)); }
    check(n + " total probability", tot, 1);
    check(n + " score_data", m.score_data(py), eppf(py.alpha, py.d, c), N * .3);
}
template<class Mix> static void history(const std::string & n, const PY & py, const std::string & pre) {
    Mix m; std::vector<int> c; int k = I(6); std::string h;
    for (int i = 0; i < k; ++i) c.push_back(I(3) ? cnt() : 0);
    for (int j = 1 + I(3); j; --j) c.insert(c.begin() + I(c.size() + 1), 0);
    for (int x : c) h += std::to_string(x) + ",";
    begin(n + " " + pre + " counts " + h); std::string cur = current;
    m.counts().assign(c.begin(), c.end()); m.init(py);
    scores(n, py, m, c);
    for (int s = 1 + I(8); s; --s) {
        int i = I(c.size()), q;
        if (c[i] && I(2)) { q = I(2) ? c[i] : 1 + I(c[i]); m.remove_value(py, i, q); c[i] -= q; if (!c[i]) { c[i] = c.back(); c.pop_back(); } cur += "; remove " + std::to_string(q) + " from " + std::to_string(i); }
        else { q = 1 + I(4); bool e = !c[i]; m.add_value(py, i, q); c[i] += q; if (e) c.push_back(0); cur += "; add " + std::to_string(q) + " to " + std::to_string(i); }
        current = cur;
        scores(n, py, m, c);
        if (fails >= 20) return;
    }
}
void one() {
    PY py; py.alpha = logu(.05, 30); py.d = I(4) ? U() * .95 : 0;
    Case c; c << "alpha=" << py.alpha << " d=" << py.d;
    partitions(py, c.str());
    history<MixtureDriver<PY, int>>("uncached mixture", py, c.str());
    history<PY::CachedMixture>("cached mixture", py, c.str());
}
void run() { for (int k = 0; k < 500 || (k < 1000000 && go_on()); ++k) { if (fails >= 20) break; guarded(one); } }
int main(int c, char ** v) { return dyn_main(c, v, run); }
