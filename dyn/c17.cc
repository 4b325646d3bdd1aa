// C17: sampled partitions against the sequential probabilities of the model, and
// group counts of random assignments.
#include <functional>
#include "lib.hpp"
typedef Clustering<int> CL;
struct PYref {
    double a, d;
    void weights(const std::vector<int> & c, int n, std::vector<double> & w) const {
        w.clear();
        for (double x : c) w.push_back((x - d) / (n + a));
        w.push_back((a + d * c.size()) / (n + a));
    }
};
struct LEref {
    const CL::LowEntropy & m;
    void weights(const std::vector<int> & c, int n, std::vector<double> & w) const {
        w.clear(); double t = 0;
        for (int x : c) w.push_back(exp(m.score_add_value(x, 0, n)));
        w.push_back(exp(m.score_add_value(0, 0, n)));
        for (double x : w) t += x;
        for (double & x : w) x /= t;
    }
};
// martingales: what each draw does minus what the model expects of it
struct Mart {
    double sum = 0, var = 0; long n = 0;
    void add(double x, double mean, double v) { sum += x - mean; var += v; ++n; }
    void done(const std::string & what, double bias) {
        double z = (std::fabs(sum) - bias * n) / (sqrt(var) + 1e-9);
        if (n > 200 && var > 25 && z > 7) { Case c; c << what << ": " << z << " standard deviations from the model after " << n << " draws"; fail(c.str()); }
    }
};
template<class M, class R> static void sequences(const std::string & n, const M & m, const R & ref, int size, int runs) {
    Mart fresh, first, last, big, late; std::vector<double> w;
    for (int k = 0; k < runs; ++k) {
        begin(n + " size " + std::to_string(size));
        std::vector<int> a = m.sample_assignments(size, gen), c;
        check_eq("number of items", a.size(), size);
        if ((int) a.size() != size) return;
        for (int i = 0; i < size; ++i) {
            int K = c.size();
            if (a[i] < 0 || a[i] > K) { Case s; s << "item " << i << " has group " << a[i] << " when " << K << " groups are open"; fail(s.str()); return; }
            ref.weights(c, i, w);
            if (i) {
                auto put = [&](Mart & t, std::function<double(int)> f) {
                    double e = 0, q = 0; for (int g = 0; g <= K; ++g) { e += w[g] * f(g); q += w[g] * f(g) * f(g); }
                    t.add(f(a[i]), e, std::max(0., q - e * e));
                };
                put(fresh, [&](int g) { return g == K; });
                if (i > 255) put(late, [&](int g) { return g == K; });
                put(first, [&](int g) { return g == 0; });
                put(last, [&](int g) { return g == K - 1; });
                put(big, [&](int g) { return g < K && c[g] * 2 > i; });
            }
            if (a[i] == K) c.push_back(0);
            ++c[a[i]];
        }
        std::map<int,int> dummy;
        CL::Assignments as; std::vector<int> ids(size); for (int i = 0; i < size; ++i) ids[i] = i * 7 + 3;
        std::shuffle(ids.begin(), ids.end(), mt);
        for (int i = 0; i < size; ++i) as[ids[i]] = a[i];
        std::vector<int> got = CL::count_assignments(as);
        check_eq("number of groups counted", got.size(), c.size());
        if (got.size() == c.size()) for (size_t g = 0; g < c.size(); ++g) check_eq("items counted in group " + std::to_string(g), got[g], c[g]);
    }
    fresh.done("opening a group", 3e-4); late.done("opening a group in a large partition", 4e-6); first.done("joining the first group", 3e-4); last.done("joining the newest group", 3e-4); big.done("joining the majority group", 3e-4);
}
static void gaps() {
    int K = 1 + I(6); std::vector<int> c(K);
    begin("gaps"); bool gap = false; std::string h;
    for (int & x : c) { x = I(4); gap |= !x; }
    if (!c.back()) c.back() = 1;
    gap = false; for (int x : c) { gap |= !x; h += std::to_string(x) + ","; }
    current += " counts " + h;
    std::vector<int> flat; for (int g = 0; g < K; ++g) for (int j = c[g]; j; --j) flat.push_back(g);
    std::shuffle(flat.begin(), flat.end(), mt);
    CL::Assignments as; for (size_t i = 0; i < flat.size(); ++i) as[i * 3 + 1] = flat[i];
    bool threw = false; std::vector<int> got;
    try { got = CL::count_assignments(as); } catch (const std::exception &) { threw = true; }
    if (gap != threw) { fail(gap ? "a group id without items is accepted" : "contiguous group ids are rejected"); return; }
    if (!threw) { check_eq("number of groups", got.size(), K); for (int g = 0; g < K && got.size() == (size_t) K; ++g) check_eq("count", got[g], c[g]); }
}
static void wide() {
    int K = I(6) ? 1 + I(2000) : 66000 + I(2000); std::vector<int> c(K, 1);
    begin("groups " + std::to_string(K));
    for (int k = I(3000); k; --k) ++c[I(K)];
    std::vector<int> flat; for (int g = 0; g < K; ++g) for (int j = c[g]; j; --j) flat.push_back(g);
    std::shuffle(flat.begin(), flat.end(), mt);
    CL::Assignments as; for (size_t i = 0; i < flat.size(); ++i) as[i * 3 + 1] = flat[i];
    std::vector<int> got = CL::count_assignments(as);
    check_eq("number of groups", got.size(), K);
    for (int g = 0; g < K && got.size() == (size_t) K; ++g) if (got[g] != c[g]) { check_eq("count of group " + std::to_string(g), got[g], c[g]); break; }
}
static int large_runs = 0;
static void large() {
    int size = 700 + I(900), runs = 1600000 / size;
    if (!large_runs++ || I(2)) {
        CL::LowEntropy m; m.dataset_size = size + I(200);
        Case n; n << "low-entropy dataset_size " << m.dataset_size;
        sequences(n.str(), m, LEref{m}, size, runs);
    } else {
        CL::PitmanYor m; m.alpha = logu(20, 300); m.d = I(2) ? .6 * U() : 0;
        Case n; n << "pitman-yor alpha " << m.alpha << " d " << m.d;
        sequences(n.str(), m, PYref{m.alpha, m.d}, size, runs / 20);
    }
}
static void one() {
    gaps();
    if (!I(2500)) large();
    if (!I(8)) wide();
    int size = I(4) ? I(8) : I(4) ? I(60) : I(400);
    int runs = 1 + 60000 / (size + 1) / (size + 1); if (runs > 1500) runs = 1500;
    if (I(2)) {
        CL::PitmanYor m; m.alpha = I(4) ? logu(.05, 50) : 1; m.d = I(3) ? .99 * U() : 0;
        Case n; n << "pitman-yor alpha " << m.alpha << " d " << m.d;
        sequences(n.str(), m, PYref{m.alpha, m.d}, size, runs);
    } else {
        CL::LowEntropy m; m.dataset_size = size + (I(3) ? I(20) : I(5000)); if (!m.dataset_size) m.dataset_size = 1;
        Case n; n << "low-entropy dataset_size " << m.dataset_size;
        sequences(n.str(), m, LEref{m}, size, runs);
    }
}
void run() {
    begin("no items"); guarded([] { check_eq("groups without items", CL::count_assignments(CL::Assignments()).size(), 0); });
    guarded(large);
    for (int k = 0; k < 100 || (k < 1000000 && go_on()); ++k) { if (fails >= 20) break; guarded(one); }
}
int main(int c, char ** v) { return dyn_main(c, v, run); }
