// C08: low-entropy clustering scores against their own laws in double precision.
#include "lib.hpp"
typedef Clustering<int> CL;
typedef CL::LowEntropy LE;
static double xl(double c) { return c > 0 ? c * log(c) : 0; }
static int cnt() { return I(3) ? I(5) : I(2) ? I(60) : I(12) ? I(3000) : 9000 + I(20000); }
void one() {
    std::vector<int> c; int k = 1 + I(8); std::string h;
    for (int i = 0; i < k; ++i) c.push_back(cnt());
    int n = 0, K = 0, big = 0; for (int x : c) { n += x; K += x > 0; big = std::max(big, x); h += std::to_string(x) + ","; }
    int how = I(4);
    LE m; m.dataset_size = how == 0 ? std::max(n, 1) : how == 1 ? n + 1 : n + 1 + I(I(2) ? 20 : 100000);
    double N = m.dataset_size;
    Case cs; cs << "dataset_size=" << N << " counts " << h;
    begin("lowentropy " + cs.str());
    double s = m.score_counts(c), sc = n * .5 + 20;
    auto p = c; std::shuffle(p.begin(), p.end(), mt);
    check("score_counts, groups reordered", m.score_counts(p), s, sc);
    for (int j = 1 + I(3); j; --j) p.insert(p.begin() + I(p.size() + 1), 0);
    check("score_counts with empty groups", m.score_counts(p), s, sc);
    if (n == 0) check("no data", s, 0);
    if (n == N) check("complete data", s, [&]{ double t = 0; for (int x : c) t += xl(x); return t; }() - m.log_partition_function(n), sc);
    int E = 1 + I(5);
    if (n < N) {
        double o = m.score_add_value(0, K, n, 1);
        check("opening one of several empty groups", m.score_add_value(0, K, n, E), o - log(double(E)));
        check("default number of empty groups", m.score_add_value(0, K, n), o);
        if (n + 1 == N) check("completing the data by a new group", o, 0);
    }
    for (int i = 0; i < k; ++i) {
        if (n < N && c[i]) {
            double want = xl(c[i] + 1) - xl(c[i]), got = m.score_add_value(c[i], K, n, E);
            check("score_add_value", got, want, c[i] <= 10000 ? c[i] * .3 : 0);
        }
        if (c[i]) {
            check("score_remove_value against score_add_value", m.score_remove_value(c[i], K, n, E), -m.score_add_value(c[i] - 1, K - (c[i] == 1), n - 1, E));
            check("score_remove_value, one empty group", m.score_remove_value(c[i], K, n), -m.score_add_value(c[i] - 1, K - (c[i] == 1), n - 1, 1));
        }
        int j = I(k);
        if (n == N && i != j && c[i] >= 2 && c[j] >= 1 && n < 20000) {
            auto q = c; --q[i]; ++q[j];
            check("moving a value", m.score_counts(q) - s, m.score_add_value(c[j], K, n - 1) - m.score_add_value(c[i] - 1, K, n - 1), sc * 2 + .3 * std::min(c[i] + c[j], 20000));
        }
    }
    if (n < N) {
        LE::Mixture mix; auto q = c; for (int j = E; j; --j) q.insert(q.begin() + I(q.size() + 1), 0);
        int zeros = std::count(q.begin(), q.end(), 0);
        mix.counts().assign(q.begin(), q.end()); mix.init(m);
        VectorFloat out(q.size()); for (auto & x : out) x = I(9);
        mix.score_value(m, AlignedFloats(out));
        for (size_t i = 0; i < q.size(); ++i) check("mixture score of group " + std::to_string(i), out[i], m.score_add_value(q[i], K, n, zeros));
        check("mixture score_data", mix.score_data(m), s, sc);
    }
}
void run() { for (int k = 0; k < 500 || (k < 1000000 && go_on()); ++k) { if (fails >= 20) break; guarded(one); } }
int main(int c, char ** v) { return dyn_main(c, v, run); }
