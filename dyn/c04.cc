// C04: data scores of mixtures and grids of shared parameters.
#include "lib.hpp"
template<class M, class Mix> void run_one(const char * kind) {
    typedef typename M::Value V;
    auto s = Tr<M>::shared();
    Mix m; std::string h; std::vector<std::vector<V>> d;
    std::string n = std::string(Tr<M>::name()) + " " + kind;
    int k0 = I(7);
    for (int i = 0; i < k0; ++i) { d.push_back(draw<M>(s, I(3) ? I(6) : 0)); m.groups().push_back(filled<M>(s, d.back())); h += "[" + showd<M>(d.back()) + "] "; }
    begin(n + " " + Tr<M>::show(s) + " groups " + h);
    m.init(s, gen);
    auto total = [&](const typename M::Shared & t) { double r = 0; for (auto & e : d) r += Tr<M>::data(t, e); return r; };
    double sum = 0, scale = 0; for (auto & g : m.groups()) { double x = g.score_data(s, gen); sum += x; scale += std::fabs(x) + 2; } for (auto & e : d) scale += mag<M>(s, e);
    check(n + " score_data", m.score_data(s, gen), sum, scale);
    check(n + " score_data vs oracle", m.score_data(s, gen), total(s), scale);
    std::vector<typename M::Shared> grid; int L = I(6);
    for (int i = 0; i < L; ++i) grid.push_back(i == 0 || I(4) == 0 ? Tr<M>::other(s) : I(6) == 0 ? grid[I(i)] : Tr<M>::other(grid.back()));
    VectorFloat out(L, 1e9);
    m.score_data_grid(grid, AlignedFloats(out), gen);
    for (int i = 0; i < L; ++i) {
        double want = m.score_data(grid[i], gen);
        check(n + " score_data_grid candidate " + std::to_string(i) + " (" + Tr<M>::show(grid[i]) + ") after (" + (i ? Tr<M>::show(grid[i - 1]) : "") + ")", out[i], want, scale * 2);
        check(n + " score_data_grid vs oracle, candidate " + std::to_string(i), out[i], total(grid[i]), scale * 2);
    }
}
template<class M> void one() {
    guarded([]{ run_one<M, typename M::FastMixture>("fast mixture"); });
    guarded([]{ run_one<M, typename M::SmallMixture>("small mixture"); });
}
void run() { for (int k = 0; k < 100 || (k < 1000000 && go_on()); ++k) { if (fails >= 20) break; MIX_MODELS(one) } }
int main(int c, char ** v) { return dyn_main(c, v, run); }
