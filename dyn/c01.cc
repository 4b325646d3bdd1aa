// C01: random histories of one group; statistics against those of the multiset.
#include "lib.hpp"
template<class M> void run_one() {
    typedef typename M::Value V;
    auto s = Tr<M>::shared();
    typename M::Group g = filled<M>(s, draw<M>(s, I(4)));   // garbage
    std::vector<V> d; std::string h = "init ";
    g.init(s, gen);
    begin(Case() .operator<<(Tr<M>::name()).str());
    int steps = 1 + I(12);
    same_stats<M>("after init", s, g, d);
    for (int k = 0; k < steps; ++k) {
        int op = I(5);
        if (op == 1 && d.size()) {
            int i = I(d.size()); V v = d[i]; d.erase(d.begin() + i); g.remove_value(s, v, gen); h += "remove " + Tr<M>::showv(v) + "; ";
        } else if (op == 2) {
            V v = Tr<M>::value(s); int n = 1 + I(4); for (int i = 0; i < n; ++i) d.push_back(v);
            g.add_repeated_value(s, v, n, gen); h += "add " + std::to_string(n) + " x " + Tr<M>::showv(v) + "; ";
        } else if (op == 3) {
            auto e = draw<M>(s, I(4) ? I(5) : 0); auto o = filled<M>(s, e); auto before = Tr<M>::stats(s, o);
            g.merge(s, o, gen); for (const auto & v : e) { V w = v; d.push_back(w); }
            h += "merge " + showd<M>(e) + "; ";
            current = std::string(Tr<M>::name()) + " " + Tr<M>::show(s) + " " + h;
            if (before != Tr<M>::stats(s, o)) fail("merge changed its source");
        } else {
            V v = Tr<M>::value(s); g.add_value(s, v, gen); d.push_back(v); h += "add " + Tr<M>::showv(v) + "; ";
        }
        current = std::string(Tr<M>::name()) + " " + Tr<M>::show(s) + " " + h;
        same_stats<M>("after history", s, g, d);
        if (fails >= 20) return;
    }
    check(std::string(Tr<M>::name()) + " score_data after history", g.score_data(s, gen), Tr<M>::data(s, d), mag<M>(s, d));
    V v = Tr<M>::value(s);
    auto d2 = d; d2.push_back(v);
    check(std::string(Tr<M>::name()) + " score_value after history", g.score_value(s, v, gen), Tr<M>::data(s, d2) - Tr<M>::data(s, d), mag<M>(s, d2));
}
template<class M> void one() { guarded([]{ run_one<M>(); }); }
void run() { for (int k = 0; k < 300 || (k < 1000000 && go_on()); ++k) { if (fails >= 20) break; ALL_MODELS(one) } }
int main(int c, char ** v) { return dyn_main(c, v, run); }
