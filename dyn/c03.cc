// C03: mixture value scores after random histories against the groups' own scores
// (themselves compared with the double-precision oracle over the data they hold).
#include "lib.hpp"
// a value to score: for the DPD also OTHER(), the mass of all unseen values
template<class M> typename M::Value asked(const typename M::Shared & s, bool &) { return Tr<M>::value(s); }
template<> uint32_t asked<DPD>(const DPD::Shared & s, bool & other) {
    other = s.beta0 > 1e-6f && I(4) == 0;
    return other ? DPD::OTHER() : Tr<DPD>::value(s);
}
template<class M, class Mix> void run_one(const char * kind) {
    typedef typename M::Value V;
    auto s = Tr<M>::shared();
    Mix m; std::vector<std::vector<V>> d; std::string h;
    std::string n = std::string(Tr<M>::name()) + " " + kind;
    int k0 = I(6);
    for (int i = 0; i < k0; ++i) { d.push_back(draw<M>(s, I(3) ? I(5) : 0)); m.groups().push_back(filled<M>(s, d.back())); h += "[" + showd<M>(d.back()) + "] "; }
    if (I(3) == 0) {
        // the same object has served other parameters and groups before
        auto s2 = Tr<M>::shared(); Mix w; w.groups().swap(m.groups());
        for (int i = 0, k = I(4); i < k; ++i) m.groups().push_back(filled<M>(s2, draw<M>(s2, I(5))));
        m.init(s2, gen);
        m.groups().swap(w.groups());
        h = "(initialised before with " + Tr<M>::show(s2) + ") " + h;
    }
    begin(n + " " + Tr<M>::show(s) + " groups " + h);
    m.init(s, gen);
    int steps = I(10);
    std::string h0 = current;
    for (int k = 0; k <= steps; ++k) {
        if (k) {
            int op = I(6);
            if (op == 0 || d.empty()) { m.add_group(s, gen); d.push_back(std::vector<V>()); h0 += "; add_group"; }
            else if (op == 1 && d.size() > 1) { int i = I(d.size()); m.remove_group(s, i); d[i] = d.back(); d.pop_back(); h0 += "; remove_group " + std::to_string(i); }
            else if (op == 2) { int i = I(d.size()); if (d[i].size()) { int j = I(d[i].size()); V v = d[i][j]; d[i].erase(d[i].begin() + j); m.remove_value(s, i, v, gen); h0 += "; remove_value " + std::to_string(i) + " " + Tr<M>::showv(v); } }
            else { int i = I(d.size()); V v = Tr<M>::value(s); d[i].push_back(v); m.add_value(s, i, v, gen); h0 += "; add_value " + std::to_string(i) + " " + Tr<M>::showv(v); }
        }
        current = h0;
        check_eq(n + " number of groups", m.groups().size(), d.size());
        if (m.groups().size() != d.size()) return;
        bool other = false;
        V v = asked<M>(s, other);
        VectorFloat out(d.size()); std::vector<double> o0;
        for (size_t i = 0; i < d.size(); ++i) { out[i] = I(3) - 1; o0.push_back(out[i]); }
        m.score_value(s, v, AlignedFloats(out), gen);
        for (size_t i = 0; i < d.size(); ++i) {
            double want = m.groups(i).score_value(s, v, gen);
            check(n + " score_value, group " + std::to_string(i) + " value " + Tr<M>::showv(v), out[i] - o0[i], want, mag<M>(s, d[i]));
            check(n + " score_value_group, group " + std::to_string(i) + " value " + Tr<M>::showv(v), m.score_value_group(s, i, v, gen), want, mag<M>(s, d[i]));
            if (other) continue;
            auto d2 = d[i]; d2.push_back(v);
            check(n + " group " + std::to_string(i) + " score vs oracle", want, Tr<M>::data(s, d2) - Tr<M>::data(s, d[i]), mag<M>(s, d2));
            same_stats<M>("group data", s, m.groups(i), d[i]);
        }
        if (I(20) == 0) { m.validate(s); }
        if (fails >= 20) return;
    }
}
template<class M> void one() {
    guarded([]{ run_one<M, typename M::FastMixture>("fast mixture"); });
    guarded([]{ run_one<M, typename M::SmallMixture>("small mixture"); });
}
void run() {
    for (int k = 0; k < 100 || (k < 1000000 && go_on()); ++k) { if (fails >= 20) break; MIX_MODELS(one) }
}
int main(int c, char ** v) { return dyn_main(c, v, run); }
