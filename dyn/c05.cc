// C05: random histories of mixture drivers against a plain list of counts.
#include "lib.hpp"
typedef Clustering<int> CL;
template<class Mix> void look(const std::string & n, const Mix & m, const std::vector<long> & c) {
    const Mix & k = m;
    check_eq(n + " number of groups", k.counts().size(), c.size());
    if (k.counts().size() != c.size()) return;
    long total = 0;
    for (size_t i = 0; i < c.size(); ++i) {
        total += c[i];
        check_eq(n + " count of group " + std::to_string(i), k.counts(i), c[i]);
        check_eq(n + " counts() of group " + std::to_string(i), k.counts()[i], c[i]);
        check_eq(n + " group " + std::to_string(i) + " listed as empty", k.empty_groupids().count(i), c[i] == 0);
    }
    long e = 0; for (size_t i : k.empty_groupids()) { ++e; if (i >= c.size()) fail(n + " lists a nonexistent group as empty"); }
    check_eq(n + " number of empty groups", e, std::count(c.begin(), c.end(), 0));
    check_eq(n + " sample size", k.sample_size(), total);
}
static int big() { return I(3) ? 1 + I(4) : I(2) ? 1 + I(1000) : 1 + I(20000000); }
template<class Mix> void run_one(const std::string & n, const typename Mix::Model & model) {
    Mix m; std::vector<long> c; std::string h;
    int k0 = I(6), e0 = 1 + I(3);
    for (int i = 0; i < k0; ++i) c.push_back(I(4) ? big() : 0);
    for (int i = 0; i < e0; ++i) c.insert(c.begin() + I(c.size() + 1), 0);
    if (I(3) == 0) { m.counts().assign(3, 0); m.init(model); m.add_value(model, I(3)); }   // stale state
    m.counts().assign(c.begin(), c.end());
    for (long x : c) h += std::to_string(x) + ",";
    begin(n + " counts " + h);
    m.init(model);
    look(n + " after init:", m, c);
    long empties = std::count(c.begin(), c.end(), 0);
    int steps = 1 + I(14); std::string cur = current;
    for (int k = 0; k < steps; ++k) {
        long total = 0; for (long x : c) total += x;
        int i = I(c.size());
        bool can_remove = c[i] > 0;
        if (can_remove && I(2)) {
            int q = I(3) ? c[i] : 1 + I(c[i]); if (I(2)) q = 1;
            cur += "; remove " + std::to_string(q) + " from " + std::to_string(i); current = cur;
            bool r;
            if (q > 1 && q < 50 && I(2)) { for (int j = 0; j + 1 < q; ++j) check_eq(n + " report of a partial removal", m.remove_value(model, i), false); r = m.remove_value(model, i); }
            else r = q == 1 && I(2) ? m.remove_value(model, i) : m.remove_value(model, i, q);
            c[i] -= q; check_eq(n + " report of removal", r, c[i] == 0);
            if (c[i] == 0) { c[i] = c.back(); c.pop_back(); }
        } else {
            int q = big(); if (total + q > 1500000000) q = 1;
            cur += "; add " + std::to_string(q) + " to " + std::to_string(i); current = cur;
            bool r, want = c[i] == 0;
            if (q > 1 && q < 50 && I(2)) { r = m.add_value(model, i); for (int j = 1; j < q; ++j) check_eq(n + " report of a further addition", m.add_value(model, i), false); }
            else r = q == 1 && I(2) ? m.add_value(model, i) : m.add_value(model, i, q);
            check_eq(n + " report of addition", r, want);
            c[i] += q; if (want) c.push_back(0);
        }
        look(n, m, c);
        check_eq(n + " number of empty groups over time", m.empty_groupids().size(), empties);
        if (fails >= 20) return;
    }
}
template<class F> void all(F) {}
void run() {
    for (int k = 0; k < 400 || (k < 1000000 && go_on()); ++k) {
        if (fails >= 20) break;
        CL::PitmanYor py; py.alpha = logu(.05, 20); py.d = I(3) ? U() * .95 : 0;
        CL::LowEntropy le; le.dataset_size = 2000000000;
        Case c; c << "alpha=" << py.alpha << " d=" << py.d;
        guarded([&]{ run_one<MixtureDriver<CL::PitmanYor, int>>("driver<PitmanYor> " + c.str(), py); });
        guarded([&]{ run_one<CL::LowEntropy::Mixture>("driver<LowEntropy>", le); });
        guarded([&]{ run_one<CL::PitmanYor::CachedMixture>("cached mixture " + c.str(), py); });
    }
}
int main(int c, char ** v) { return dyn_main(c, v, run); }
