// C14: the stick of the Dirichlet-process discrete model, over random histories.
#include "lib.hpp"
typedef std::map<uint32_t, int> Counts;
static double mass(const DPD::Shared & s) { double m = s.beta0; for (auto & i : s.betas) m += i.second; return m; }
static std::map<uint32_t, float> weights(const DPD::Shared & s) {
    std::map<uint32_t, float> w;
    for (auto & i : s.betas) { if (!w.insert(std::make_pair(i.first, i.second)).second) fail("a weight is listed twice"); if (!(i.second > 0)) fail("a weight is not positive"); }
    return w;
}
static void same(const DPD::Shared & s, const Counts & o, const std::string & what) {
    auto w = weights(s);
    std::set<uint32_t> a, b;
    for (auto & i : w) a.insert(i.first);
    int tot = 0;
    for (auto & i : o) { b.insert(i.first); tot += i.second; check_eq(what + ": registrations of " + std::to_string(i.first), s.counts.get_count(i.first), i.second); }
    if (a != b) fail(what + ": the weighted values are not the registered ones");
    check_eq(what + ": registrations in all", s.counts.get_total(), tot);
    int n = 0; for (auto & i : s.counts) { ++n; if (!o.count(i.first)) fail(what + ": an unregistered value has a count"); }
    check_eq(what + ": registered values", n, o.size());
}
static uint32_t val() { int k = I(10); return k < 6 ? I(8) : k < 9 ? I(100000) : 0xFFFFFFFFu - 20000u - I(50); }
static bool only(const std::map<uint32_t, float> & a, const std::map<uint32_t, float> & b, uint32_t v) {
    auto x = a, y = b; x.erase(v); y.erase(v); return x == y;
}
static void one() {
    DPD::Shared s; Counts o;
    s.gamma = logu(.2, 50); s.alpha = logu(.1, 20); s.beta0 = 1;
    if (I(4) == 0) s.gamma = logu(1e-4, .2);
    Case h; h << "gamma=" << s.gamma << " alpha=" << s.alpha << ":";
    float alpha = s.alpha, gamma = s.gamma;
    long news = 0, ops = 0;
    bool done = false;
    for (int t = 0, T = 5 + I(60); t < T && !done; ++t) {
        int op = I(20);
        uint32_t v = val();
        if (op < 12) {
            h << " +" << v; begin(h.str());
            auto w0 = weights(s); float b0 = s.beta0; double m0 = mass(s);
            bool known = o.count(v);
            s.add_value(v, gen); ++o[v]; ++ops;
            same(s, o, "add");
            auto w1 = weights(s);
            if (known) { if (w0 != w1 || s.beta0 != b0) fail("registering a known value changes a weight"); }
            else {
                ++news;
                if (!only(w0, w1, v)) fail("registering a new value changes another weight");
                float w = w1[v], left = b0 - w;
                if (!(w <= b0)) fail("the weight exceeds the stick");
                if (!(s.beta0 > 0)) fail("no stick is left");
                // what is left of the stick, or the minimum
                if (std::fabs(double(s.beta0) - std::max(1e-6, double(left))) > 1e-7 * (1 + b0)) fail("the stick is not what the weight left of it");
                double m1 = mass(s);
                if (m1 < m0 - 2e-7 * (1 + m0)) fail("the mass shrinks");
                if (m1 > m0 + 1.001e-6 + 2e-7 * (1 + m0)) fail("the mass grows");
            }
        } else if (op < 18) {
            if (o.empty()) continue;
            if (I(3)) { auto i = o.begin(); std::advance(i, I(o.size())); v = i->first; }
            if (!o.count(v)) continue;
            h << " -" << v; begin(h.str());
            auto w0 = weights(s); float b0 = s.beta0;
            bool last = o[v] == 1;
            s.remove_value(v, gen); if (--o[v] == 0) o.erase(v);
            ++ops;
            same(s, o, "remove");
            auto w1 = weights(s);
            if (last) {
                if (!only(w0, w1, v)) fail("removing a value changes another weight");
                check_true("the stick regains the weight", std::fabs(s.beta0 - std::min(1., double(b0) + w0[v])) <= 3e-7);
            } else if (w0 != w1 || s.beta0 != b0) fail("removing one of several registrations changes a weight");
        } else if (op == 18) {
            h << " +OTHER"; begin(h.str());
            bool threw = false; int k = I(2);
            try { if (k) s.add_value(DPD::OTHER(), gen); else s.remove_value(DPD::OTHER(), gen); } catch (const std::exception &) { threw = true; }
            check_true("OTHER is accepted", threw);
            done = true;
        } else if (t > T / 2) {
            h << " realize"; begin(h.str());
            auto w0 = weights(s); double m0 = mass(s); auto o0 = o; float b0 = s.beta0;
            s.realize(gen);
            check_eq("stick after realize", s.beta0, 0);
            auto w1 = weights(s);
            int extra = 0;
            for (auto & i : w0) if (!w1.count(i.first) || w1[i.first] != i.second) fail("realize changes a weight");
            for (auto & i : w1) if (!w0.count(i.first)) { ++extra; o[i.first] = 1; }
            for (auto & i : o0) if (o[i.first] != i.second) fail("realize changes a count");
            same(s, o, "realize");
            double m1 = mass(s);
            if (b0 > 0 && !extra) fail("realize registers nothing");
            if (w1.size() > 10000 && w0.size() < 9000) fail("realize registers too many values");
            if (m1 < m0 - 1e-6 * (1 + w1.size()) || m1 > m0 + 2.1e-6 * (1 + extra)) { Case c; c << "realize changes the mass: " << m0 << " to " << m1; fail(c.str()); }
            // nothing is left to break off
            bool threw = false; uint32_t nv = 77777; while (w1.count(nv)) ++nv;
            try { s.add_value(nv, gen); } catch (const std::exception &) { threw = true; }
            check_true("a value is registered without a stick", threw);
            done = true;
        }
        if (s.alpha != alpha || s.gamma != gamma) fail("a concentration parameter changes");
        double m = mass(s);
        if (m < 1 - 1e-6 * (1 + ops) || m > 1 + 2.2e-6 * (1 + news)) { if (!done) { Case c; c << "mass " << m; fail(c.str()); } }
    }
}
static void draws() {
    float a = logu(.01, 50), b = logu(.01, 50), lo = I(3) ? logu(1e-7, .9) : 0;
    Case c; c << "sample_beta_safe alpha=" << a << " beta=" << b << " min=" << lo; begin(c.str());
    float r = sample_beta_safe(gen, a, b, lo);
    if (!(r <= 1)) fail("the draw exceeds one");
    if (!(r >= lo / (1 + lo) * (1 - 1e-6))) fail("the draw is below the minimum");
}
// statistically: each weight is a Beta(1, gamma) share of the stick
static void shares() {
    float g = logu(.3, 20); Case c; c << "shares gamma=" << g; begin(c.str());
    const int n = 4000; double s1 = 0, s2 = 0; int small = 0;
    for (int k = 0; k < n; ++k) { DPD::Shared s; s.gamma = g; s.alpha = 1; s.beta0 = 1; s.add_value(3, gen); double w = s.betas.get(3); s1 += w; s2 += std::log1p(-std::min(w, 1 - 1e-7)); small += w < .5; }
    double mean = 1 / (1 + g), sd = std::sqrt(g / ((1 + g) * (1 + g) * (2 + g)) / n);
    if (std::fabs(s1 / n - mean) > 6.5 * sd + 1e-5) { Case m; m << "mean share " << s1 / n << ", want " << mean; fail(m.str()); }
    double p = 1 - std::pow(.5, g);
    if (std::fabs(small / double(n) - p) > 6.5 * std::sqrt(p * (1 - p) / n) + 1e-4) { Case m; m << "P(share < 1/2) " << small / double(n) << ", want " << p; fail(m.str()); }
}
void run() {
    for (int k = 0; k < 200 || (k < 10000000 && go_on()); ++k) {
        if (fails >= 20) break;
        guarded(one);
        if (k % 2 == 0) guarded(draws);
        if (k % 40 == 0) guarded(shares);
    }
}
int main(int c, char ** v) { return dyn_main(c, v, run); }
