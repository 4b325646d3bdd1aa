// C16: the values a sampler draws, against the posterior predictive
// distribution of the data (one draw, and two draws with the same parameters).
#include "lib.hpp"
#include <boost/math/distributions/students_t.hpp>
#include <boost/math/distributions/chi_squared.hpp>
#include <boost/math/distributions/normal.hpp>
static void freq(const std::string & what, long hits, long n, double p) {
    if (n * p < 100 || n * (1 - p) < 100) return;
    double z = (hits - n * p) / std::sqrt(n * p * (1 - p));
    if (!(std::fabs(z) < 7.5 + 1e-4 * std::sqrt(n * p))) { Case c; c << what << ": " << hits << " of " << n << ", expected " << n * p; fail(c.str()); }
}
// log predictive of v after d
template<class M> double logp(const typename M::Shared & s, std::vector<typename M::Value> d, typename M::Value v) {
    double a = Tr<M>::data(s, d); d.push_back(v); return Tr<M>::data(s, d) - a;
}
template<class M> double coef(const typename M::Shared &, typename M::Value) { return 0; }
template<> double coef<BNB>(const BNB::Shared & s, BNB::Value v) { return lg(v + s.r) - lg(v + 1.) - lg(double(s.r)); }
template<> double logp<DPD>(const DPD::Shared & s, std::vector<uint32_t> d, uint32_t v) {
    double b = v == DPD::OTHER() ? s.beta0 : s.betas.get(v);
    return std::log((s.alpha * b + std::count(d.begin(), d.end(), v)) / (s.alpha + d.size()));
}
template<class M> std::vector<typename M::Value> support(const typename M::Shared &) { std::vector<typename M::Value> r; for (int i = 0; i < 60; ++i) r.push_back(i); return r; }
template<> std::vector<bool> support<BB>(const BB::Shared &) { return {false, true}; }
template<> std::vector<int> support<DD>(const DD::Shared & s) { std::vector<int> r; for (int i = 0; i < s.dim; ++i) r.push_back(i); return r; }
template<> std::vector<uint32_t> support<DPD>(const DPD::Shared & s) { std::vector<uint32_t> r; for (auto & i : s.betas) r.push_back(i.first); if (s.beta0 > 0) r.push_back(DPD::OTHER()); return r; }
template<class M> bool closed() { return false; }
template<> bool closed<BB>() { return true; }
template<> bool closed<DD>() { return true; }
template<> bool closed<DPD>() { return true; }
static void fit(DPD::Shared & s) { double t = s.beta0; for (auto & i : s.betas) t += i.second; for (auto & i : s.betas) const_cast<float &>(i.second) /= t; s.beta0 /= t; }
// (a success probability below 1e-9 makes the draw exceed an int)
static void fit(BNB::Shared & s) { s.alpha += 2; }
template<class S> void fit(S &) {}
static double conc(const DPD::Shared & s) { return s.alpha; }
template<class S> double conc(const S &) { return 0; }
template<class M> typename M::Sampler & reused() { static typename M::Sampler s; return s; }
template<class M> void discrete() {
    typedef typename M::Value V;
    auto s = Tr<M>::shared(); fit(s);
    auto d = draw<M>(s, I(3) ? I(12) : 0);
    Case c; c << Tr<M>::name() << " " << Tr<M>::show(s) << " data " << showd<M>(d); begin(c.str());
    auto g = filled<M>(s, d);
    auto sup = support<M>(s);
    long n = I(6) ? 4000 : 30000, out = 0, same = 0;
    std::map<V, long> one, two;
    auto stats = Tr<M>::stats(s, g);
    auto & sm = reused<M>();
    for (long k = 0; k < n; ++k) {
        ++one[g.sample_value(s, gen)];
        sm.init(s, g, gen);
        V a = sm.eval(s, gen), b = sm.eval(s, gen);
        ++two[b]; same += a == b;
    }
    if (Tr<M>::stats(s, g) != stats) fail("sampling changes the group");
    double psame = 0, tot = 0; long h1 = 0, h2 = 0;
    for (V v : sup) {
        double p = std::exp(logp<M>(s, d, v) + coef<M>(s, v));
        auto d2 = d; d2.push_back(v);
        double q;
        if (std::is_same<M, DPD>::value) { double t = conc(s) + d.size(); q = (p * t + 1) / (t + 1); }
        else q = std::exp(logp<M>(s, d2, v) + coef<M>(s, v));
        psame += p * q; tot += p; h1 += one[v]; h2 += two[v];
        Case w; w << "draws of the value " << double(v);
        freq(w.str(), one[v], n, p); freq("second " + w.str(), two[v], n, p);
    }
    if (closed<M>()) { check_eq("draws outside the support", n - h1 + n - h2, 0); check("probabilities", tot, 1); }
    else freq("draws of large values", n - h1, n, 1 - tot), freq("second draws of large values", n - h2, n, 1 - tot);
    if (tot > .999) freq("equal pairs of draws", same, n, psame);
}
static double tcdf(double x, double nu) { boost::math::students_t t(nu); return boost::math::cdf(t, x); }
struct Bins {
    long h[20], n; Bins() : n(0) { std::fill(h, h + 20, 0L); }
    void add(double u) { int k = u * 20; if (k < 0) k = 0; if (k > 19) k = 19; ++h[k]; ++n; }
    void done(const std::string & w) { for (int k = 0; k < 20; ++k) { Case c; c << w << " between quantiles " << k / 20. << " and " << (k + 1) / 20.; freq(c.str(), h[k], n, .05); } long t = 0; for (int k = 0; k < 10; ++k) t += h[k]; freq(w + " below the median", t, n, .5); freq(w + " in the tails", h[0] + h[1] + h[18] + h[19], n, .2); }
};
static void nich() {
    auto s = Tr<NICH>::shared(); auto d = draw<NICH>(s, I(3) ? I(8) : 0);
    Case c; c << "NICH " << Tr<NICH>::show(s) << " data " << showd<NICH>(d); begin(c.str());
    auto g = filled<NICH>(s, d);
    double n = d.size(), m = 0, q = 0; for (float v : d) m += v; if (n) m /= n; for (float v : d) q += (v - m) * (v - m);
    double ka = s.kappa + n, nu = s.nu + n, mu = (s.kappa * s.mu + n * m) / ka, ss = (s.nu * s.sigmasq + q + n * s.kappa * (m - s.mu) * (m - s.mu) / ka) / nu;
    Bins a, b, e; auto & sm = reused<NICH>();
    for (long k = 0, K = I(6) ? 4000 : 30000; k < K; ++k) {
        a.add(tcdf((g.sample_value(s, gen) - mu) / std::sqrt(ss * (1 + 1 / ka)), nu));
        sm.init(s, g, gen);
        double x = sm.eval(s, gen), y = sm.eval(s, gen);
        b.add(tcdf((y - mu) / std::sqrt(ss * (1 + 1 / ka)), nu)); e.add(tcdf((x - y) / std::sqrt(2 * ss), nu));
    }
    a.done("draws"); b.done("second draws"); e.done("differences of draws with the same parameters");
}
template<class M> void niw(int p) {
    auto s0 = Tr<NIW>::make(p); s0.nu += 4; auto d = draw<NIW>(s0, I(3) ? I(8) : 0);  // nu: well-conditioned draws
    Case c; c << "niw " << Tr<NIW>::show(s0) << " data " << showd<NIW>(d); begin(c.str());
    typename M::Shared s; s.mu = s0.mu; s.psi = s0.psi; s.kappa = s0.kappa; s.nu = s0.nu;
    typename M::Group g; g.init(s, gen); for (auto & v : d) { typename M::Value w = v; g.add_value(s, w, gen); }
    double n = d.size(), ka = s.kappa + n, nu = s.nu + n;
    Eigen::VectorXd x = Eigen::VectorXd::Zero(p); for (auto & v : d) x += v.template cast<double>(); if (n) x /= n;
    Eigen::MatrixXd P = s0.psi.cast<double>(); for (auto & v : d) { Eigen::VectorXd w = v.template cast<double>() - x; P += w * w.transpose(); }
    Eigen::VectorXd mu0 = s0.mu.cast<double>(), w = x - mu0; if (n) P += s.kappa * n / ka * w * w.transpose();
    Eigen::VectorXd mu = (s.kappa * mu0 + n * x) / ka;
    double dof = nu - p + 1;
    Eigen::VectorXd u(p); for (int i = 0; i < p; ++i) u(i) = N();
    double var = u.dot(P * u) / dof, um = u.dot(mu);
    Bins a, b, e; auto & sm = reused<M>();
    for (long k = 0, K = I(6) ? 2000 : 10000; k < K; ++k) {
        auto v = g.sample_value(s, gen); sm.init(s, g, gen); auto y = sm.eval(s, gen), z = sm.eval(s, gen);
        double v1 = 0, y1 = 0, z1 = 0; for (int i = 0; i < p; ++i) v1 += u(i) * v(i), y1 += u(i) * y(i), z1 += u(i) * z(i);
        a.add(tcdf((v1 - um) / std::sqrt(var * (1 + 1 / ka)), dof)); b.add(tcdf((z1 - um) / std::sqrt(var * (1 + 1 / ka)), dof)); e.add(tcdf((y1 - z1) / std::sqrt(2 * var), dof));
    }
    a.done("draws along a direction"); b.done("second draws along a direction"); e.done("differences of draws with the same parameters");
}
// the draws below the NIW sampler: W ~ Wishart(nu, S) has u'Wu / u'Su ~ chi2(nu)
template<class V, class M> static void wishart(int p) {
    double nu = p - 1 + logu(.3, 40), la = logu(.1, 10);
    M S = Tr<NIW>::make(p).psi; V mu0 = Tr<NIW>::make(p).mu;
    bool fine = nu > p + 3;  // ill-conditioned draws lose the digits of the inverse
    Case c; c << "wishart of dimension " << p << " nu " << nu; begin(c.str());
    Eigen::MatrixXd P = S.template cast<double>(); Eigen::LLT<Eigen::MatrixXd> llt(P);
    std::vector<Eigen::VectorXd> us;
    for (int i = 0; i < p; ++i) { Eigen::VectorXd u = Eigen::VectorXd::Zero(p); u(i) = 1; us.push_back(u); us.push_back(llt.matrixU().solve(u)); }
    Eigen::VectorXd r(p); for (int i = 0; i < p; ++i) r(i) = N(); us.push_back(r);
    std::vector<Bins> b(us.size()), x(us.size()), m(us.size());
    boost::math::chi_squared chi(nu), inv(nu - p + 1); boost::math::normal nrm;
    for (long k = 0, K = I(6) ? 1000 : 6000; k < K; ++k) {
        M W = sample_wishart<M>(nu, S, gen);
        for (size_t i = 0; i < us.size(); ++i)
            b[i].add(boost::math::cdf(chi, std::max(0., us[i].dot(W.template cast<double>() * us[i]) / us[i].dot(P * us[i]))));
        if (!fine) continue;
        auto t = sample_normal_inverse_wishart<V, M>(mu0, la, S, nu, gen);
        for (size_t i = 0; i < us.size(); ++i) {
            auto & u = us[i];
            // Sigma ~ IW(nu, S): u'Su / u'Sigma u ~ chi2(nu - p + 1)
            double q = u.dot(t.second.template cast<double>() * u);
            if (!(q > 0)) q = 1e-30;
            x[i].add(boost::math::cdf(inv, u.dot(P * u) / q));
            m[i].add(boost::math::cdf(nrm, u.dot((t.first - mu0).template cast<double>()) / std::sqrt(q / la)));
        }
    }
    for (size_t i = 0; i < us.size(); ++i) { b[i].done("Wishart draws"); if (!fine) continue; x[i].done("inverse Wishart draws"); m[i].done("means"); }
}
static void wisharts() { switch (I(4)) { case 0: wishart<Eigen::VectorXf, Eigen::MatrixXf>(2); break; case 1: wishart<Eigen::VectorXf, Eigen::MatrixXf>(4); break; case 2: wishart<Eigen::Vector2f, Eigen::Matrix2f>(2); break; default: wishart<Eigen::Vector3f, Eigen::Matrix3f>(3); } }
static void niws() { switch (I(5)) { case 0: niw<NIW>(1); break; case 1: niw<NIW>(2); break; case 2: niw<NIW>(3); break; case 3: niw<NormalInverseWishart<2>>(2); break; default: niw<NormalInverseWishart<3>>(3); } }
void run() {
    for (int k = 0; k < 12 || (k < 1000000 && go_on()); ++k) {
        if (fails >= 20) break;
        guarded(discrete<BB>); guarded(discrete<BNB>); guarded(discrete<GP>); guarded(discrete<DD>); guarded(discrete<DPD>); guarded(nich);
        if (k % 2 == 0) { guarded(niws); guarded(wisharts); }
    }
}
int main(int c, char ** v) { return dyn_main(c, v, run); }
