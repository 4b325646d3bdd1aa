// PROTO distributions/io/schema.proto
// FLAGS -std=c++14 -lprotobuf
// C13: every object through the real generated messages and their wire format,
// into messages and objects with other contents.
#include "schema.pb.h"
#include "lib.hpp"
namespace pb = ::protobuf::distributions;
typedef NormalInverseWishart<2> NIW2;
typedef NormalInverseWishart<3> NIW3;
template<class M> struct Msg;
#define MSG(M, N) template<> struct Msg<M> { typedef pb::N::Shared S; typedef pb::N::Group G; };
MSG(BB, BetaBernoulli) MSG(BNB, BetaNegativeBinomial) MSG(GP, GammaPoisson) MSG(NICH, NormalInverseChiSq) MSG(DD, DirichletDiscrete) MSG(DPD, DirichletProcessDiscrete) MSG(NIW, NormalInverseWishart)
static std::vector<double> params(const BB::Shared & s) { return {s.alpha, s.beta}; }
static std::vector<double> params(const BNB::Shared & s) { return {s.alpha, s.beta, double(s.r)}; }
static std::vector<double> params(const GP::Shared & s) { return {s.alpha, s.inv_beta}; }
static std::vector<double> params(const NICH::Shared & s) { return {s.mu, s.kappa, s.sigmasq, s.nu}; }
static std::vector<double> params(const DD::Shared & s) { std::vector<double> r{double(s.dim)}; for (int i = 0; i < s.dim; ++i) r.push_back(s.alphas[i]); return r; }
static std::vector<double> params(const DPD::Shared & s) {
    std::vector<double> r{s.alpha, s.gamma, double(s.counts.get_total())};
    for (auto i : Tr<DPD>::ids(s)) { r.push_back(i); r.push_back(s.betas.get(i)); r.push_back(s.counts.get_count(i)); }
    return r;
}
static std::vector<double> params(const NIW::Shared & s) {
    std::vector<double> r{s.kappa, s.nu, double(s.mu.size())};
    for (int i = 0; i < s.mu.size(); ++i) r.push_back(s.mu(i));
    for (int i = 0; i < s.psi.size(); ++i) r.push_back(s.psi(i));
    return r;
}
// the bytes of x, read back into a message that held something else
template<class T> T wire(const T & x) {
    std::string b; T y;
    if (!x.SerializeToString(&b)) fail("message is incomplete");
    if (!y.ParseFromString(b)) fail("message does not parse");
    return y;
}
static void same(const std::string & what, const std::vector<double> & a, const std::vector<double> & b) {
    if (a != b) {
        Case c; c << what << ": got"; for (auto x : a) c << " " << x; c << ", want"; for (auto x : b) c << " " << x;
        fail(c.str());
    }
}
template<class M> void big(const typename M::Shared & s, typename M::Group & g, int n) { g.add_repeated_value(s, Tr<M>::value(s), n, gen); }
template<> void big<NIW>(const NIW::Shared &, NIW::Group &, int) {}
template<> void big<NICH>(const NICH::Shared &, NICH::Group &, int) {}
template<class M> void run_one() {
    auto s = Tr<M>::shared();
    auto t = Tr<M>::shared();                      // other contents
    auto d = draw<M>(s, I(4) ? I(8) : 0);
    begin(std::string(Tr<M>::name()) + " round trip " + Tr<M>::show(s) + " data " + showd<M>(d));
    auto want = params(s);
    typename Msg<M>::S m;
    t.protobuf_dump(m);                            // the message is used again
    s.protobuf_dump(m);
    same("dumping changes the parameters", params(s), want);
    t.protobuf_load(wire(m));
    same(std::string(Tr<M>::name()) + " shared parameters", params(t), want);
    auto g = filled<M>(s, d);
    if (I(5) == 0) big<M>(s, g, 1 << (5 + I(20)));
    auto o = Tr<M>::shared();
    auto h = filled<M>(o, draw<M>(o, I(5)));
    auto st = Tr<M>::stats(s, g);
    typename Msg<M>::G n;
    h.protobuf_dump(n);
    g.protobuf_dump(n);
    same("dumping changes the group", Tr<M>::stats(s, g), st);
    h.protobuf_load(wire(n));
    same(std::string(Tr<M>::name()) + " group statistics", Tr<M>::stats(s, h), st);
    auto v = Tr<M>::value(s);
    slack += 1e-4;                                 // DPD: the stick is recomputed
    double sc = 20; for (double x : st) sc += std::fabs(x);
    check(std::string(Tr<M>::name()) + " score_data", h.score_data(t, gen), g.score_data(s, gen), sc * log(sc) / 15);
    check(std::string(Tr<M>::name()) + " score_value", h.score_value(t, v, gen), g.score_value(s, v, gen), sc * log(sc) / 15);
}
static void stick() {                              // a stick that was never broken
    DPD::Shared s = Tr<DPD>::make({}), t = Tr<DPD>::shared();
    s.beta0 = 1;
    begin("dpd round trip without values into " + Tr<DPD>::show(t));
    pb::DirichletProcessDiscrete::Shared m;
    s.protobuf_dump(m); t.protobuf_load(wire(m));
    same("dpd shared parameters", params(t), params(s));
    check_eq("dpd beta0 of an unbroken stick", t.beta0, 1);
}
template<int D> void fixed() {
    typedef NormalInverseWishart<D> F;
    auto s = Tr<NIW>::make(D);
    begin("niw<" + std::to_string(D) + "> round trip " + Tr<NIW>::show(s));
    pb::NormalInverseWishart::Shared m; pb::NormalInverseWishart::Group n, k;
    s.protobuf_dump(m);
    typename F::Shared f, f2 = F::Shared::EXAMPLE(); f = F::Shared::EXAMPLE();
    f.protobuf_load(wire(m));
    f2.protobuf_dump(m); f.protobuf_dump(m);
    NIW::Shared t = Tr<NIW>::shared(); t.protobuf_load(wire(m));
    same("niw fixed dimension: shared parameters", params(t), params(s));
    auto g = filled<NIW>(s, draw<NIW>(s, I(6))), h = filled<NIW>(s, draw<NIW>(s, I(3)));
    g.protobuf_dump(n);
    typename F::Group fg; fg.protobuf_load(wire(n));
    h.protobuf_dump(k); fg.protobuf_dump(k); h.protobuf_load(wire(k));
    same("niw fixed dimension: group statistics", Tr<NIW>::stats(s, h), Tr<NIW>::stats(s, g));
}
static void clustering() {
    Clustering<int32_t>::PitmanYor p, q; p.alpha = logu(.01, 100); p.d = U() * .99; q.alpha = 1; q.d = .5;
    begin(Case().operator<<("PitmanYor alpha=").operator<<(p.alpha).operator<<(" d=").operator<<(p.d).str());
    pb::Clustering::PitmanYor m;
    q.protobuf_dump(m); p.protobuf_dump(m); q.protobuf_load(wire(m));
    same("PitmanYor", {q.alpha, q.d}, {p.alpha, p.d});
    Clustering<int32_t>::LowEntropy a, b; a.dataset_size = int(logu(1, 2e9)); b.dataset_size = 7;
    begin("LowEntropy dataset_size=" + std::to_string(a.dataset_size));
    pb::Clustering::LowEntropy n;
    b.protobuf_dump(n); a.protobuf_dump(n); b.protobuf_load(wire(n));
    check_eq("LowEntropy dataset_size", b.dataset_size, a.dataset_size);
}
template<class M> void one() { guarded([]{ run_one<M>(); }); }
void run() {
    for (int k = 0; k < 300 || (k < 1000000 && go_on()); ++k) {
        if (fails >= 20) break;
        ALL_MODELS(one)
        guarded([]{ fixed<2>(); fixed<3>(); clustering(); stick(); });
    }
}
int main(int c, char ** v) { return dyn_main(c, v, run); }
