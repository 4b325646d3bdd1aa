// Driver translation unit: only #includes of the real sources and explicit
// instantiations of the real templates.  No code of its own is verified.
#include <distributions/models/bb.hpp>
#include <distributions/models/bnb.hpp>
#include <distributions/models/dd.hpp>
#include <distributions/models/dpd.hpp>
#include <distributions/models/gp.hpp>
#include <distributions/models/nich.hpp>
#include <distributions/models/niw.hpp>
#include <distributions/clustering.hpp>
#include <distributions/mixture.hpp>
#include <distributions/sparse.hpp>
#include "special.cc"
#include "random.cc"
#include "vector_math.cc"
#include "clustering.cc"
#include "models/gp.cc"
#include "models/nich.cc"
#include "models/niw.cc"
namespace distributions {
#define INST(M) \
  template struct MixtureSlave<M, M::MixtureDataScorer>; \
  template struct MixtureSlave<M, M::MixtureDataScorer, M::MixtureValueScorer>;
INST(BetaBernoulli)
INST(BetaNegativeBinomial)
INST(DirichletProcessDiscrete)
INST(GammaPoisson)
INST(NormalInverseChiSq)
template struct DirichletDiscrete<16>;
INST(DirichletDiscrete<16>)
template struct MixtureDriver<Clustering<int32_t>::PitmanYor, int32_t>;
template struct MixtureDriver<Clustering<int32_t>::LowEntropy, int32_t>;
template class Sparse_<uint32_t, float>;
template class SparseCounter<uint32_t, int>;
template struct Packed_<float, aligned_allocator<float>>;
template class Aligned_<float>;
typedef std::allocator<float> SA;
template size_t sample_from_likelihoods(rng_t &, const std::vector<float, SA> &, float);
template size_t sample_from_likelihoods(rng_t &, const std::vector<float, SA> &);
template size_t sample_from_probs(rng_t &, const std::vector<float, SA> &);
template void scores_to_probs(std::vector<float, SA> &);
template size_t sample_from_scores_overwrite(rng_t &, std::vector<float, SA> &);
template std::pair<size_t, float> sample_prob_from_scores_overwrite(rng_t &, std::vector<float, SA> &);
template size_t sample_from_scores(rng_t &, const std::vector<float, SA> &);
template int sample_from_urn(rng_t &, const std::vector<int> &);
template std::pair<int, int> sample_pair_from_urn(rng_t &, const std::vector<int> &);
}
