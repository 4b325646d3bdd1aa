#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the JSON stays well-formed)."""
import json
P=[]
def prop(id,title,statement,over,qtext,why,files,mech,state=(),observe=()):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,
        state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],
        observe_at=list(observe),hook_needed=None)))
M='include/distributions/models/'
MODELS=[M+x for x in('bb.hpp','bnb.hpp','dd.hpp','dpd.hpp','gp.hpp','nich.hpp','niw.hpp')]

prop('C01','Group statistics are a function of the multiset of data',
 "For every component model of the C++ library, the sufficient statistics of a group after any sequence of value additions and removals depend only on the multiset of values it then holds: removing a value undoes adding it, the order of additions does not matter, adding a value n times at once equals adding it n times, and a freshly initialised group holds no data. "
 "Merging one group into another gives the statistics, and therefore every score, of a group holding all the data of both, including when one or both are empty.",
 ['inputs','histories'],'all values, repeat counts, hyperparameters and all histories of init/add/add-repeated/remove/merge for the seven models (real arithmetic for float statistics)',
 'The model tests replay a handful of EXAMPLES per model in one order, compare only dumped fields with a tolerance, and only merge two groups with a dozen values; they never quantify over histories.',
 MODELS,[('Group::init/add_value/add_repeated_value/remove_value/merge','include/distributions/models/*.hpp'),('SparseCounter','include/distributions/sparse.hpp')],
 observe=['Group fields','Group::score_value','Group::score_data'])
prop('C02','Scores are those of the conjugate model',
 "For every component model of the C++ library, a group's score_data is the log marginal likelihood of the data it holds and score_value is the log posterior predictive of one more value: an empty group has score_data zero, adding a value changes score_data by exactly that value's score_value, and the score depends on the data only through the group statistics. "
 "A scorer prepared from a group returns the same score for a value as the group itself, and a shared parameter updated with a group's data is the conjugate posterior; for the finite discrete models the predictive probabilities sum to one.",
 ['inputs','histories'],'all valid hyperparameters, all group statistics reachable by additions and removals, all values (special functions taken as exact real functions)',
 'Tests check these relations at a few dozen sample points with tolerance 1e-3 or looser, for one hyperparameter setting per model.',
 MODELS,[('Group::score_value/score_data','include/distributions/models/*.hpp'),('Scorer::init/eval','include/distributions/models/*.hpp'),('Shared::plus_group','include/distributions/models/{bnb,gp,nich,niw}.hpp')])
prop('C03','Mixture value scores stay equal to per-group scores',
 "After initialisation and any history of adding and removing groups and values, a mixture's vectorised value scores accumulate into the output, for every group, exactly that group's own predictive score for the value, and the single-group query returns the same number. "
 "This holds equally for the cached (fast) and the uncached (small) mixtures of every model that has them, and removing a group leaves the remaining groups' data and scores intact, with the last group taking the removed one's place.",
 ['inputs','histories'],'all histories of init/add_group/remove_group/add_value/remove_value, any number of groups, any value and any shared hyperparameters valid for the model',
 'The mixture tests use one small fixed history per model with a few groups; a stale cache entry needs a particular order of operations or group position to show.',
 ['include/distributions/mixture.hpp','include/distributions/vector.hpp','src/models/gp.cc','src/models/nich.cc']+MODELS[:6],
 [('MixtureSlave','include/distributions/mixture.hpp'),('MixtureValueScorer','include/distributions/models/*.hpp'),('Packed_','include/distributions/vector.hpp'),('vector_math','src/vector_math.cc')])
prop('C04','Mixture data score is the sum of its groups',
 "A mixture's data score equals the sum of its groups' own data scores, for any number of groups, empty groups included. "
 "Scoring a grid of candidate shared parameters gives for each candidate exactly the data score that candidate would get on its own, independent of its position and of the other candidates in the grid.",
 ['inputs','histories'],'all collections of groups and all lists of shared parameters of equal dimension, for the six models with mixtures',
 'Tests score one fixed mixture and a grid built from few examples; incremental grid updates have errors that depend on which hyperparameters change between neighbours.',
 ['include/distributions/mixture.hpp']+MODELS[:6],[('MixtureDataScorer','include/distributions/models/*.hpp'),('MixtureSlaveDataScorerMixin::score_data_grid','include/distributions/mixture.hpp')])
prop('C05','Mixture drivers keep counts and empty groups consistent',
 "Through any history, a mixture driver's group counts, sample size and set of empty groups agree: the sample size is the sum of the counts, and a group is listed as empty exactly when its count is zero. "
 "Adding to an empty group reports true and appends one fresh empty group, emptying a group reports true and removes it by moving the last group into its place, and otherwise the report is false and no group moves, so the number of empty groups never changes after initialisation; adding or removing n values at once is the same as doing it n times.",
 ['histories','inputs'],'all initial count vectors with at least one empty group and all histories of add/remove with any counts, for the generic driver and for the cached Pitman-Yor mixture',
 'Tests drive short random histories of one clustering example and compare group counts only.',
 ['include/distributions/mixture.hpp','include/distributions/clustering.hpp'],[('MixtureDriver','include/distributions/mixture.hpp'),('PitmanYor::CachedMixture','include/distributions/clustering.hpp')],
 state=[('counts','per-group counts','MixtureDriver::counts_'),('empty groups','ids of empty groups','MixtureDriver::empty_groupids_'),('sample size','total count','MixtureDriver::sample_size_')])
prop('C06','Group ids tracked across packing are stable and unique',
 "A mixture id tracker always maps packed ids 0..n-1 one-to-one onto global ids and back: the two translations are mutually inverse, a group's global id never changes while the group exists, and a global id is never reused after its group is removed. "
 "Adding a group appends it with a new global id, and removing a packed id gives that place to the group that was last.",
 ['histories','inputs'],'all histories of init/add_group/remove_group and all ids',
 'There is one short test history; a stale reverse entry shows only for particular removal positions.',
 ['include/distributions/mixture.hpp'],[('MixtureIdTracker','include/distributions/mixture.hpp')],
 state=[('packed_to_global','packed id to global id','MixtureIdTracker'),('global_to_packed','inverse','MixtureIdTracker')])
prop('C07','Pitman-Yor scores are those of the Pitman-Yor process',
 "The Pitman-Yor score of a partition equals the sum of the incremental scores of seating its members one at a time, in any order, and does not depend on the order of its groups or on empty groups; removing a value scores exactly minus what re-adding it would. "
 "For every state, the probabilities of all placements of the next value sum to one, and after any history the cached mixture reports for every group the same score as the uncached incremental formula.",
 ['inputs','histories'],'all alpha > 0, 0 <= d < 1, all count vectors, all histories of the cached mixture',
 'Tests compare a few random partitions of small size with tolerance and one alpha/d pair per example.',
 ['include/distributions/clustering.hpp','src/clustering.cc'],[('PitmanYor','include/distributions/clustering.hpp'),('PitmanYor::score_counts','src/clustering.cc'),('CachedMixture','include/distributions/clustering.hpp')])
prop('C08','Low-entropy clustering scores are consistent',
 "For the low-entropy clustering model, removing a value scores exactly minus what adding it back to the reduced state would, the score of adding to a nonempty group of size n is (n+1)log(n+1)-n log n (up to the error of the fast logarithm and the documented approximation for very large groups) and the score of opening a new group is shared evenly among the empty groups. "
 "The score of a partition does not depend on the order of its groups or on empty groups, and for a complete data set its difference under moving a value between nonempty groups equals the difference of incremental scores.",
 ['inputs','histories'],'all dataset sizes, group sizes, sample sizes and empty-group counts, in the C++ library',
 'Tests cover three dataset sizes and mostly complete partitions.',
 ['include/distributions/clustering.hpp','src/clustering.cc'],[('LowEntropy','include/distributions/clustering.hpp'),('LowEntropy::score_counts','src/clustering.cc')])
prop('C09','Sparse counters and maps behave as their mathematical maps',
 "A sparse counter is, after any history of insertions, additions (also negative ones), removals, merges, renames and clears, the function from keys to accumulated counts: it never lists a key with count zero, returns zero for absent keys, and its total is the sum of all counts; merging adds two counters pointwise. "
 "A sparse map holds exactly the keys added and not removed, with the last value set, and rejects duplicate additions and accesses to missing keys.",
 ['histories','inputs'],'all histories and all keys and counts',
 'No C++ unit test covers these containers directly; the models built on them compare dumps, which do not contain the total.',
 ['include/distributions/sparse.hpp'],[('SparseCounter','include/distributions/sparse.hpp'),('Sparse_','include/distributions/sparse.hpp')],
 state=[('total','sum of all counts','SparseCounter::total_')])
prop('C10','Discrete sampling and score normalisation are exact',
 "For any scores, converting them to likelihoods and probabilities gives the normalised exponentials, log-sum-exp is their log normaliser, and the reported probability or score of a sampled index is the normalised one for that index. "
 "A discrete sample drawn from given weights and a given uniform random number is the index at which the cumulative weight first reaches that fraction of the total, always lies in range, and urn samples are members of the urn, distinct positions for pairs; Dirichlet samples are the normalised gamma variates.",
 ['inputs'],'all nonempty weight/score vectors, all uniform draws (random number generator abstracted to arbitrary draws)',
 'Tests sample a few thousand draws of a few distributions and test goodness of fit, which cannot see boundary indices or rare draws.',
 ['include/distributions/random.hpp','src/random.cc','include/distributions/vector_math.hpp','src/vector_math.cc'],[('sample_from_likelihoods, sample_discrete, scores_to_likelihoods, score_from_scores_overwrite, log_sum_exp','include/distributions/random.hpp, src/random.cc')])
prop('C11','Special functions stay in their tables and match their definitions',
 "The fast logarithm reads only inside its table for every bit pattern and is within 2^-14 + 1e-5 of log x for positive normal floats; the fast log-gamma (positive arguments below 2^32), half-step log-gamma (nu positive below 2^32) and log-factorial (every 32-bit count) read only inside their tables and return the mathematical function up to their small approximation error (2e-5 absolute plus 1e-5 relative for log-gamma and log-factorial, 0.016 for the half-step log-gamma); the fast exponential is accurate between its documented clamps and clamps everything outside. "
 "Derived functions (log-beta, log-binomial, multivariate log-gamma, pairwise log-sum-exp) equal their defining combinations, and Stirling-number rows satisfy the defining recurrence up to the exact-row bound and are finite beyond it. ",
 ['inputs'],'every 32-bit float argument (exhaustive bit patterns for the table index), every 32-bit integer',
 'Tests evaluate these on a few dozen points per function.',
 ['include/distributions/special.hpp','src/special.cc'],[('FastLog, fast_lgamma, fast_lgamma_nu, fast_log_factorial','include/distributions/special.hpp'),('tables','src/special.cc')])
prop('C12','Vector kernels and packed containers do what their names say',
 "Every vector kernel computes, for every length and every element, exactly its documented elementwise or reduction result, writes nothing outside its output range and leaves its inputs unchanged. "
 "Removing an element of a packed container moves the last element into its place and shortens it by one, leaving all others unchanged; appending leaves all existing elements unchanged.",
 ['inputs','histories'],'all lengths (including zero where defined), all element values, all positions',
 'The kernels have tests only at one length; no test covers the packed container.',
 ['src/vector_math.cc','include/distributions/vector_math.hpp','include/distributions/vector.hpp'],[('vector_*','src/vector_math.cc'),('Packed_','include/distributions/vector.hpp')])
prop('C13','Serialisation round-trips',
 "For every model's shared parameters and group statistics and for the clustering models in the C++ library, dumping to a message and loading that message into any existing object gives back an object with the same parameters or statistics and hence the same scores, whatever the object held before. ",
 ['inputs','histories'],'all states of each object, all prior contents of the loading object',
 'Tests round-trip a few examples through freshly made objects and compare dumps only.',
 MODELS+['include/distributions/clustering.hpp'],[('protobuf_load/protobuf_dump','include/distributions/models/*.hpp')])
prop('C14','Stick-breaking weights keep unit mass',
 "In the Dirichlet-process discrete model, through any history of registering and unregistering values (starting from a stick of one and no weights) the remaining stick plus all value weights stays at one, up to the minimum remaining stick (1e-6) which each registration of a new value may add; a value has a (positive) weight exactly while its registration count is positive; registering a new value breaks its weight off the stick and changes no other weight; registering an already known value or unregistering one of several registrations changes no weight; unregistering the last one returns the weight to the stick; the reserved value OTHER is refused. "
 "Realising the prior keeps every weight and registration, leaves no remaining stick and keeps the mass in the same sense.",
 ['histories','inputs'],'all histories of add_value/remove_value/realize on shared parameters and all random draws in (0,1]',
 'Tests use one fixed shared parameter with zero remaining stick, so weights are never created or returned.',
 [M+'dpd.hpp','include/distributions/sparse.hpp'],[('Shared::add_value/remove_value/realize','include/distributions/models/dpd.hpp')],
 state=[('beta0','mass of the remaining stick','Shared'),('betas','weights of known values','Shared'),('counts','registrations','Shared')])
prop('C15','The Python reference models obey the same contracts',
 "The pure-Python reference implementations of the component models maintain the same sufficient statistics and return the same data scores and predictive scores as the C++ library, for every history of additions, removals and merges; "
 "their samplers draw the component parameters from the posterior and the value from the likelihood. Registering and unregistering values of the Python Dirichlet-process shared parameters keeps the mass of stick and weights. "
 "The Python LowEntropy clustering model returns the same scores as the C++ one. "
 "Loading what shared parameters or a group dumped, as a dictionary or as a message, gives back the same parameters or statistics, whatever the loading object held. ",
 ['inputs','histories'],'all hyperparameters, values and histories for the Python models (real arithmetic)',
 'Tests compare flavours on the shared EXAMPLES only.',
 ['distributions/dbg/models/bb.py','distributions/dbg/models/bnb.py','distributions/dbg/models/dd.py','distributions/dbg/models/dpd.py','distributions/dbg/models/gp.py','distributions/dbg/models/nich.py','distributions/dbg/models/niw.py','distributions/dbg/clustering.py'],[('Shared, Group, Sampler classes','distributions/dbg/models/*.py')])
prop('C16','Samplers draw from the posterior they claim',
 "For every component model of the C++ library, sampling a value from a group first draws the component parameters from the conjugate posterior given exactly the group's data and then draws the value from the likelihood with those parameters, for every hyperparameter and group state. ",
 ['inputs','histories'],'all hyperparameters and group states; primitive random variate generators are taken as given, their arguments are what is decided',
 'Goodness-of-fit tests at a few examples cannot distinguish small parameter errors or cover all group states.',
 MODELS+['include/distributions/random.hpp'],[('Sampler::init/eval','include/distributions/models/*.hpp')])
prop('C17','Assignments are sampled and counted consistently',
 "Sampling a partition returns exactly one group id per item, ids are contiguous in order of first appearance starting from zero, and each item is placed with weights proportional to the model's incremental scores given the items before it. "
 "Counting an assignment map returns for each group id the number of items assigned to it.",
 ['inputs'],'all sizes, all random draws, all assignment maps with contiguous ids',
 'Tests sample a few sizes and look at goodness of fit.',
 ['src/clustering.cc'],[('sample_assignments, count_assignments','src/clustering.cc')])
with open('properties.jsonl','w') as f:
    for p in P: f.write(json.dumps(p)+'\n')
