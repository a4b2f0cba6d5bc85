VC = 'contract-based deductive verification: verification conditions from the current source, discharged by z3/cvc5'
CLAIM = {
 'C01': ('proof', VC, 'Every function of the set algebra is under contract and all obligations are discharged for all double ends and any number of intervals; trusts the lowering and the operation semantics, excludes NaN.'),
 'C02': ('proof', VC, 'Contracts on extremes, size, equality, representative points are discharged for all double ends; sampled points use an assumed contract of the random generator.'),
 'C03': ('proof', VC, 'Contracts on re-bracketing and cutting are discharged for all double ends; cutting for up to two cutting points (bounded), sampled beyond.'),
  'C06': ('other', VC + ' for the functions named in the note; bounded stand-in for the rest', 'Evaluation, copy, update, addition, multiplication, subtraction, division, shift, stretch, mirror, crop, split, derivative and merging of piecewise functions of any number of pieces are proved pointwise over real arithmetic, given intervals in order; rectify, level sets, simplification and constructors are compared with the pointwise definition on generated functions (bounded).'),
 'C05': ('proof', VC, 'Every method of constant, linear and quadratic functions is under contract over real arithmetic; floating-point rounding is checked only by sampling with tolerances.'),
}
NA = {}
B = 'bounded stand-in: the real code run on generated inputs against an independent executable specification of the contract'
VB = VC + ' for the functions named in the note; ' + B + ' for the rest'
PB = VC + ' for the number sets and functions underneath; ' + B + ' for the property itself'
for _i, _t, _n in [
 ('C04', VB, 'State of intervals and sets and JSON of sets and elementary functions are proved inverse of reading back; trees, types and variables on generated objects (bounded).'),
 ('C07', VB, 'Fitting a distribution function to any number of samples is proved over real arithmetic (support points in order, both ends kept, every sample kept when there is no tolerance, values from 0 to 1), and its jumps are proved to be found; fits of generated samples against the empirical distribution, with tolerances and extreme magnitudes (bounded).'),
 ('C08', VB, 'Restriction of discrete distributions and of numeric distributions to points, intervals and sets of any number of intervals is proved, and so is the crop of piecewise functions to an interval; renormalised probabilities on generated inputs (bounded).'),
 ('C09', VB, 'Merging and updating discrete distributions is proved for any number of parts, merging of piecewise functions is proved piece by piece over real arithmetic; the merge of distribution functions on generated inputs (bounded).'),
 ('C10', VB, 'The quantile function is proved, for a distribution function of any number of constant and linear pieces over real arithmetic, to give every probability a value that is a quantile up to 1e-12; quantiles of generated distributions and medians against the definition (bounded).'),
 ('C11', VB, 'Probability of points, intervals and sets, moments of order 1 to 3 and the mode of numeric distributions are proved for every distribution function over real arithmetic; the distribution functions themselves on generated inputs (bounded).'),
 ('C12', VB, 'Probability, restriction, merging, fitting, moments, modes and comparison of discrete distributions are proved for every domain size over real arithmetic; type constructors, serialisation and rounding bounded.'),
 ('C13', VB, 'Conversion of labels and values of discrete and numeric domains, single or in sets, is proved; the scaling maps and variable maps on generated variables (bounded).'),
 ('C14', VB, 'Leaf and tree modes are proved maximal given the modes of the distributions, discrete modes are proved; ordering of the k best states against exhaustive enumeration (bounded).'),
 ('C15', VB, 'The sort (introsort, heapsort, sift-down, partition, median), the binary search and linspace are under contract and proved for arrays of every size, including termination; the priority queue, normalisation and the small helpers are bounded.'),
 ('C16', VB, 'The split search (sums, histograms, variances, impurities, the scan over positions, the choice of the best feature and the reordering of the samples) is proved for data of every size over real arithmetic; trusts distinct buffers and finite data; set-up from a learner and splits of real data are bounded. One known finding (two or more numeric targets).'),
 ('C17', VB, 'Every step of the learner is proved (exact doubles) to make one node: a leaf with the share and the distributions of its samples, or a split into two sets of values that partition the domain and two non-empty ranges that partition the samples accordingly; the learner is proved to terminate with every sample in exactly one leaf; paths, membership of samples in leaves and the encoding are proved. Trusts the contracts of the split search (C16) and of fitting. Closing of gaps and real data are bounded.'),
 ('C18', VB, 'Evidence application, leaf probability and inference are proved to be ratios of prior-weighted leaf masses; laws on learned trees sampled (bounded).'),
 ('C19', VB, 'The posterior is proved to be, for any number of leaves, evidence and query variables, the merge of the distributions of exactly the leaves that the evidence does not exclude, each restricted to the evidence within the path of its leaf and weighted with prior times likelihood; expectations are proved to be the means of the posteriors. Posteriors of learned trees against conditional queries (bounded).'),
 ('C20', VB, 'Conditioning of trees of any shape (exactly the leaves of positive probability remain, with priors times probability over the mass, and cropped distributions), application of evidence to leaves, conditioned leaves, weighting and renormalisation are proved; the conditioned model against conditional queries of the original (bounded).'),
 ('C21', VB, 'The joint density is proved to be the prior-weighted sum over leaves; likelihoods of learned trees sampled (bounded).'),
 ('C22', VB, 'The weighted choice, samples of symbolic, integer and numeric distributions, of intervals (in exact doubles), leaves and trees are proved possible for every outcome of the random generator, trusting that numpy and random draw within their limits and choose only elements of positive probability; samples of generated distributions and trees against their supports (bounded).'),
 ('C23', VB, 'Reading a query of any number of entries (variables or names as keys; numbers, lists, intervals, sets of intervals, labels, sets of labels as values) is proved to denote the states of the last entry for each variable, variables without blur; the conversions of lists and single values are proved; the checks made by assignments, blur and repeated binding on generated queries (bounded).'),
 ('C24', VB, 'The factor graph of an evidence sequence of any length is proved to have one variable and one factor (the leaf priors under the evidence of the step) for every step and the transition model between consecutive steps; the models returned are proved to have the marginals of their step as leaf priors. Fitted sequence models against counting, marginals against a forward-backward recursion (bounded).'),
]:
    CLAIM[_i] = ('other', _t, _n)
