"""Writes known_findings.json from the lists below (by hand at development time, never at run time)."""
import json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
FIXED = """
C01 ca62826 DRos with lambda=0 and SG-IPW/SG-DR with lambda=1 returned NaN as soon as one round had zero importance weight
C02 e05c410 Cascade-DR took the previous row of the array instead of the previous slot of the same slate (wrong for shuffled rows and for slates of different lengths)
C17 64464fc rounds drawn with next_bandit_round carried a 2D context, so contextual policies crashed in simulations with a number of rounds
C17 ee9b105 a round without a delay entry skipped the feedback that was due in it
C18 eb7068f drifting coefficients depended on how rounds were grouped into requests
C19 2679780 replay simulation called the tqdm module and crashed
C19 402a76a replay simulation returned max(action)+1 columns instead of the policy's n_actions
C19 6a2b6ba replay simulation overwrote position in the caller's bandit feedback
C14 4bebfd9 initialize() of a linear policy kept the learned parameters
C14 f599b76 initialize() of a logistic policy kept the learned models
C14 0a00931 all actions of a seeded LogisticTS shared identical posterior draws
C14 d469a90 zero rewards entered the online logistic regression as y=0 instead of -1, so they carried no information
C14 b803f7b online logistic regression accumulated the curvature at X w y instead of the fitted probabilities
C22 aaf5cb5 multi-class reduction compared encoded actions with raw labels, so rewards were wrong for labels other than 0..K-1
C21 37d2fbd slate rewards of round i used the context of round i // len_list
C21 7afaa9d slate rewards were computed in float16 and with 8-bit action indices (wrong beyond 127 actions)
C21 0407554 the optimal slate policy took the worst actions and the anti-optimal one the best
C21 e8096b4 sample_reward_given_expected_reward scaled the caller's array in place
C21 4e1ce1e continuous slate rewards reused the same noise for every slot and batch
C21 48275d4 slate ground truth: context-free value summed over rounds and ignored the click model; cascade click model used E[D]^2 for E[D^2]
C21 45b0fa1 expected continuous slate rewards and ground truth ignored the truncation of the sampled distribution
C21 4c4aa04 cascade_decay slates had no interaction at all (weights read from the zeroed triangle)
C07 3762788 interval estimation of the balanced multi-logger estimators crashed
C03 e108e0e weighted multi-logger estimators crashed or mixed strata for labels other than 0..K-1
C03 0339dab weighted multi-logger estimators returned NaN when a stratum had zero variance
C03 52c191c the weighted multi-logger DR weighted only the residual part of each stratum
C04 dfe60a2 kernelized estimators crashed on integer-valued action arrays
C05 c785a60 true marginal weights used the product of the marginals of the embedding dimensions instead of their joint probability
C05 fc5ce96 embedding selection never returned the smallest accepted embedding set
C05 17fb58c embedding selection of the self-normalised MIPW compared values that were not self-normalised
C06 018e2f3 sub-gaussian tuning dropped the estimated propensities and crashed with use_estimated_pscore
C06 1e31211 SLOPE tuning sorted the caller's candidate list in place
C06 9c05b05 the hyperparameter selected on the first log was reused for every later log
C08 e5f6b08 evaluators crashed or compared the wrong array when p_e_a was a plain array
C08 d8c1e84 the continuous evaluator added a key to the caller's bandit feedback
C08 5d83b91 multi-policy plots crashed with more estimators than policies
C10 9ab7497 importance weights and propensities could not be predicted without positions
C10 263665f importance weights could not be cross-fitted when a fold had no round of some position
C10 b33db97 propensities were read from the wrong column when the training data lacked some action
C10 76a4de0 warm-started base models carried what they learned from one cross-fitting fold into the next
C20 4e12793 continuous synthetic rewards were drawn around the already truncated mean, so their mean differed from the reported expected reward
C20 d237040 actions and rewards were drawn from the same uniforms, repeated in every batch (rewards depended on the logged action beyond the context, batches were copies of the same draws)
C20 a04387c z_score subtracted mean/std instead of standardising
C20 e020c47 with deficient actions the multi-logger data used one beta for all strata and a mixture over unsupported actions
C20 a943bb9 rounding could make the size of the last stratum negative and crash the multi-logger data
C20 a06fc30 a batch of one round had a scalar reward (or continuous action)
C20 f43e0fe an underflowing Dirichlet draw made the embedding rewards NaN
C22 0265d8a the logged action reused the random numbers that had chosen the deficient actions
C15 4bcc0de QLearner with fitting_method "iw" or "mrdr" always raised (its uniform action distribution did not sum to one)
C15 76790a9 without propensities IPWLearner and QLearner assumed a uniform policy over 1 + the largest logged action instead of all actions
C15 435b886 IPWLearner could not score, rank or sample when some action was missing from the training data
C16 245aed5 a mini-batch of a single round (201 rounds with the default batch size) turned the policy network into NaN
C16 b5acea0 neural learners counted improvements of the loss as failures to improve, and stopped only the epoch instead of the training
C16 3ca4e49 SGD with the documented momentum of zero always raised under the default nesterovs_momentum
C24 278cc04 fitting a seeded neural learner shuffled and split the data with the process-wide torch state, so the same seed gave other policies
C24 a79ece7 neural learners wrote n_actions and dim_context into the caller's q_func_estimator_hyperparams
C09 5acf04d action distributions with negative entries that still sum to one were accepted everywhere
C09 e453e49 slate positions and slate ids of a 32-bit integer type were rejected
C09 1d9ff72 LinTS and the logistic policies accepted contexts of several rows and returned meaningless action indices
C09 e3e4fc1 IPWLearner.fit accepted actions beyond n_actions and dropped rounds with positions beyond len_list
C09 e5a3498 balanced IPW accepted an action_dist with another number of rounds than the log
C07 d4c7db0 the replay method's interval took 100 resamples where 10000 are documented as its default
"""
KNOWN = []
f = [dict(status="known", **k) for k in KNOWN]
for l in FIXED.strip().splitlines():
    p, c, w = l.split(" ", 2)
    f.append(dict(status="fixed", property=p, what="fixed: property=%s %s %s" % (p, c, w)))
json.dump(dict(format="status=known entries are matched by regex against 'case kind | finding tag | verdict'; status=fixed entries suppress nothing", findings=f),
          open(os.path.join(V, "known_findings.json"), "w"), indent=1)
print(len(f))
