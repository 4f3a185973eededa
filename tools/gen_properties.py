"""Single source of properties.jsonl (run: python3 tools/gen_properties.py)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                     observe_at=observe, hook_needed=None)))

p("C01", "Single-action OPE estimators return the value of their published formula",
  "For every logged dataset, evaluation policy, reward model and hyperparameter the API accepts, the value returned by each single-action estimator (replay method, IPW, SNIPW, DM, DR, SNDR, Switch-DR, DRos, SG-IPW, SG-DR, balanced IPW) is the one given by its published formula: every round enters with the evaluation probability, logging propensity (true or estimated, as configured) and reward-model prediction of its own logged action at its own position, with the weight clipped, switched, shrunk or self-normalised as that estimator prescribes. Consequently the documented limits hold (no clipping at lambda = infinity, DR with a zero reward model is IPW, Switch-DR at 0 is DM, a self-normalised value stays within the reward range), the value does not depend on the order of the rounds, and rounds with zero weight on finite data never turn the estimate into NaN (a self-normalised estimate is undefined only when every weight is zero).",
  ["inputs", "configurations"],
  "all logs (any length, any positions, zero/huge weights, negative rewards, missing positions), all action distributions, reward models and hyperparameters (0, interior, boundary, infinity)",
  "tests compare a few random logs with loose accuracy bounds or check types and error messages; no oracle for the value itself, and no zero-weight, multi-position or boundary-lambda logs",
  ["obp/ope/estimators.py"],
  [("per-estimator round-reward rule", "obp/ope/estimators.py:_estimate_round_rewards"), ("public value API", "obp/ope/estimators.py:estimate_policy_value")],
  ["estimate_policy_value of every estimator class"])

p("C02", "Slate OPE estimators weight each slot as their user-behaviour model prescribes",
  "For every slate log the API accepts, the value returned by the slate estimators is the average over slates of slot rewards weighted by the slate-level ratio (standard IPS), the slot-level ratio (independent IPS) or the cascade ratio (reward-interaction IPS), self-normalised variants dividing each weight by the mean weight (over all rows for the standard one, over the rows of the same slot for the other two), and cascade-DR adding the baseline telescoping of its Q estimates per slot. The value depends only on the set of (slate, slot) records, not on the order in which the rows are stored, and slates may be of different lengths.",
  ["inputs"], "all slate logs with unique (slate, position) pairs, any row order, any slate ids, ragged slates, any ratios and rewards",
  "tests evaluate synthetic slate data in generator order and check closeness to on-policy values; ragged slates and permuted rows are never valued",
  ["obp/ope/estimators_slate.py"],
  [("slot weighting", "obp/ope/estimators_slate.py:_estimate_round_rewards"), ("normalisation", "obp/ope/estimators_slate.py:SelfNormalized*")],
  ["estimate_policy_value of every slate estimator"])

p("C03", "Multi-logger estimators combine strata exactly as defined",
  "For every multi-logger log, naive IPW/DR use each round's own logger propensity, balanced IPW/DR use the mixture propensity, and the weighted variants combine the strata with weights inversely proportional to each stratum's estimator variance, the round weights averaging to one. The result does not depend on how the strata are labelled or on the order of rounds, with a single stratum every weighted estimator equals its unweighted counterpart, and a reward model that predicts the logged rewards perfectly makes naive and balanced DR equal to the direct method. A weighted estimate is always a convex combination of the stratum estimates and stays finite, also when a stratum has zero variance.",
  ["inputs"], "all multi-logger logs, stratum labellings, propensities, reward models and clipping levels",
  "tests run one synthetic dataset with labels 0..K-1 and check types or rough accuracy",
  ["obp/ope/estimators_multi.py"],
  [("stratum variance weighting", "obp/ope/estimators_multi.py:_estimate_round_rewards"), ("balanced propensity", "obp/ope/estimators_multi.py:MultiLoggersBalanced*")],
  ["estimate_policy_value / estimate_interval of the six multi-logger estimators"])

p("C04", "Continuous-action estimators are kernel-weighted averages of the log",
  "For every continuous-action log, the kernelised IPW, self-normalised IPW and DR estimators return the average of rewards (or DR residuals plus the model prediction at the evaluation action) weighted by kernel((evaluation action - logged action)/bandwidth) / (bandwidth x logged density), the self-normalised variant dividing by the mean weight. Each of the four kernels is the documented symmetric density (support, peak and value at every distance), so rounds outside the support contribute nothing, and the value is invariant under permutation of rounds and under a common shift of the actions.",
  ["inputs", "configurations"], "all logs, kernels, bandwidths and evaluation actions",
  "tests check kernel integrals on a grid and accuracy on one dataset",
  ["obp/ope/estimators_continuous.py"],
  [("kernel functions", "obp/ope/estimators_continuous.py"), ("kernel weighting", "obp/ope/estimators_continuous.py:_estimate_round_rewards")],
  ["kernel functions", "estimate_policy_value"])

p("C05", "Marginalised IPW weights rounds by the embedding-marginal ratio",
  "For every log with action embeddings, MIPW (and its self-normalised variant) weights each round by the ratio of the probabilities that the evaluation and logging policies induce on that round's observed embedding: computed from the true embedding distribution over the selected embedding dimensions when it is given, where the selected dimensions enter through their joint probability, and otherwise from a fitted model of the logged action given context and embedding trained on all the logged rounds. When embedding selection is requested, the returned value is the estimate of one of the nested candidate embedding sets chosen by the Lepski-style interval rule, and identical embeddings and actions reduce it to IPW.",
  ["inputs", "configurations"], "all logs, embedding distributions, dimension subsets and selection options",
  "tests compare one synthetic configuration against sampled accuracy and never check which embedding subset the selection returns",
  ["obp/ope/estimators_embed.py"],
  [("marginal weight", "obp/ope/estimators_embed.py:_estimate_w_x_e"), ("embedding selection", "obp/ope/estimators_embed.py:_estimate_with_exact_pruning")],
  ["estimate_policy_value of MIPW / SNMIPW"])

p("C06", "Hyperparameter tuning picks the candidate its documented criterion selects",
  "For every log and candidate list, an estimator with built-in tuning returns exactly the value its base estimator returns at the selected candidate, where the selected candidate minimises the documented estimated MSE (variance of the mean plus squared estimated bias upper bound) or is the one chosen by the SLOPE rule (candidates ordered by interval width, widest first; the last one whose interval still overlaps all the earlier ones). The candidate is selected on the data of the call itself, whatever was estimated before, the candidate list handed in by the user is left untouched, and repeating the estimation on the same data gives the same answer.",
  ["inputs", "configurations"], "all logs, candidate lists (unordered, duplicated, single, containing 0 or infinity) and both criteria, for all tuned estimator classes",
  "tests check that tuned estimators run and are roughly accurate, not which candidate is chosen",
  ["obp/ope/estimators_tuning.py", "obp/ope/helper.py"],
  [("MSE / SLOPE selection", "obp/ope/estimators_tuning.py"), ("bias and concentration helpers", "obp/ope/helper.py")],
  ["estimate_policy_value of *Tuning classes", "best_hyperparam"])

p("C07", "Confidence intervals are the bootstrap interval of the per-round estimates",
  "For every estimator, log, level alpha and seed, the interval API reports mean, lower and upper bounds that are the mean and the alpha/2 and 1-alpha/2 percentiles of resampled (with replacement, same size) means of that estimator's per-round contributions, so lower <= upper, all lie within the range of those contributions, a smaller alpha gives a wider or equal interval for the same seed, constant contributions give a degenerate interval, and the same seed reproduces the same interval. The keys name the requested confidence level; left out, the level is 95% and the number of resamples the documented default. The finite-sample bound helpers (Student-t, Bernstein, Hoeffding) return the documented closed forms.",
  ["inputs", "configurations"], "all estimators, logs, alphas, bootstrap sizes and seeds",
  "tests check the dictionary keys and lower <= upper on one dataset",
  ["obp/utils.py", "obp/ope/helper.py", "obp/ope/estimators*.py"],
  [("bootstrap", "obp/utils.py:estimate_confidence_interval_by_bootstrap"), ("interval API", "obp/ope/*:estimate_interval"), ("bounds", "obp/ope/helper.py")],
  ["estimate_interval"])

p("C08", "Meta-evaluators report exactly what each named estimator would report",
  "For every set of estimators and inputs (shared arrays or per-estimator dictionaries), the standard, slate, continuous and multi-logger meta-evaluators route to each estimator precisely its own inputs and return, under the estimator's own name, the same value or interval that calling the estimator directly with those inputs returns; relative values are the ratio to the logged policy's average (undefined when that is not positive), and performance metrics are |estimate - truth| / |truth| and the squared error (the default). No estimator's result depends on which other estimators are evaluated alongside it, on their order, or on earlier calls.",
  ["inputs", "histories", "configurations"], "all estimator sets, input shapes, dictionaries with missing or extra names, call histories",
  "tests use mock estimators with constant outputs",
  ["obp/ope/meta.py", "obp/ope/meta_slate.py", "obp/ope/meta_continuous.py", "obp/ope/meta_multi.py"],
  [("input routing", "obp/ope/meta*.py:_create_estimator_inputs"), ("metrics", "obp/ope/meta*.py:evaluate_performance_of_estimators")],
  ["estimate_policy_values", "estimate_intervals", "summarize_*", "evaluate_performance_of_estimators"])

p("C09", "Malformed OPE and bandit inputs are rejected, well-formed ones accepted",
  "For every combination of shapes, lengths, types and (finite) values of the arrays they are handed, the single-action, multi-logger, continuous and slate estimators, the nuisance models, the offline learners (fitting and asking) and the contextual online policies raise an error when an input breaks a documented requirement (a required argument missing, not an array, wrong dimension, lengths that disagree, non-integer, negative or out-of-range actions and positions, non-positive propensities, slate propensities outside (0, 1], action distributions with a negative entry or not summing to one, duplicate slate positions, slate propensities that vary within a slate or rise along it, negative importance weights) and accept every input that satisfies all of them, whatever its integer width or memory layout. Which requirement is broken, and at which row, makes no difference: a single bad row anywhere in the log is enough, and no second defect makes up for it. Likewise every constructor accepts a hyperparameter exactly when it has the documented type and lies in the documented range.",
  ["inputs"], "all combinations of valid/invalid values per argument, with the defect at any row",
  "tests enumerate one invalid case per requirement, mostly with the whole array wrong",
  ["obp/utils.py", "obp/ope/estimators*.py", "obp/ope/regression_model*.py", "obp/ope/classification_model.py", "obp/policy/*.py", "obp/dataset/*.py"],
  [("input checks", "obp/utils.py:check_*"), ("hyperparameter checks", "obp/ope/estimators*.py:__post_init__")],
  ["estimate_policy_value", "constructors", "check_* helpers"])

p("C10", "Cross-fitted nuisance models never predict a round they were trained on",
  "For every log, number of folds and seed, cross-fitting of the reward, importance-weight and propensity models partitions the rounds into folds, predicts every round exactly once, and uses for it a model instance fitted only on rounds outside its fold (and, for multi-position lists, only on rounds of the same position), with the fitted data belonging to the log it was given. With a single fold the model is fitted on and predicts the whole log, repeated fits start from fresh models, and the returned prediction of a round sits at that round's own index, action and position. The out-of-fold labels and probabilities kept for judging the models are those of every round once, from models not trained on it, and calibration with c folds trains c models per position, each without one part of that position's examples.",
  ["inputs", "configurations", "histories"], "all logs, list lengths, fold counts, shuffles and repeated uses",
  "tests only check output shapes and predictive accuracy, which leakage improves",
  ["obp/ope/regression_model.py", "obp/ope/classification_model.py"],
  [("k-fold cross-fitting", "obp/ope/regression_model.py:fit_predict"), ("k-fold cross-fitting", "obp/ope/classification_model.py:fit_predict")],
  ["calls received by user-supplied base models", "fit_predict return value", "eval_result"])

p("C11", "Reward models are trained on the right examples with the right weights",
  "For every log and fitting method, the reward regression trains, for each position, one base model on exactly that position's rounds with features (context, embedding of the logged action) and the logged reward as target, weighted by 1 (normal), by the importance weight (iw) or by the more-robust-DR weight (mrdr), using the propensities and evaluation distribution of the same rounds. Predictions for an action and position are that position's model evaluated on (context, embedding of that action), using class-1 probabilities for classifiers and raw predictions for regressors.",
  ["inputs", "configurations"], "all logs, positions, action embeddings, fitting methods and base models (classifier or regressor)",
  "tests only compare final accuracy of the standard configuration",
  ["obp/ope/regression_model.py"],
  [("training set construction", "obp/ope/regression_model.py:fit"), ("prediction layout", "obp/ope/regression_model.py:predict")],
  ["calls received by user-supplied base models", "predict return value"])

p("C12", "Slate reward models are fitted backwards as the Bellman recursion prescribes",
  "For every slate log, the slate reward model fits one base model per slot from the last slot to the first, on features (context, actions chosen up to that slot), with target equal to the slot's reward plus the expectation, under the evaluation policy's slot distribution given the logged prefix, of the next slot's fitted model, and with weight 1 or the slot's cascade importance ratio. Its predictions list, for each slate and slot in the documented order, the value of every action at that slot given the logged prefix, from the models of the last fit; repeated fits start afresh.",
  ["inputs", "configurations"], "all slate logs, list lengths, evaluation distributions, fitting methods and repeated fits",
  "tests check shapes and downstream accuracy of cascade-DR",
  ["obp/ope/regression_model_slate.py"],
  [("backward recursion", "obp/ope/regression_model_slate.py:fit"), ("prediction layout", "obp/ope/regression_model_slate.py:predict")],
  ["calls received by user-supplied base models", "predict / fit_predict return values"])

p("C13", "Context-free online policies learn only at batch boundaries and explore as set",
  "After any sequence of selections and updates, a context-free policy (epsilon-greedy, random, Bernoulli Thompson sampling) bases its choices on exactly the first floor(t/b)*b observed (action, reward) pairs, b being the update batch size, while counting all t trials; every selection returns a list of the requested length of distinct valid actions, greedy choices (once every action has been observed) being those with the highest observed mean reward and Thompson choices those with the highest posterior draw. Re-initialising restores the state of a fresh policy, and batch action distributions are proper distributions per position with distinct actions.",
  ["histories", "configurations"], "all interleavings of select/update/initialize, batch sizes, list lengths, priors and seeds",
  "tests step through two or three updates for one batch size",
  ["obp/policy/contextfree.py", "obp/policy/base.py"],
  [("batched parameter update", "obp/policy/contextfree.py:update_params"), ("selection rule", "obp/policy/contextfree.py:select_action")],
  ["select_action", "update_params", "initialize", "compute_batch_action_dist", "n_trial / action_counts / reward_counts"])

p("C14", "Contextual online policies hold the ridge / logistic posterior of committed data",
  "After any sequence of selections, updates and re-initialisations, a linear policy (LinEpsilonGreedy, LinUCB, LinTS) scores actions with the ridge-regression estimate and confidence ellipsoid of exactly the (context, reward) pairs of the completed update batches of each action, and a logistic policy refits an action's model at each batch boundary with exactly the pairs of that action observed in that batch. Every selection returns the requested number of distinct valid actions ranked by the policy's score (its mean, upper bound, or a draw from its posterior; with probability epsilon an epsilon-greedy policy explores a uniformly random list instead), the public trial and action counters count the updates, and a re-initialised policy behaves like a fresh one.",
  ["histories", "configurations"], "all interleavings of select/update/initialize, batch sizes, list lengths, dimensions and exploration parameters",
  "tests check one or two updates against hand-computed matrices and never re-initialise after learning",
  ["obp/policy/linear.py", "obp/policy/logistic.py", "obp/policy/base.py"],
  [("Woodbury update", "obp/policy/linear.py:update_params"), ("batched logistic refit", "obp/policy/logistic.py:update_params"), ("ranking", "obp/policy/linear.py:select_action")],
  ["select_action", "update_params", "initialize", "theta_hat"])

p("C15", "Offline learners output valid policies that rank by their own scores",
  "For every training log and query contexts, an offline policy learner trains, per position, on exactly that position's rounds with its documented weighting and outputs well-formed policies: predicted distributions are one-hot at the highest-scoring action, probabilities are the softmax of the scores at the given temperature and sum to one, and sampled slates put each action in at most one position, each position receiving exactly one action in the order of the perturbed scores. Sampling with the same seed is reproducible, and lowering the temperature towards zero makes sampling agree with the score ranking.",
  ["inputs", "configurations"], "all logs, list lengths, temperatures, seeds and query contexts",
  "tests check shapes and row sums on one random log",
  ["obp/policy/offline.py", "obp/policy/base.py"],
  [("training per position", "obp/policy/offline.py:fit"), ("prediction and sampling", "obp/policy/offline.py:predict/sample_action/predict_proba")],
  ["calls received by user-supplied base models", "predict / predict_score / predict_proba / sample_action"])

p("C16", "Neural policy learners ascend the gradient of their stated objective",
  "For every training log and configuration (layers, activation, solver and its constants, batch size, shuffling, regularisation strengths, validation split), training a neural policy learner moves its network from its initial parameters exactly by the configured optimiser's steps along the gradient of the stated off-policy objective (DM, IPW, DR, SNIPW, optimistic shrinkage or sub-gaussian weighting for discrete actions; kernel IPW, DR or deterministic policy gradient for continuous ones) plus its documented regularisers, each step using the batch's own actions, rewards and propensities, and its reward network likewise along the squared error at the logged actions. Every training round contributes exactly once per epoch, held-out validation rounds never contribute to an update, and training ends after the configured number of epochs or once the training or validation loss has failed to improve by the tolerance the configured number of consecutive times. Predicted probabilities and actions are the network's output, within the simplex or the configured output range.",
  ["inputs", "configurations"], "all batches, objectives, regularisation strengths, batch sizes, early-stopping settings and seeds",
  "tests check that training runs and yields valid shapes, or compare accuracy on one dataset",
  ["obp/policy/offline.py", "obp/policy/offline_continuous.py"],
  [("objective gradient", "obp/policy/offline*.py:_estimate_policy_gradient"), ("training loop", "obp/policy/offline*.py:fit")],
  ["parameters before and after fit", "predict / predict_proba"])

p("C17", "Simulated feedback reaches the policy exactly once and never before its delay",
  "In every simulated interaction, with or without delays, each round's (action, reward, context) is passed to the policy exactly once with the values that were actually chosen and obtained in that round, never before the round in which it becomes due, feedback due in a round arriving in that round, earlier rounds first, and immediately when there are no delays. Feedback still pending at the end of a run stays queued across further steps and is delivered, once, when the queue is flushed; played-round counters, cumulative reward and recorded selections match the rounds actually played.",
  ["schedules", "histories"], "all delay assignments (zero, long, colliding, missing), numbers of rounds, interleavings of step/flush, policies and list lengths",
  "tests check two or three rounds with hand-picked delays",
  ["obp/simulator/simulator.py", "obp/simulator/delay_sampler.py"],
  [("delayed queue", "obp/simulator/simulator.py:BanditPolicySimulator"), ("flush", "obp/simulator/simulator.py:clear_delayed_queue")],
  ["calls received by the policy", "public counters of the simulator"])

p("C18", "Non-stationary coefficients follow the configured drift schedule",
  "For every drift configuration, the coefficients of round t depend only on t and the sequence of sampled anchors, not on how rounds are grouped into requests: they equal the current anchor for the stable part of each interval, move through the transition with weights k/(period+1) (or jump between the two anchors when sampled), switch anchors every drift interval, alternate between exactly two anchors when seasonal, and are mixed with the fixed base coefficients at the configured weight. The context, action and interaction coefficients of a round always belong to the same anchors.",
  ["histories", "configurations"], "all drift intervals, transition periods, seasonal flags, base weights and all ways of splitting T rounds into requests",
  "tests request the whole horizon in one call for a few configurations",
  ["obp/simulator/coefficient_drifter.py"],
  [("anchor rotation", "obp/simulator/coefficient_drifter.py:get_coefficients"), ("transition", "obp/simulator/coefficient_drifter.py:append_current_coefs")],
  ["get_coefficients"])

p("C19", "Replay simulation updates the policy on matching rounds only",
  "For every logged dataset and online policy, replay simulation presents the rounds in log order, records in each round the policy's selection made with what it has learnt so far, and updates the policy with the logged reward (and context) exactly when the policy's choice at the logged position equals the logged action. The returned array is a one-hot distribution per round and position covering all selected actions, the log passed in is not modified, and the replay-method value of that distribution is the mean logged reward over the matched rounds.",
  ["histories", "inputs"], "all logs, positions, list lengths and (context-free or contextual) policies",
  "the replay simulator has no unit test",
  ["obp/simulator/replay.py", "obp/policy/policy_type.py"],
  [("replay loop", "obp/simulator/replay.py:run_bandit_replay")],
  ["calls received by the policy", "return value"])

p("C20", "Synthetic logged data is consistent with the policy and rewards it reports",
  "For every configuration (positive noise scales of truncated distributions), a batch of synthetic bandit feedback reports a logging policy that is a proper distribution equal to the softmax of beta times its logits over the supported actions (zero on exactly the requested number of deficient actions), and each round's propensity is that policy's probability (or density, for continuous actions) of the action actually logged. Rewards lie in the declared domain and have the mean the reported expected reward states, policy values are the mean over rounds of the probability-weighted expected rewards, and the multi-logger and embedding variants likewise report strata sizes, mixture propensities, embedding distributions and marginal expected rewards that match what generated the log. Actions, embeddings and rewards are drawn from the reported distributions independently across rounds, of each other and of earlier batches, and the built-in reward and behaviour functions are the polynomial forms of their coefficients, standardised as documented.",
  ["inputs", "configurations"], "all dataset sizes, action counts, betas, deficient-action counts, reward types, strata and embedding configurations, seeds and successive batches",
  "tests check shapes and supports of a few configurations",
  ["obp/dataset/synthetic.py", "obp/dataset/synthetic_multi.py", "obp/dataset/synthetic_embed.py", "obp/dataset/synthetic_continuous.py", "obp/utils.py"],
  [("feedback generation", "obp/dataset/synthetic*.py:obtain_batch_bandit_feedback"), ("policy value", "obp/dataset/synthetic.py:calc_ground_truth_policy_value"), ("action sampling", "obp/utils.py:sample_action_fast")],
  ["obtain_batch_bandit_feedback", "calc_ground_truth_policy_value"])

p("C21", "Slate data reports joint, cascade and slot propensities of the actual policy",
  "For every slate configuration and policy logits, the reported slate, cascade and slot propensities are the probabilities that sequential (without-replacement, or independent when factorizable) softmax sampling assigns to the logged slate, its prefixes and each (action, slot) marginally, for the logging policy and for evaluation policies alike; slates contain no repeated action unless factorizable. Slot rewards follow the configured interaction structure and click model, and the ground-truth value is the probability-weighted expectation of the summed slot rewards per slate.",
  ["inputs", "configurations"], "all action counts, list lengths, logits, factorizability, reward structures, click models and seeds",
  "tests compare a few seeds statistically or check shapes and monotonicity",
  ["obp/dataset/synthetic_slate.py"],
  [("sequential sampling and propensities", "obp/dataset/synthetic_slate.py:sample_action_and_obtain_pscore"), ("evaluation propensities", "obp/dataset/synthetic_slate.py:obtain_pscore_given_evaluation_policy_logit"), ("ground truth", "obp/dataset/synthetic_slate.py:calc_ground_truth_policy_value")],
  ["obtain_batch_bandit_feedback", "obtain_pscore_given_evaluation_policy_logit", "generate_evaluation_policy_pscore", "calc_evaluation_policy_action_dist", "calc_ground_truth_policy_value"])

p("C22", "Multi-class reduction logs the behaviour policy and labels faithfully",
  "For every classification dataset (any label values) and configuration, the reduction splits the samples into disjoint training and evaluation parts, builds behaviour and evaluation policies that put alpha on their classifier's prediction and spread the rest uniformly, logs actions drawn from the behaviour policy with their own propensities, and gives reward one exactly when the logged action is the sample's true class. The ground-truth value of any action distribution is its average probability of the true class, so the true-class policy has value one and the uniform policy 1/number of classes.",
  ["inputs", "configurations"], "all label alphabets, class counts, alphas, split sizes, deficient-action counts and classifiers",
  "tests use one dataset with labels 0..9",
  ["obp/dataset/multiclass.py"],
  [("label encoding and split", "obp/dataset/multiclass.py"), ("logging", "obp/dataset/multiclass.py:obtain_batch_bandit_feedback")],
  ["obtain_batch_bandit_feedback", "obtain_action_dist_by_eval_policy", "calc_ground_truth_policy_value"])

p("C23", "Open Bandit logs are loaded, split and resampled without mixing rows",
  "For every CSV log of the documented format, loading sorts all fields by timestamp together and maps positions to dense ranks from zero; the in-sample and out-sample parts of a time-series split partition the rounds at the requested fraction in time order; and a bootstrap sample draws rounds with replacement keeping each round's action, position, reward, propensity and context together. The on-policy value is the mean reward of the (test) rounds, and the same seed gives the same sample.",
  ["inputs", "configurations"], "all log contents and orders, test sizes, sample sizes and seeds",
  "tests load the one bundled small CSV and check lengths",
  ["obp/dataset/real.py"],
  [("loading and sorting", "obp/dataset/real.py:load_raw_data"), ("split", "obp/dataset/real.py:obtain_batch_bandit_feedback"), ("bootstrap", "obp/dataset/real.py:sample_bootstrap_bandit_feedback")],
  ["obtain_batch_bandit_feedback", "sample_bootstrap_bandit_feedback", "calc_on_policy_policy_value_estimate"])

p("C24", "Calls leave user inputs untouched and a fixed seed reproduces every result",
  "No estimation, evaluation, fitting, simulation or data-generation call modifies the arrays, lists or dictionaries the caller passed in. Building the same component with the same seed and making the same sequence of calls reproduces the same results (to floating-point rounding), regardless of the process-wide random state and of other components used in between. A result once returned is not altered by later calls.",
  ["histories", "inputs", "configurations"], "all public calls, all inputs, all interleavings with other seeded components",
  "tests run each call once and never compare inputs before and after",
  ["obp/ope", "obp/policy", "obp/dataset", "obp/simulator"],
  [("seeded generators", "obp/*: random_state"), ("copies of inputs", "obp/ope/*, obp/utils.py")],
  ["argument contents before/after each call", "results of repeated runs"])

p("C25", "Simulated environments emit rounds that their own functions describe",
  "For every sequence of requests (single rounds and batches of any size, batches read any number of times), the environment simulator emits each round with a fresh context of the configured dimension, the environment's action representation, the expected rewards its reward function gives for exactly that context and, when coefficients drift, for exactly the coefficients scheduled for that position of the stream, one binary reward per action drawn with that mean independently across rounds and actions, and the delays its delay function gives for that round. Expected rewards of a context-free environment never change, a batch once handed out never changes, equally seeded environments emit the same stream, and the exponential delay samplers return whole-number delays with the distribution of the rounded-up exponential at the documented (expected-reward weighted) scale.",
  ["histories", "configurations"], "all request sequences, dimensions, action representations, reward, coefficient and delay functions and seeds",
  "tests request one or two batches and compare shapes or a frozen sample",
  ["obp/simulator/simulator.py", "obp/simulator/delay_sampler.py", "obp/simulator/coefficient_drifter.py", "obp/dataset/synthetic.py"],
  [("single rounds", "obp/simulator/simulator.py:next_bandit_round"), ("batches", "obp/simulator/simulator.py:next_bandit_round_batch"), ("delay distribution", "obp/simulator/delay_sampler.py")],
  ["calls received by user-supplied functions", "emitted rounds"])

out = os.path.join(os.path.dirname(__file__), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
