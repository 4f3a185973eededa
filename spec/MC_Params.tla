----------------------------- MODULE MC_Params -----------------------------
(* The documented ranges of the constructors' parameters and the values that  *)
(* probe them: one step outside, on, and inside each end, and wrong types.    *)
EXTENDS Inputs, TLC, Json, IOUtils
Par(name, type, lo, hi, loin, hiin) == [name |-> name, type |-> type, lo |-> lo, hi |-> hi, loin |-> loin, hiin |-> hiin]
I(name, lo) == Par(name, "int", lo, "inf", TRUE, FALSE)
IU(name, lo, hi) == Par(name, "int", lo, hi, TRUE, TRUE)
F(name, lo, hi, loin, hiin) == Par(name, "float", lo, hi, loin, hiin)
N(name, lo, hi) == Par(name, "num", lo, hi, TRUE, TRUE)
Lam == {"InverseProbabilityWeighting", "DoublyRobust", "SwitchDoublyRobust", "DoublyRobustWithShrinkage", "BalancedInverseProbabilityWeighting", "MultiLoggersNaiveInverseProbabilityWeighting",
        "MultiLoggersWeightedInverseProbabilityWeighting", "MultiLoggersBalancedInverseProbabilityWeighting", "MultiLoggersNaiveDoublyRobust", "MultiLoggersWeightedDoublyRobust", "MultiLoggersBalancedDoublyRobust"}
SG == {"SubGaussianInverseProbabilityWeighting", "SubGaussianDoublyRobust"}
Tun == {"InverseProbabilityWeightingTuning", "DoublyRobustTuning", "SwitchDoublyRobustTuning", "DoublyRobustWithShrinkageTuning"}
SGTun == {"SubGaussianInverseProbabilityWeightingTuning", "SubGaussianDoublyRobustTuning"}
Kern == {"KernelizedInverseProbabilityWeighting", "KernelizedSelfNormalizedInverseProbabilityWeighting", "KernelizedDoublyRobust"}
Mips == {"MarginalizedInverseProbabilityWeighting", "SelfNormalizedMarginalizedInverseProbabilityWeighting"}
CF == {"EpsilonGreedy", "Random", "BernoulliTS"}
Ctx == {"LinEpsilonGreedy", "LinUCB", "LinTS", "LogisticEpsilonGreedy", "LogisticUCB", "LogisticTS"}
Net == {"NNPolicyLearner", "ContinuousNNPolicyLearner", "QFuncEstimator", "QFuncEstimatorForContinuousAction"}
NetPars == {I("dim_context", "1"), F("alpha", "0", "inf", TRUE, FALSE), F("learning_rate_init", "0", "inf", FALSE, FALSE), I("max_iter", "1"), F("tol", "0", "inf", FALSE, FALSE), F("momentum", "0", "1", TRUE, TRUE),
            F("validation_fraction", "0", "1", FALSE, TRUE), F("beta_1", "0", "1", TRUE, TRUE), F("beta_2", "0", "1", TRUE, TRUE), F("epsilon", "0", "inf", TRUE, FALSE), I("n_iter_no_change", "1"), I("batch_size", "1")}
Syn == {I("n_actions", "2"), I("dim_context", "1"), N("reward_std", "0", "inf"), IU("n_deficient_actions", "0", "2")}
Table ==
  [c \in Lam |-> {N("lambda_", "0", "inf")}] @@ [c \in SG |-> {N("lambda_", "0", "1")}]
  @@ [c \in Tun |-> {N("lambdas", "0", "inf"), F("delta", "0", "1", TRUE, TRUE)}] @@ [c \in SGTun |-> {N("lambdas", "0", "1"), F("delta", "0", "1", TRUE, TRUE)}]
  @@ [c \in Kern |-> {Par("bandwidth", "num", "0", "inf", TRUE, TRUE)}]
  @@ [c \in Mips |-> {I("n_actions", "2"), I("min_emb_dim", "1"), F("delta", "0", "1", TRUE, TRUE)}]
  @@ [c \in {"RegressionModel", "ImportanceWeightEstimator", "PropensityScoreEstimator"} |-> {I("n_actions", "2"), I("len_list", "1")}]
  @@ [c \in {"SlateRegressionModel"} |-> {I("n_unique_action", "2"), I("len_list", "1")}] @@ [c \in {"SlateCascadeDoublyRobust"} |-> {I("n_unique_action", "1")}]
  @@ [c \in CF |-> {I("n_actions", "2"), IU("len_list", "1", "3"), I("batch_size", "1")} \cup (IF c = "EpsilonGreedy" THEN {F("epsilon", "0", "1", TRUE, TRUE)} ELSE {})]
  @@ [c \in Ctx |-> {I("dim", "1"), I("n_actions", "2"), IU("len_list", "1", "3"), I("batch_size", "1")}
        \cup (IF c \in {"LinEpsilonGreedy", "LogisticEpsilonGreedy"} THEN {F("epsilon", "0", "1", TRUE, TRUE)} ELSE IF c \in {"LinUCB", "LogisticUCB"} THEN {F("epsilon", "0", "inf", TRUE, FALSE)} ELSE {})
        \cup (IF c \in {"LogisticEpsilonGreedy", "LogisticUCB", "LogisticTS"} THEN {F("alpha_", "0", "inf", FALSE, FALSE), F("lambda_", "0", "inf", FALSE, FALSE)} ELSE {})]
  @@ [c \in {"IPWLearner", "QLearner"} |-> {I("n_actions", "2"), IU("len_list", "1", "3")}]
  @@ [c \in Net |-> NetPars \cup (IF c = "NNPolicyLearner" THEN {I("n_actions", "2"), N("policy_reg_param", "0", "inf"), N("var_reg_param", "0", "inf")} ELSE IF c = "ContinuousNNPolicyLearner" THEN {Par("bandwidth", "num", "0", "inf", FALSE, FALSE)} ELSE {})]
  @@ [c \in {"SyntheticBanditDataset"} |-> Syn \cup {N("beta", "-inf", "inf")}] @@ [c \in {"SyntheticMultiLoggersBanditDataset"} |-> Syn]
  @@ [c \in {"SyntheticBanditDatasetWithActionEmbeds"} |-> {I("n_actions", "2"), I("dim_context", "1"), I("n_cat_per_dim", "1"), I("latent_param_mat_dim", "1"), I("n_cat_dim", "1"), N("p_e_a_param_std", "0", "inf"), IU("n_unobserved_cat_dim", "0", "3"), IU("n_irrelevant_cat_dim", "0", "3")}]
  @@ [c \in {"SyntheticContinuousBanditDataset"} |-> {I("dim_context", "1"), N("action_noise", "0", "inf"), N("reward_noise", "0", "inf")}]
  @@ [c \in {"SyntheticSlateBanditDataset"} |-> {I("n_unique_action", "2"), IU("len_list", "2", "4"), I("dim_context", "1"), F("eta", "0", "inf", TRUE, FALSE)}]
  @@ [c \in {"MultiClassToBanditReduction"} |-> {F("alpha_b", "0", "1", TRUE, FALSE), IU("n_deficient_actions", "0", "2")}]
  @@ [c \in {"BanditEnvironmentSimulator"} |-> {I("n_actions", "2"), I("dim_context", "1")}]
\* parameters whose other settings constrain them, or which may be left out: the listed probes are not judged
Skip(c, p, v) == v.tag = "none" /\ p.name \in {"lambdas", "bandwidth", "batch_size"}
Val(tag, x) == [tag |-> tag, x |-> x]
Ends(p) == {e \in {p.lo, p.hi} : e \notin {"inf", "-inf"}}
Mid(p) == IF p.lo = "-inf" THEN "0" ELSE IF p.hi = "inf" THEN RAdd(p.lo, "2") ELSE RDiv(RAdd(p.lo, p.hi), "2")
Steps(p) == IF p.type = "int" THEN {"-1", "1"} ELSE {"-1/2", "1/2", "-1/1024", "1/1024"}
Probes(p) == LET near == Ends(p) \cup {RAdd(e, s) : e \in Ends(p), s \in Steps(p)} \cup {Mid(p)} IN
  {Val("str", "0"), Val("none", "0"), Val("list", "0")}
  \cup (IF p.type = "int" THEN {Val("int", x) : x \in {y \in near : y \in {"-2", "-1", "0", "1", "2", "3", "4", "5"}}} \cup {Val("float", "3/2")}
        ELSE {Val("float", x) : x \in near} \cup (IF p.type = "num" THEN {Val("int", x) : x \in {y \in {"-1", "0", "1", "2"} : TRUE}} ELSE {}))
\* ------------------------------------------------------------- named choices
C(p, ok, bad) == [p |-> p, ok |-> ok, bad |-> bad \cup {"", "no-such-choice", "one"}]
NetC == {C("activation", {"identity", "tanh", "relu", "logistic", "elu"}, {"RELU"}), C("solver", {"adam", "sgd", "adagrad"}, {"Adam"}), C("shuffle", {"true"}, {"yes"}), C("early_stopping", {"true"}, {"yes"}), C("nesterovs_momentum", {"true"}, {"yes"})}
Choices ==
  [c \in Kern |-> {C("kernel", {"gaussian", "epanechnikov", "triangular", "cosine"}, {"Gaussian", "none"})}]
  @@ [c \in Tun \cup SGTun |-> {C("tuning_method", {"slope", "mse"}, {"none"}), C("use_bias_upper_bound", {"true"}, {"none"}), C("use_estimated_pscore", {"true"}, {"none"})}]
  @@ [c \in (Lam \cup SG) \ {"BalancedInverseProbabilityWeighting"} |-> {C("use_estimated_pscore", {"true"}, {"none"})}]
  @@ [c \in Mips |-> {C("embedding_selection_method", {"exact", "greedy", "none"}, {})}]
  @@ [c \in {"RegressionModel"} |-> {C("fitting_method", {"normal", "iw", "mrdr"}, {"none"})}] @@ [c \in {"ImportanceWeightEstimator"} |-> {C("fitting_method", {"sample", "raw"}, {"none"})}]
  @@ [c \in {"SlateRegressionModel"} |-> {C("fitting_method", {"normal", "iw"}, {"none"})}] @@ [c \in {"QLearner"} |-> {C("fitting_method", {"normal", "iw", "mrdr"}, {})}]
  @@ [c \in Net |-> NetC \cup (IF c = "NNPolicyLearner" THEN {C("off_policy_objective", {"dm", "ipw", "dr", "snipw", "ipw-os", "ipw-subgauss"}, {"none"})} ELSE IF c = "ContinuousNNPolicyLearner" THEN {C("pg_method", {"dpg", "ipw", "dr"}, {"none"})} ELSE {})]
  @@ [c \in {"SyntheticBanditDataset", "SyntheticMultiLoggersBanditDataset", "SyntheticBanditDatasetWithActionEmbeds"} |-> {C("reward_type", {"binary", "continuous"}, {"none"})}]
  @@ [c \in {"SyntheticSlateBanditDataset"} |-> {C("reward_type", {"binary", "continuous"}, {"none"}), C("reward_structure", {"cascade_additive", "cascade_decay", "independent", "standard_additive", "standard_decay"}, {"none"}),
        C("decay_function", {"exponential", "inverse"}, {"none"}), C("click_model", {"cascade", "pbm", "none"}, {})}]
VARIABLE probe
Init == \/ \E c \in DOMAIN Table : \E p \in Table[c] : \E v \in Probes(p) : ~Skip(c, p, v) /\ probe = [cls |-> c, p |-> p, v |-> v]
        \/ \E c \in DOMAIN Choices : \E p \in Choices[c] : \E v \in p.ok \cup p.bad : probe = [cls |-> c, p |-> p.p, c |-> v, valid |-> v \in p.ok]
Next == FALSE /\ probe' = probe
\* every range has values on both sides of it, and values of the wrong type are never in range
Sound == ("v" \in DOMAIN probe /\ probe.v.tag \in {"str", "none", "list"}) => ~InRange(probe.p, probe.v)
Inside == "v" \in DOMAIN probe => InRange(probe.p, Val(IF probe.p.type = "int" THEN "int" ELSE "float", Mid(probe.p))) \/ probe.p.type = "int"
Opts == [format |-> "TXT", charset |-> "UTF-8", openOptions |-> <<"WRITE", "CREATE", "APPEND">>]
Emit == Serialize(ToJson(probe) \o "\n", IOEnv.OUT, Opts).exitValue = 0
=============================================================================
