INIT Init
NEXT Next
CONSTANTS Objs = {"dm", "ipw", "dr", "snipw", "ipw-os", "ipw-subgauss", "c-ipw", "c-dr", "c-dpg", "mse", "c-mse"}
          Acts = {"tanh", "relu", "elu", "logistic", "identity"}
          Shapes = {0, 1, 3}
          Lambdas = {"1/8", "3/4"}
          Seeds = {1, 2, 3, 4}
          Rewards = {"0", "3/2"}
INVARIANTS GradientOfObjective RegularisedGradient Descends
CHECK_DEADLOCK FALSE
