INIT Init
NEXT Next
CONSTANTS Objs = {"dm", "ipw", "dr", "snipw", "ipw-os", "ipw-subgauss", "c-ipw", "c-dr", "c-dpg", "mse", "c-mse"}
          Acts = {"tanh", "relu", "elu", "logistic"}
          Shapes = {0, 2}
          Lambdas = {"1/2"}
          Seeds = {1}
          Rewards = {"0", "3/2"}
INVARIANTS GradientOfObjective RegularisedGradient Descends
CHECK_DEADLOCK FALSE
