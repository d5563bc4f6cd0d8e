SPECIFICATION Spec
CONSTANTS D = 3 Lo = 3 Hi = 3
CHECK_DEADLOCK FALSE
INVARIANTS Delta Unity Affine Constant LowDegree Gradient LDelta LUnity LAffine LConst LGrad
