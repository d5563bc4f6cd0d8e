SPECIFICATION Spec
CONSTANTS D = 6 Lo = 7 Hi = 7
CHECK_DEADLOCK FALSE
INVARIANTS Delta Unity Affine Constant LowDegree Gradient LDelta LUnity LAffine LConst LGrad
