SPECIFICATION Spec
CONSTANTS MaxRank = 3
 MaxExt = 3
 Deep = 2
VIEW V
INVARIANTS Bijective Ordered Distinct SpanFits Contiguous
PROPERTY Derived
CHECK_DEADLOCK FALSE
