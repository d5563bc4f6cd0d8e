SPECIFICATION Spec
CONSTANTS MaxRank = 4
 MaxExt = 3
 Deep = 3
VIEW V
INVARIANTS Bijective Ordered Distinct SpanFits Contiguous
PROPERTY Derived
CHECK_DEADLOCK FALSE
