SPECIFICATION Spec
INVARIANT Result
CONSTANTS N = 3
 T = 2
 Steps = 2
 VARIANT = "nowait2"
