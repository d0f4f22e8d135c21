CONSTANTS NS = 1 NP = 1 NG = 2 NY = 2 NV = 3 TOTAL = 5 DEPTH = 2
SPECIFICATION Spec
INVARIANTS Exact Lazy FrameOnce NotAfter Held
