SPECIFICATION Spec
INVARIANTS Released InRange OneAxis Sides Extremes
