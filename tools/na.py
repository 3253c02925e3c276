NA={}
DEFAULT='Every obligation of the listed functions is discharged for all inputs from the current source; trusted: the VC generator gover, the SMT solvers, the assumed contracts and model assumptions listed in the evidence. Sums and differences of variables wrap; constant steps and products are taken not to overflow; runtime faults other than nil, bounds, nil-map and type-assertion failures are not modelled.'
NOTES={'C16':'LoadOrStore is not re-verified on every run: that its steps keep the guarantees is an assumption (DESIGN.md, C16).','C03':'Sort is covered by the concrete run only (DESIGN.md, C03).'}
