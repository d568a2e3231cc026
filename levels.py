DEFAULT = ("Every obligation generated from /repo's current source is discharged for all inputs and iterations; where the verifier "
           "cannot follow a changed tree, a bounded native exploration stands in and the evidence says so.")
LEVEL, NOTE, NA = {}, {}, {}
