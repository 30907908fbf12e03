package constraint

type ConstraintSystem interface{ GetNbPublicVariables() int }
