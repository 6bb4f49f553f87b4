#include "solvers.inl"
SOLVERS(cd, "complex double")
