#include "solvers.inl"
SOLVERS(double, "double")
