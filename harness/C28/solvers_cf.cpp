#include "solvers.inl"
SOLVERS(cf, "complex float")
