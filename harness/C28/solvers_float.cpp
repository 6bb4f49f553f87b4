#include "solvers.inl"
SOLVERS(float, "float")
