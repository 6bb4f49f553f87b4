#include "matrices.inl"
MATRICES(double, "double")
