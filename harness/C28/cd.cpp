#include "matrices.inl"
MATRICES(cd, "complex<double>")
