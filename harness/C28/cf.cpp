#include "matrices.inl"
MATRICES(cf, "complex<float>")
