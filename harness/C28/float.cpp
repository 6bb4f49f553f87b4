#include "matrices.inl"
MATRICES(float, "float")
