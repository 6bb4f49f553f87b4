#include "meshes.inl"
MESHES(double, "double")
