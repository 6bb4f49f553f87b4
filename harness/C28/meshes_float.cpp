#include "meshes.inl"
MESHES(float, "float")
