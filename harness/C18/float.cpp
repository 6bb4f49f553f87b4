#include "c18.inl"
INST(1500, std::string("1D order 1 ") + TN<float>::n(), Test<float, 1, 1>::law);
INST(1500, std::string("1D order 2 ") + TN<float>::n(), Test<float, 1, 2>::law);
INST(1500, std::string("2D order 1 ") + TN<float>::n(), Test<float, 2, 1>::law);
INST(1500, std::string("2D order 2 ") + TN<float>::n(), Test<float, 2, 2>::law);
INST(1500, std::string("2D order 3 ") + TN<float>::n(), Test<float, 2, 3>::law);
INST(1500, std::string("3D order 1 ") + TN<float>::n(), Test<float, 3, 1>::law);
INST(1500, std::string("3D order 2 ") + TN<float>::n(), Test<float, 3, 2>::law);
