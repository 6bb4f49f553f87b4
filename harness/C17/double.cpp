#include "c17.inl"
INST(1500, std::string("1D order 1 ") + TN<double>::n(), Test<double, 1, 1>::law);
INST(1500, std::string("1D order 2 ") + TN<double>::n(), Test<double, 1, 2>::law);
INST(1500, std::string("1D order 3 ") + TN<double>::n(), Test<double, 1, 3>::law);
INST(1500, std::string("2D order 1 ") + TN<double>::n(), Test<double, 2, 1>::law);
INST(1500, std::string("2D order 2 ") + TN<double>::n(), Test<double, 2, 2>::law);
INST(1500, std::string("2D order 3 ") + TN<double>::n(), Test<double, 2, 3>::law);
