#include "c17.inl"
INST(375, std::string("1D order 1 ") + TN<long double>::n(), Test<long double, 1, 1>::law);
INST(375, std::string("1D order 2 ") + TN<long double>::n(), Test<long double, 1, 2>::law);
INST(375, std::string("1D order 3 ") + TN<long double>::n(), Test<long double, 1, 3>::law);
INST(375, std::string("2D order 1 ") + TN<long double>::n(), Test<long double, 2, 1>::law);
INST(375, std::string("2D order 2 ") + TN<long double>::n(), Test<long double, 2, 2>::law);
INST(375, std::string("2D order 3 ") + TN<long double>::n(), Test<long double, 2, 3>::law);
