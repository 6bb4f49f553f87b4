#include "c22.inl"
INST(1000, std::string("linear ") + TN<double>::n(), numbering<double, 1>);
INST(2000, std::string("quadratic ") + TN<double>::n(), numbering<double, 2>);
INST(0.1, std::string("large, order 1 ") + TN<double>::n(), (numbering<double, 1, true>));
INST(0.2, std::string("large, order 2 ") + TN<double>::n(), (numbering<double, 2, true>));
