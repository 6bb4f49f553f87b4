#include "c22.inl"
INST(1000, std::string("linear ") + TN<float>::n(), numbering<float, 1>);
INST(2000, std::string("quadratic ") + TN<float>::n(), numbering<float, 2>);
INST(0.1, std::string("large, order 1 ") + TN<float>::n(), (numbering<float, 1, true>));
INST(0.2, std::string("large, order 2 ") + TN<float>::n(), (numbering<float, 2, true>));
