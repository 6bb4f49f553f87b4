#include "c15.inl"
INST(3000, std::string("ordering ") + TN<double>::n(), order<double>);
INST(2500, std::string("permutations ") + TN<double>::n(), permute<double>);
INST(200, std::string("refusals ") + TN<double>::n(), refused<double>);
INST(1, std::string("large ordering ") + TN<double>::n(), largeOrder<double>);
INST(1, std::string("large permutations ") + TN<double>::n(), largePermute<double>);
