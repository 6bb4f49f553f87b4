#include "c15.inl"
INST(3000, std::string("ordering ") + TN<float>::n(), order<float>);
INST(2500, std::string("permutations ") + TN<float>::n(), permute<float>);
INST(200, std::string("refusals ") + TN<float>::n(), refused<float>);
INST(1, std::string("large ordering ") + TN<float>::n(), largeOrder<float>);
INST(1, std::string("large permutations ") + TN<float>::n(), largePermute<float>);
