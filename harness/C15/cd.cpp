#include "c15.inl"
INST(3000, std::string("ordering ") + TN<cd>::n(), order<cd>);
INST(2500, std::string("permutations ") + TN<cd>::n(), permute<cd>);
INST(200, std::string("refusals ") + TN<cd>::n(), refused<cd>);
