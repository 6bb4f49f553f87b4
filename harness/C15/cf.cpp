#include "c15.inl"
INST(3000, std::string("ordering ") + TN<cf>::n(), order<cf>);
INST(2500, std::string("permutations ") + TN<cf>::n(), permute<cf>);
INST(200, std::string("refusals ") + TN<cf>::n(), refused<cf>);
