#include "c02.inl"
INST(6000, std::string("sparse and dense ") + TN<cd>::n(), dynamic<cd>);
INST(2000, std::string("fixed ") + TN<cd>::n(), fixed<cd>);
INST(8, std::string("large ") + TN<cd>::n(), large<cd>);
