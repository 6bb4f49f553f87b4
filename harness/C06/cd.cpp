#include "c06.inl"
INST(4000, std::string("sparse and dense ") + TN<cd>::n(), dynamic<cd>);
INST(2000, std::string("fixed ") + TN<cd>::n(), fixed<cd>);
INST(2, std::string("large ") + TN<cd>::n(), large<cd>);
