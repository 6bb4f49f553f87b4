#include "c02.inl"
INST(6000, std::string("sparse and dense ") + TN<double>::n(), dynamic<double>);
INST(2000, std::string("fixed ") + TN<double>::n(), fixed<double>);
INST(8, std::string("large ") + TN<double>::n(), large<double>);
