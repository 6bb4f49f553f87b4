#include "c06.inl"
INST(4000, std::string("sparse and dense ") + TN<double>::n(), dynamic<double>);
INST(2000, std::string("fixed ") + TN<double>::n(), fixed<double>);
INST(2, std::string("large ") + TN<double>::n(), large<double>);
