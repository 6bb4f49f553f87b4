#include "c02.inl"
INST(1500, std::string("sparse and dense ") + TN<long double>::n(), dynamic<long double>);
INST(500, std::string("fixed ") + TN<long double>::n(), fixed<long double>);
