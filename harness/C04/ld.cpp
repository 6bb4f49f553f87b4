#include "c04.inl"
INST(750, std::string("sparse and dense ") + TN<long double>::n(), dynamic<long double>);
INST(250, std::string("fixed ") + TN<long double>::n(), fixed<long double>);
INST(375, std::string("moved ") + TN<long double>::n(), moved<long double>);
INST(375, std::string("numbers ") + TN<long double>::n(), numbers<long double>);
INST(750, std::string("sparse and dense ") + TN<cl>::n(), dynamic<cl>);
