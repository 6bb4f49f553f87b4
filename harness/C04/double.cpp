#include "c04.inl"
INST(3000, std::string("sparse and dense ") + TN<double>::n(), dynamic<double>);
INST(1000, std::string("fixed ") + TN<double>::n(), fixed<double>);
INST(200, std::string("large sparse ") + TN<double>::n(), large<double>);
INST(1500, std::string("moved ") + TN<double>::n(), moved<double>);
INST(1500, std::string("numbers ") + TN<double>::n(), numbers<double>);
INST(2, std::string("huge ") + TN<double>::n(), huge<double>);
