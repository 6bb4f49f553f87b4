#include "c07.inl"
INST(4000, std::string("dynamic ") + TN<double>::n(), dynamic<double>);
INST(3000, std::string("fixed ") + TN<double>::n(), fixed<double>);
INST(1000, std::string("sets and special values ") + TN<double>::n(), sets<double>);
INST(1500, std::string("extreme values ") + TN<double>::n(), extremes<double>);
INST(8, std::string("large ") + TN<double>::n(), large<double>);
