#include "c07.inl"
INST(1000, std::string("dynamic ") + TN<long double>::n(), dynamic<long double>);
INST(750, std::string("fixed ") + TN<long double>::n(), fixed<long double>);
INST(250, std::string("sets and special values ") + TN<long double>::n(), sets<long double>);
INST(375, std::string("extreme values ") + TN<long double>::n(), extremes<long double>);
INST(1000, std::string("dynamic ") + TN<cl>::n(), dynamic<cl>);
