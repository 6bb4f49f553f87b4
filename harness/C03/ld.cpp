#include "c03.inl"
INST(1000, std::string("dense ") + TN<long double>::n(), dense<long double>);
INST(750, std::string("fixed ") + TN<long double>::n(), fixed<long double>);
INST(250, std::string("special values ") + TN<long double>::n(), special<long double>);
INST(375, std::string("extreme values ") + TN<long double>::n(), extremes<long double>);
INST(1000, std::string("dense ") + TN<cl>::n(), dense<cl>);
