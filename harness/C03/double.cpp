#include "c03.inl"
INST(4000, std::string("dense ") + TN<double>::n(), dense<double>);
INST(3000, std::string("fixed ") + TN<double>::n(), fixed<double>);
INST(1000, std::string("special values ") + TN<double>::n(), special<double>);
INST(1500, std::string("extreme values ") + TN<double>::n(), extremes<double>);
INST(8, std::string("large ") + TN<double>::n(), large<double>);
