#include "c03.inl"
INST(4000, std::string("dense ") + TN<cd>::n(), dense<cd>);
INST(3000, std::string("fixed ") + TN<cd>::n(), fixed<cd>);
INST(1000, std::string("special values ") + TN<cd>::n(), special<cd>);
INST(1500, std::string("extreme values ") + TN<cd>::n(), extremes<cd>);
INST(8, std::string("large ") + TN<cd>::n(), large<cd>);
