#include "c03.inl"
INST(4000, std::string("dense ") + TN<float>::n(), dense<float>);
INST(3000, std::string("fixed ") + TN<float>::n(), fixed<float>);
INST(1000, std::string("special values ") + TN<float>::n(), special<float>);
INST(1500, std::string("extreme values ") + TN<float>::n(), extremes<float>);
INST(8, std::string("large ") + TN<float>::n(), large<float>);
