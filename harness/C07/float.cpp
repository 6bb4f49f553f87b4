#include "c07.inl"
INST(4000, std::string("dynamic ") + TN<float>::n(), dynamic<float>);
INST(3000, std::string("fixed ") + TN<float>::n(), fixed<float>);
INST(1000, std::string("sets and special values ") + TN<float>::n(), sets<float>);
INST(1500, std::string("extreme values ") + TN<float>::n(), extremes<float>);
INST(8, std::string("large ") + TN<float>::n(), large<float>);
