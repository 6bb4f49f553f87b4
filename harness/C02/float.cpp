#include "c02.inl"
INST(6000, std::string("sparse and dense ") + TN<float>::n(), dynamic<float>);
INST(2000, std::string("fixed ") + TN<float>::n(), fixed<float>);
INST(8, std::string("large ") + TN<float>::n(), large<float>);
