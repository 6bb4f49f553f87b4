#include "c06.inl"
INST(4000, std::string("sparse and dense ") + TN<float>::n(), dynamic<float>);
INST(2000, std::string("fixed ") + TN<float>::n(), fixed<float>);
INST(2, std::string("large ") + TN<float>::n(), large<float>);
