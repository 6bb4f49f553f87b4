#include "c04.inl"
INST(3000, std::string("sparse and dense ") + TN<float>::n(), dynamic<float>);
INST(1000, std::string("fixed ") + TN<float>::n(), fixed<float>);
INST(200, std::string("large sparse ") + TN<float>::n(), large<float>);
INST(1500, std::string("moved ") + TN<float>::n(), moved<float>);
INST(1500, std::string("numbers ") + TN<float>::n(), numbers<float>);
INST(2, std::string("huge ") + TN<float>::n(), huge<float>);
