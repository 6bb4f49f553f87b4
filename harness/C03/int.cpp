#include "c03.inl"
INST(4000, std::string("dense ") + TN<int>::n(), dense<int>);
INST(3000, std::string("fixed ") + TN<int>::n(), fixed<int>);
