#include "c07.inl"
INST(4000, std::string("dynamic ") + TN<int>::n(), dynamic<int>);
INST(3000, std::string("fixed ") + TN<int>::n(), fixed<int>);
INST(1000, std::string("sets and special values ") + TN<int>::n(), sets<int>);
INST(8, std::string("large ") + TN<int>::n(), large<int>);
