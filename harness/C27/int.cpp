#include "c27.inl"
INST(1500, std::string("vectors ") + TN<int>::n(), vectors<int>);
INST(3000, std::string("matrices ") + TN<int>::n(), matrices<int>);
