#include "c27.inl"
INST(1500, std::string("vectors ") + TN<double>::n(), vectors<double>);
INST(3000, std::string("matrices ") + TN<double>::n(), matrices<double>);
