#include "c27.inl"
INST(1500, std::string("vectors ") + TN<float>::n(), vectors<float>);
INST(3000, std::string("matrices ") + TN<float>::n(), matrices<float>);
