#include "c27.inl"
INST(1500, std::string("vectors ") + TN<cd>::n(), vectors<cd>);
INST(3000, std::string("matrices ") + TN<cd>::n(), matrices<cd>);
