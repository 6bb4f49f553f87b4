#include "c27.inl"
INST(1500, std::string("vectors ") + TN<cf>::n(), vectors<cf>);
INST(3000, std::string("matrices ") + TN<cf>::n(), matrices<cf>);
