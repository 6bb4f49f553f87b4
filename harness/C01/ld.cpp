#include "c01.inl"
INST(1500, std::string("history ") + TN<long double>::n(), history<long double>);
INST(375, std::string("special values ") + TN<long double>::n(), special<long double>);
INST(1500, std::string("history ") + TN<cl>::n(), history<cl>);
