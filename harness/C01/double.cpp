#include "c01.inl"
INST(6000, std::string("history ") + TN<double>::n(), history<double>);
INST(1500, std::string("special values ") + TN<double>::n(), special<double>);
INST(8, std::string("large history ") + TN<double>::n(), largeHistory<double>);
