#include "c01.inl"
INST(6000, std::string("history ") + TN<float>::n(), history<float>);
INST(1500, std::string("special values ") + TN<float>::n(), special<float>);
INST(8, std::string("large history ") + TN<float>::n(), largeHistory<float>);
