#include "c01.inl"
INST(6000, std::string("history ") + TN<cd>::n(), history<cd>);
INST(1500, std::string("special values ") + TN<cd>::n(), special<cd>);
INST(8, std::string("large history ") + TN<cd>::n(), largeHistory<cd>);
