#include "c01.inl"
INST(6000, std::string("history ") + TN<cf>::n(), history<cf>);
INST(1500, std::string("special values ") + TN<cf>::n(), special<cf>);
INST(8, std::string("large history ") + TN<cf>::n(), largeHistory<cf>);
