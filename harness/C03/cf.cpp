#include "c03.inl"
INST(4000, std::string("dense ") + TN<cf>::n(), dense<cf>);
INST(3000, std::string("fixed ") + TN<cf>::n(), fixed<cf>);
INST(1000, std::string("special values ") + TN<cf>::n(), special<cf>);
INST(1500, std::string("extreme values ") + TN<cf>::n(), extremes<cf>);
INST(8, std::string("large ") + TN<cf>::n(), large<cf>);
