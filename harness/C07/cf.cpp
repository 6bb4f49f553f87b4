#include "c07.inl"
INST(4000, std::string("dynamic ") + TN<cf>::n(), dynamic<cf>);
INST(3000, std::string("fixed ") + TN<cf>::n(), fixed<cf>);
INST(1000, std::string("sets and special values ") + TN<cf>::n(), sets<cf>);
INST(1500, std::string("extreme values ") + TN<cf>::n(), extremes<cf>);
INST(8, std::string("large ") + TN<cf>::n(), large<cf>);
