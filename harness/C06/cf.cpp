#include "c06.inl"
INST(4000, std::string("sparse and dense ") + TN<cf>::n(), dynamic<cf>);
INST(2000, std::string("fixed ") + TN<cf>::n(), fixed<cf>);
INST(2, std::string("large ") + TN<cf>::n(), large<cf>);
