#include "c04.inl"
INST(3000, std::string("sparse and dense ") + TN<cf>::n(), dynamic<cf>);
INST(1000, std::string("fixed ") + TN<cf>::n(), fixed<cf>);
INST(200, std::string("large sparse ") + TN<cf>::n(), large<cf>);
INST(1500, std::string("moved ") + TN<cf>::n(), moved<cf>);
INST(1500, std::string("numbers ") + TN<cf>::n(), numbers<cf>);
INST(2, std::string("huge ") + TN<cf>::n(), huge<cf>);
