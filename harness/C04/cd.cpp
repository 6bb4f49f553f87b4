#include "c04.inl"
INST(3000, std::string("sparse and dense ") + TN<cd>::n(), dynamic<cd>);
INST(1000, std::string("fixed ") + TN<cd>::n(), fixed<cd>);
INST(200, std::string("large sparse ") + TN<cd>::n(), large<cd>);
INST(1500, std::string("moved ") + TN<cd>::n(), moved<cd>);
INST(1500, std::string("numbers ") + TN<cd>::n(), numbers<cd>);
INST(2, std::string("huge ") + TN<cd>::n(), huge<cd>);
