#include "c07.inl"
INST(4000, std::string("dynamic ") + TN<cd>::n(), dynamic<cd>);
INST(3000, std::string("fixed ") + TN<cd>::n(), fixed<cd>);
INST(1000, std::string("sets and special values ") + TN<cd>::n(), sets<cd>);
INST(1500, std::string("extreme values ") + TN<cd>::n(), extremes<cd>);
INST(8, std::string("large ") + TN<cd>::n(), large<cd>);
