#include "c19.inl"
INST(2000, std::string("topology ") + TN<double>::n(), topology<double>);
INST(300, std::string("step by step ") + TN<double>::n(), grow<double>);
INST(700, std::string("crowded edge ") + TN<double>::n(), crowded<double>);
INST(1500, std::string("inconsistent mesh ") + TN<double>::n(), inconsistent<double>);
