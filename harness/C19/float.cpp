#include "c19.inl"
INST(2000, std::string("topology ") + TN<float>::n(), topology<float>);
INST(300, std::string("step by step ") + TN<float>::n(), grow<float>);
INST(700, std::string("crowded edge ") + TN<float>::n(), crowded<float>);
INST(1500, std::string("inconsistent mesh ") + TN<float>::n(), inconsistent<float>);
