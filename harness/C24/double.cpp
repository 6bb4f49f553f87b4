#include "c24.inl"
INST(1500, std::string("well formed double"), valid<double, 1, 0>);
INST(600, std::string("well formed double, y from z"), valid<double, 2, 0>);
INST(1000, std::string("one mistake double"), broken<double, 1, 0>);
INST(2500, std::string("mutated double"), mutated<double, 1, 0>);
INST(500, std::string("garbage double"), garbage<double, 1, 0>);
INST(0.2, std::string("large file ") + TN<double>::n(), (large<double, 1, 0>));
INST(300, std::string("material library ") + TN<double>::n(), (materials<double, 1, 0>));
