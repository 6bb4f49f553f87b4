#include "c24.inl"
INST(800, std::string("well formed float"), valid<float, 1, 0>);
INST(400, std::string("well formed float, z and y"), valid<float, 1, 2>);
INST(400, std::string("one mistake float"), broken<float, 1, 0>);
INST(1000, std::string("mutated float"), mutated<float, 1, 0>);
INST(0.2, std::string("large file ") + TN<float>::n(), (large<float, 1, 0>));
INST(300, std::string("material library ") + TN<float>::n(), (materials<float, 1, 0>));
