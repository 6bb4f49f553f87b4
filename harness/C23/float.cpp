#include "c23.inl"
INST(1200, std::string("well formed ") + TN<float>::n(), valid<float>);
INST(1500, std::string("one mistake ") + TN<float>::n(), broken<float>);
INST(2500, std::string("mutated ") + TN<float>::n(), mutated<float>);
INST(500, std::string("garbage ") + TN<float>::n(), garbage<float>);
INST(0.2, std::string("large file ") + TN<float>::n(), large<float>);
