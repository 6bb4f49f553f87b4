#include "c23.inl"
INST(1200, std::string("well formed ") + TN<double>::n(), valid<double>);
INST(1500, std::string("one mistake ") + TN<double>::n(), broken<double>);
INST(2500, std::string("mutated ") + TN<double>::n(), mutated<double>);
INST(500, std::string("garbage ") + TN<double>::n(), garbage<double>);
INST(0.2, std::string("large file ") + TN<double>::n(), large<double>);
