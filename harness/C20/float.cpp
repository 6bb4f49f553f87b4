#include "c20.inl"
INST(2000, std::string("grid ") + TN<float>::n(), grid<float>);
INST(100, std::string("no cells ") + TN<float>::n(), refused<float>);
INST(1, std::string("large grid ") + TN<float>::n(), (grid<float, true>));
