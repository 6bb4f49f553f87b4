#include "c20.inl"
INST(2000, std::string("grid ") + TN<double>::n(), grid<double>);
INST(100, std::string("no cells ") + TN<double>::n(), refused<double>);
INST(1, std::string("large grid ") + TN<double>::n(), (grid<double, true>));
