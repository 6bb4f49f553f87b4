#include "c21.inl"
INST(2000, std::string("history ") + TN<double>::n(), history<double>);
INST(500, std::string("released ") + TN<double>::n(), released<double>);
INST(10, std::string("crowd of copies ") + TN<double>::n(), crowd<double>);
