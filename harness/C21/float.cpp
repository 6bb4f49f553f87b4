#include "c21.inl"
INST(2000, std::string("history ") + TN<float>::n(), history<float>);
INST(500, std::string("released ") + TN<float>::n(), released<float>);
INST(10, std::string("crowd of copies ") + TN<float>::n(), crowd<float>);
