#include "c05.inl"
INST(1000, std::string("lists ") + TN<int>::n(), listLaw<int>);
INST(3000, std::string("identity, diagonal, triangles ") + TN<int>::n(), partLaw<int>);
INST(1500, std::string("conversions ") + TN<int>::n(), convert<int>);
INST(5, std::string("fixed identity ") + TN<int>::n(), fixedEye<int>);
