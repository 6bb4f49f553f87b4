#include "c05.inl"
INST(1000, std::string("lists ") + TN<double>::n(), listLaw<double>);
INST(3000, std::string("identity, diagonal, triangles ") + TN<double>::n(), partLaw<double>);
INST(1500, std::string("conversions ") + TN<double>::n(), convert<double>);
INST(5, std::string("fixed identity ") + TN<double>::n(), fixedEye<double>);
INST(50, std::string("hilbert ") + TN<double>::n(), hilbLaw<double>);
