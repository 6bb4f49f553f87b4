#include "c05.inl"
INST(1000, std::string("lists ") + TN<cd>::n(), listLaw<cd>);
INST(3000, std::string("identity, diagonal, triangles ") + TN<cd>::n(), partLaw<cd>);
INST(1500, std::string("conversions ") + TN<cd>::n(), convert<cd>);
INST(5, std::string("fixed identity ") + TN<cd>::n(), fixedEye<cd>);
INST(50, std::string("hilbert ") + TN<cd>::n(), hilbLaw<cd>);
