#include "c05.inl"
INST(1000, std::string("lists ") + TN<cf>::n(), listLaw<cf>);
INST(3000, std::string("identity, diagonal, triangles ") + TN<cf>::n(), partLaw<cf>);
INST(1500, std::string("conversions ") + TN<cf>::n(), convert<cf>);
INST(5, std::string("fixed identity ") + TN<cf>::n(), fixedEye<cf>);
INST(50, std::string("hilbert ") + TN<cf>::n(), hilbLaw<cf>);
