#include "c05.inl"
INST(1000, std::string("lists ") + TN<float>::n(), listLaw<float>);
INST(3000, std::string("identity, diagonal, triangles ") + TN<float>::n(), partLaw<float>);
INST(1500, std::string("conversions ") + TN<float>::n(), convert<float>);
INST(5, std::string("fixed identity ") + TN<float>::n(), fixedEye<float>);
INST(50, std::string("hilbert ") + TN<float>::n(), hilbLaw<float>);
