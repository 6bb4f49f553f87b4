#include "c16.inl"
INST(1500, std::string("triangle ") + TN<long double>::n(), triangle<long double>);
INST(375, std::string("relabelled triangle ") + TN<long double>::n(), relabel<long double>);
INST(125, std::string("normal in 2 dimensions ") + TN<long double>::n(), normals<long double, 2>);
INST(250, std::string("normal in 3 dimensions ") + TN<long double>::n(), normals<long double, 3>);
INST(250, std::string("normal in 4 dimensions ") + TN<long double>::n(), normals<long double, 4>);
INST(250, std::string("normal in 5 dimensions ") + TN<long double>::n(), normals<long double, 5>);
