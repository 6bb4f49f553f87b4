#include "c16.inl"
INST(6000, std::string("triangle ") + TN<double>::n(), triangle<double>);
INST(1500, std::string("relabelled triangle ") + TN<double>::n(), relabel<double>);
INST(500, std::string("normal in 2 dimensions ") + TN<double>::n(), normals<double, 2>);
INST(1000, std::string("normal in 3 dimensions ") + TN<double>::n(), normals<double, 3>);
INST(1000, std::string("normal in 4 dimensions ") + TN<double>::n(), normals<double, 4>);
INST(1000, std::string("normal in 5 dimensions ") + TN<double>::n(), normals<double, 5>);
