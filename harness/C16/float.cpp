#include "c16.inl"
INST(6000, std::string("triangle ") + TN<float>::n(), triangle<float>);
INST(1500, std::string("relabelled triangle ") + TN<float>::n(), relabel<float>);
INST(500, std::string("normal in 2 dimensions ") + TN<float>::n(), normals<float, 2>);
INST(1000, std::string("normal in 3 dimensions ") + TN<float>::n(), normals<float, 3>);
INST(1000, std::string("normal in 4 dimensions ") + TN<float>::n(), normals<float, 4>);
INST(1000, std::string("normal in 5 dimensions ") + TN<float>::n(), normals<float, 5>);
