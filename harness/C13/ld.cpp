#include "c13.inl"
INST(625, std::string("dense ") + TN<long double>::n(), law<NS::DenseMatrix<long double> >);
INST(625, std::string("sparse ") + TN<long double>::n(), law<NS::SparseMatrix<long double> >);
INST(375, std::string("fixed ") + TN<long double>::n(), fixed<long double>);
INST(125, std::string("default arguments ") + TN<long double>::n(), defaults<long double>);
