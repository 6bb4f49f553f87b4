#include "c14.inl"
INST(1000, std::string("dense ") + TN<long double>::n(), law<NS::DenseMatrix<long double> >);
INST(1000, std::string("sparse ") + TN<long double>::n(), law<NS::SparseMatrix<long double> >);
INST(500, std::string("fixed ") + TN<long double>::n(), fixed<long double>);
INST(50, std::string("grid laplacian ") + TN<long double>::n(), grids<long double>);
INST(30, std::string("chain ") + TN<long double>::n(), chain<long double>);
