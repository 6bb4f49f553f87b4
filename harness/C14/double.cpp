#include "c14.inl"
INST(4000, std::string("dense ") + TN<double>::n(), law<NS::DenseMatrix<double> >);
INST(4000, std::string("sparse ") + TN<double>::n(), law<NS::SparseMatrix<double> >);
INST(2000, std::string("fixed ") + TN<double>::n(), fixed<double>);
INST(200, std::string("grid laplacian ") + TN<double>::n(), grids<double>);
INST(4, std::string("large ") + TN<double>::n(), large<double>);
INST(120, std::string("chain ") + TN<double>::n(), chain<double>);
