#include "c11.inl"
INST(3000, std::string("dense ") + TN<double>::n(), law<NS::DenseMatrix<double> >);
INST(3000, std::string("sparse ") + TN<double>::n(), law<NS::SparseMatrix<double> >);
INST(1500, std::string("fixed ") + TN<double>::n(), fixed<double>);
INST(4, std::string("large ") + TN<double>::n(), large<double>);
