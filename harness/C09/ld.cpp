#include "c09.inl"
INST(750, std::string("dense ") + TN<long double>::n(), law<NS::DenseMatrix<long double> >);
INST(750, std::string("sparse ") + TN<long double>::n(), law<NS::SparseMatrix<long double> >);
INST(375, std::string("fixed ") + TN<long double>::n(), fixed<long double>);
INST(750, std::string("dense ") + TN<cl>::n(), law<NS::DenseMatrix<cl> >);
