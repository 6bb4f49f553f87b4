#include "c08.inl"
INST(1000, std::string("dense ") + TN<long double>::n(), law<NS::DenseMatrix<long double> >);
INST(750, std::string("sparse ") + TN<long double>::n(), law<NS::SparseMatrix<long double> >);
INST(750, std::string("fixed ") + TN<long double>::n(), fixed<long double>);
INST(75, std::string("dense output shapes ") + TN<long double>::n(), outputs<long double>);
INST(1000, std::string("dense ") + TN<cl>::n(), law<NS::DenseMatrix<cl> >);
