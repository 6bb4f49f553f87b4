#include "c13.inl"
INST(2500, std::string("dense ") + TN<double>::n(), law<NS::DenseMatrix<double> >);
INST(2500, std::string("sparse ") + TN<double>::n(), law<NS::SparseMatrix<double> >);
INST(1500, std::string("fixed ") + TN<double>::n(), fixed<double>);
INST(500, std::string("default arguments ") + TN<double>::n(), defaults<double>);
INST(4, std::string("large ") + TN<double>::n(), large<double>);
