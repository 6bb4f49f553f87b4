#include "c08.inl"
INST(4000, std::string("dense ") + TN<double>::n(), law<NS::DenseMatrix<double> >);
INST(3000, std::string("sparse ") + TN<double>::n(), law<NS::SparseMatrix<double> >);
INST(3000, std::string("fixed ") + TN<double>::n(), fixed<double>);
INST(300, std::string("dense output shapes ") + TN<double>::n(), outputs<double>);
INST(4, std::string("large ") + TN<double>::n(), large<double>);
