#include "c11.inl"
INST(3000, std::string("dense ") + TN<cd>::n(), law<NS::DenseMatrix<cd> >);
INST(3000, std::string("sparse ") + TN<cd>::n(), law<NS::SparseMatrix<cd> >);
INST(1500, std::string("fixed ") + TN<cd>::n(), fixed<cd>);
INST(4, std::string("large ") + TN<cd>::n(), large<cd>);
