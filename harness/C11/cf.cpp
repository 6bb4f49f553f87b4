#include "c11.inl"
INST(3000, std::string("dense ") + TN<cf>::n(), law<NS::DenseMatrix<cf> >);
INST(3000, std::string("sparse ") + TN<cf>::n(), law<NS::SparseMatrix<cf> >);
INST(1500, std::string("fixed ") + TN<cf>::n(), fixed<cf>);
INST(4, std::string("large ") + TN<cf>::n(), large<cf>);
