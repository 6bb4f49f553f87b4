#include "c08.inl"
INST(4000, std::string("dense ") + TN<cf>::n(), law<NS::DenseMatrix<cf> >);
INST(3000, std::string("sparse ") + TN<cf>::n(), law<NS::SparseMatrix<cf> >);
INST(3000, std::string("fixed ") + TN<cf>::n(), fixed<cf>);
INST(300, std::string("dense output shapes ") + TN<cf>::n(), outputs<cf>);
INST(4, std::string("large ") + TN<cf>::n(), large<cf>);
