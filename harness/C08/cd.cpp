#include "c08.inl"
INST(4000, std::string("dense ") + TN<cd>::n(), law<NS::DenseMatrix<cd> >);
INST(3000, std::string("sparse ") + TN<cd>::n(), law<NS::SparseMatrix<cd> >);
INST(3000, std::string("fixed ") + TN<cd>::n(), fixed<cd>);
INST(300, std::string("dense output shapes ") + TN<cd>::n(), outputs<cd>);
INST(4, std::string("large ") + TN<cd>::n(), large<cd>);
