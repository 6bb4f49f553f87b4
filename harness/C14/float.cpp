#include "c14.inl"
INST(4000, std::string("dense ") + TN<float>::n(), law<NS::DenseMatrix<float> >);
INST(4000, std::string("sparse ") + TN<float>::n(), law<NS::SparseMatrix<float> >);
INST(2000, std::string("fixed ") + TN<float>::n(), fixed<float>);
INST(4, std::string("large ") + TN<float>::n(), large<float>);
