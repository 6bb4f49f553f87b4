#include "c11.inl"
INST(3000, std::string("dense ") + TN<float>::n(), law<NS::DenseMatrix<float> >);
INST(3000, std::string("sparse ") + TN<float>::n(), law<NS::SparseMatrix<float> >);
INST(1500, std::string("fixed ") + TN<float>::n(), fixed<float>);
INST(4, std::string("large ") + TN<float>::n(), large<float>);
