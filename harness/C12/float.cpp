#include "c12.inl"
INST(3000, std::string("ilu0 ") + TN<float>::n(), ilu<float>);
INST(300, std::string("ilu0 refusals ") + TN<float>::n(), iluRefused<float>);
INST(1500, std::string("ainv_lu sparse ") + TN<float>::n(), ainv<NS::SparseMatrix<float> >);
INST(1500, std::string("ainv_lu dense ") + TN<float>::n(), ainv<NS::DenseMatrix<float> >);
INST(500, std::string("ainv_lu fixed ") + TN<float>::n(), ainv<NS::FixedMatrix<float, 3, 3> >);
INST(200, std::string("ainv_lu fixed of 7 ") + TN<float>::n(), ainv<NS::FixedMatrix<float, 7, 7> >);
INST(200, std::string("ainv_lu refusals sparse ") + TN<float>::n(), ainvRefused<NS::SparseMatrix<float> >);
INST(200, std::string("ainv_lu refusals dense ") + TN<float>::n(), ainvRefused<NS::DenseMatrix<float> >);
INST(500, std::string("complete pattern ") + TN<float>::n(), complete<float>);
INST(2, std::string("large ilu0 ") + TN<float>::n(), large<float>);
INST(2, std::string("large ainv_lu ") + TN<float>::n(), largeInv<float>);
