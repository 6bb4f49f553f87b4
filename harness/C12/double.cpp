#include "c12.inl"
INST(3000, std::string("ilu0 ") + TN<double>::n(), ilu<double>);
INST(300, std::string("ilu0 refusals ") + TN<double>::n(), iluRefused<double>);
INST(1500, std::string("ainv_lu sparse ") + TN<double>::n(), ainv<NS::SparseMatrix<double> >);
INST(1500, std::string("ainv_lu dense ") + TN<double>::n(), ainv<NS::DenseMatrix<double> >);
INST(500, std::string("ainv_lu fixed ") + TN<double>::n(), ainv<NS::FixedMatrix<double, 3, 3> >);
INST(200, std::string("ainv_lu fixed of 7 ") + TN<double>::n(), ainv<NS::FixedMatrix<double, 7, 7> >);
INST(200, std::string("ainv_lu refusals sparse ") + TN<double>::n(), ainvRefused<NS::SparseMatrix<double> >);
INST(200, std::string("ainv_lu refusals dense ") + TN<double>::n(), ainvRefused<NS::DenseMatrix<double> >);
INST(500, std::string("complete pattern ") + TN<double>::n(), complete<double>);
INST(2, std::string("large ilu0 ") + TN<double>::n(), large<double>);
INST(2, std::string("large ainv_lu ") + TN<double>::n(), largeInv<double>);
