#include "c12.inl"
INST(3000, std::string("ilu0 ") + TN<cd>::n(), ilu<cd>);
INST(300, std::string("ilu0 refusals ") + TN<cd>::n(), iluRefused<cd>);
INST(1500, std::string("ainv_lu sparse ") + TN<cd>::n(), ainv<NS::SparseMatrix<cd> >);
INST(1500, std::string("ainv_lu dense ") + TN<cd>::n(), ainv<NS::DenseMatrix<cd> >);
INST(500, std::string("ainv_lu fixed ") + TN<cd>::n(), ainv<NS::FixedMatrix<cd, 3, 3> >);
INST(200, std::string("ainv_lu fixed of 7 ") + TN<cd>::n(), ainv<NS::FixedMatrix<cd, 7, 7> >);
INST(200, std::string("ainv_lu refusals sparse ") + TN<cd>::n(), ainvRefused<NS::SparseMatrix<cd> >);
INST(200, std::string("ainv_lu refusals dense ") + TN<cd>::n(), ainvRefused<NS::DenseMatrix<cd> >);
INST(500, std::string("complete pattern ") + TN<cd>::n(), complete<cd>);
INST(2, std::string("large ilu0 ") + TN<cd>::n(), large<cd>);
INST(2, std::string("large ainv_lu ") + TN<cd>::n(), largeInv<cd>);
