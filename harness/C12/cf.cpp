#include "c12.inl"
INST(3000, std::string("ilu0 ") + TN<cf>::n(), ilu<cf>);
INST(300, std::string("ilu0 refusals ") + TN<cf>::n(), iluRefused<cf>);
INST(1500, std::string("ainv_lu sparse ") + TN<cf>::n(), ainv<NS::SparseMatrix<cf> >);
INST(1500, std::string("ainv_lu dense ") + TN<cf>::n(), ainv<NS::DenseMatrix<cf> >);
INST(500, std::string("ainv_lu fixed ") + TN<cf>::n(), ainv<NS::FixedMatrix<cf, 3, 3> >);
INST(200, std::string("ainv_lu fixed of 7 ") + TN<cf>::n(), ainv<NS::FixedMatrix<cf, 7, 7> >);
INST(200, std::string("ainv_lu refusals sparse ") + TN<cf>::n(), ainvRefused<NS::SparseMatrix<cf> >);
INST(200, std::string("ainv_lu refusals dense ") + TN<cf>::n(), ainvRefused<NS::DenseMatrix<cf> >);
INST(500, std::string("complete pattern ") + TN<cf>::n(), complete<cf>);
INST(2, std::string("large ilu0 ") + TN<cf>::n(), large<cf>);
INST(2, std::string("large ainv_lu ") + TN<cf>::n(), largeInv<cf>);
