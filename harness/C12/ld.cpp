#include "c12.inl"
INST(750, std::string("ilu0 ") + TN<long double>::n(), ilu<long double>);
INST(75, std::string("ilu0 refusals ") + TN<long double>::n(), iluRefused<long double>);
INST(375, std::string("ainv_lu sparse ") + TN<long double>::n(), ainv<NS::SparseMatrix<long double> >);
INST(375, std::string("ainv_lu dense ") + TN<long double>::n(), ainv<NS::DenseMatrix<long double> >);
INST(125, std::string("ainv_lu fixed ") + TN<long double>::n(), ainv<NS::FixedMatrix<long double, 3, 3> >);
INST(50, std::string("ainv_lu fixed of 7 ") + TN<long double>::n(), ainv<NS::FixedMatrix<long double, 7, 7> >);
INST(50, std::string("ainv_lu refusals sparse ") + TN<long double>::n(), ainvRefused<NS::SparseMatrix<long double> >);
INST(50, std::string("ainv_lu refusals dense ") + TN<long double>::n(), ainvRefused<NS::DenseMatrix<long double> >);
INST(125, std::string("complete pattern ") + TN<long double>::n(), complete<long double>);
