From 09f3828eff6ef3c97357fc404308dda16182597c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:40 +0000
Subject: [PATCH 01/56] fix: SparseMatrix::column_begin aborted on an empty
 column of a non-empty matrix

---
 src/lib/matrix/SparseMatrix.inl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib/matrix/SparseMatrix.inl b/src/lib/matrix/SparseMatrix.inl
index bb62f06..f3b11ec 100644
--- a/src/lib/matrix/SparseMatrix.inl
+++ b/src/lib/matrix/SparseMatrix.inl
@@ -518,7 +518,7 @@ const SparseMatrixColumnIterator<T> SparseMatrix<T>::column_begin(Index i) const
 	else
 	{
 		Index row = 0;
-		while (!has(row, i) && row != rows())
+		while (row != rows() && !has(row, i))
 			++row;
 
 		if (row == rows())
@@ -542,7 +542,7 @@ SparseMatrixColumnIterator<T> SparseMatrix<T>::column_begin(Index i)
 	else
 	{
 		Index row = 0;
-		while (!has(row, i) && row != rows())
+		while (row != rows() && !has(row, i))
 			++row;
 
 		if (row == rows())
-- 
2.43.0


From daed7e2d3689aa83efa402404d25d3d4f0b55a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:40 +0000
Subject: [PATCH 02/56] fix: SparseMatrix::erase returned an iterator with a
 wrong row when the next entry lies behind empty rows

---
 src/lib/matrix/SparseMatrix.inl | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/lib/matrix/SparseMatrix.inl b/src/lib/matrix/SparseMatrix.inl
index f3b11ec..58f5da7 100644
--- a/src/lib/matrix/SparseMatrix.inl
+++ b/src/lib/matrix/SparseMatrix.inl
@@ -622,8 +622,7 @@ SparseMatrixIterator<T> SparseMatrix<T>::erase(const SparseMatrixIterator<T>& it
 			{
 				if (mRowPtr[s1] == it.mColumnPtrIndex)
 				{
-					nIt.mIndex1 = s1;// New row
-					break;
+					nIt.mIndex1 = s1;// New row, but there may be empty rows in between
 				}
 				else if (mRowPtr[s1] > it.mColumnPtrIndex)
 				{
-- 
2.43.0


From 1baf4df02765e6716d1ea73b6b2dadf506eb1f90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:40 +0000
Subject: [PATCH 03/56] fix: SparseMatrix::swap did not exchange the column
 count

---
 src/lib/matrix/SparseMatrix.inl | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lib/matrix/SparseMatrix.inl b/src/lib/matrix/SparseMatrix.inl
index 58f5da7..4564609 100644
--- a/src/lib/matrix/SparseMatrix.inl
+++ b/src/lib/matrix/SparseMatrix.inl
@@ -831,6 +831,7 @@ void SparseMatrix<T>::swap(SparseMatrix<T>& v)
 	std::swap(mValues, v.mValues);
 	std::swap(mColumnPtr, v.mColumnPtr);
 	std::swap(mRowPtr, v.mRowPtr);
+	std::swap(mColumnCount, v.mColumnCount);
 }
 
 template<typename T>
-- 
2.43.0


From 60eee48ec1d7ef506e5eb9d685f7dcdbd59b38f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:40 +0000
Subject: [PATCH 04/56] fix: SparseMatrix::operator*= touched the shared empty
 value and kept explicit zeros

---
 src/lib/matrix/SparseMatrix.inl | 31 +++++++++++++++++++------------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/src/lib/matrix/SparseMatrix.inl b/src/lib/matrix/SparseMatrix.inl
index 4564609..85def16 100644
--- a/src/lib/matrix/SparseMatrix.inl
+++ b/src/lib/matrix/SparseMatrix.inl
@@ -661,21 +661,19 @@ SparseMatrix<T>& SparseMatrix<T>::operator -=(const SparseMatrix<T>& v2)
 template<typename T>
 SparseMatrix<T>& SparseMatrix<T>::operator *=(const SparseMatrix<T>& v2)
 {
-	for (auto it = v2.cbegin(); it != v2.cend(); ++it)// O(D1*D2)
-	{
-		bool found;
-		Index tmp;
-		T& val = const_cast<T&>(internal_at(it.row(), it.column(), tmp, found));// O(D2)
-
-		val *= *it;
-	}
-
 	for (auto it = begin(); it != end();)// O(D1*D2)
 	{
-		if (!v2.has(it.row(), it.column()))// O(D2)
+		T val;
+		if (v2.has(it.row(), it.column(), val))// O(D2)
+			val = (*it) * val;
+
+		if (val == (T)0)// Not in v2, or the product vanished
 			it = erase(it);// O(D1*D2)
 		else
+		{
+			*it = val;
 			++it;
+		}
 	}
 
 	return *this;
@@ -692,8 +690,17 @@ SparseMatrix<T>& SparseMatrix<T>::operator *=(const T& f)
 	}
 	else
 	{
-		for (auto it = begin(); it != end(); ++it)// O(D1*D2)
-			*it *= f; // O(1)
+		for (auto it = begin(); it != end();)// O(D1*D2)
+		{
+			const T val = (*it) * f;// O(1)
+			if (val == (T)0)// Product vanished
+				it = erase(it);
+			else
+			{
+				*it = val;
+				++it;
+			}
+		}
 	}
 
 	return *this;
-- 
2.43.0


From a19b064a0a064ff6266906e432caa72914379878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:40 +0000
Subject: [PATCH 05/56] fix: SparseMatrix A -= A erased entries while iterating
 over them

---
 src/lib/matrix/SparseMatrix.inl | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lib/matrix/SparseMatrix.inl b/src/lib/matrix/SparseMatrix.inl
index 85def16..32ff5a6 100644
--- a/src/lib/matrix/SparseMatrix.inl
+++ b/src/lib/matrix/SparseMatrix.inl
@@ -652,6 +652,9 @@ SparseMatrix<T>& SparseMatrix<T>::operator +=(const SparseMatrix<T>& v2)
 template<typename T>
 SparseMatrix<T>& SparseMatrix<T>::operator -=(const SparseMatrix<T>& v2)
 {
+	if (this == &v2)// Entries are erased while iterating
+		return *this -= SparseMatrix<T>(v2);
+
 	for (auto it = v2.cbegin(); it != v2.cend(); ++it)
 		set(it.row(), it.column(), at(it.row(), it.column()) - *it);
 
-- 
2.43.0


From 3068e0657c4d1acfcaa5aa736292d3bf371ed9d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:40 +0000
Subject: [PATCH 06/56] fix: max() of matrices and vectors without positive
 entries

---
 src/lib/CountableSet.inl        | 2 +-
 src/lib/matrix/BaseMatrix.inl   | 2 +-
 src/lib/matrix/SparseMatrix.inl | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lib/CountableSet.inl b/src/lib/CountableSet.inl
index 22a8dcd..d584ebf 100644
--- a/src/lib/CountableSet.inl
+++ b/src/lib/CountableSet.inl
@@ -76,7 +76,7 @@ T CountableSet<T, DC>::max() const
 {
 	typedef typename get_complex_internal<T>::type _t;
 
-	_t s = std::numeric_limits<_t>::min();
+	_t s = std::numeric_limits<_t>::lowest();
 	for (Index i = 0; i < size(); ++i)
 	{
 		_t d = complex_abs(mData[i]);
diff --git a/src/lib/matrix/BaseMatrix.inl b/src/lib/matrix/BaseMatrix.inl
index 3fc479c..37a11ca 100644
--- a/src/lib/matrix/BaseMatrix.inl
+++ b/src/lib/matrix/BaseMatrix.inl
@@ -372,7 +372,7 @@ T BaseMatrix<T,DC>::sum() const
 template<typename T, class DC>
 T BaseMatrix<T,DC>::max() const
 {
-	T s = std::numeric_limits<typename get_complex_internal<T>::type>::min();
+	T s = std::numeric_limits<typename get_complex_internal<T>::type>::lowest();
 	for (auto l : mValues.Container)
 	{
 		if (l > s)
diff --git a/src/lib/matrix/SparseMatrix.inl b/src/lib/matrix/SparseMatrix.inl
index 32ff5a6..86d6025 100644
--- a/src/lib/matrix/SparseMatrix.inl
+++ b/src/lib/matrix/SparseMatrix.inl
@@ -770,7 +770,7 @@ T SparseMatrix<T>::sum() const
 template<typename T>
 T SparseMatrix<T>::max() const
 {
-	T s = std::numeric_limits<typename get_complex_internal<T>::type>::min();
+	T s = std::numeric_limits<typename get_complex_internal<T>::type>::lowest();
 	for (auto l : mValues)
 	{
 		if (l > s)
-- 
2.43.0


From 91437e0952a2ebb0f036e06628d8082e5be7fdb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:30 +0000
Subject: [PATCH 07/56] fix: conjugate/adjugate of fixed matrices and has_nan,
 has_inf, avg of complex matrices did not compile

---
 src/lib/matrix/BaseMatrix.inl   | 6 +++---
 src/lib/matrix/FixedMatrix.inl  | 4 ++--
 src/lib/matrix/SparseMatrix.inl | 6 +++---
 3 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/lib/matrix/BaseMatrix.inl b/src/lib/matrix/BaseMatrix.inl
index 37a11ca..34a2fca 100644
--- a/src/lib/matrix/BaseMatrix.inl
+++ b/src/lib/matrix/BaseMatrix.inl
@@ -398,7 +398,7 @@ T BaseMatrix<T,DC>::min() const
 template<typename T, class DC>
 T BaseMatrix<T,DC>::avg() const
 {
-	return sum() / size();
+	return sum() / (T)size();
 }
 
 template<typename T, class DC>
@@ -406,7 +406,7 @@ bool BaseMatrix<T,DC>::has_nan() const
 {
 	for (auto l : mValues.Container)
 	{
-		if (std::isnan(l))
+		if (complex_isnan(l))
 			return true;
 	}
 
@@ -418,7 +418,7 @@ bool BaseMatrix<T,DC>::has_inf() const
 {
 	for (auto l : mValues.Container)
 	{
-		if (std::isinf(l))
+		if (complex_isinf(l))
 			return true;
 	}
 
diff --git a/src/lib/matrix/FixedMatrix.inl b/src/lib/matrix/FixedMatrix.inl
index 6dcd48a..c98b05a 100644
--- a/src/lib/matrix/FixedMatrix.inl
+++ b/src/lib/matrix/FixedMatrix.inl
@@ -111,7 +111,7 @@ FixedMatrix<T,K1,K2> FixedMatrix<T,K1,K2>::conjugate() const
 	{
 		for (Index j = 0; j < this->columns(); ++j)
 		{
-			tmp.set(i, j, conjugate_vt(this->at(i, j)));
+			tmp.set(i, j, complex_conj(this->at(i, j)));
 		}
 	}
 
@@ -126,7 +126,7 @@ FixedMatrix<T,K2,K1> FixedMatrix<T,K1,K2>::adjugate() const
 	{
 		for (Index j = 0; j < this->rows(); ++j)
 		{
-			tmp.set(i, j, conjugate_vt(this->at(j, i)));
+			tmp.set(i, j, complex_conj(this->at(j, i)));
 		}
 	}
 
diff --git a/src/lib/matrix/SparseMatrix.inl b/src/lib/matrix/SparseMatrix.inl
index 86d6025..69b8d1c 100644
--- a/src/lib/matrix/SparseMatrix.inl
+++ b/src/lib/matrix/SparseMatrix.inl
@@ -802,7 +802,7 @@ T SparseMatrix<T>::min() const
 template<typename T>
 T SparseMatrix<T>::avg() const
 {
-	return sum() / size();// Overflow?
+	return sum() / (T)size();// Overflow?
 }
 
 template<typename T>
@@ -810,7 +810,7 @@ bool SparseMatrix<T>::has_nan() const
 {
 	for (auto l : mValues)
 	{
-		if (std::isnan(l))
+		if (complex_isnan(l))
 			return true;
 	}
 
@@ -822,7 +822,7 @@ bool SparseMatrix<T>::has_inf() const
 {
 	for (auto l : mValues)
 	{
-		if (std::isinf(l))
+		if (complex_isinf(l))
 			return true;
 	}
 
-- 
2.43.0


From debc5760ffcb428abbcfb391958b134e65f5428e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:30 +0000
Subject: [PATCH 08/56] fix: element wise matrix operators accepted operands of
 a different shape

---
 src/lib/matrix/DenseMatrix.inl  | 6 +++---
 src/lib/matrix/SparseMatrix.inl | 9 +++++++++
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/lib/matrix/DenseMatrix.inl b/src/lib/matrix/DenseMatrix.inl
index b6aa00b..c76365a 100644
--- a/src/lib/matrix/DenseMatrix.inl
+++ b/src/lib/matrix/DenseMatrix.inl
@@ -59,7 +59,7 @@ template<typename T>
 template<class DC2>
 DenseMatrix<T>& DenseMatrix<T>::operator +=(const BaseMatrix<T,DC2>& m)
 {
-	if (this->size() != m.size())
+	if (this->rows() != m.rows() || this->columns() != m.columns())
 		throw MatrixSizeMismatchException();
 
 	for (Index i = 0; i < this->size(); ++i)
@@ -72,7 +72,7 @@ template<typename T>
 template<class DC2>
 DenseMatrix<T>& DenseMatrix<T>::operator -=(const BaseMatrix<T,DC2>& m)
 {
-	if (this->size() != m.size())
+	if (this->rows() != m.rows() || this->columns() != m.columns())
 		throw MatrixSizeMismatchException();
 
 	for (Index i = 0; i < this->size(); ++i)
@@ -85,7 +85,7 @@ template<typename T>
 template<class DC2>
 DenseMatrix<T>& DenseMatrix<T>::operator *=(const BaseMatrix<T,DC2>& m)
 {
-	if (this->size() != m.size())
+	if (this->rows() != m.rows() || this->columns() != m.columns())
 		throw MatrixSizeMismatchException();
 
 	for (Index i = 0; i < this->size(); ++i)
diff --git a/src/lib/matrix/SparseMatrix.inl b/src/lib/matrix/SparseMatrix.inl
index 69b8d1c..278936f 100644
--- a/src/lib/matrix/SparseMatrix.inl
+++ b/src/lib/matrix/SparseMatrix.inl
@@ -643,6 +643,9 @@ SparseMatrixIterator<T> SparseMatrix<T>::erase(const SparseMatrixIterator<T>& it
 template<typename T>
 SparseMatrix<T>& SparseMatrix<T>::operator +=(const SparseMatrix<T>& v2)
 {
+	if (rows() != v2.rows() || columns() != v2.columns())
+		throw MatrixSizeMismatchException();
+
 	for (auto it = v2.cbegin(); it != v2.cend(); ++it)// O(D1*D2)
 		set(it.row(), it.column(), at(it.row(), it.column()) + *it);// O(D1*D2)
 
@@ -652,6 +655,9 @@ SparseMatrix<T>& SparseMatrix<T>::operator +=(const SparseMatrix<T>& v2)
 template<typename T>
 SparseMatrix<T>& SparseMatrix<T>::operator -=(const SparseMatrix<T>& v2)
 {
+	if (rows() != v2.rows() || columns() != v2.columns())
+		throw MatrixSizeMismatchException();
+
 	if (this == &v2)// Entries are erased while iterating
 		return *this -= SparseMatrix<T>(v2);
 
@@ -664,6 +670,9 @@ SparseMatrix<T>& SparseMatrix<T>::operator -=(const SparseMatrix<T>& v2)
 template<typename T>
 SparseMatrix<T>& SparseMatrix<T>::operator *=(const SparseMatrix<T>& v2)
 {
+	if (rows() != v2.rows() || columns() != v2.columns())
+		throw MatrixSizeMismatchException();
+
 	for (auto it = begin(); it != end();)// O(D1*D2)
 	{
 		T val;
-- 
2.43.0


From 9a666c24bef04761c8b5261e4f52b6962d3e2b2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:30 +0000
Subject: [PATCH 09/56] fix: left, right and mid of dynamic vectors did not
 size their result

---
 src/lib/Vector.h   |  5 +++++
 src/lib/Vector.inl | 14 ++++++++------
 2 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/lib/Vector.h b/src/lib/Vector.h
index b304074..ba55304 100644
--- a/src/lib/Vector.h
+++ b/src/lib/Vector.h
@@ -3,6 +3,7 @@
 #include "CountableSet.h"
 
 #include "Exceptions.h"
+#include "Utils.h"
 
 NS_BEGIN_NAMESPACE
 
@@ -53,6 +54,10 @@ public:
 	Vector mid(Index start, Index end) const;
 
 	bool has(Index start, Index end, const T& v) const;
+
+private:
+	void adjustSize(Dimension size, std::true_type) { this->resize(size); }
+	void adjustSize(Dimension, std::false_type) {}// Fixed vectors keep their size
 };
 
 // Element wise operations
diff --git a/src/lib/Vector.inl b/src/lib/Vector.inl
index c8b41dc..c8ac903 100644
--- a/src/lib/Vector.inl
+++ b/src/lib/Vector.inl
@@ -92,25 +92,25 @@ Vector<T,DC> Vector<T,DC>::normalized() const
 }
 
 // Boolean set operations
-// NOT WORKING
 template<typename T, class DC>
 Vector<T,DC> Vector<T,DC>::left(Index i) const
 {
 	NS_ASSERT(i < this->size());
-	Vector<T,DC> tmp;//Size i+1
+	Vector<T,DC> tmp;
+	tmp.adjustSize(i + 1, std::is_same<DC, dynamic_container_t<T> >());
 	for (Index j = 0; j < i + 1; ++j)
 		tmp.set(j, at(j));
 
 	return tmp;
 }
 
-// NOT WORKING
 template<typename T, class DC>
 Vector<T,DC> Vector<T,DC>::right(Index i) const
 {
 	NS_ASSERT(i < this->size());
 	
-	Vector<T,DC> tmp;//(this->size() - i)
+	Vector<T,DC> tmp;
+	tmp.adjustSize(this->size() - i, std::is_same<DC, dynamic_container_t<T> >());
 
 	for (Index j = i; j < this->size(); ++j)
 		tmp.set(j - i, at(j));
@@ -118,13 +118,15 @@ Vector<T,DC> Vector<T,DC>::right(Index i) const
 	return tmp;
 }
 
-// NOT WORKING
 template<typename T, class DC>
 Vector<T,DC> Vector<T,DC>::mid(Index start, Index end) const
 {
 	NS_ASSERT(start < end);
 
-	Vector<T,DC> tmp;//(end-start)
+	Vector<T,DC> tmp;
+	if (start < this->size())
+		tmp.adjustSize(t_min(end, this->size()) - start, std::is_same<DC, dynamic_container_t<T> >());
+
 	for (Index i = start; i < end && i < this->size(); ++i)
 		tmp.set(i - start, at(i));
 
-- 
2.43.0


From 49f802b28a336ab0aa9114823072bdf8987443e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:30 +0000
Subject: [PATCH 10/56] fix: dividing an integral vector by a scalar or a
 scalar by it truncated the reciprocal

---
 src/lib/Vector.inl | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/lib/Vector.inl b/src/lib/Vector.inl
index c8ac903..9b2e76a 100644
--- a/src/lib/Vector.inl
+++ b/src/lib/Vector.inl
@@ -224,9 +224,8 @@ Vector<T,DC>& Vector<T,DC>::operator /=(const Vector<T,DC>& v)
 template<typename T, class DC>
 Vector<T,DC>& Vector<T,DC>::operator /=(const T& f)
 {
-	T invF = (T)1 / f;// TODO: NAN?
 	for (Index i = 0; i < this->size(); ++i)
-		this->mData[i] *= invF;
+		this->mData[i] /= f;// TODO: NAN?
 
 	return *this;
 }
@@ -318,9 +317,9 @@ Vector<T,DC> operator /(const Vector<T,DC>& v1, T f)
 template<typename T, class DC>
 Vector<T,DC> operator /(T f, const Vector<T,DC>& v1)
 {
-	Vector<T,DC>tmp = v1;
-	tmp.do_reciprocal();
-	return (tmp *= f);
+	Vector<T,DC> tmp = v1;
+	tmp.fill(f);
+	return (tmp /= v1);
 }
 
 // Comparison
-- 
2.43.0


From a00ecec24558fcf6c6f50058bfe323df0a15f00c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:30 +0000
Subject: [PATCH 11/56] fix: magSqr, mag and normalized of complex vectors
 ignored the conjugate

---
 src/lib/Vector.inl | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/lib/Vector.inl b/src/lib/Vector.inl
index 9b2e76a..8db2e87 100644
--- a/src/lib/Vector.inl
+++ b/src/lib/Vector.inl
@@ -82,7 +82,11 @@ T Vector<T,DC>::mag() const
 template<typename T, class DC>
 T Vector<T,DC>::magSqr() const
 {
-	return dot(*this);
+	T s = 0;
+	for (Index i = 0; i < this->size(); ++i)
+		s += at(i) * complex_conj(at(i));
+
+	return s;
 }
 
 template<typename T, class DC>
-- 
2.43.0


From 4f0696d9b2674591566f3409e0bb9ae2739521d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:30 +0000
Subject: [PATCH 12/56] fix: cholesky read stale entries of L, ignored the
 conjugate and accepted singular or complex indefinite matrices

---
 src/lib/LU.inl | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/lib/LU.inl b/src/lib/LU.inl
index dc29013..6bf8e9f 100644
--- a/src/lib/LU.inl
+++ b/src/lib/LU.inl
@@ -23,23 +23,26 @@ namespace LU {
 
 			for (Index j = 0; j < L.rows(); ++j)
 			{
+				for (Index i = 0; i < j; ++i)// Drop old content
+					L.set(i, j, (T)0);
+
 				T s = (T)0;
 				for (Index k = 0; k < j; ++k)
 				{
 					T v = L.at(j, k);
-					s += v*v;
+					s += v*complex_conj(v);
 				}
 
 				s = m.at(j, j) - s;
-				if (!sqrt_allowed(s))
+				if (!(std::real(s) > 0))
 					throw NotPositiveDefiniteException();
 
 				L.set(j, j, std::sqrt(s));
 				for (Index i = j; i < L.rows(); ++i)
 				{
 					s = (T)0;
-					for (Index k = 0; k < i; ++k)
-						s += L.at(i, k)*L.at(j, k);
+					for (Index k = 0; k < j; ++k)
+						s += L.at(i, k)*complex_conj(L.at(j, k));
 					L.set(i, j, (m.at(i, j) - s) / L.at(j, j));
 				}
 			}
-- 
2.43.0


From 81e660ba9c20e6e111ee6f0ce91cd03c7c7b07f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:30 +0000
Subject: [PATCH 13/56] fix: dense doolittle kept old content of the output
 matrices L and P

---
 src/lib/LU.inl | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/lib/LU.inl b/src/lib/LU.inl
index 6bf8e9f..b1ee803 100644
--- a/src/lib/LU.inl
+++ b/src/lib/LU.inl
@@ -63,6 +63,11 @@ namespace LU {
 
 			// Setup matrices
 			U = A;
+			for (Index i = 0; i < L.size(); ++i)// Drop old content
+			{
+				L.linear_set(i, (T)0);
+				P.linear_set(i, (T)0);
+			}
 			if(pivotCount)
 				*pivotCount = 0;
 
-- 
2.43.0


From 4e40ed4e2c2802b5f829f9fe839c2da0f741126d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:30 +0000
Subject: [PATCH 14/56] fix: doolittle leaked its row table when the matrix is
 singular

---
 src/lib/LU.inl | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/lib/LU.inl b/src/lib/LU.inl
index b1ee803..1909048 100644
--- a/src/lib/LU.inl
+++ b/src/lib/LU.inl
@@ -71,7 +71,7 @@ namespace LU {
 			if(pivotCount)
 				*pivotCount = 0;
 
-			Index* rowTable = new Index[n];
+			std::vector<Index> rowTable(n);
 			for (Index i = 0; i < n; ++i)
 			{
 				L.set(i, i, (T)1);
@@ -135,8 +135,6 @@ namespace LU {
 			// Build pivot matrix
 			for (Index i = 0; i < n; ++i)
 				P.set(i,rowTable[i], (T)1);
-			
-			delete[] rowTable;
 		}
 
 		/* TODO: Optimize*/
@@ -154,7 +152,7 @@ namespace LU {
 			if(pivotCount)
 				*pivotCount = 0;
 
-			Index* rowTable = new Index[n];
+			std::vector<Index> rowTable(n);
 			for (Index i = 0; i < n; ++i)
 			{
 				L.set(i, i, (T)1);
@@ -219,8 +217,6 @@ namespace LU {
 			P = SparseMatrix<T>(n,n);
 			for (Index i = 0; i < n; ++i)
 				P.set(i,rowTable[i], (T)1);
-			
-			delete[] rowTable;
 		}
 
 		template<typename T>
-- 
2.43.0


From 0c0d912b7662dfe8f871c54c85dd88fdc3a63db5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:30 +0000
Subject: [PATCH 15/56] fix: inverse(L,U) divided the wrong entries by the
 pivots

---
 src/lib/matrix/MatrixOperations.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/matrix/MatrixOperations.inl b/src/lib/matrix/MatrixOperations.inl
index f06e221..45dbec3 100644
--- a/src/lib/matrix/MatrixOperations.inl
+++ b/src/lib/matrix/MatrixOperations.inl
@@ -99,7 +99,7 @@ namespace Operations
 				if(std::abs(mid) <= std::numeric_limits<typename get_complex_internal<T>::type>::epsilon())
 					throw SingularException();
 				
-				Inv.set(j,j, Inv.at(j,j) / mid);
+				Inv.set(j,i, Inv.at(j,i) / mid);
 
 				if(j == 0)
 					break;
-- 
2.43.0


From 5c0965482e348c43581f0b9b4c71cfb57c7f7ea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:30 +0000
Subject: [PATCH 16/56] fix: ainv_lu calculated a wrong inverse of U

---
 src/lib/LU.inl | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/lib/LU.inl b/src/lib/LU.inl
index 1909048..5cea518 100644
--- a/src/lib/LU.inl
+++ b/src/lib/LU.inl
@@ -364,11 +364,9 @@ namespace LU {
 				}
 
 				// U
-				invU.set(k,k, 1/U.at(k,k));
-				
-				for(Index i = (N-1)-k; ; --i)
+				for(Index i = k; ; --i)
 				{
-					T m = invU.at(i,k);
+					T m = (T)(i == k ? 1 : 0);
 
 					auto it = U.row_begin(i);
 					while(it != U.row_end(i) && it.column() < i+1)// Skipping. Is zero
-- 
2.43.0


From cb004ad74200f287ed1bfbd6865693b947bc3396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:30 +0000
Subject: [PATCH 17/56] fix: cg used the old residual instead of the old search
 direction

---
 src/lib/CG.inl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib/CG.inl b/src/lib/CG.inl
index 7678225..7d40225 100644
--- a/src/lib/CG.inl
+++ b/src/lib/CG.inl
@@ -42,7 +42,7 @@ namespace CG {
 
 				const typename V2::value_type bk = ls / rs;
 
-				p = l + bk*r;
+				p = l + bk*p;
 				r = l;
 				rs = ls;
 			}
@@ -122,7 +122,7 @@ namespace CG {
 				const auto mid = A.at(i,i);
 				if(std::abs(mid) <= std::numeric_limits<typename get_complex_internal<T>::type>::epsilon())
 					throw SingularException();
-				C.set(i,i, 1/mid);
+				C.set(i,i, (T)1/mid);
 			}
 		}
 	}
-- 
2.43.0


From 7e40c8539cd0527c098295ee6015bc69484d8f7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:30 +0000
Subject: [PATCH 18/56] fix: cg and pcg returned NaN when the start vector
 already is the solution

---
 src/lib/CG.inl | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/lib/CG.inl b/src/lib/CG.inl
index 7d40225..d610bdc 100644
--- a/src/lib/CG.inl
+++ b/src/lib/CG.inl
@@ -26,6 +26,13 @@ namespace CG {
 			V2 p = r;
 
 			typename V2::value_type rs = r.magSqr();
+			if (rs <= eps2)// Already solved
+			{
+				if (it_stat)
+					*it_stat = 0;
+
+				return x;
+			}
 
 			V2 l;
 			size_t k = 0;
@@ -37,7 +44,7 @@ namespace CG {
 				l = r - ak*t;
 
 				const auto ls = l.magSqr();
-				if (ls < eps2 || k == maxIter-1)
+				if (ls <= eps2 || k == maxIter-1)
 					break;
 
 				const typename V2::value_type bk = ls / rs;
@@ -75,6 +82,14 @@ namespace CG {
 
 			V1 x = x0;
 			V2 r = b - a.mul(x0);
+			if (r.magSqr() <= eps2)// Already solved
+			{
+				if (it_stat)
+					*it_stat = 0;
+
+				return x;
+			}
+
 			V2 z = c.mul(r);
 			V2 p = z;
 
@@ -88,7 +103,7 @@ namespace CG {
 				x += ak*p;
 				r -= ak*t;
 
-				if (r.magSqr() < eps2 || k == maxIter-1)
+				if (r.magSqr() <= eps2 || k == maxIter-1)
 					break;
 
 				z = c.mul(r);
-- 
2.43.0


From 00ba488813203e45548e3899844a922f289072b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:30 +0000
Subject: [PATCH 19/56] fix: jacobi and sor returned infinite values for a zero
 in the diagonal

---
 src/lib/Iterative.inl | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/lib/Iterative.inl b/src/lib/Iterative.inl
index 19a1cdb..4bf6d90 100644
--- a/src/lib/Iterative.inl
+++ b/src/lib/Iterative.inl
@@ -39,6 +39,9 @@ namespace Iterative
 							mid = *rit;
 					}
 
+					if (mid == (T)0)
+						throw MatrixHasZeroInDiagException();
+
 					xm.set(i, (b.at(i) - t) / mid);
 				}
 
@@ -100,6 +103,9 @@ namespace Iterative
 							mid = *rit;
 					}
 
+					if (mid == (T)0)
+						throw MatrixHasZeroInDiagException();
+
 					t = (b.at(i) - t) / mid;
 					xm.set(i, rweight*xm.at(i) + weight*t);
 				}
-- 
2.43.0


From 289c48226800365dfac493b83a5073b908967506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:30 +0000
Subject: [PATCH 20/56] fix: sor ignored the start vector in its first
 relaxation

---
 src/lib/Iterative.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/Iterative.inl b/src/lib/Iterative.inl
index 4bf6d90..732516f 100644
--- a/src/lib/Iterative.inl
+++ b/src/lib/Iterative.inl
@@ -107,7 +107,7 @@ namespace Iterative
 						throw MatrixHasZeroInDiagException();
 
 					t = (b.at(i) - t) / mid;
-					xm.set(i, rweight*xm.at(i) + weight*t);
+					xm.set(i, rweight*x.at(i) + weight*t);
 				}
 
 				auto conv = std::abs((xm - x).magSqr());
-- 
2.43.0


From c0a58edea882852f06d5491ab6a2bfdaaa388e9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:30 +0000
Subject: [PATCH 21/56] fix: cuthill_mckee returned no permutation for matrices
 with an empty row

---
 src/lib/matrix/MatrixOrder.inl | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/lib/matrix/MatrixOrder.inl b/src/lib/matrix/MatrixOrder.inl
index a665e96..a7e842a 100644
--- a/src/lib/matrix/MatrixOrder.inl
+++ b/src/lib/matrix/MatrixOrder.inl
@@ -29,8 +29,7 @@ DynamicVector<Index> cuthill_mckee(const SparseMatrix<T>& m)
 	for(Index i = 0; i < m.rows(); ++i)
 	{
 		Index mc = m.row_filled_count(i);
-		if(mc > 0)
-			Rows.insert(std::pair<Dimension, Index>(mc, i));
+		Rows.insert(std::pair<Dimension, Index>(mc, i));
 	}
 	
 	while(!Rows.empty())
-- 
2.43.0


From d282b655a48f66a3a25c86f91725f0cd61bdfa56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:30 +0000
Subject: [PATCH 22/56] fix: inverse_permutation was defined in a header
 without inline

---
 src/lib/matrix/MatrixOrder.h   | 2 +-
 src/lib/matrix/MatrixOrder.inl | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib/matrix/MatrixOrder.h b/src/lib/matrix/MatrixOrder.h
index a02d229..c18af48 100644
--- a/src/lib/matrix/MatrixOrder.h
+++ b/src/lib/matrix/MatrixOrder.h
@@ -28,7 +28,7 @@ DynamicVector<Index> r_cuthill_mckee(const SparseMatrix<T>& m);
 template<typename T>
 SparseMatrix<T> permutation_matrix(const DynamicVector<Index>& permutation);
 
-DynamicVector<Index> inverse_permutation(const DynamicVector<Index>& permutation);
+inline DynamicVector<Index> inverse_permutation(const DynamicVector<Index>& permutation);
 
 /**
 * @brief Reorders the given matrix based on the permuation
diff --git a/src/lib/matrix/MatrixOrder.inl b/src/lib/matrix/MatrixOrder.inl
index a7e842a..5e1eda1 100644
--- a/src/lib/matrix/MatrixOrder.inl
+++ b/src/lib/matrix/MatrixOrder.inl
@@ -113,7 +113,7 @@ SparseMatrix<T> permutation_matrix(const DynamicVector<Index>& permutation)
 	return nm;
 }
 
-DynamicVector<Index> inverse_permutation(const DynamicVector<Index>& permutation)
+inline DynamicVector<Index> inverse_permutation(const DynamicVector<Index>& permutation)
 {
 	DynamicVector<Index> np(permutation.size());
 	for(Index i = 0; i < permutation.size(); ++i)
-- 
2.43.0


From 3833f8f72e12564e749297858a37fa4e77ef3c2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:30 +0000
Subject: [PATCH 23/56] fix: MatrixConverter.h did not compile

---
 src/lib/matrix/MatrixConverter.h   | 2 +-
 src/lib/matrix/MatrixConverter.inl | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lib/matrix/MatrixConverter.h b/src/lib/matrix/MatrixConverter.h
index 7742352..ead470c 100644
--- a/src/lib/matrix/MatrixConverter.h
+++ b/src/lib/matrix/MatrixConverter.h
@@ -20,7 +20,7 @@ namespace Convert
 	* @return The new dense matrix.
 	*/
 	template<typename T>
-	DynamicMatrix<T> toDenseMatrix(const SparseMatrix<T>& m);
+	DenseMatrix<T> toDenseMatrix(const SparseMatrix<T>& m);
 }
 
 NS_END_NAMESPACE
diff --git a/src/lib/matrix/MatrixConverter.inl b/src/lib/matrix/MatrixConverter.inl
index 1c38a06..0a45eae 100644
--- a/src/lib/matrix/MatrixConverter.inl
+++ b/src/lib/matrix/MatrixConverter.inl
@@ -24,9 +24,9 @@ namespace Convert
 	}
 
 	template<typename T>
-	DynamicMatrix<T> toDenseMatrix(const SparseMatrix<T>& m)
+	DenseMatrix<T> toDenseMatrix(const SparseMatrix<T>& m)
 	{
-		Matrix<T> res(m.rows(), m.columns());
+		DenseMatrix<T> res(m.rows(), m.columns());
 		for (auto it = m.begin(); it != m.end(); ++it)
 		{
 			res.set(it.row(), it.column(), *it);
-- 
2.43.0


From eb3f45d93dbe662c8d5afd1cb89d44533dd1b213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:30 +0000
Subject: [PATCH 24/56] fix: Simplex::center and outerRadius

---
 src/lib/Simplex.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/Simplex.inl b/src/lib/Simplex.inl
index 0dc69b0..c6550d8 100644
--- a/src/lib/Simplex.inl
+++ b/src/lib/Simplex.inl
@@ -83,7 +83,7 @@ typename Simplex<T,K>::vertex_t Simplex<T,K>::center() const
 	vertex_t v;
 	v[0] = b[1]*a.magSqr() - a[1]*b.magSqr();
 	v[1] = a[0]*b.magSqr() - b[0]*a.magSqr();
-	return v / (T)2 * mDeterminant;
+	return v / ((T)2 * mDeterminant) + mVertices[0];
 }
 
 template<typename T, Dimension K>
-- 
2.43.0


From db836b5ddd78667fec5385947f9b00bcff98bd1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:30 +0000
Subject: [PATCH 25/56] fix: Mesh::clear leaked the edges and kept them around

---
 src/lib/mesh/Mesh.inl | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lib/mesh/Mesh.inl b/src/lib/mesh/Mesh.inl
index 7d85878..e09048e 100644
--- a/src/lib/mesh/Mesh.inl
+++ b/src/lib/mesh/Mesh.inl
@@ -124,6 +124,10 @@ void Mesh<T,K>::clear()
 	for(auto ptr : mData->Elements)
 		delete ptr;
 	mData->Elements.clear();
+
+	for(auto ptr : mData->Edges)
+		delete ptr;
+	mData->Edges.clear();
 }
 
 template<typename T, Dimension K>
-- 
2.43.0


From 333b8a5b10fadb2b1632d3a7b478e246334dca01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:30 +0000
Subject: [PATCH 26/56] fix: assigning a mesh to itself freed its data

---
 src/lib/mesh/Mesh.inl | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/lib/mesh/Mesh.inl b/src/lib/mesh/Mesh.inl
index e09048e..4a89737 100644
--- a/src/lib/mesh/Mesh.inl
+++ b/src/lib/mesh/Mesh.inl
@@ -77,6 +77,9 @@ Mesh<T,K>::~Mesh()
 template<typename T, Dimension K>
 Mesh<T,K>& Mesh<T,K>::operator =(const Mesh<T,K>& other)
 {
+	if(this == &other)
+		return *this;
+
 	if(mData)
 	{
 		NS_ASSERT(mData->Refs > 0);
@@ -97,6 +100,9 @@ Mesh<T,K>& Mesh<T,K>::operator =(const Mesh<T,K>& other)
 template<typename T, Dimension K>
 Mesh<T,K>& Mesh<T,K>::operator =(Mesh<T,K>&& other)
 {
+	if(this == &other)
+		return *this;
+
 	if(mData)
 	{
 		NS_ASSERT(mData->Refs > 0);
-- 
2.43.0


From e3b226269111e88d8c34f8c8548f38a76ea46ccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:17 +0000
Subject: [PATCH 27/56] fix: HyperCube mixed up the element counts of the axes

The step sizes use elements[0] for x and elements[1] for y, but the loops
were the other way around, so the grid did not cover the requested rectangle
when both counts differ.
---
 src/lib/mesh/HyperCube.inl | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/lib/mesh/HyperCube.inl b/src/lib/mesh/HyperCube.inl
index 6bfa5db..ca8b386 100644
--- a/src/lib/mesh/HyperCube.inl
+++ b/src/lib/mesh/HyperCube.inl
@@ -40,10 +40,10 @@ Mesh<T,2> HyperCube<T,2>::generate(const FixedVector<Dimension,2>& elements,
 	ey.fill((T)0);
 	ey[1] = size[1]/(T)elements[1];
 	
-	MV** lastRowVertices = new MV*[elements[1]+1];
+	MV** lastRowVertices = new MV*[elements[0]+1];
 
 	// Generate first row
-	for(Index j = 0; j <= elements[1]; ++j)
+	for(Index j = 0; j <= elements[0]; ++j)
 	{
 		MV* v = new MV(offset + ex*(T)j);
 		v->Flags |= MVF_StrongBoundary;
@@ -52,7 +52,7 @@ Mesh<T,2> HyperCube<T,2>::generate(const FixedVector<Dimension,2>& elements,
 	}
 
 	// Iterate over rows
-	for(Index i = 1; i <= elements[0]; ++i)
+	for(Index i = 1; i <= elements[1]; ++i)
 	{
 		const auto py = ey*(T)i;
 		MV* lastVertex = new MV(offset + py);
@@ -60,7 +60,7 @@ Mesh<T,2> HyperCube<T,2>::generate(const FixedVector<Dimension,2>& elements,
 
 		mesh.addVertex(lastVertex);
 
-		for(Index j = 1; j <= elements[1]; ++j)
+		for(Index j = 1; j <= elements[0]; ++j)
 		{
 			MV* v = new MV(offset + ex*(T)j + py);
 			mesh.addVertex(v);
@@ -83,11 +83,11 @@ Mesh<T,2> HyperCube<T,2>::generate(const FixedVector<Dimension,2>& elements,
 
 		lastVertex->Flags |= MVF_StrongBoundary;// Set last column as boundary
 
-		lastRowVertices[elements[1]] = lastVertex;
+		lastRowVertices[elements[0]] = lastVertex;
 	}
 
 	// Set last row as boundary
-	for(Index j = 0; j <= elements[1]; ++j)
+	for(Index j = 0; j <= elements[0]; ++j)
 		lastRowVertices[j]->Flags |= MVF_StrongBoundary;
 
 
-- 
2.43.0


From 42e2e8f5122257cde29a527b515f580366a186cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:17 +0000
Subject: [PATCH 28/56] fix: wrong number of DOFs for PolyShapeFunction (1,2),
 (2,3) and (3,2)

The default node values did not cover all coefficients, so the functions read
out of bounds.
---
 src/lib/sf/PolyShapeFunction.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/lib/sf/PolyShapeFunction.h b/src/lib/sf/PolyShapeFunction.h
index 8911902..8766b72 100644
--- a/src/lib/sf/PolyShapeFunction.h
+++ b/src/lib/sf/PolyShapeFunction.h
@@ -14,7 +14,9 @@ template<typename T, Dimension K, Dimension Order>
 class PolyShapePolicy
 {
 public:
-	static constexpr Dimension DOF = (K+1)*Order;// Wrong, but works for Order < 3
+	// Binomial coefficient (Order+K over K)
+	static constexpr Dimension DOF = (K == 1) ? Order+1 :
+		((K == 2) ? (Order+1)*(Order+2)/2 : (Order+1)*(Order+2)*(Order+3)/6);
 
 	// For the standard k-simplex
 	T value(Index localComponent, const FixedVector<T,K>& local) const;
-- 
2.43.0


From 7a2a30c22ed4a504ca479a2d89c195f2a7c61c47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:17 +0000
Subject: [PATCH 29/56] fix: order of the quadratic line shape functions

The documented layout (x0 --x2-- x1) and prepareMesh have the mid point last.
---
 src/lib/sf/PolyShapeFunction.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/sf/PolyShapeFunction.inl b/src/lib/sf/PolyShapeFunction.inl
index c89473e..01f279e 100644
--- a/src/lib/sf/PolyShapeFunction.inl
+++ b/src/lib/sf/PolyShapeFunction.inl
@@ -13,7 +13,7 @@ NS_BEGIN_NAMESPACE
 constexpr float PSF_Coeff_1D_1[2][2] = {{1, -1}, {0,1}};
 
 // Second Order: x0 --x2-- x1
-constexpr float PSF_Coeff_1D_2[3][3] = {{1, -3, 2}, {0, 4, -4}, {0, -1, 2}};
+constexpr float PSF_Coeff_1D_2[3][3] = {{1, -3, 2}, {0, -1, 2}, {0, 4, -4}};
 
 // ----------- 2-Simplex (Triangle) [Multivariate Polynomial] -----------
 // First Order:
-- 
2.43.0


From bb00bdd6949fc9409f8cda47e07bddd422a87ae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:17 +0000
Subject: [PATCH 30/56] fix: gradient of the linear triangle shape function
 multiplied by a second node value

---
 src/lib/sf/PolyShapeFunction.inl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib/sf/PolyShapeFunction.inl b/src/lib/sf/PolyShapeFunction.inl
index 01f279e..12aa32b 100644
--- a/src/lib/sf/PolyShapeFunction.inl
+++ b/src/lib/sf/PolyShapeFunction.inl
@@ -211,8 +211,8 @@ FixedVector<T,K> PolyShapePolicy<T,K,Order>::gradient(Index localComponent, cons
         if(Order == 1)
         {
             NS_ASSERT(localComponent < 3);
-            g[0] = nodeValues[1]*nodeValues[0]*PSF_Coeff_2D_1[localComponent][1];
-            g[1] = nodeValues[2]*nodeValues[0]*PSF_Coeff_2D_1[localComponent][2];
+            g[0] = nodeValues[1]*PSF_Coeff_2D_1[localComponent][1];
+            g[1] = nodeValues[2]*PSF_Coeff_2D_1[localComponent][2];
         }
         else if(Order == 2)
         {
-- 
2.43.0


From 519b2a90251ff8d83aaf693af46fc7f3a9b6fc28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:17 +0000
Subject: [PATCH 31/56] fix: second derivative of the cubic triangle shape
 function in y

---
 src/lib/sf/PolyShapeFunction.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/sf/PolyShapeFunction.inl b/src/lib/sf/PolyShapeFunction.inl
index 12aa32b..495ebdc 100644
--- a/src/lib/sf/PolyShapeFunction.inl
+++ b/src/lib/sf/PolyShapeFunction.inl
@@ -328,7 +328,7 @@ FixedVector<T,K> PolyShapePolicy<T,K,Order>::gradient2(Index localComponent, con
                 + nodeValues[6]*2*PSF_Coeff_2D_3[localComponent][6]*local[1]
                 + nodeValues[8]*6*PSF_Coeff_2D_3[localComponent][8]*local[0];
             g[1] = nodeValues[5]*2*PSF_Coeff_2D_3[localComponent][5]
-                + nodeValues[7]*2*PSF_Coeff_2D_3[localComponent][7]*local[1]
+                + nodeValues[7]*2*PSF_Coeff_2D_3[localComponent][7]*local[0]
                 + nodeValues[9]*6*PSF_Coeff_2D_3[localComponent][9]*local[1];
         }
     }
-- 
2.43.0


From 3e054d5bfd6f091bc1d151caca1b9357d49f616b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:17 +0000
Subject: [PATCH 32/56] fix: VTKExporter dereferenced the end of an empty point
 data map

---
 src/lib/export/VTKExporter.inl | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/lib/export/VTKExporter.inl b/src/lib/export/VTKExporter.inl
index 1a3de4d..231c68a 100644
--- a/src/lib/export/VTKExporter.inl
+++ b/src/lib/export/VTKExporter.inl
@@ -92,7 +92,10 @@ void VTKExporter<T,K>::write(const std::string& path,
 	stream << "</Cells>" << std::endl;
 
 	// Point data
-	stream << "<PointData Scalars=\"" << pointData.begin()->first << "\">" << std::endl;
+	stream << "<PointData";
+	if(!pointData.empty())
+		stream << " Scalars=\"" << pointData.begin()->first << "\"";
+	stream << ">" << std::endl;
 	for(auto res : pointData)
 	{
 		stream << "<DataArray Name=\"" << res.first << "\" type=\"Float32\" format=\"ascii\">" << std::endl;
-- 
2.43.0


From b4fcb97896f4dc74dc8212ad2b4f3e138ff1e407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:17 +0000
Subject: [PATCH 33/56] fix: VTKExporter announced K*K components for the K
 element gradient components

---
 src/lib/export/VTKExporter.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/export/VTKExporter.inl b/src/lib/export/VTKExporter.inl
index 231c68a..bc227c0 100644
--- a/src/lib/export/VTKExporter.inl
+++ b/src/lib/export/VTKExporter.inl
@@ -157,7 +157,7 @@ void VTKExporter<T,K>::write(const std::string& path,
 	if(outputOptions & VOO_ElementGradient)
 	{
 		stream << "<DataArray Name=\"ElementGradient\" type=\"Float32\" NumberOfComponents=\"" 
-			<< (K*K) << "\" format=\"ascii\">" << std::endl;
+			<< K << "\" format=\"ascii\">" << std::endl;
 		for (MeshElement<T,K>* elem : mesh.elements())
 		{
 			const auto M = elem->Element.gradient(0);
-- 
2.43.0


From 27c410376d690c9669a4f82088b0890fd3c6dd46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:17 +0000
Subject: [PATCH 34/56] fix: Triangle loader misread numbers at the end of a
 line

tellg() returns -1 there and moved the iterator backwards. Also report text
without a number as an error instead of silently using zero.
---
 src/lib/loader/MeshTriangleLoader.h   |  3 ++-
 src/lib/loader/MeshTriangleLoader.inl | 33 +++++++++++++++------------
 2 files changed, 21 insertions(+), 15 deletions(-)

diff --git a/src/lib/loader/MeshTriangleLoader.h b/src/lib/loader/MeshTriangleLoader.h
index d5badfd..b8e1819 100644
--- a/src/lib/loader/MeshTriangleLoader.h
+++ b/src/lib/loader/MeshTriangleLoader.h
@@ -23,7 +23,8 @@ private:
 	static void skipWS(std::string::const_iterator& it,
 		std::string::const_iterator end);
 	
-	template<typename T2>
+	// Throws E if there is no number
+	template<typename T2, typename E>
 	static T2 extractFirstNumber(std::string::const_iterator& it,
 		std::string::const_iterator end);
 
diff --git a/src/lib/loader/MeshTriangleLoader.inl b/src/lib/loader/MeshTriangleLoader.inl
index 5449ec9..9259baf 100644
--- a/src/lib/loader/MeshTriangleLoader.inl
+++ b/src/lib/loader/MeshTriangleLoader.inl
@@ -46,13 +46,13 @@ void MeshTriangleLoader<T>::setupNode(Mesh<T,2>& mesh, const std::string& nodeSt
 
 		if(parseMode == 0)//First Line
 		{
-			size_t nodes = extractFirstNumber<size_t>(it, line.end());
+			size_t nodes = extractFirstNumber<size_t,LoadTriangleNodeErrorException>(it, line.end());
 
 			if(nodes == 0)
 				throw LoadTriangleNodeErrorException();
 
 			skipWS(it, line.end());
-			if(it == line.end() || extractFirstNumber<int>(it, line.end()) != 2)
+			if(it == line.end() || extractFirstNumber<int,LoadTriangleNodeErrorException>(it, line.end()) != 2)
 				throw LoadTriangleNodeErrorException();
 			
 			mesh.reserveVertices(nodes);
@@ -61,7 +61,7 @@ void MeshTriangleLoader<T>::setupNode(Mesh<T,2>& mesh, const std::string& nodeSt
 		}
 		else// Vertices
 		{
-			size_t index = extractFirstNumber<size_t>(it, line.end());
+			size_t index = extractFirstNumber<size_t,LoadTriangleNodeErrorException>(it, line.end());
 			if(index == 0)
 				indexShift = 0;
 			
@@ -73,13 +73,13 @@ void MeshTriangleLoader<T>::setupNode(Mesh<T,2>& mesh, const std::string& nodeSt
 			if(it == line.end())
 				throw LoadTriangleNodeErrorException();
 			
-			T e1 = extractFirstNumber<T>(it, line.end());
+			T e1 = extractFirstNumber<T,LoadTriangleNodeErrorException>(it, line.end());
 
 			skipWS(it, line.end());
 			if(it == line.end())
 				throw LoadTriangleNodeErrorException();
 
-			T e2 = extractFirstNumber<T>(it, line.end());
+			T e2 = extractFirstNumber<T,LoadTriangleNodeErrorException>(it, line.end());
 
 			// Everything else is ignored
 
@@ -108,13 +108,13 @@ void MeshTriangleLoader<T>::setupElement(Mesh<T,2>& mesh, const std::string& ele
 
 		if(parseMode == 0)//First Line
 		{
-			size_t nodes = extractFirstNumber<size_t>(it, line.end());
+			size_t nodes = extractFirstNumber<size_t,LoadTriangleElementErrorException>(it, line.end());
 
 			if(nodes == 0)
 				throw LoadTriangleElementErrorException();
 
 			skipWS(it, line.end());
-			if(it == line.end() || extractFirstNumber<int>(it, line.end()) != 3)
+			if(it == line.end() || extractFirstNumber<int,LoadTriangleElementErrorException>(it, line.end()) != 3)
 				throw LoadTriangleElementErrorException();
 			
 			mesh.reserveVertices(nodes);
@@ -123,7 +123,7 @@ void MeshTriangleLoader<T>::setupElement(Mesh<T,2>& mesh, const std::string& ele
 		}
 		else// Vertices
 		{
-			size_t index = extractFirstNumber<size_t>(it, line.end());
+			size_t index = extractFirstNumber<size_t,LoadTriangleElementErrorException>(it, line.end());
 			if(index == 0)
 				indexShift = 0;
 			
@@ -135,19 +135,19 @@ void MeshTriangleLoader<T>::setupElement(Mesh<T,2>& mesh, const std::string& ele
 			if(it == line.end())
 				throw LoadTriangleNodeErrorException();
 			
-			size_t i1 = extractFirstNumber<size_t>(it, line.end());
+			size_t i1 = extractFirstNumber<size_t,LoadTriangleElementErrorException>(it, line.end());
 
 			skipWS(it, line.end());
 			if(it == line.end())
 				throw LoadTriangleNodeErrorException();
 
-			size_t i2 = extractFirstNumber<size_t>(it, line.end());
+			size_t i2 = extractFirstNumber<size_t,LoadTriangleElementErrorException>(it, line.end());
 
 			skipWS(it, line.end());
 			if(it == line.end())
 				throw LoadTriangleNodeErrorException();
 
-			size_t i3 = extractFirstNumber<size_t>(it, line.end());
+			size_t i3 = extractFirstNumber<size_t,LoadTriangleElementErrorException>(it, line.end());
 
 			// Everything else is ignored
 
@@ -180,14 +180,19 @@ void MeshTriangleLoader<T>::skipWS(std::string::const_iterator& it,
 }
 
 template<typename T>
-template<typename T2>
+template<typename T2, typename E>
 T2 MeshTriangleLoader<T>::extractFirstNumber(std::string::const_iterator& start,
 	std::string::const_iterator end)
 {
 	std::stringstream stream(std::string(start, end));
 	T2 ret = 0;
-	stream >> ret;
-	start += stream.tellg();
+	if(!(stream >> ret))
+		throw E();
+
+	if(stream.eof())// tellg() would fail
+		start = end;
+	else
+		start += stream.tellg();
 
 	return ret;
 }
-- 
2.43.0


From a1b664f92e712591dbb622dba473947549924075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:17 +0000
Subject: [PATCH 35/56] fix: Triangle loader accessed vertices out of bounds
 for invalid element files

Errors in the .ele file are reported as element errors.
---
 src/lib/loader/MeshTriangleLoader.inl | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/lib/loader/MeshTriangleLoader.inl b/src/lib/loader/MeshTriangleLoader.inl
index 9259baf..930043a 100644
--- a/src/lib/loader/MeshTriangleLoader.inl
+++ b/src/lib/loader/MeshTriangleLoader.inl
@@ -128,29 +128,34 @@ void MeshTriangleLoader<T>::setupElement(Mesh<T,2>& mesh, const std::string& ele
 				indexShift = 0;
 			
 			if(index-indexShift != nextIndex)
-				throw LoadTriangleNodeErrorException();
+				throw LoadTriangleElementErrorException();
 			nextIndex = index-indexShift + 1;
 			
 			skipWS(it, line.end());
 			if(it == line.end())
-				throw LoadTriangleNodeErrorException();
+				throw LoadTriangleElementErrorException();
 			
 			size_t i1 = extractFirstNumber<size_t,LoadTriangleElementErrorException>(it, line.end());
 
 			skipWS(it, line.end());
 			if(it == line.end())
-				throw LoadTriangleNodeErrorException();
+				throw LoadTriangleElementErrorException();
 
 			size_t i2 = extractFirstNumber<size_t,LoadTriangleElementErrorException>(it, line.end());
 
 			skipWS(it, line.end());
 			if(it == line.end())
-				throw LoadTriangleNodeErrorException();
+				throw LoadTriangleElementErrorException();
 
 			size_t i3 = extractFirstNumber<size_t,LoadTriangleElementErrorException>(it, line.end());
 
 			// Everything else is ignored
 
+			if(i1-indexShift >= mesh.vertices().size() ||
+				i2-indexShift >= mesh.vertices().size() ||
+				i3-indexShift >= mesh.vertices().size())
+				throw LoadTriangleElementErrorException();
+
 			MeshElement<T,2>* me = new MeshElement<T,2>();
 			me->Vertices[0] = mesh.vertex(i1-indexShift);
 			me->Vertices[1] = mesh.vertex(i2-indexShift);
-- 
2.43.0


From 38383e7ef3a941837f98379067a5a15c095788dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:17 +0000
Subject: [PATCH 36/56] fix: OBJ loader read out of bounds for invalid face
 indices and degenerate faces

---
 src/objloader/external/tiny_obj_loader.h | 10 +++++++++-
 src/objloader/loader/MeshObjLoader.inl   | 13 ++++++++-----
 2 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/src/objloader/external/tiny_obj_loader.h b/src/objloader/external/tiny_obj_loader.h
index 820d0bf..acc9d91 100644
--- a/src/objloader/external/tiny_obj_loader.h
+++ b/src/objloader/external/tiny_obj_loader.h
@@ -561,7 +561,11 @@ updateVertex(std::map<vertex_index, unsigned int> &vertexCache,
     return it->second;
   }
 
-  assert(in_positions.size() > static_cast<unsigned int>(3 * i.v_idx + 2));
+  // Invalid index, has to be checked by the user
+  if (i.v_idx < 0 ||
+      static_cast<size_t>(i.v_idx) * 3 + 2 >= in_positions.size()) {
+    return static_cast<unsigned int>(-1);
+  }
 
   positions.push_back(in_positions[3 * static_cast<size_t>(i.v_idx) + 0]);
   positions.push_back(in_positions[3 * static_cast<size_t>(i.v_idx) + 1]);
@@ -628,6 +632,10 @@ static bool exportFaceGroupToShape(
   for (size_t i = 0; i < faceGroup.size(); i++) {
     const std::vector<vertex_index> &face = faceGroup[i];
 
+    if (face.size() < 3) { // Not a polygon
+      continue;
+    }
+
     vertex_index i0 = face[0];
     vertex_index i1(-1);
     vertex_index i2 = face[1];
diff --git a/src/objloader/loader/MeshObjLoader.inl b/src/objloader/loader/MeshObjLoader.inl
index e238b1f..6330d02 100644
--- a/src/objloader/loader/MeshObjLoader.inl
+++ b/src/objloader/loader/MeshObjLoader.inl
@@ -46,6 +46,9 @@ Mesh<T,2> MeshObjLoader<T,yI,xI>::load(const std::vector<tinyobj::shape_t>& shap
 		const size_t vertexCount = shape.mesh.positions.size() / 3;
 		const size_t elementCount = shape.mesh.indices.size() / 3;
 
+		if(vertexCount == 0 || elementCount == 0)
+			throw LoadObjErrorException();
+
 		mesh.reserveVertices(vertexCount);
 		mesh.reserveElements(elementCount);
 
@@ -59,16 +62,16 @@ Mesh<T,2> MeshObjLoader<T,yI,xI>::load(const std::vector<tinyobj::shape_t>& shap
 
 		for (size_t i = 0; i < elementCount; ++i)
 		{
-			ME* s = new ME();
 			for (Dimension j = 0; j < 3; ++j)
 			{
-				Index idx = shape.mesh.indices[3 * i + j];
-				if(idx >= vertexCount)
+				if(shape.mesh.indices[3 * i + j] >= vertexCount)
 					throw LoadObjErrorException();
-				
-				s->Vertices[j] = mesh.vertex(idx);
 			}
 
+			ME* s = new ME();
+			for (Dimension j = 0; j < 3; ++j)
+				s->Vertices[j] = mesh.vertex(shape.mesh.indices[3 * i + j]);
+
 			mesh.addElement(s);
 		}
 
-- 
2.43.0


From 1350eeceb0d2b12850a752af5675819b9c581488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:20 +0000
Subject: [PATCH 37/56] fix: negating a complex vector did not compile

---
 src/lib/Vector.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/Vector.inl b/src/lib/Vector.inl
index 8db2e87..27151c8 100644
--- a/src/lib/Vector.inl
+++ b/src/lib/Vector.inl
@@ -281,7 +281,7 @@ template<typename T, class DC>
 Vector<T,DC> operator -(const Vector<T,DC>& v)
 {
 	Vector<T,DC> tmp = v;
-	return (tmp *= -1);
+	return (tmp *= (T)-1);
 }
 
 template<typename T, class DC>
-- 
2.43.0


From bca320d5a135967041bbe428fd0e9112b7177410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:54 +0000
Subject: [PATCH 38/56] fix: ilu0 left the diagonal of L empty where the matrix
 has no diagonal entry

---
 src/lib/LU.inl | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/lib/LU.inl b/src/lib/LU.inl
index 5cea518..71d174d 100644
--- a/src/lib/LU.inl
+++ b/src/lib/LU.inl
@@ -246,11 +246,13 @@ namespace LU {
 			}
 
 			// Seperate M into L and U
+			for(Index i = 0; i < M.rows(); ++i)
+				L.set(i, i, 1);
+
 			for(auto it = M.begin(); it != M.end(); ++it)
 			{
 				if(it.column() == it.row())
 				{
-					L.set(it.row(), it.column(), 1);
 					U.set(it.row(), it.column(), *it);
 				}
 				else if(it.column() < it.row())
-- 
2.43.0


From 2fb313a3bcd51f72bc548ebc2a9f37653eac324d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:32 +0000
Subject: [PATCH 39/56] fix: permutating a vector used the inverse of the
 permutation applied to matrices

---
 src/lib/matrix/MatrixOrder.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/matrix/MatrixOrder.inl b/src/lib/matrix/MatrixOrder.inl
index 5e1eda1..569a929 100644
--- a/src/lib/matrix/MatrixOrder.inl
+++ b/src/lib/matrix/MatrixOrder.inl
@@ -143,7 +143,7 @@ DynamicVector<T> permutate(const DynamicVector<T>& m, const DynamicVector<Index>
 
 	DynamicVector<T> nm(m.size());
 	for(Index i = 0; i < m.size(); ++i)
-		nm.set(permutation[i], m[i]);
+		nm.set(i, m[permutation[i]]);
 
 	return nm;
 }
-- 
2.43.0


From 3f027957adb96d8d8f1495b03348adbcc31ef894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:11 +0000
Subject: [PATCH 40/56] fix: OBJ names were read into unbounded and
 uninitialised buffers

---
 src/objloader/external/tiny_obj_loader.h | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/objloader/external/tiny_obj_loader.h b/src/objloader/external/tiny_obj_loader.h
index acc9d91..067e81c 100644
--- a/src/objloader/external/tiny_obj_loader.h
+++ b/src/objloader/external/tiny_obj_loader.h
@@ -769,12 +769,12 @@ void LoadMtl(std::map<std::string, int> &material_map,
       InitMaterial(material);
 
       // set new mtl name
-      char namebuf[TINYOBJ_SSCANF_BUFFER_SIZE];
+      char namebuf[TINYOBJ_SSCANF_BUFFER_SIZE] = "";
       token += 7;
 #ifdef _MSC_VER
       sscanf_s(token, "%s", namebuf, (unsigned)_countof(namebuf));
 #else
-      sscanf(token, "%s", namebuf);
+      sscanf(token, "%4095s", namebuf);
 #endif
       material.name = namebuf;
       continue;
@@ -1102,12 +1102,12 @@ bool LoadObj(std::vector<shape_t> &shapes,       // [output]
     // use mtl
     if ((0 == strncmp(token, "usemtl", 6)) && IS_SPACE((token[6]))) {
 
-      char namebuf[TINYOBJ_SSCANF_BUFFER_SIZE];
+      char namebuf[TINYOBJ_SSCANF_BUFFER_SIZE] = "";
       token += 7;
 #ifdef _MSC_VER
       sscanf_s(token, "%s", namebuf, (unsigned)_countof(namebuf));
 #else
-      sscanf(token, "%s", namebuf);
+      sscanf(token, "%4095s", namebuf);
 #endif
 
       int newMaterialId = -1;
@@ -1130,12 +1130,12 @@ bool LoadObj(std::vector<shape_t> &shapes,       // [output]
 
     // load mtl
     if ((0 == strncmp(token, "mtllib", 6)) && IS_SPACE((token[6]))) {
-      char namebuf[TINYOBJ_SSCANF_BUFFER_SIZE];
+      char namebuf[TINYOBJ_SSCANF_BUFFER_SIZE] = "";
       token += 7;
 #ifdef _MSC_VER
       sscanf_s(token, "%s", namebuf, (unsigned)_countof(namebuf));
 #else
-      sscanf(token, "%s", namebuf);
+      sscanf(token, "%4095s", namebuf);
 #endif
 
       std::string err_mtl;
@@ -1203,12 +1203,12 @@ bool LoadObj(std::vector<shape_t> &shapes,       // [output]
       shape = shape_t();
 
       // @todo { multiple object name? }
-      char namebuf[TINYOBJ_SSCANF_BUFFER_SIZE];
+      char namebuf[TINYOBJ_SSCANF_BUFFER_SIZE] = "";
       token += 2;
 #ifdef _MSC_VER
       sscanf_s(token, "%s", namebuf, (unsigned)_countof(namebuf));
 #else
-      sscanf(token, "%s", namebuf);
+      sscanf(token, "%4095s", namebuf);
 #endif
       name = std::string(namebuf);
 
@@ -1218,12 +1218,12 @@ bool LoadObj(std::vector<shape_t> &shapes,       // [output]
     if (token[0] == 't' && IS_SPACE(token[1])) {
       tag_t tag;
 
-      char namebuf[4096];
+      char namebuf[4096] = "";
       token += 2;
 #ifdef _MSC_VER
       sscanf_s(token, "%s", namebuf, (unsigned)_countof(namebuf));
 #else
-      sscanf(token, "%s", namebuf);
+      sscanf(token, "%4095s", namebuf);
 #endif
       tag.name = std::string(namebuf);
 
-- 
2.43.0


From 89e99a2771d5cc24ee001a4ed0964bd2c9ddb7c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:48 +0000
Subject: [PATCH 41/56] fix: OBJ tags were read past the end of their line

---
 src/objloader/external/tiny_obj_loader.h | 44 ++++++++----------------
 1 file changed, 14 insertions(+), 30 deletions(-)

diff --git a/src/objloader/external/tiny_obj_loader.h b/src/objloader/external/tiny_obj_loader.h
index 067e81c..d00d1b0 100644
--- a/src/objloader/external/tiny_obj_loader.h
+++ b/src/objloader/external/tiny_obj_loader.h
@@ -508,7 +508,7 @@ static tag_sizes parseTagTriple(const char *&token) {
   token++;
 
   ts.num_strings = atoi(token);
-  token += strcspn(token, "/ \t\r") + 1;
+  token += strcspn(token, "/ \t\r");
 
   return ts;
 }
@@ -1218,43 +1218,27 @@ bool LoadObj(std::vector<shape_t> &shapes,       // [output]
     if (token[0] == 't' && IS_SPACE(token[1])) {
       tag_t tag;
 
-      char namebuf[4096] = "";
       token += 2;
-#ifdef _MSC_VER
-      sscanf_s(token, "%s", namebuf, (unsigned)_countof(namebuf));
-#else
-      sscanf(token, "%4095s", namebuf);
-#endif
-      tag.name = std::string(namebuf);
-
-      token += tag.name.size() + 1;
+      tag.name = parseString(token);
+      token += strspn(token, " \t\r");
 
       tag_sizes ts = parseTagTriple(token);
+      token += strspn(token, " \t\r");
 
-      tag.intValues.resize(static_cast<size_t>(ts.num_ints));
-
-      for (size_t i = 0; i < static_cast<size_t>(ts.num_ints); ++i) {
-        tag.intValues[i] = atoi(token);
-        token += strcspn(token, "/ \t\r") + 1;
+      // Never read past the end of the line, whatever the counts say
+      for (int i = 0; i < ts.num_ints && !IS_NEW_LINE(token[0]); ++i) {
+        tag.intValues.push_back(parseInt(token));
+        token += strspn(token, " \t\r");
       }
 
-      tag.floatValues.resize(static_cast<size_t>(ts.num_floats));
-      for (size_t i = 0; i < static_cast<size_t>(ts.num_floats); ++i) {
-        tag.floatValues[i] = parseFloat(token);
-        token += strcspn(token, "/ \t\r") + 1;
+      for (int i = 0; i < ts.num_floats && !IS_NEW_LINE(token[0]); ++i) {
+        tag.floatValues.push_back(parseFloat(token));
+        token += strspn(token, " \t\r");
       }
 
-      tag.stringValues.resize(static_cast<size_t>(ts.num_strings));
-      for (size_t i = 0; i < static_cast<size_t>(ts.num_strings); ++i) {
-        char stringValueBuffer[4096];
-
-#ifdef _MSC_VER
-        sscanf_s(token, "%s", stringValueBuffer, (unsigned)_countof(stringValueBuffer));
-#else
-        sscanf(token, "%s", stringValueBuffer);
-#endif
-        tag.stringValues[i] = stringValueBuffer;
-        token += tag.stringValues[i].size() + 1;
+      for (int i = 0; i < ts.num_strings && !IS_NEW_LINE(token[0]); ++i) {
+        tag.stringValues.push_back(parseString(token));
+        token += strspn(token, " \t\r");
       }
 
       tags.push_back(tag);
-- 
2.43.0


From 46eb5665725482474cac1c5fb8d56815eb253524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:20 +0000
Subject: [PATCH 42/56] fix: OBJ exponents and indices overflowed int

---
 src/objloader/external/tiny_obj_loader.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/objloader/external/tiny_obj_loader.h b/src/objloader/external/tiny_obj_loader.h
index d00d1b0..dedc09b 100644
--- a/src/objloader/external/tiny_obj_loader.h
+++ b/src/objloader/external/tiny_obj_loader.h
@@ -446,8 +446,10 @@ static bool tryParseDouble(const char *s, const char *s_end, double *result) {
 
     read = 0;
     while ((end_not_reached = (curr != s_end)) && IS_DIGIT(*curr)) {
-      exponent *= 10;
-      exponent += static_cast<int>(*curr - 0x30);
+      if (exponent < 100000) { // Far beyond the range of double already
+        exponent *= 10;
+        exponent += static_cast<int>(*curr - 0x30);
+      }
       curr++;
       read++;
     }
@@ -572,14 +574,14 @@ updateVertex(std::map<vertex_index, unsigned int> &vertexCache,
   positions.push_back(in_positions[3 * static_cast<size_t>(i.v_idx) + 2]);
 
   if ((i.vn_idx >= 0) &&
-      (static_cast<size_t>(i.vn_idx * 3 + 2) < in_normals.size())) {
+      (static_cast<size_t>(i.vn_idx) * 3 + 2 < in_normals.size())) {
     normals.push_back(in_normals[3 * static_cast<size_t>(i.vn_idx) + 0]);
     normals.push_back(in_normals[3 * static_cast<size_t>(i.vn_idx) + 1]);
     normals.push_back(in_normals[3 * static_cast<size_t>(i.vn_idx) + 2]);
   }
 
   if ((i.vt_idx >= 0) &&
-      (static_cast<size_t>(i.vt_idx * 2 + 1) < in_texcoords.size())) {
+      (static_cast<size_t>(i.vt_idx) * 2 + 1 < in_texcoords.size())) {
     texcoords.push_back(in_texcoords[2 * static_cast<size_t>(i.vt_idx) + 0]);
     texcoords.push_back(in_texcoords[2 * static_cast<size_t>(i.vt_idx) + 1]);
   }
-- 
2.43.0


From 4adad1f556b86fd7458a06a5d12c8520b47ebf8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:54 +0000
Subject: [PATCH 43/56] fix: OBJ groups ending with a material change lost
 their faces

---
 src/objloader/external/tiny_obj_loader.h | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/objloader/external/tiny_obj_loader.h b/src/objloader/external/tiny_obj_loader.h
index dedc09b..ead8780 100644
--- a/src/objloader/external/tiny_obj_loader.h
+++ b/src/objloader/external/tiny_obj_loader.h
@@ -1012,6 +1012,7 @@ bool LoadObj(std::vector<shape_t> &shapes,       // [output]
   std::map<std::string, int> material_map;
   std::map<vertex_index, unsigned int> vertexCache;
   int material = -1;
+  bool exported = false; // Faces of the shape were already exported by usemtl
 
   shape_t shape;
 
@@ -1121,8 +1122,9 @@ bool LoadObj(std::vector<shape_t> &shapes,       // [output]
 
       if (newMaterialId != material) {
         // Create per-face material
-        exportFaceGroupToShape(shape, vertexCache, v, vn, vt, faceGroup, tags,
-                               material, name, true, flags, err );
+        if (exportFaceGroupToShape(shape, vertexCache, v, vn, vt, faceGroup,
+                                   tags, material, name, true, flags, err ))
+          exported = true;
         faceGroup.clear();
         material = newMaterialId;
       }
@@ -1159,9 +1161,10 @@ bool LoadObj(std::vector<shape_t> &shapes,       // [output]
       bool ret =
           exportFaceGroupToShape(shape, vertexCache, v, vn, vt, faceGroup, tags,
                                  material, name, true, flags, err );
-      if (ret) {
+      if (ret || exported) {
         shapes.push_back(shape);
       }
+      exported = false;
 
       shape = shape_t();
 
@@ -1196,9 +1199,10 @@ bool LoadObj(std::vector<shape_t> &shapes,       // [output]
       bool ret =
           exportFaceGroupToShape(shape, vertexCache, v, vn, vt, faceGroup, tags,
                                  material, name, true, flags, err );
-      if (ret) {
+      if (ret || exported) {
         shapes.push_back(shape);
       }
+      exported = false;
 
       // material = -1;
       faceGroup.clear();
@@ -1251,7 +1255,7 @@ bool LoadObj(std::vector<shape_t> &shapes,       // [output]
 
   bool ret = exportFaceGroupToShape(shape, vertexCache, v, vn, vt, faceGroup,
                                     tags, material, name, true, flags, err );
-  if (ret) {
+  if (ret || exported) {
     shapes.push_back(shape);
   }
   faceGroup.clear(); // for safety
-- 
2.43.0


From a982a4ac045e7915ec533c12bd9f5422d0514c58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:56 +0000
Subject: [PATCH 44/56] fix: OBJ vertices were doubled at material changes

---
 src/objloader/external/tiny_obj_loader.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/objloader/external/tiny_obj_loader.h b/src/objloader/external/tiny_obj_loader.h
index ead8780..9d4eace 100644
--- a/src/objloader/external/tiny_obj_loader.h
+++ b/src/objloader/external/tiny_obj_loader.h
@@ -616,7 +616,7 @@ static void InitMaterial(material_t &material) {
 }
 
 static bool exportFaceGroupToShape(
-    shape_t &shape, std::map<vertex_index, unsigned int> vertexCache,
+    shape_t &shape, std::map<vertex_index, unsigned int> &vertexCache,
     const std::vector<float> &in_positions,
     const std::vector<float> &in_normals,
     const std::vector<float> &in_texcoords,
@@ -1123,7 +1123,7 @@ bool LoadObj(std::vector<shape_t> &shapes,       // [output]
       if (newMaterialId != material) {
         // Create per-face material
         if (exportFaceGroupToShape(shape, vertexCache, v, vn, vt, faceGroup,
-                                   tags, material, name, true, flags, err ))
+                                   tags, material, name, false, flags, err ))
           exported = true;
         faceGroup.clear();
         material = newMaterialId;
@@ -1165,6 +1165,7 @@ bool LoadObj(std::vector<shape_t> &shapes,       // [output]
         shapes.push_back(shape);
       }
       exported = false;
+      vertexCache.clear();
 
       shape = shape_t();
 
@@ -1203,6 +1204,7 @@ bool LoadObj(std::vector<shape_t> &shapes,       // [output]
         shapes.push_back(shape);
       }
       exported = false;
+      vertexCache.clear();
 
       // material = -1;
       faceGroup.clear();
-- 
2.43.0


From 644cd261c5eff8704e588d22f1bb149b52d3a54f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:12 +0000
Subject: [PATCH 45/56] fix: a new mesh edge left one of its vertices
 uninitialised

---
 src/lib/mesh/Mesh.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/mesh/Mesh.inl b/src/lib/mesh/Mesh.inl
index 4a89737..64b46e5 100644
--- a/src/lib/mesh/Mesh.inl
+++ b/src/lib/mesh/Mesh.inl
@@ -30,7 +30,7 @@ MeshVertex<T,K>::MeshVertex(const FixedVector<T,K>& vertex) :
 template<typename T, Dimension K>
 MeshEdge<T,K>::MeshEdge()
 {
-	for(Index i = 0; i < K-1; ++i)
+	for(Index i = 0; i < K; ++i)
 		Vertices[i] = nullptr;
 	
 	Elements[0] = nullptr;
-- 
2.43.0


From 6f25404a522e6ae0b48d56e0f29fa21233544c28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:26 +0000
Subject: [PATCH 46/56] fix: loading Triangle files depended on the global
 locale

---
 src/lib/loader/MeshTriangleLoader.inl | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lib/loader/MeshTriangleLoader.inl b/src/lib/loader/MeshTriangleLoader.inl
index 930043a..b10326b 100644
--- a/src/lib/loader/MeshTriangleLoader.inl
+++ b/src/lib/loader/MeshTriangleLoader.inl
@@ -190,6 +190,7 @@ T2 MeshTriangleLoader<T>::extractFirstNumber(std::string::const_iterator& start,
 	std::string::const_iterator end)
 {
 	std::stringstream stream(std::string(start, end));
+	stream.imbue(std::locale::classic());// Format of the file is independent of the user's locale
 	T2 ret = 0;
 	if(!(stream >> ret))
 		throw E();
-- 
2.43.0


From 80865efbd72ecf77f7194828bc77caec1e1458b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:26 +0000
Subject: [PATCH 47/56] fix: exported VTK files depended on the global locale

---
 src/lib/export/VTKExporter.inl | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lib/export/VTKExporter.inl b/src/lib/export/VTKExporter.inl
index bc227c0..0ed3e96 100644
--- a/src/lib/export/VTKExporter.inl
+++ b/src/lib/export/VTKExporter.inl
@@ -16,6 +16,7 @@ void VTKExporter<T,K>::write(const std::string& path,
 	static_assert(K >= 1 && K <= 3, "Only 1d, 2d and 3d data can be exported.");
 
 	std::ofstream stream(path.c_str());
+	stream.imbue(std::locale::classic());// Format of the file is independent of the user's locale
 	// Header
 	stream << "<?xml version=\"1.0\"?>" << std::endl
 		<< "<VTKFile type=\"UnstructuredGrid\" version=\"0.1\" byte_order=\"LittleEndian\">" << std::endl
-- 
2.43.0


From 93fa796b7166dd54fc10aecc055af24e10224b65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:37 +0000
Subject: [PATCH 48/56] fix: vector operations with one of the own elements as
 scalar used the changed element

---
 src/lib/Vector.h   | 8 ++++----
 src/lib/Vector.inl | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/lib/Vector.h b/src/lib/Vector.h
index ba55304..acc23e1 100644
--- a/src/lib/Vector.h
+++ b/src/lib/Vector.h
@@ -30,13 +30,13 @@ public:
 
 	// Element wise operations
 	Vector& operator +=(const Vector& v2);
-	Vector& operator +=(const T& f);
+	Vector& operator +=(T f);
 	Vector& operator -=(const Vector& v2);
-	Vector& operator -=(const T& f);
+	Vector& operator -=(T f);
 	Vector& operator *=(const Vector& v2);
-	Vector& operator *=(const T& f);
+	Vector& operator *=(T f);
 	Vector& operator /=(const Vector& v2);
-	Vector& operator /=(const T& f);
+	Vector& operator /=(T f);
 
 	const T& at(Index i) const;
 	void set(Index i, const T& v);
diff --git a/src/lib/Vector.inl b/src/lib/Vector.inl
index 27151c8..d504d07 100644
--- a/src/lib/Vector.inl
+++ b/src/lib/Vector.inl
@@ -163,7 +163,7 @@ Vector<T,DC>& Vector<T,DC>::operator +=(const Vector<T,DC>& v)
 }
 
 template<typename T, class DC>
-Vector<T,DC>& Vector<T,DC>::operator +=(const T& f)
+Vector<T,DC>& Vector<T,DC>::operator +=(T f)
 {
 	for (Index i = 0; i < this->size(); ++i)
 		this->mData[i] += f;
@@ -184,7 +184,7 @@ Vector<T,DC>& Vector<T,DC>::operator -=(const Vector<T,DC>& v)
 }
 
 template<typename T, class DC>
-Vector<T,DC>& Vector<T,DC>::operator -=(const T& f)
+Vector<T,DC>& Vector<T,DC>::operator -=(T f)
 {
 	for (Index i = 0; i < this->size(); ++i)
 		this->mData[i] -= f;
@@ -205,7 +205,7 @@ Vector<T,DC>& Vector<T,DC>::operator *=(const Vector<T,DC>& v)
 }
 
 template<typename T, class DC>
-Vector<T,DC>& Vector<T,DC>::operator *=(const T& f)
+Vector<T,DC>& Vector<T,DC>::operator *=(T f)
 {
 	for (Index i = 0; i < this->size(); ++i)
 		this->mData[i] *= f;
@@ -226,7 +226,7 @@ Vector<T,DC>& Vector<T,DC>::operator /=(const Vector<T,DC>& v)
 }
 
 template<typename T, class DC>
-Vector<T,DC>& Vector<T,DC>::operator /=(const T& f)
+Vector<T,DC>& Vector<T,DC>::operator /=(T f)
 {
 	for (Index i = 0; i < this->size(); ++i)
 		this->mData[i] /= f;// TODO: NAN?
-- 
2.43.0


From 921ed18b9caf3da54e5a3f049d0fa366ff1838c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:37 +0000
Subject: [PATCH 49/56] fix: scaling a matrix by one of its own entries used
 the changed entry

---
 src/lib/matrix/DenseMatrix.h    | 2 +-
 src/lib/matrix/DenseMatrix.inl  | 2 +-
 src/lib/matrix/FixedMatrix.h    | 2 +-
 src/lib/matrix/FixedMatrix.inl  | 2 +-
 src/lib/matrix/SparseMatrix.h   | 2 +-
 src/lib/matrix/SparseMatrix.inl | 2 +-
 6 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/lib/matrix/DenseMatrix.h b/src/lib/matrix/DenseMatrix.h
index ea7d47b..06988a2 100644
--- a/src/lib/matrix/DenseMatrix.h
+++ b/src/lib/matrix/DenseMatrix.h
@@ -89,7 +89,7 @@ public:
 	* @param f Scalar.
 	* @return A reference to this matrix.
 	*/
-	DenseMatrix& operator *=(const T& f);
+	DenseMatrix& operator *=(T f);
 
 	/**
 	* @brief Swaps the entries of the matrices.
diff --git a/src/lib/matrix/DenseMatrix.inl b/src/lib/matrix/DenseMatrix.inl
index c76365a..a5dd24f 100644
--- a/src/lib/matrix/DenseMatrix.inl
+++ b/src/lib/matrix/DenseMatrix.inl
@@ -95,7 +95,7 @@ DenseMatrix<T>& DenseMatrix<T>::operator *=(const BaseMatrix<T,DC2>& m)
 }
 
 template<typename T>
-DenseMatrix<T>& DenseMatrix<T>::operator *=(const T& f)
+DenseMatrix<T>& DenseMatrix<T>::operator *=(T f)
 {
 	for (Index i = 0; i < this->size(); ++i)
 		this->mValues.Container[i] *= f;
diff --git a/src/lib/matrix/FixedMatrix.h b/src/lib/matrix/FixedMatrix.h
index 969c572..a898c96 100644
--- a/src/lib/matrix/FixedMatrix.h
+++ b/src/lib/matrix/FixedMatrix.h
@@ -68,7 +68,7 @@ public:
 	* @param f Scalar.
 	* @return A reference to this matrix.
 	*/
-	FixedMatrix& operator *=(const T& f);
+	FixedMatrix& operator *=(T f);
 
 	/**
 	* @brief Swaps the entries of the matrices.
diff --git a/src/lib/matrix/FixedMatrix.inl b/src/lib/matrix/FixedMatrix.inl
index c98b05a..50d18d6 100644
--- a/src/lib/matrix/FixedMatrix.inl
+++ b/src/lib/matrix/FixedMatrix.inl
@@ -74,7 +74,7 @@ FixedMatrix<T,K1,K2>& FixedMatrix<T,K1,K2>::operator *=(const FixedMatrix<T,K1,K
 }
 
 template<typename T, Dimension K1, Dimension K2>
-FixedMatrix<T,K1,K2>& FixedMatrix<T,K1,K2>::operator *=(const T& f)
+FixedMatrix<T,K1,K2>& FixedMatrix<T,K1,K2>::operator *=(T f)
 {
 	for (Index i = 0; i < this->size(); ++i)
 		this->mValues.Container[i] *= f;
diff --git a/src/lib/matrix/SparseMatrix.h b/src/lib/matrix/SparseMatrix.h
index 4c24cb7..b1ba0f4 100644
--- a/src/lib/matrix/SparseMatrix.h
+++ b/src/lib/matrix/SparseMatrix.h
@@ -589,7 +589,7 @@ public:
 	* @return A reference to this matrix.
 	* @todo Is there a better approach?
 	*/
-	SparseMatrix& operator *=(const T& f);
+	SparseMatrix& operator *=(T f);
 
 	/**
 	* @brief The column count
diff --git a/src/lib/matrix/SparseMatrix.inl b/src/lib/matrix/SparseMatrix.inl
index 278936f..73e9031 100644
--- a/src/lib/matrix/SparseMatrix.inl
+++ b/src/lib/matrix/SparseMatrix.inl
@@ -692,7 +692,7 @@ SparseMatrix<T>& SparseMatrix<T>::operator *=(const SparseMatrix<T>& v2)
 }
 
 template<typename T>
-SparseMatrix<T>& SparseMatrix<T>::operator *=(const T& f)
+SparseMatrix<T>& SparseMatrix<T>::operator *=(T f)
 {
 	if (f == (T)0)
 	{
-- 
2.43.0


From 20c66b555b24201711aaed2e7a96e2eb601306e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:37 +0000
Subject: [PATCH 50/56] fix: cg and pcg with a limit of zero reported one step

---
 src/lib/CG.inl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib/CG.inl b/src/lib/CG.inl
index d610bdc..78135e5 100644
--- a/src/lib/CG.inl
+++ b/src/lib/CG.inl
@@ -55,7 +55,7 @@ namespace CG {
 			}
 
 			if (it_stat)
-				*it_stat = k + 1;
+				*it_stat = k < maxIter ? k + 1 : k;// No step at all with a limit of zero
 
 			return x;
 		}
@@ -113,7 +113,7 @@ namespace CG {
 			}
 
 			if (it_stat)
-				*it_stat = k + 1;
+				*it_stat = k < maxIter ? k + 1 : k;// No step at all with a limit of zero
 
 			return x;
 		}
-- 
2.43.0


From aa2956024613da6cb296b4187c6bc1010689c227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:37 +0000
Subject: [PATCH 51/56] fix: names of exported data sets broke the XML of VTK
 files

---
 src/lib/export/VTKExporter.h   |  3 +++
 src/lib/export/VTKExporter.inl | 24 +++++++++++++++++++++---
 2 files changed, 24 insertions(+), 3 deletions(-)

diff --git a/src/lib/export/VTKExporter.h b/src/lib/export/VTKExporter.h
index 0e91b31..20908a4 100644
--- a/src/lib/export/VTKExporter.h
+++ b/src/lib/export/VTKExporter.h
@@ -29,6 +29,9 @@ public:
 		const std::map<std::string, V*>& pointData,
 		const std::map<std::string, V*>& cellData,
 		int outputOptions = 0);
+
+private:
+	static std::string escape(const std::string& name);
 };
 
 NS_END_NAMESPACE
diff --git a/src/lib/export/VTKExporter.inl b/src/lib/export/VTKExporter.inl
index 0ed3e96..2272e9c 100644
--- a/src/lib/export/VTKExporter.inl
+++ b/src/lib/export/VTKExporter.inl
@@ -95,11 +95,11 @@ void VTKExporter<T,K>::write(const std::string& path,
 	// Point data
 	stream << "<PointData";
 	if(!pointData.empty())
-		stream << " Scalars=\"" << pointData.begin()->first << "\"";
+		stream << " Scalars=\"" << escape(pointData.begin()->first) << "\"";
 	stream << ">" << std::endl;
 	for(auto res : pointData)
 	{
-		stream << "<DataArray Name=\"" << res.first << "\" type=\"Float32\" format=\"ascii\">" << std::endl;
+		stream << "<DataArray Name=\"" << escape(res.first) << "\" type=\"Float32\" format=\"ascii\">" << std::endl;
 		for(Index i = 0; i < res.second->size(); ++i)
 			stream << res.second->at(i) << " ";
 		stream << std::endl << "</DataArray>" << std::endl;
@@ -126,7 +126,7 @@ void VTKExporter<T,K>::write(const std::string& path,
 	stream << "<CellData>" << std::endl;
 	for(auto res : cellData)
 	{
-		stream << "<DataArray Name=\"" << res.first << "\" type=\"Float32\" format=\"ascii\">" << std::endl;
+		stream << "<DataArray Name=\"" << escape(res.first) << "\" type=\"Float32\" format=\"ascii\">" << std::endl;
 		for(Index i = 0; i < res.second->size(); ++i)
 			stream << res.second->at(i) << " ";
 		stream << std::endl << "</DataArray>" << std::endl;
@@ -179,4 +179,22 @@ void VTKExporter<T,K>::write(const std::string& path,
 	stream.close();
 }
 
+template<typename T, Dimension K>
+std::string VTKExporter<T,K>::escape(const std::string& name)
+{
+	std::string r;
+	for(char c : name)
+	{
+		switch(c)
+		{
+		case '&': r += "&amp;"; break;
+		case '<': r += "&lt;"; break;
+		case '>': r += "&gt;"; break;
+		case '"': r += "&quot;"; break;
+		default: r += c; break;
+		}
+	}
+	return r;
+}
+
 NS_END_NAMESPACE
\ No newline at end of file
-- 
2.43.0


From 57b3fa2cb7adf7869dde4e5414847eba1f39a0e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:37 +0000
Subject: [PATCH 52/56] fix: exported VTK files had fewer digits than their
 number format holds

---
 src/lib/export/VTKExporter.inl | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lib/export/VTKExporter.inl b/src/lib/export/VTKExporter.inl
index 2272e9c..4d646b1 100644
--- a/src/lib/export/VTKExporter.inl
+++ b/src/lib/export/VTKExporter.inl
@@ -17,6 +17,7 @@ void VTKExporter<T,K>::write(const std::string& path,
 
 	std::ofstream stream(path.c_str());
 	stream.imbue(std::locale::classic());// Format of the file is independent of the user's locale
+	stream.precision(std::numeric_limits<float>::max_digits10);// Everything a Float32 can hold
 	// Header
 	stream << "<?xml version=\"1.0\"?>" << std::endl
 		<< "<VTKFile type=\"UnstructuredGrid\" version=\"0.1\" byte_order=\"LittleEndian\">" << std::endl
-- 
2.43.0


From cc6ca6c1b34485adba626c36f78f04b245a905ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:37 +0000
Subject: [PATCH 53/56] fix: a wrong count in a Triangle file exhausted the
 memory

---
 src/lib/loader/MeshTriangleLoader.inl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib/loader/MeshTriangleLoader.inl b/src/lib/loader/MeshTriangleLoader.inl
index b10326b..c60ae8f 100644
--- a/src/lib/loader/MeshTriangleLoader.inl
+++ b/src/lib/loader/MeshTriangleLoader.inl
@@ -55,7 +55,7 @@ void MeshTriangleLoader<T>::setupNode(Mesh<T,2>& mesh, const std::string& nodeSt
 			if(it == line.end() || extractFirstNumber<int,LoadTriangleNodeErrorException>(it, line.end()) != 2)
 				throw LoadTriangleNodeErrorException();
 			
-			mesh.reserveVertices(nodes);
+			mesh.reserveVertices(std::min(nodes, nodeStr.size()));// The count may be wrong
 			// Everything else is ignored!
 			parseMode = 1;
 		}
@@ -117,7 +117,7 @@ void MeshTriangleLoader<T>::setupElement(Mesh<T,2>& mesh, const std::string& ele
 			if(it == line.end() || extractFirstNumber<int,LoadTriangleElementErrorException>(it, line.end()) != 3)
 				throw LoadTriangleElementErrorException();
 			
-			mesh.reserveVertices(nodes);
+			mesh.reserveVertices(std::min(nodes, eleStr.size()));// The count may be wrong
 			// Everything else is ignored!
 			parseMode = 1;
 		}
-- 
2.43.0


From 680543f24b20c45150b1177cfc7dffdd86b16470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:37 +0000
Subject: [PATCH 54/56] fix: Triangle files that are missing or without entries
 loaded to an empty mesh

---
 src/lib/loader/MeshTriangleLoader.inl | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/lib/loader/MeshTriangleLoader.inl b/src/lib/loader/MeshTriangleLoader.inl
index c60ae8f..dd0cdea 100644
--- a/src/lib/loader/MeshTriangleLoader.inl
+++ b/src/lib/loader/MeshTriangleLoader.inl
@@ -87,6 +87,9 @@ void MeshTriangleLoader<T>::setupNode(Mesh<T,2>& mesh, const std::string& nodeSt
 			mesh.addVertex(mv);
 		}
     }
+
+	if(mesh.vertices().empty())
+		throw LoadTriangleNodeErrorException();
 }
 
 template<typename T>
@@ -164,6 +167,9 @@ void MeshTriangleLoader<T>::setupElement(Mesh<T,2>& mesh, const std::string& ele
 			mesh.addElement(me);
 		}
     }
+
+	if(mesh.elements().empty())
+		throw LoadTriangleElementErrorException();
 }
 
 template<typename T>
-- 
2.43.0


From 25646a324f5d56d0e3cad0b99f05fdbf06400ae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:37 +0000
Subject: [PATCH 55/56] fix: OBJ numbers without a digit before the point were
 read as zero

---
 src/objloader/external/tiny_obj_loader.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/objloader/external/tiny_obj_loader.h b/src/objloader/external/tiny_obj_loader.h
index 9d4eace..7ac98df 100644
--- a/src/objloader/external/tiny_obj_loader.h
+++ b/src/objloader/external/tiny_obj_loader.h
@@ -393,7 +393,7 @@ static bool tryParseDouble(const char *s, const char *s_end, double *result) {
   if (*curr == '+' || *curr == '-') {
     sign = *curr;
     curr++;
-  } else if (IS_DIGIT(*curr)) { /* Pass through. */
+  } else if (IS_DIGIT(*curr) || *curr == '.') { /* Pass through. */
   } else {
     goto fail;
   }
@@ -406,8 +406,9 @@ static bool tryParseDouble(const char *s, const char *s_end, double *result) {
     read++;
   }
 
-  // We must make sure we actually got something.
-  if (read == 0)
+  // We must make sure we actually got something. A number may start with its point.
+  if (read == 0 &&
+      !(end_not_reached && *curr == '.' && curr + 1 != s_end && IS_DIGIT(curr[1])))
     goto fail;
   // We allow numbers of form "#", "###" etc.
   if (!end_not_reached)
-- 
2.43.0


From 05ba6780356b31b4ff4d743a4c8bc4a92d5b433a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:20 +0000
Subject: [PATCH 56/56] fix: neighbours set up again after adding elements were
 duplicated edges

---
 src/lib/mesh/Mesh.inl | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/lib/mesh/Mesh.inl b/src/lib/mesh/Mesh.inl
index 64b46e5..54d3ec6 100644
--- a/src/lib/mesh/Mesh.inl
+++ b/src/lib/mesh/Mesh.inl
@@ -308,7 +308,18 @@ void Mesh<T,K>::setupNeighbors()
 					// Add if found
 					if(!found)
 					{
-						edge->Elements[1]->Neighbors[j] = edge;
+						MeshEdge<T,K>*& other = edge->Elements[1]->Neighbors[j];
+						if(other)// Set up before this element was added
+						{
+							if(other->Elements[0] != S)
+								other->Elements[1] = S;
+
+							S->Neighbors[i] = other;
+							mData->Edges.pop_back();
+							delete edge;
+						}
+						else
+							other = edge;
 						break;
 					}
 				}
-- 
2.43.0

