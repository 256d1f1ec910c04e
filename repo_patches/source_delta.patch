From 7dbc06fe77a6bf4f9b1df66449d775c76faa21b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:19 +0000
Subject: [PATCH 001/114] fix: allocate storage when building a dynamic matrix
 from rows

---
 src/core/math/matrix/Dynamic.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/core/math/matrix/Dynamic.hpp b/src/core/math/matrix/Dynamic.hpp
index be8d999..88864cb 100755
--- a/src/core/math/matrix/Dynamic.hpp
+++ b/src/core/math/matrix/Dynamic.hpp
@@ -67,6 +67,7 @@ Dynamic<T>::Dynamic(std::size_t rows, std::size_t cols, T** values) {
    _nRows = rows;
    _nCols = cols;
    assert(values != nullptr);
+   _val = new T[_nRows * _nCols];
    for (std::size_t i = 0; i < _nRows; i++) {
       for (std::size_t j = 0; j < _nCols; j++) {
          val(i,j) = values[i][j];
-- 
2.43.0


From 1e4b6c327a4d0164b9cd94ac91bb316ff94090e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:19 +0000
Subject: [PATCH 002/114] fix: size and index the Kronecker product by the
 right-hand operand

---
 src/core/math/matrix/Dynamic.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/math/matrix/Dynamic.hpp b/src/core/math/matrix/Dynamic.hpp
index 88864cb..eb2994e 100755
--- a/src/core/math/matrix/Dynamic.hpp
+++ b/src/core/math/matrix/Dynamic.hpp
@@ -549,12 +549,12 @@ Dynamic<T> Dynamic<T>::reshape(std::size_t rows, std::size_t cols, Int order) {
 
 template<class T>
 Dynamic<T> Dynamic<T>::kron(Dynamic<T>& rhs) const {
-   Dynamic<T> res(_nRows + rhs._nRows, _nCols + rhs._nCols);
+   Dynamic<T> res(_nRows * rhs._nRows, _nCols * rhs._nCols);
    for (std::size_t i = 0; i < _nRows; i++) {
       for (std::size_t j = 0; j < rhs._nRows; j++) {
          for (std::size_t k = 0; k < _nCols; k++) {
             for (std::size_t l = 0; l < rhs._nCols; l++) {
-               res(i*_nRows + j, k*_nCols + l) = val(i,k) * rhs(j,l);
+               res(i*rhs._nRows + j, k*rhs._nCols + l) = val(i,k) * rhs(j,l);
             }
          }
       }
-- 
2.43.0


From 335856bfd24e0650c4a0fe11c0622e987f9b6bde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:19 +0000
Subject: [PATCH 003/114] fix: avoid unsigned wrap-around in the convolution
 lower limit

---
 src/core/math/matrix/Dynamic.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/math/matrix/Dynamic.hpp b/src/core/math/matrix/Dynamic.hpp
index eb2994e..3713da4 100755
--- a/src/core/math/matrix/Dynamic.hpp
+++ b/src/core/math/matrix/Dynamic.hpp
@@ -473,7 +473,7 @@ Dynamic<T> Dynamic<T>::convolute(const Dynamic<T> &param) const {
    for (j = 1; j <= _nRows + param._nRows - 1; j++) {
       if (j <= _nRows)
          min = j;
-      if (j + 1 - param._nRows >= 1)
+      if (j > param._nRows)
          max = j + 1 - param._nRows;
       for (i = max; i <= min; i++)
          res(j-1,0) += val(i-1,0) * param(j-i,0);
-- 
2.43.0


From 695e6e9bc34211c3addf1ff131d9d74b5d4e7eec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:46 +0000
Subject: [PATCH 004/114] fix: sort whole rows without comparing past the last
 column

---
 src/core/math/matrix/Dynamic.hpp | 4 ++--
 src/core/math/matrix/Matrix.hpp  | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/core/math/matrix/Dynamic.hpp b/src/core/math/matrix/Dynamic.hpp
index 3713da4..fab382b 100755
--- a/src/core/math/matrix/Dynamic.hpp
+++ b/src/core/math/matrix/Dynamic.hpp
@@ -193,7 +193,7 @@ Dynamic<T>::copy(
 template<class T>
 Dynamic<T>&
 Dynamic<T>::sortAndRemoveRepeatedRows_omp() {
-   sortRows_omp(0, nCols());
+   sortRows_omp(0, nCols() - 1);
    removeRepeatedSortedRows();
    return *this;
 }
@@ -201,7 +201,7 @@ Dynamic<T>::sortAndRemoveRepeatedRows_omp() {
 template<class T>
 void
 Dynamic<T>::sortAndRemoveRepeatedRows() {
-   this->sortRows(0, nCols());
+   this->sortRows(0, nCols() - 1);
    removeRepeatedSortedRows();
 }
 
diff --git a/src/core/math/matrix/Matrix.hpp b/src/core/math/matrix/Matrix.hpp
index dc4d0ab..ed59228 100755
--- a/src/core/math/matrix/Matrix.hpp
+++ b/src/core/math/matrix/Matrix.hpp
@@ -224,7 +224,7 @@ template <class T>
 void Matrix<T>::sortRows() {
     // Orders array a with nr rows and nc columns. Ordering is performed
     // using column indicated in orCol as reference. In ascending order.
-    sortRows(0, nCols());
+    sortRows(0, nCols() - 1);
 }
 
 template <class T>
-- 
2.43.0


From dced7a8793d4578a89cebe1ecc154ccc32ab6a79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:46 +0000
Subject: [PATCH 005/114] fix: do not recurse below row zero when the pivot is
 the smallest row

---
 src/core/math/matrix/Matrix.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/core/math/matrix/Matrix.hpp b/src/core/math/matrix/Matrix.hpp
index ed59228..7b500ad 100755
--- a/src/core/math/matrix/Matrix.hpp
+++ b/src/core/math/matrix/Matrix.hpp
@@ -308,7 +308,9 @@ void Matrix<T>::QSRows_(std::size_t p, std::size_t r,
                         const std::size_t iCol, const std::size_t lCol) {
     if (p < r) {
         std::size_t q = partitionRows_(p, r, iCol, lCol);
-        QSRows_(p, q - 1, iCol, lCol);
+        if (q > p) {
+            QSRows_(p, q - 1, iCol, lCol);
+        }
         QSRows_(q + 1, r, iCol, lCol);
     }
 }
-- 
2.43.0


From 43476e54adf7af6d609a09e826d4ec28e6aa1784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:46 +0000
Subject: [PATCH 006/114] fix: keep the only row when removing repeated rows of
 a one-row matrix

---
 src/core/math/matrix/Dynamic.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/core/math/matrix/Dynamic.hpp b/src/core/math/matrix/Dynamic.hpp
index fab382b..c6c634c 100755
--- a/src/core/math/matrix/Dynamic.hpp
+++ b/src/core/math/matrix/Dynamic.hpp
@@ -208,6 +208,9 @@ Dynamic<T>::sortAndRemoveRepeatedRows() {
 template<class T>
 void
 Dynamic<T>::removeRepeatedSortedRows() {
+   if (nRows() <= 1) {
+      return;
+   }
    std::vector<std::vector<T> > aux;
    aux.reserve(nRows());
    std::size_t nonRepeated = 0;
-- 
2.43.0


From 9cdc9b97b387d515c1d63fb1c58f75a94cce2113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:29 +0000
Subject: [PATCH 007/114] fix: remove every null monomial, also consecutive
 ones

---
 src/core/math/function/Polynomial.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/core/math/function/Polynomial.hpp b/src/core/math/function/Polynomial.hpp
index 6610c6f..0c4a986 100755
--- a/src/core/math/function/Polynomial.hpp
+++ b/src/core/math/function/Polynomial.hpp
@@ -149,12 +149,16 @@ void Polynomial<T>::derive(std::size_t coord) {
 
 template<class T>
 void Polynomial<T>::removeZeros() {
-    for (std::size_t i = 0; i < nm_; i++)
+    std::size_t i = 0;
+    while (i < nm_) {
         if (mv_[i] == 0) {
             nm_--;
             mv_.erase(mv_.begin() + i);
             mp_.erase(mp_.begin() + i);
+        } else {
+            i++;
         }
+    }
 }
 
 template<class T>
-- 
2.43.0


From bbcb534e5b5c4080f1425cfb5fc133298e122700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:29 +0000
Subject: [PATCH 008/114] fix: accumulate monomials of the same power when
 multiplying polynomials

---
 src/core/math/function/Polynomial.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/math/function/Polynomial.hpp b/src/core/math/function/Polynomial.hpp
index 0c4a986..1eba72c 100755
--- a/src/core/math/function/Polynomial.hpp
+++ b/src/core/math/function/Polynomial.hpp
@@ -278,7 +278,7 @@ Matrix::Dynamic<T> Polynomial<T>::polynomialToMatrix() const {
     Matrix::Dynamic<T>  res(maxPower() + 1, 1);
     // Copies monomials to vector positions.
     for (std::size_t i = 0; i < nm_; i++)
-        res(mp_[i][0], 0) = mv_[i];
+        res(mp_[i][0], 0) += mv_[i];
     return res;
 }
 
-- 
2.43.0


From c7f4d915770babfab23927625a10821f267ea6ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:38 +0000
Subject: [PATCH 009/114] fix: give the null vector a polar angle instead of
 dividing by zero

---
 src/core/math/vector/Spherical.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/math/vector/Spherical.cpp b/src/core/math/vector/Spherical.cpp
index f6777b3..70f7a3d 100755
--- a/src/core/math/vector/Spherical.cpp
+++ b/src/core/math/vector/Spherical.cpp
@@ -42,7 +42,7 @@ Spherical::Spherical(const Real theta_, const Real phi_) {
 
 Spherical& Spherical::operator=(const CVecR3& param) {
     radius = param.norm();
-    theta = acos(param.val[2] / radius);
+    theta = (radius == 0.0) ? 0.0 : acos(param.val[2] / radius);
     phi = atan2(param.val[1], param.val[0]);
     return *this;
 }
-- 
2.43.0


From b195d9ec41b7b519b4b3758cbfd002acded9ee45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:48 +0000
Subject: [PATCH 010/114] fix: lag the phase of a delayed Gaussian spectrum, as
 the sampled transforms do

---
 src/core/math/function/Gaussian.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/math/function/Gaussian.cpp b/src/core/math/function/Gaussian.cpp
index bf0c303..2f60df3 100755
--- a/src/core/math/function/Gaussian.cpp
+++ b/src/core/math/function/Gaussian.cpp
@@ -84,7 +84,7 @@ Real Gaussian::getFreq() const {
 
 std::complex<Real> Gaussian::getFourier(const Real freq) const {
     const Real pi2 = (Real) 2.0 * Constants::pi;
-    const std::complex<Real> phase(0.0, getDelay() *pi2*freq);
+    const std::complex<Real> phase(0.0, - getDelay() *pi2*freq);
     const std::complex<Real> phaseShift = std::exp(phase);
     return getSpread() * std::sqrt(pi2)
             * phaseShift
-- 
2.43.0


From a48adcc8b6305e93c0ee09fad27aa8515cc30c86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:48 +0000
Subject: [PATCH 011/114] fix: do not add a null sample after the last line of
 a table file

---
 src/core/math/function/LinearInterpolation.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/core/math/function/LinearInterpolation.hpp b/src/core/math/function/LinearInterpolation.hpp
index 7149542..8e60c3a 100755
--- a/src/core/math/function/LinearInterpolation.hpp
+++ b/src/core/math/function/LinearInterpolation.hpp
@@ -112,9 +112,8 @@ void LinearInterpolation<S, T>::initFromFile(
                                      std::string(" does not exist"));
     }
 
-    while (!iStream.eof()) {
-        std::pair<Real, Real> value;
-        iStream >> value.first >> value.second;
+    std::pair<Real, Real> value;
+    while (iStream >> value.first >> value.second) {
         value_.insert(value);
     }
 
-- 
2.43.0


From 9d7f33fcfb988f059a21b6cd1450b2cf4a717dbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:33 +0000
Subject: [PATCH 012/114] fix: keep the identifier index in step when an
 element is replaced

---
 src/core/group/Identifiable.h   |  2 ++
 src/core/group/Identifiable.hpp | 17 +++++++++++++++++
 2 files changed, 19 insertions(+)

diff --git a/src/core/group/Identifiable.h b/src/core/group/Identifiable.h
index 4e44dee..23c208f 100755
--- a/src/core/group/Identifiable.h
+++ b/src/core/group/Identifiable.h
@@ -77,6 +77,8 @@ public:
     Group<T> addId(Group<T>&&);
 #endif
 
+    virtual void set(const std::size_t i, T*);
+
     virtual void remove(const std::size_t&);
     virtual void remove(const std::vector<std::size_t>&);
 
diff --git a/src/core/group/Identifiable.hpp b/src/core/group/Identifiable.hpp
index a502457..792afaa 100755
--- a/src/core/group/Identifiable.hpp
+++ b/src/core/group/Identifiable.hpp
@@ -204,6 +204,23 @@ Group<T> Identifiable<T,Id>::addId(Group<T>&& rhs) {
 }
 #endif
 
+template<typename T, class Id>
+void Identifiable<T,Id>::set(const std::size_t i, T* elem) {
+    const Id id = elem->getId();
+    if (id == Id(0)) {
+        throw typename Error::Id::Zero<Id>();
+    }
+    if (mapId_.count(id) != 0 && mapId_.at(id) != i) {
+        throw typename Error::Id::Duplicated<Id>(id);
+    }
+    mapId_.erase(this->get(i)->getId());
+    Group<T>::set(i, elem);
+    mapId_[id] = i;
+    if (id > lastId_) {
+        lastId_ = id;
+    }
+}
+
 template<typename T, class Id>
 void Identifiable<T,Id>::remove(const std::size_t& pos) {
     mapId_.erase(this->get(pos)->getId());
-- 
2.43.0


From 7911f8c6801ac866c9275bd4b310a27c44a61b0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:07 +0000
Subject: [PATCH 013/114] fix: leave an identified group unchanged when an
 addition is rejected

---
 src/core/group/Identifiable.h   |  1 +
 src/core/group/Identifiable.hpp | 17 +++++++++++++++++
 2 files changed, 18 insertions(+)

diff --git a/src/core/group/Identifiable.h b/src/core/group/Identifiable.h
index 23c208f..96d88d0 100755
--- a/src/core/group/Identifiable.h
+++ b/src/core/group/Identifiable.h
@@ -89,6 +89,7 @@ private:
     Id lastId_;
     std::map<Id, std::size_t> mapId_;
 
+    void checkIds_(const Group<T>& rhs) const;
     void postprocess_(const std::size_t& pos);
     std::vector<std::size_t> getElemsId_(const std::vector<Id>&) const;
 };
diff --git a/src/core/group/Identifiable.hpp b/src/core/group/Identifiable.hpp
index 792afaa..96f39e2 100755
--- a/src/core/group/Identifiable.hpp
+++ b/src/core/group/Identifiable.hpp
@@ -157,6 +157,7 @@ Identifiable<const T,Id> Identifiable<T,Id>::getId(
 
 template<typename T, class Id>
 Group<T> Identifiable<T,Id>::add(Group<T>& rhs) {
+    checkIds_(rhs);
     std::size_t lastSize = this->size();
     Group<T>::add(rhs);
     postprocess_(lastSize);
@@ -165,6 +166,7 @@ Group<T> Identifiable<T,Id>::add(Group<T>& rhs) {
 
 template<typename T, class Id>
 Group<T> Identifiable<T,Id>::add(Group<T>&& rhs) {
+    checkIds_(rhs);
     std::size_t lastSize = this->size();
     Group<T>::add(std::move(rhs));
     postprocess_(lastSize);
@@ -247,6 +249,21 @@ void Identifiable<T,Id>::removeId(const std::vector<Id>& ids) {
     remove(getElemsId_(ids));
 }
 
+template<typename T, class Id>
+void Identifiable<T,Id>::checkIds_(const Group<T>& rhs) const {
+    std::map<Id, std::size_t> ids;
+    for(std::size_t i = 0; i < rhs.size(); i++) {
+        const Id id = rhs.get(i)->getId();
+        if (id == Id(0)) {
+            throw typename Error::Id::Zero<Id>();
+        }
+        if (mapId_.count(id) != 0 || ids.count(id) != 0) {
+            throw typename Error::Id::Duplicated<Id>(id);
+        }
+        ids[id] = i;
+    }
+}
+
 template<typename T, class Id>
 void Identifiable<T,Id>::postprocess_(const std::size_t& firstStep) {
     for(std::size_t i = firstStep; i < this->size(); i++) {
-- 
2.43.0


From f3fcdbe29154e7fb6baa08cffe489491e09e42c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:01 +0000
Subject: [PATCH 014/114] fix: keep the position index in step when a
 coordinate is replaced

---
 src/core/geometry/coordinate/Group.h   | 2 ++
 src/core/geometry/coordinate/Group.hpp | 8 ++++++++
 2 files changed, 10 insertions(+)

diff --git a/src/core/geometry/coordinate/Group.h b/src/core/geometry/coordinate/Group.h
index 76cc112..f2d1616 100755
--- a/src/core/geometry/coordinate/Group.h
+++ b/src/core/geometry/coordinate/Group.h
@@ -93,6 +93,8 @@ public:
     SEMBA::Group::Group<C> addPos(const std::vector<Math::CVecI3>&,
                                   const bool = false);
 
+    void set(const std::size_t i, C*);
+
     void remove(const std::size_t&);
     void remove(const std::vector<std::size_t>&);
 
diff --git a/src/core/geometry/coordinate/Group.hpp b/src/core/geometry/coordinate/Group.hpp
index c017603..07dda83 100755
--- a/src/core/geometry/coordinate/Group.hpp
+++ b/src/core/geometry/coordinate/Group.hpp
@@ -233,6 +233,14 @@ SEMBA::Group::Group<C> Group<C>::addPos(
     return this->addId(newCoords);
 }
 
+template<typename C>
+void Group<C>::set(const std::size_t i, C* elem) {
+    SEMBA::Group::Identifiable<C,Id>::set(i, elem);
+    indexUnstr_.clear();
+    indexStr_.clear();
+    postprocess_(0);
+}
+
 template<typename C>
 void Group<C>::remove(const std::size_t& pos) {
     if (this->get(pos)->template is<CoordR3>()) {
-- 
2.43.0


From b9541c5d4e73689bf32ec88ff2e2a6382dae4bf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:01 +0000
Subject: [PATCH 015/114] fix: rebuild the position index after scaling
 coordinates

---
 src/core/geometry/coordinate/Group.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/core/geometry/coordinate/Group.hpp b/src/core/geometry/coordinate/Group.hpp
index 07dda83..09f8ba8 100755
--- a/src/core/geometry/coordinate/Group.hpp
+++ b/src/core/geometry/coordinate/Group.hpp
@@ -273,6 +273,9 @@ void Group<C>::applyScalingFactor(const Math::Real factor) {
             *ptr *= factor;
         }
     }
+    indexUnstr_.clear();
+    indexStr_.clear();
+    postprocess_(0);
 }
 
 template<typename C>
-- 
2.43.0


From 7f1e713a0493a2db2f4aa125662e72f54eaf378a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:24 +0000
Subject: [PATCH 016/114] fix: return what was added also with compilers that
 move named rvalue references

---
 src/core/geometry/coordinate/Group.hpp | 3 ++-
 src/core/group/Group.hpp               | 3 ++-
 src/core/group/Identifiable.hpp        | 3 ++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/core/geometry/coordinate/Group.hpp b/src/core/geometry/coordinate/Group.hpp
index 09f8ba8..155bf59 100755
--- a/src/core/geometry/coordinate/Group.hpp
+++ b/src/core/geometry/coordinate/Group.hpp
@@ -169,7 +169,8 @@ SEMBA::Group::Group<C> Group<C>::add(SEMBA::Group::Group<C>&& rhs) {
     std::size_t lastSize = this->size();
     SEMBA::Group::Identifiable<C,Id>::add(std::move(rhs));
     postprocess_(lastSize);
-    return rhs;
+    SEMBA::Group::Group<C> res(rhs);
+    return res;
 }
 
 template<typename C>
diff --git a/src/core/group/Group.hpp b/src/core/group/Group.hpp
index 9421a43..9ccfa2c 100755
--- a/src/core/group/Group.hpp
+++ b/src/core/group/Group.hpp
@@ -246,7 +246,8 @@ Group<T> Group<T>::add(Group& rhs) {
 template<typename T>
 Group<T> Group<T>::add(Group&& rhs) {
     element_.insert(element_.end(), rhs.element_.begin(), rhs.element_.end());
-    return rhs;
+    Group<T> res(rhs);
+    return res;
 }
 
 template<typename T>
diff --git a/src/core/group/Identifiable.hpp b/src/core/group/Identifiable.hpp
index 96f39e2..1162fb0 100755
--- a/src/core/group/Identifiable.hpp
+++ b/src/core/group/Identifiable.hpp
@@ -170,7 +170,8 @@ Group<T> Identifiable<T,Id>::add(Group<T>&& rhs) {
     std::size_t lastSize = this->size();
     Group<T>::add(std::move(rhs));
     postprocess_(lastSize);
-    return rhs;
+    Group<T> res(rhs);
+    return res;
 }
 
 template<typename T, class Id> template<typename T2>
-- 
2.43.0


From e314860a053a9ce70ac5c6794f172af4bbbce76d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:21 +0000
Subject: [PATCH 017/114] fix: compare the size of new cells with the boundary
 cell being enlarged

---
 src/core/geometry/Grid.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/geometry/Grid.hpp b/src/core/geometry/Grid.hpp
index a3bcb1b..8ecd84b 100755
--- a/src/core/geometry/Grid.hpp
+++ b/src/core/geometry/Grid.hpp
@@ -637,7 +637,7 @@ void Grid<D>::enlargeBound(Math::Constants::CartesianAxis d,
         boundCell = this->getNumCells()(d) - 1;
     }
     std::vector<Math::Real> newSteps;
-    if (Math::Util::greaterEqual(getStep(d,b), siz) || siz == 0.0) {
+    if (Math::Util::greaterEqual(getStep(d,boundCell), siz) || siz == 0.0) {
         siz = getStep(d,boundCell);
         // Computes enlargement for a padding with same size.
         Math::Real nCellsFrac = std::abs(pad/siz);
-- 
2.43.0


From 1aeeb40c1edc0c0207858de767d70d8c6d8b2130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:21 +0000
Subject: [PATCH 018/114] fix: leave the grid alone when there are no
 additional steps

---
 src/core/geometry/Grid.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/core/geometry/Grid.hpp b/src/core/geometry/Grid.hpp
index 8ecd84b..1db3721 100755
--- a/src/core/geometry/Grid.hpp
+++ b/src/core/geometry/Grid.hpp
@@ -123,6 +123,9 @@ void Grid<D>::setAdditionalSteps(
         const Math::Constants::CartesianBound b,
         const std::vector<Math::Real>& step) {
     const std::size_t nCells = step.size();
+    if (nCells == 0) {
+        return;
+    }
     std::vector<Math::Real> newPos(nCells);
     if (b == Math::Constants::U) {
         newPos[0] = pos_[d].back() + step[0];
-- 
2.43.0


From 9b12f7da13e6b99a8597fe708d26a30b8263f01b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:57 +0000
Subject: [PATCH 019/114] fix: keep the cell of a point on the upper boundary
 inside the grid

---
 src/core/geometry/Grid.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/core/geometry/Grid.hpp b/src/core/geometry/Grid.hpp
index 1db3721..d7dce9c 100755
--- a/src/core/geometry/Grid.hpp
+++ b/src/core/geometry/Grid.hpp
@@ -346,6 +346,9 @@ Box<Math::Real,D> Grid<D>::getBoxRContaining(const CVecRD& point) const {
 template<std::size_t D>
 Box<Math::Int,D> Grid<D>::getBoxIContaining(const CVecRD& point) const {
     CVecID min = getCell(point, false);
+    for (std::size_t d = 0; d < D; d++) {
+        min(d) = std::min(min(d), getNumCells()(d) - 1);
+    }
     CVecID max = min + 1;
     return BoxID(min, max);
 }
-- 
2.43.0


From 8690c9caba0c43bd027b02b7c74f00dc061dec14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:39 +0000
Subject: [PATCH 020/114] fix: chop boxes that hold no grid line and boxes with
 real bounds

---
 src/core/geometry/Box.hpp | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/core/geometry/Box.hpp b/src/core/geometry/Box.hpp
index 800f16c..d468d19 100755
--- a/src/core/geometry/Box.hpp
+++ b/src/core/geometry/Box.hpp
@@ -400,13 +400,15 @@ std::vector<Box<T,D>> Box<T,D>::chop(const Grid<D>& grid) const {
     // Prepares subgrid with the size of the box preserving grid positions.
     std::vector<Math::Real> pos[D];
     for (std::size_t d = 0; d < D; d++) {
-        pos[d] = grid.getPosInRange(d, min_(d), max_(d));
-        if (min_(d) != pos[d].front()) {
-            std::vector<Math::Real> aux(1,min_(d));
-            aux.insert(aux.end(), pos[d].begin(), pos[d].end());
-            pos[d] = aux;
+        std::vector<Math::Real> inRange =
+            grid.getPosInRange(d, min_(d), max_(d));
+        pos[d].push_back(min_(d));
+        for (std::size_t i = 0; i < inRange.size(); i++) {
+            if (inRange[i] > min_(d) && inRange[i] < max_(d)) {
+                pos[d].push_back(inRange[i]);
+            }
         }
-        if (max_(d) != pos[d].back()) {
+        if (max_(d) != min_(d)) {
             pos[d].push_back(max_(d));
         }
     }
@@ -421,8 +423,10 @@ std::vector<Box<T,D>> Box<T,D>::chop(const Grid<D>& grid) const {
     for (Math::Int i = 0; i < numBoxes(Math::Constants::x); i++) {
         for (Math::Int j = 0; j < numBoxes(Math::Constants::y); j++) {
             for (Math::Int k = 0; k < numBoxes(Math::Constants::z); k++) {
-                CVecTD minP = subGrid.getPos(CVecTD(i,j,k));
-                CVecTD maxP = subGrid.getPos(CVecTD(i+1,j+1,k+1));
+                Math::Vector::Cartesian<Math::Real,D> minP = subGrid.getPos(
+                    Math::Vector::Cartesian<Math::Int,D>(i,j,k));
+                Math::Vector::Cartesian<Math::Real,D> maxP = subGrid.getPos(
+                    Math::Vector::Cartesian<Math::Int,D>(i+1,j+1,k+1));
                 CVecTD minT, maxT;
                 for (std::size_t d = 0; d < D; d++) {
                     if (minP(d) >= min_(d)) {
-- 
2.43.0


From 385712d7f501d1c6f7bb3277874877ac98c79176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:41 +0000
Subject: [PATCH 021/114] fix: compare also the first cell of each axis when
 asking for a Cartesian grid

---
 src/core/geometry/Grid.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/geometry/Grid.hpp b/src/core/geometry/Grid.hpp
index d7dce9c..6b66377 100755
--- a/src/core/geometry/Grid.hpp
+++ b/src/core/geometry/Grid.hpp
@@ -221,7 +221,7 @@ bool Grid<D>::isCartesian() const {
     Math::Real canon = getStep(Math::Constants::x)[0];
     for (std::size_t i = 0; i < D; i++) {
         std::vector<Math::Real> step = getStep(i);
-        for (std::size_t n = 1; n < step.size(); n++) {
+        for (std::size_t n = 0; n < step.size(); n++) {
             if (Math::Util::notEqual(step[n], canon, canon, tolerance)) {
                 return false;
             }
-- 
2.43.0


From dbcca0b2f9144e8f3afdcf213dd47009bc189d34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:22:43 +0000
Subject: [PATCH 022/114] fix: compare vertices lexicographically when looking
 for the lowest or highest

---
 src/core/geometry/element/Element.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/core/geometry/element/Element.hpp b/src/core/geometry/element/Element.hpp
index d9347e1..f364cdb 100755
--- a/src/core/geometry/element/Element.hpp
+++ b/src/core/geometry/element/Element.hpp
@@ -99,6 +99,9 @@ const Coordinate::Coordinate<T,3>* Element<T>::getMinV() const {
                 res = getVertex(i);
                 break;
             }
+            if(Math::Util::greater(val1, val2, res->pos().norm())) {
+                break;
+            }
         }
     }
     return res;
@@ -119,6 +122,9 @@ const Coordinate::Coordinate<T,3>* Element<T>::getMaxV() const {
                 res = getVertex(i);
                 break;
             }
+            if(Math::Util::lower(val1, val2, res->pos().norm())) {
+                break;
+            }
         }
     }
     return res;
-- 
2.43.0


From 867d2767ddd3f1483e7172be3437e25b79f260f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:22:59 +0000
Subject: [PATCH 023/114] fix: return the end of the line that belongs to the
 asked side

---
 src/core/geometry/element/Line2.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/geometry/element/Line2.hpp b/src/core/geometry/element/Line2.hpp
index 13d7bd9..7325e8c 100755
--- a/src/core/geometry/element/Line2.hpp
+++ b/src/core/geometry/element/Line2.hpp
@@ -118,7 +118,7 @@ template<class T>
 const Coordinate::Coordinate<T,3>* Line2<T>::getSideV(
         const std::size_t f,
         const std::size_t i) const {
-    return v_[i];
+    return v_[f];
 }
 
 template<class T>
@@ -131,7 +131,7 @@ template<class T>
 const Coordinate::Coordinate<T,3>* Line2<T>::getSideVertex(
         const std::size_t f,
         const std::size_t i) const {
-    return v_[i];
+    return v_[f];
 }
 
 template<class T>
-- 
2.43.0


From 517bb867f364c698cf90e9d7d26d440948d0ca3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:03 +0000
Subject: [PATCH 024/114] fix: keep the coordinates of a conformal line built
 without identifier

---
 src/core/geometry/element/LineConformal.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/geometry/element/LineConformal.cpp b/src/core/geometry/element/LineConformal.cpp
index 25dff46..06e3334 100755
--- a/src/core/geometry/element/LineConformal.cpp
+++ b/src/core/geometry/element/LineConformal.cpp
@@ -47,7 +47,8 @@ LineConformal::LineConformal(const CoordI3* v[2],
                              const Math::CVecR3& norm,
                              const Layer* lay,
                              const Model* mat)
-:   Elem(lay, mat) {
+:   Elem(lay, mat),
+    LinI2(v) {
     checkCoordinates();
     norm_  = norm;
 }
-- 
2.43.0


From a6f0f8893bf63f95618dec50e3190e701c9b4930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:21 +0000
Subject: [PATCH 025/114] fix: tell apart hexahedra whose edges are not along
 the axes

---
 src/core/geometry/element/Hexahedron8.hpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/core/geometry/element/Hexahedron8.hpp b/src/core/geometry/element/Hexahedron8.hpp
index e8ec60f..c97024e 100755
--- a/src/core/geometry/element/Hexahedron8.hpp
+++ b/src/core/geometry/element/Hexahedron8.hpp
@@ -103,17 +103,18 @@ bool Hexahedron8<T>::isRegular() const {
     // Checks that all edges are aligned with one of the axis.
     static const Math::Vector::Cartesian<T,3> xAxe(1.0, 0.0, 0.0);
     static const Math::Vector::Cartesian<T,3> yAxe(0.0, 1.0, 0.0);
-    static const Math::Vector::Cartesian<T,3> zAxe(1.0, 0.0, 1.0);
+    static const Math::Vector::Cartesian<T,3> zAxe(0.0, 0.0, 1.0);
     for (std::size_t f = 0; f < numberOfFaces(); f++) {
         Math::Vector::Cartesian<T,3> first, second;
         Math::Vector::Cartesian<T,3> inc;
         for (std::size_t i = 0; i < numberOfSideVertices(); i++) {
             first = *getSideV(f, i);
             second = *getSideV(f, (i+1) % numberOfSideVertices());
-            inc = (second - first).normalize();
-            if (!((std::abs(inc.dot(xAxe))-1.0) <= tolerance ||
-            (std::abs(inc.dot(yAxe))-1.0) <= tolerance ||
-            (std::abs(inc.dot(zAxe))-1.0) <= tolerance)) {
+            inc = second - first;
+            const Math::Real len = inc.norm();
+            if (!(std::abs(std::abs(inc.dot(xAxe))-len) <= tolerance*len ||
+            std::abs(std::abs(inc.dot(yAxe))-len) <= tolerance*len ||
+            std::abs(std::abs(inc.dot(zAxe))-len) <= tolerance*len)) {
 
                 return false;
             }
-- 
2.43.0


From 6d6b544116fb0dfb0840c88eb2bf9b7ca2e4d0a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:36 +0000
Subject: [PATCH 026/114] fix: return the area of the whole face of a
 hexahedron

---
 src/core/geometry/element/Hexahedron8.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/geometry/element/Hexahedron8.hpp b/src/core/geometry/element/Hexahedron8.hpp
index c97024e..ed00078 100755
--- a/src/core/geometry/element/Hexahedron8.hpp
+++ b/src/core/geometry/element/Hexahedron8.hpp
@@ -162,8 +162,8 @@ const std::size_t i) const {
 template<class T>
 Math::Real Hexahedron8<T>::getAreaOfFace(const std::size_t f) const {
     Math::Vector::Cartesian<T,3> v1, v2;
-    v1 = getSideV(f,1)->pos() - getSideV(f,0)->pos();
-    v2 = getSideV(f,2)->pos() - getSideV(f,0)->pos();
+    v1 = getSideV(f,2)->pos() - getSideV(f,0)->pos();
+    v2 = getSideV(f,3)->pos() - getSideV(f,1)->pos();
     return ((Math::Real) 0.5 * (v1 ^ v2).norm());
 }
 
-- 
2.43.0


From b39c2f1f4d197085338e7dea207b4e4afc848da5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:03 +0000
Subject: [PATCH 027/114] fix: accept only right angles in rectangular surfaces

---
 src/core/geometry/element/Surface.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/geometry/element/Surface.hpp b/src/core/geometry/element/Surface.hpp
index 8ec523b..8ea7bee 100755
--- a/src/core/geometry/element/Surface.hpp
+++ b/src/core/geometry/element/Surface.hpp
@@ -48,7 +48,7 @@ bool Surface<T>::isRectangular() const {
         Math::Vector::Cartesian<T,3> p2 = 
             this->getSideVertex((f+1)%4,1)->pos();
         Math::Real sProd = (Math::Real)(p2-p1).dot(p1 - p0);
-        if (Math::Util::greater(sProd, 0.0, 1.0)) {
+        if (Math::Util::notEqual(sProd, 0.0, 1.0)) {
             return false;
         }
     }
-- 
2.43.0


From fc33628aa866d8d49b97a2a0289f8c1a0fef2447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:33 +0000
Subject: [PATCH 028/114] fix: compare the number of coordinates of elements
 before the coordinates

---
 src/core/geometry/element/Element.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/core/geometry/element/Element.hpp b/src/core/geometry/element/Element.hpp
index f364cdb..16c8cc4 100755
--- a/src/core/geometry/element/Element.hpp
+++ b/src/core/geometry/element/Element.hpp
@@ -43,6 +43,9 @@ bool Element<T>::operator==(const Base& rhs) const {
         return false;
     }
     const Element<T>* rhsPtr = rhs.castTo<Element<T>>();
+    if (this->numberOfCoordinates() != rhsPtr->numberOfCoordinates()) {
+        return false;
+    }
     bool res = true;
     res &= (this->getId() == rhsPtr->getId());
     for (std::size_t i = 0; i < this->numberOfCoordinates(); i++) {
-- 
2.43.0


From fbea3c490288c46c55170ee2f7a910285178d67a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:04 +0000
Subject: [PATCH 029/114] fix: size the coordinates of a side by that side

---
 src/core/geometry/element/Element.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/core/geometry/element/Element.hpp b/src/core/geometry/element/Element.hpp
index 16c8cc4..401b48f 100755
--- a/src/core/geometry/element/Element.hpp
+++ b/src/core/geometry/element/Element.hpp
@@ -157,8 +157,8 @@ template<class T>
 std::vector<const Coordinate::Coordinate<T,3>*> Element<T>::getSideCoordinates(
         const std::size_t face) const {
     std::vector<const Coordinate::Coordinate<T,3>*>
-        res(numberOfSideCoordinates());
-    for (std::size_t i = 0; i < numberOfSideCoordinates(); i++) {
+        res(numberOfSideCoordinates(face));
+    for (std::size_t i = 0; i < numberOfSideCoordinates(face); i++) {
         res[i] = getSideV(face,i);
     }
     return res;
@@ -168,8 +168,8 @@ template<class T>
 std::vector<const Coordinate::Coordinate<T,3>*> Element<T>::getSideVertices(
         const std::size_t face) const {
     std::vector<const Coordinate::Coordinate<T, 3>*> res;
-    res.resize(numberOfSideVertices());
-    for (std::size_t i = 0; i < numberOfSideVertices(); i++) {
+    res.resize(numberOfSideVertices(face));
+    for (std::size_t i = 0; i < numberOfSideVertices(face); i++) {
         res[i] = getSideVertex(face,i);
     }
     return res;
-- 
2.43.0


From 54007a4d79689e243af13cc1b8429d934bea5c6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:09 +0000
Subject: [PATCH 030/114] fix: reject also tetrahedra that are flat in an
 oblique plane

---
 src/core/geometry/element/Tetrahedron4.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/geometry/element/Tetrahedron4.cpp b/src/core/geometry/element/Tetrahedron4.cpp
index 2974111..284359a 100755
--- a/src/core/geometry/element/Tetrahedron4.cpp
+++ b/src/core/geometry/element/Tetrahedron4.cpp
@@ -169,7 +169,7 @@ bool Tetrahedron4::hasZeroVolume() const {
             return true;
         }
     }
-    return false;
+    return (getVolume() == (Math::Real) 0.0);
 }
 
 } /* namespace Element */
-- 
2.43.0


From 8749b65020c1904ac4a023385f61e6f0b3006b56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:37 +0000
Subject: [PATCH 031/114] fix: list an element once although it repeats the
 coordinate

---
 src/core/geometry/element/Group.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/core/geometry/element/Group.hpp b/src/core/geometry/element/Group.hpp
index 8245c67..d65f9f1 100755
--- a/src/core/geometry/element/Group.hpp
+++ b/src/core/geometry/element/Group.hpp
@@ -66,6 +66,7 @@ Group<const E> Group<E>::getCoordId(const CoordId id) const {
 		for (size_t j = 0; j < elem->numberOfCoordinates(); j++) {
 			if (elem->getV(j)->getId() == id) {
 				res.add(elem);
+				break;
 			}
 		}
 	}
-- 
2.43.0


From 465ba3ffd1372ee53a94c582e94f5e64ccc6b911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:09 +0000
Subject: [PATCH 032/114] fix: look for the vertex closest to the asked
 position

---
 src/core/geometry/element/Group.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/core/geometry/element/Group.hpp b/src/core/geometry/element/Group.hpp
index d65f9f1..31a35aa 100755
--- a/src/core/geometry/element/Group.hpp
+++ b/src/core/geometry/element/Group.hpp
@@ -220,11 +220,11 @@ const CoordR3* Group<E>::getClosestVertex(const Math::CVecR3 pos) const {
     Math::Real minDist = std::numeric_limits<Math::Real>::infinity();
     Group<const ElemR> elems = this->template getOf<ElemR>();
     for (std::size_t b = 0; b < elems.size(); b++) {
-        for (std::size_t i = 0; i < elems(i)->numberOfCoordinates(); i++) {
-            const CoordR3* candidate = elems(i)->getV(i);
-            if ((candidate->pos() - res->pos()).norm() < minDist) {
+        for (std::size_t i = 0; i < elems(b)->numberOfCoordinates(); i++) {
+            const CoordR3* candidate = elems(b)->getV(i);
+            if ((candidate->pos() - pos).norm() < minDist) {
                 res = candidate;
-                minDist = (candidate->pos() - res->pos()).norm();
+                minDist = (candidate->pos() - pos).norm();
             }
         }
     }
-- 
2.43.0


From d9c45029b53046e6adceecdc4c1b800e0ff8cf9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:38 +0000
Subject: [PATCH 033/114] fix: report polyhedra with an odd number of sides as
 not closed

---
 src/core/geometry/element/Polyhedron.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/core/geometry/element/Polyhedron.cpp b/src/core/geometry/element/Polyhedron.cpp
index f7f5ba9..d0f3cb1 100755
--- a/src/core/geometry/element/Polyhedron.cpp
+++ b/src/core/geometry/element/Polyhedron.cpp
@@ -158,6 +158,9 @@ void Polyhedron::checkClosedness() const {
             row++;
         }
     }
+    if (nSidesInFaces % 2 != 0) {
+        throw Error::NotClosed();
+    }
     list.sortRows(0,1);
     for (std::size_t i = 0; i < nSidesInFaces; i += 2) {
         if (list(i,0) != list(i+1,0) || list(i,1) != list(i+1,1)) {
-- 
2.43.0


From b6ef150db782db5eba7c36f69afc33d1db703846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:39 +0000
Subject: [PATCH 034/114] fix: report plain coordinates in conformal lines
 instead of a bad cast

---
 src/core/geometry/element/LineConformal.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/geometry/element/LineConformal.cpp b/src/core/geometry/element/LineConformal.cpp
index 06e3334..4a98fe0 100755
--- a/src/core/geometry/element/LineConformal.cpp
+++ b/src/core/geometry/element/LineConformal.cpp
@@ -86,8 +86,8 @@ void LineConformal::printInfo() const {
 
 void LineConformal::checkCoordinates() {
     for(std::size_t i = 0; i < this->numberOfCoordinates(); i++) {
-        if (!this->getV(i)->is<CoordConf>()) {
-            throw Error::Coord::NotConf(this->getV(i)->getId());
+        if (!LinI2::getV(i)->is<CoordConf>()) {
+            throw Error::Coord::NotConf(LinI2::getV(i)->getId());
         }
     }
 }
-- 
2.43.0


From 839d8b1e16aee65f5f534e780c3804ba1a889ae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:49 +0000
Subject: [PATCH 035/114] fix: return the far vertex of a side of high order
 triangles

---
 src/core/math/simplex/Triangle.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/math/simplex/Triangle.hpp b/src/core/math/simplex/Triangle.hpp
index 68d7b4d..4674c83 100755
--- a/src/core/math/simplex/Triangle.hpp
+++ b/src/core/math/simplex/Triangle.hpp
@@ -105,7 +105,7 @@ inline std::size_t Triangle<N>::vertex(std::size_t i) const {
 template<size_t N>
 inline std::size_t Triangle<N>::sideVertex(const std::size_t f,
                                                    const std::size_t i) const {
-    return sideNode(f,i);
+    return sideNode(f,i*N);
 }
 
 template <size_t N>
-- 
2.43.0


From 409c36bfc30def88bd83a8afd2dbabbc80824bc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:35 +0000
Subject: [PATCH 036/114] fix: point the elements of a converted mesh to its
 own layers

---
 src/core/geometry/mesh/Structured.cpp   | 1 +
 src/core/geometry/mesh/Unstructured.cpp | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/core/geometry/mesh/Structured.cpp b/src/core/geometry/mesh/Structured.cpp
index d7f5185..ad387eb 100755
--- a/src/core/geometry/mesh/Structured.cpp
+++ b/src/core/geometry/mesh/Structured.cpp
@@ -106,6 +106,7 @@ Unstructured* Structured::getMeshUnstructured() const {
     }
     res->elems().add(newElems);
     res->layers() = layers().cloneElems();
+    res->elems().reassignPointers(res->layers());
     return res;
 }
 
diff --git a/src/core/geometry/mesh/Unstructured.cpp b/src/core/geometry/mesh/Unstructured.cpp
index 6f55741..6b3d1e1 100755
--- a/src/core/geometry/mesh/Unstructured.cpp
+++ b/src/core/geometry/mesh/Unstructured.cpp
@@ -95,6 +95,7 @@ Structured* Unstructured::getMeshStructured(const Grid3& grid,
     }
     res->elems().add(newElems);
     res->layers() = layers().cloneElems();
+    res->elems().reassignPointers(res->layers());
     return res;
 }
 
-- 
2.43.0


From 9268a2974f09ce23ec098b206a340a755b670510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:43 +0000
Subject: [PATCH 037/114] fix: make setting all the boundary terminations at
 once compile

---
 src/core/geometry/BoundTerminations.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/geometry/BoundTerminations.hpp b/src/core/geometry/BoundTerminations.hpp
index 068b77c..d64515b 100755
--- a/src/core/geometry/BoundTerminations.hpp
+++ b/src/core/geometry/BoundTerminations.hpp
@@ -81,7 +81,7 @@ void BoundTerminations<D>::setBounds(
     for (std::size_t d = 0; d < D; d++) {
         for (std::size_t p = 0; p < 2; p++) {
             if (bounds[d][p] != nullptr) {
-                bounds_[d][p] = bounds->getSharedPtr();
+                setBound(d, p, bounds[d][p]);
             }
         }
     }
-- 
2.43.0


From 665c0819ac44d6bf6103759f41a99cb86076699b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:21 +0000
Subject: [PATCH 038/114] fix: clear the boundary terminations that are set to
 none

---
 src/core/geometry/BoundTerminations.hpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/core/geometry/BoundTerminations.hpp b/src/core/geometry/BoundTerminations.hpp
index d64515b..2f34d38 100755
--- a/src/core/geometry/BoundTerminations.hpp
+++ b/src/core/geometry/BoundTerminations.hpp
@@ -80,9 +80,7 @@ void BoundTerminations<D>::setBounds(
         const std::array<std::array<const Bound*, 2>, D>& bounds) {
     for (std::size_t d = 0; d < D; d++) {
         for (std::size_t p = 0; p < 2; p++) {
-            if (bounds[d][p] != nullptr) {
-                setBound(d, p, bounds[d][p]);
-            }
+            setBound(d, p, bounds[d][p]);
         }
     }
 }
-- 
2.43.0


From 94078b7492b1d4876ce3a91db76e262866865c7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:52 +0000
Subject: [PATCH 039/114] fix: report no face for surfaces that touch no volume

---
 src/core/geometry/graph/Connectivities.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/core/geometry/graph/Connectivities.cpp b/src/core/geometry/graph/Connectivities.cpp
index faaaef1..b00a89f 100755
--- a/src/core/geometry/graph/Connectivities.cpp
+++ b/src/core/geometry/graph/Connectivities.cpp
@@ -50,6 +50,9 @@ Connectivities::Connectivities(const Group::Group<const ElemR>& eG) {
 
 Face Connectivities::getNeighFace(const Face& face) const {
     const ElemR* elem = face.first;
+    if (elem == nullptr) {
+        return Face(nullptr, 0);
+    }
     const GraphElem* local = index_.find(elem->getId())->second;
     std::vector<const CoordR3*> localSideV =
         elem->getSideCoordinates(face.second);
@@ -80,6 +83,9 @@ Face Connectivities::getInnerFace(const SurfR* surf) const {
     const GraphElem* local = index_.find(surf->getId())->second;
     std::vector<const CoordR3*> localV = local->elem()->getCoordinates();
     Face face = getMatchingFace_(local, localV);
+    if (face.first == nullptr) {
+        return face;
+    }
     Math::CVecR3 faceNormal = face.first->getSideNormal(face.second);
     if ((surf->getNormal() == faceNormal) || isDomainBoundary(face)) {
         return face;
-- 
2.43.0


From 12fcfcbd376687008a6011976fbea1d54a18900e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:53 +0000
Subject: [PATCH 040/114] fix: copy graphs and connectivities deeply when they
 are assigned

---
 src/core/geometry/graph/Connectivities.cpp | 19 ++++++++++++++++
 src/core/geometry/graph/Connectivities.h   |  5 +++++
 src/core/geometry/graph/Graph.h            |  3 ++-
 src/core/geometry/graph/Graph.hpp          | 26 ++++++++++++++--------
 4 files changed, 43 insertions(+), 10 deletions(-)

diff --git a/src/core/geometry/graph/Connectivities.cpp b/src/core/geometry/graph/Connectivities.cpp
index b00a89f..dd51597 100755
--- a/src/core/geometry/graph/Connectivities.cpp
+++ b/src/core/geometry/graph/Connectivities.cpp
@@ -41,6 +41,25 @@ Connectivities::~Connectivities() {
 Connectivities::Connectivities(const Group::Group<const ElemR>& eG) {
     // Generates graph.
     graph_.init(eG);
+    buildIndex_();
+}
+
+Connectivities::Connectivities(const Connectivities& rhs)
+:   graph_(rhs.graph_) {
+    buildIndex_();
+}
+
+Connectivities& Connectivities::operator=(const Connectivities& rhs) {
+    if (this == &rhs) {
+        return *this;
+    }
+    graph_ = rhs.graph_;
+    buildIndex_();
+    return *this;
+}
+
+void Connectivities::buildIndex_() {
+    index_.clear();
     for (std::size_t i = 0; i < graph_.numElems(); i++) {
         GraphElem* graphElem = graph_.elem(i);
         ElemId id = graphElem->elem()->getId();
diff --git a/src/core/geometry/graph/Connectivities.h b/src/core/geometry/graph/Connectivities.h
index 74133b5..ad399e8 100755
--- a/src/core/geometry/graph/Connectivities.h
+++ b/src/core/geometry/graph/Connectivities.h
@@ -38,8 +38,11 @@ public:
 
     Connectivities();
     Connectivities(const Group::Group<const ElemR>& eG);
+    Connectivities(const Connectivities&);
     virtual ~Connectivities();
 
+    Connectivities& operator=(const Connectivities&);
+
     std::size_t size() const;
 
     // Returns face of volume matching given face.
@@ -61,6 +64,8 @@ private:
     Vertices<ElemR,CoordR3> graph_;
     std::map<ElemId, const GraphElem*> index_;
 
+    void buildIndex_();
+
     Face getMatchingFace_(
             const GraphElem* local,
             const std::vector<const CoordR3*> localSideV) const;
diff --git a/src/core/geometry/graph/Graph.h b/src/core/geometry/graph/Graph.h
index eddf1a7..1e76a35 100755
--- a/src/core/geometry/graph/Graph.h
+++ b/src/core/geometry/graph/Graph.h
@@ -46,7 +46,7 @@ public:
 
     virtual Graph& init(const Group::Group<const Elem>& elems) = 0;
 
-    //Graph& operator=(const Graph&);
+    Graph& operator=(const Graph&);
 
     std::size_t numElems () const { return elems_.size();  }
     std::size_t numBounds() const { return bounds_.size(); }
@@ -67,6 +67,7 @@ protected:
 
 private:
     void cloneInfo(const Graph&);
+    void clear_();
 };
 
 } /* namespace Graph */
diff --git a/src/core/geometry/graph/Graph.hpp b/src/core/geometry/graph/Graph.hpp
index 3ec07d1..a5292d8 100755
--- a/src/core/geometry/graph/Graph.hpp
+++ b/src/core/geometry/graph/Graph.hpp
@@ -39,23 +39,31 @@ Graph<ELEM,BOUND>::Graph(const Graph& rhs) {
 
 template<class ELEM, class BOUND>
 Graph<ELEM,BOUND>::~Graph() {
+    clear_();
+}
+
+template<class ELEM, class BOUND>
+Graph<ELEM,BOUND>& Graph<ELEM,BOUND>::operator=(const Graph& rhs) {
+    if (this == &rhs) {
+        return *this;
+    }
+    clear_();
+    cloneInfo(rhs);
+    return *this;
+}
+
+template<class ELEM, class BOUND>
+void Graph<ELEM,BOUND>::clear_() {
     for (std::size_t i = 0; i < elems_.size(); i++) {
         delete elems_[i];
     }
+    elems_.clear();
     for (std::size_t i = 0; i < bounds_.size(); i++) {
         delete bounds_[i];
     }
+    bounds_.clear();
 }
 
-//template<class ELEM, class BOUND>
-//Graph<ELEM,BOUND>& Graph<ELEM,BOUND>::operator=(const Graph& rhs) {
-//    if (this == &rhs) {
-//        return *this;
-//    }
-//    cloneInfo(rhs);
-//    return *this;
-//}
-
 template<class ELEM, class BOUND>
 void Graph<ELEM,BOUND>::printInfo() const {
     std::cout << "--- Graph Info ---" << std::endl;
-- 
2.43.0


From 860b019662c02d52c05715727e288094b4b97a47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:07 +0000
Subject: [PATCH 041/114] fix: free the previous contents of a graph that is
 built again

---
 src/core/geometry/graph/Graph.h      | 3 ++-
 src/core/geometry/graph/Vertices.hpp | 3 +--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/core/geometry/graph/Graph.h b/src/core/geometry/graph/Graph.h
index 1e76a35..c693fcf 100755
--- a/src/core/geometry/graph/Graph.h
+++ b/src/core/geometry/graph/Graph.h
@@ -65,9 +65,10 @@ protected:
     std::vector<GraphElem* > elems_;
     std::vector<GraphBound*> bounds_;
 
+    void clear_();
+
 private:
     void cloneInfo(const Graph&);
-    void clear_();
 };
 
 } /* namespace Graph */
diff --git a/src/core/geometry/graph/Vertices.hpp b/src/core/geometry/graph/Vertices.hpp
index 7f6647d..e0a3d6e 100755
--- a/src/core/geometry/graph/Vertices.hpp
+++ b/src/core/geometry/graph/Vertices.hpp
@@ -48,8 +48,7 @@ Vertices<ELEM,BOUND>& Vertices<ELEM,BOUND>::init(
     GraphElem*   elemPtr;
     GraphBound*  boundPtr;
     std::map<CoordId, GraphBound*> map;
-    this->elems_.clear();
-    this->bounds_.clear();
+    this->clear_();
     for (std::size_t s = 0; s < elems.size(); s++) {
         elemPtr = new GraphElem(elems(s), elems(s)->numberOfCoordinates());
         this->elems_.push_back(elemPtr);
-- 
2.43.0


From 7fae47d6f5b1a490bc521713557555ba3fdcc13a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:07 +0000
Subject: [PATCH 042/114] fix: define the constructor of vertex graphs from
 elements

---
 src/core/geometry/graph/Vertices.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/core/geometry/graph/Vertices.hpp b/src/core/geometry/graph/Vertices.hpp
index e0a3d6e..3b912a5 100755
--- a/src/core/geometry/graph/Vertices.hpp
+++ b/src/core/geometry/graph/Vertices.hpp
@@ -36,6 +36,11 @@ Vertices<ELEM,BOUND>::Vertices(const Vertices& rhs)
 
 }
 
+template<class ELEM, class BOUND>
+Vertices<ELEM,BOUND>::Vertices(const Group::Group<const ELEM>& elems) {
+    init(elems);
+}
+
 template<class ELEM, class BOUND>
 Vertices<ELEM,BOUND>::~Vertices() {
 
-- 
2.43.0


From ec3d03fedb86e17eeaa914acde6f504a23184f04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:07 +0000
Subject: [PATCH 043/114] fix: refresh the neighbors of the coordinates next to
 a split one

---
 src/core/geometry/graph/Vertices.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/core/geometry/graph/Vertices.hpp b/src/core/geometry/graph/Vertices.hpp
index 3b912a5..945c044 100755
--- a/src/core/geometry/graph/Vertices.hpp
+++ b/src/core/geometry/graph/Vertices.hpp
@@ -112,6 +112,12 @@ void Vertices<ELEM,BOUND>::splitBound(std::size_t i) {
         this->bounds_.back()->getBound(0)->constructNeighbors();
         this->bounds_.back()->constructNeighbors();
     }
+    // The other bounds of the split elements have new neighbors.
+    for (std::size_t j = 0; j < oldAdj.size(); j++) {
+        for (std::size_t k = 0; k < oldAdj[j]->numBounds(); k++) {
+            oldAdj[j]->getBound(k)->constructNeighbors();
+        }
+    }
 }
 
 } /* namespace Graph */
-- 
2.43.0


From ba2ebee87be68b9f1262165f1da296b4c5410bd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:46 +0000
Subject: [PATCH 044/114] fix: keep the conductivity of dispersive volumes next
 to their poles

---
 src/core/physicalModel/volume/Dispersive.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/physicalModel/volume/Dispersive.cpp b/src/core/physicalModel/volume/Dispersive.cpp
index 4e1973c..6de146b 100755
--- a/src/core/physicalModel/volume/Dispersive.cpp
+++ b/src/core/physicalModel/volume/Dispersive.cpp
@@ -47,7 +47,8 @@ Dispersive::Dispersive(const Id id,
     if (magnCond != 0.0) {
         throw std::logic_error("Dispersive magnetic materials not implemented");
     }
-    poleResidue_ = poleResidue;
+    poleResidue_.insert(poleResidue_.end(),
+                        poleResidue.begin(), poleResidue.end());
 }
 
 Dispersive::Dispersive(const Id id,
-- 
2.43.0


From 8abe943e44708065094525684ec005654053ec22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:47 +0000
Subject: [PATCH 045/114] fix: do not read the first pole of dispersive volumes
 without poles

---
 src/core/physicalModel/volume/Dispersive.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/physicalModel/volume/Dispersive.cpp b/src/core/physicalModel/volume/Dispersive.cpp
index 6de146b..8949eea 100755
--- a/src/core/physicalModel/volume/Dispersive.cpp
+++ b/src/core/physicalModel/volume/Dispersive.cpp
@@ -105,7 +105,8 @@ bool Dispersive::isSimplyConductive() const {
     if (!file_.empty()) {
         return false;
     }
-    return (poleResidue_.size() <= 1 && std::abs(getPole(0)) == 0);
+    return (poleResidue_.empty() ||
+            (poleResidue_.size() == 1 && std::abs(getPole(0)) == 0));
 }
 
 Math::Real Dispersive::getElectricConductivity() const {
-- 
2.43.0


From fb3ad65a5431d7b9239973e46541537359d45123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:47 +0000
Subject: [PATCH 046/114] fix: clone the extremes of wires that are assigned

---
 src/core/physicalModel/wire/Extremes.cpp | 10 ++++++++++
 src/core/physicalModel/wire/Extremes.h   |  2 ++
 2 files changed, 12 insertions(+)

diff --git a/src/core/physicalModel/wire/Extremes.cpp b/src/core/physicalModel/wire/Extremes.cpp
index ab96df8..60349d3 100755
--- a/src/core/physicalModel/wire/Extremes.cpp
+++ b/src/core/physicalModel/wire/Extremes.cpp
@@ -63,6 +63,16 @@ Extremes::~Extremes() {
     }
 }
 
+Extremes& Extremes::operator=(const Extremes& rhs) {
+    if (this == &rhs) {
+        return *this;
+    }
+    Wire::operator=(rhs);
+    setExtreme(0, rhs.extreme_[0]);
+    setExtreme(1, rhs.extreme_[1]);
+    return *this;
+}
+
 void Extremes::setExtreme(const std::size_t i,
                           const Multiport::Multiport* extreme) {
     if (extreme_[i] != nullptr) {
diff --git a/src/core/physicalModel/wire/Extremes.h b/src/core/physicalModel/wire/Extremes.h
index 26d0b05..84a8f6b 100755
--- a/src/core/physicalModel/wire/Extremes.h
+++ b/src/core/physicalModel/wire/Extremes.h
@@ -38,6 +38,8 @@ public:
     Extremes(const Extremes& rhs);
     virtual ~Extremes();
 
+    Extremes& operator=(const Extremes& rhs);
+
     SEMBA_CLASS_DEFINE_CLONE(Extremes);
 
     const Multiport::Multiport *getExtreme(const std::size_t i) const {
-- 
2.43.0


From a650d4fb5910d19767afba8443b862935a69f31d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:47 +0000
Subject: [PATCH 047/114] fix: allow setting the extreme of a wire to its own
 current extreme

---
 src/core/physicalModel/wire/Extremes.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/core/physicalModel/wire/Extremes.cpp b/src/core/physicalModel/wire/Extremes.cpp
index 60349d3..6a304eb 100755
--- a/src/core/physicalModel/wire/Extremes.cpp
+++ b/src/core/physicalModel/wire/Extremes.cpp
@@ -75,13 +75,12 @@ Extremes& Extremes::operator=(const Extremes& rhs) {
 
 void Extremes::setExtreme(const std::size_t i,
                           const Multiport::Multiport* extreme) {
-    if (extreme_[i] != nullptr) {
-        delete extreme_[i];
-    }
+    const Multiport::Multiport* previous = extreme_[i];
     extreme_[i] = nullptr;
     if (extreme != nullptr) {
         extreme_[i] = extreme->cloneTo<Multiport::Multiport>();
     }
+    delete previous;
 }
 
 void Extremes::swapExtremes() {
-- 
2.43.0


From 3e330867e8bab293320eb636071bc4fd496261f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:00 +0000
Subject: [PATCH 048/114] fix: copy magnitudes without a function and free the
 replaced function

---
 src/core/source/magnitude/Magnitude.cpp | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/core/source/magnitude/Magnitude.cpp b/src/core/source/magnitude/Magnitude.cpp
index 4f3b63c..8747d12 100755
--- a/src/core/source/magnitude/Magnitude.cpp
+++ b/src/core/source/magnitude/Magnitude.cpp
@@ -34,8 +34,11 @@ Magnitude::Magnitude(Math::FunctionRR* mathFunction) {
 }
 
 Magnitude::Magnitude(const Magnitude& rhs) {
-    mathFunction_ =
-        dynamic_cast<Math::FunctionRR*>(rhs.mathFunction_->clone());
+    mathFunction_ = nullptr;
+    if (rhs.mathFunction_ != nullptr) {
+        mathFunction_ =
+            dynamic_cast<Math::FunctionRR*>(rhs.mathFunction_->clone());
+    }
 }
 
 Magnitude::~Magnitude() {
@@ -48,12 +51,19 @@ Magnitude& Magnitude::operator=(const Magnitude& rhs) {
     if (this == &rhs) {
         return *this;
     }
-    mathFunction_ =
-        dynamic_cast<Math::FunctionRR*>(rhs.mathFunction_->clone());
+    delete mathFunction_;
+    mathFunction_ = nullptr;
+    if (rhs.mathFunction_ != nullptr) {
+        mathFunction_ =
+            dynamic_cast<Math::FunctionRR*>(rhs.mathFunction_->clone());
+    }
     return *this;
 }
 
 bool Magnitude::operator ==(const Magnitude& rhs) const {
+    if (mathFunction_ == nullptr || rhs.mathFunction_ == nullptr) {
+        return mathFunction_ == rhs.mathFunction_;
+    }
     return *mathFunction_ == *rhs.mathFunction_;
 }
 
-- 
2.43.0


From f5036df94561bd6257ca3f6da4f6c77f4ae99fd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:00 +0000
Subject: [PATCH 049/114] fix: compare magnitudes of different kinds
 symmetrically

---
 src/core/source/magnitude/Magnitude.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/core/source/magnitude/Magnitude.cpp b/src/core/source/magnitude/Magnitude.cpp
index 8747d12..b5f1719 100755
--- a/src/core/source/magnitude/Magnitude.cpp
+++ b/src/core/source/magnitude/Magnitude.cpp
@@ -61,6 +61,9 @@ Magnitude& Magnitude::operator=(const Magnitude& rhs) {
 }
 
 bool Magnitude::operator ==(const Magnitude& rhs) const {
+    if (typeid(*this) != typeid(rhs)) {
+        return false;
+    }
     if (mathFunction_ == nullptr || rhs.mathFunction_ == nullptr) {
         return mathFunction_ == rhs.mathFunction_;
     }
-- 
2.43.0


From aec7406da89b8356993ccb925182258299b8eff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:00 +0000
Subject: [PATCH 050/114] fix: evaluate numerical magnitudes

---
 src/core/source/magnitude/Numerical.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/core/source/magnitude/Numerical.cpp b/src/core/source/magnitude/Numerical.cpp
index d07d98c..c9169f2 100755
--- a/src/core/source/magnitude/Numerical.cpp
+++ b/src/core/source/magnitude/Numerical.cpp
@@ -124,8 +124,7 @@ bool Numerical::operator==(const Magnitude& rhs) const {
 }
 
 Math::Real Numerical::evaluate(const Math::Real time) const {
-    throw std::logic_error("Numerical::evaluate not implemented");
-    return 0.0;
+    return Magnitude::evaluate(time);
 }
 
 void Numerical::printInfo() const {
-- 
2.43.0


From 6832913fddc08eafc0ef6f2be411d8e0ec7d7dc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:00 +0000
Subject: [PATCH 051/114] fix: keep the first and last samples of numerical
 magnitudes

---
 src/core/source/magnitude/Numerical.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/core/source/magnitude/Numerical.cpp b/src/core/source/magnitude/Numerical.cpp
index c9169f2..104b390 100755
--- a/src/core/source/magnitude/Numerical.cpp
+++ b/src/core/source/magnitude/Numerical.cpp
@@ -81,7 +81,9 @@ Numerical::Numerical(const FileSystem::Project& file,
         const Math::Real current = mag.evaluate(time);
         bool isAligned = Math::Util::equal(current, interpolated,
                 0.0, std::numeric_limits<Math::Real>::epsilon());
-        if (!isAligned) {
+        // First and last values are always needed to reproduce the function.
+        const bool isExtreme = (i == 0) || (i + 1 == nSteps);
+        if (!isAligned || isExtreme) {
             out << std::setw(16) << std::setfill(' ') << time 
                 << std::setw(18) << std::setfill(' ') << current 
                 << std::endl;
-- 
2.43.0


From e40238cc42dece108239dcdba03b42f0b29fcdd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:00 +0000
Subject: [PATCH 052/114] fix: space the default number of samples of numerical
 magnitudes

---
 src/core/source/magnitude/Numerical.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/core/source/magnitude/Numerical.cpp b/src/core/source/magnitude/Numerical.cpp
index 104b390..256ea28 100755
--- a/src/core/source/magnitude/Numerical.cpp
+++ b/src/core/source/magnitude/Numerical.cpp
@@ -40,7 +40,7 @@ Numerical::Numerical(const FileSystem::Project& file)
 
 Numerical::Numerical(const FileSystem::Project& file,
                      const Magnitude& mag,
-                     const Math::Real timeStep,
+                     const Math::Real requestedStep,
                      const Math::Real finalTime)
 :   FileSystem::Project(file) {
 
@@ -49,10 +49,12 @@ Numerical::Numerical(const FileSystem::Project& file,
         return;
     }
     std::size_t nSteps;
+    Math::Real timeStep = requestedStep;
     if (timeStep != 0.0) {
         nSteps = (std::size_t)std::abs(finalTime / timeStep);
     } else {
         nSteps = defaultNumberOfSteps;
+        timeStep = finalTime / nSteps;
         std::cerr << "WARNING @ Numerical: "
                   << "Attempting to build a "
                   << "numerical magnitude with a 0.0 step."
-- 
2.43.0


From 39b24fa5f992a4363a75c0d6a73bae7db2510aea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:00 +0000
Subject: [PATCH 053/114] fix: describe the hardness of sources on lines

---
 src/core/source/OnLine.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/source/OnLine.cpp b/src/core/source/OnLine.cpp
index 1fb47d0..902745c 100755
--- a/src/core/source/OnLine.cpp
+++ b/src/core/source/OnLine.cpp
@@ -77,7 +77,7 @@ std::string OnLine::getTypeStr() const {
 }
 
 std::string OnLine::getHardnessStr() const {
-    switch (type_) {
+    switch (hardness_) {
     case hard:
         return "Hard";
     default:
-- 
2.43.0


From 88179f181b3b20ad6da33758bdf20ffd3ec0ec65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:00 +0000
Subject: [PATCH 054/114] fix: do not scale the magnetic field of plane waves
 with the direction

---
 src/core/source/PlaneWave.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/core/source/PlaneWave.cpp b/src/core/source/PlaneWave.cpp
index 1bc8e16..cc6b558 100755
--- a/src/core/source/PlaneWave.cpp
+++ b/src/core/source/PlaneWave.cpp
@@ -136,7 +136,9 @@ Math::CVecR3 PlaneWave::getElectricField(const Math::Real time) const {
 std::pair<Math::CVecR3, Math::CVecR3>
 PlaneWave::getElectromagneticField(const Math::Real time) const {
     Math::CVecR3 electric = getElectricField(time);
-    Math::CVecR3 magnetic = (direction_ ^ electric) *
+    Math::CVecR3 propagation = direction_;
+    propagation.normalize();
+    Math::CVecR3 magnetic = (propagation ^ electric) *
                             Math::Constants::VACUUM_ADMITANCE;
     return std::pair<Math::CVecR3,Math::CVecR3>(electric, magnetic);
 }
-- 
2.43.0


From 1ee1f2daaceecdc4ffff1b90387390f913c105d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:00 +0000
Subject: [PATCH 055/114] fix: circle the current of coaxial ports round their
 origin

---
 src/core/source/port/TEMCoaxial.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/source/port/TEMCoaxial.cpp b/src/core/source/port/TEMCoaxial.cpp
index 4d3c5d8..8876602 100755
--- a/src/core/source/port/TEMCoaxial.cpp
+++ b/src/core/source/port/TEMCoaxial.cpp
@@ -74,7 +74,8 @@ Math::CVecR3 TEMCoaxial::getWeight(
     }
     case ExcitationMode::current:
     {
-        const Math::CVecR3 phiHat = (Math::CVecR3(0,0,1) ^ pos).normalize();
+        const Math::CVecR3 phiHat =
+            (Math::CVecR3(0,0,1) ^ (pos - getOrigin())).normalize();
         return phiHat / (2.0 * Math::Constants::pi * rho);
     }
     default:
-- 
2.43.0


From 6e86b2d961db8a569e9dc03791ed13dc098f5be7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:00 +0000
Subject: [PATCH 056/114] fix: weight the transversal fields of rectangular
 waveguide modes

---
 src/core/source/port/WaveguideRectangular.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/source/port/WaveguideRectangular.cpp b/src/core/source/port/WaveguideRectangular.cpp
index 9f6b991..b343e94 100755
--- a/src/core/source/port/WaveguideRectangular.cpp
+++ b/src/core/source/port/WaveguideRectangular.cpp
@@ -72,7 +72,7 @@ Math::CVecR3 WaveguideRectangular::getWeight(
     }
     //const Math::Real betaC = sqrt(pow(m,2) + pow(n,2));
     if (getExcitationMode() == Waveguide::TE) {
-        res(Math::Constants::x) =   n * cos(m * rPos(Math::Constants::x)) *
+        res(Math::Constants::x) = - n * cos(m * rPos(Math::Constants::x)) *
                                         sin(n * rPos(Math::Constants::y)) /
                                         normFactor;
         res(Math::Constants::y) =   m * sin(m * rPos(Math::Constants::x)) *
@@ -83,7 +83,7 @@ Math::CVecR3 WaveguideRectangular::getWeight(
         res(Math::Constants::x) = - m * cos(m * rPos(Math::Constants::x)) *
                                         sin(n * rPos(Math::Constants::y)) /
                                         normFactor;
-        res(Math::Constants::y) = - m * sin(m * rPos(Math::Constants::x)) *
+        res(Math::Constants::y) = - n * sin(m * rPos(Math::Constants::x)) *
                                         cos(n * rPos(Math::Constants::y)) /
                                         normFactor;
         res(Math::Constants::z) = (Math::Real) 0.0;
-- 
2.43.0


From 9c6fcda57838048afbc591eb92604b0e3e2aca26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:00 +0000
Subject: [PATCH 057/114] fix: clone the magnitude of sources that are assigned

---
 src/core/source/Source.cpp | 12 ++++++++++++
 src/core/source/Source.h   |  2 ++
 2 files changed, 14 insertions(+)

diff --git a/src/core/source/Source.cpp b/src/core/source/Source.cpp
index 56f6cbf..0fc8c11 100755
--- a/src/core/source/Source.cpp
+++ b/src/core/source/Source.cpp
@@ -48,6 +48,18 @@ Base::~Base() {
     }
 }
 
+Base& Base::operator=(const Base& rhs) {
+    if (this == &rhs) {
+        return *this;
+    }
+    delete magnitude_;
+    magnitude_ = nullptr;
+    if (rhs.magnitude_ != nullptr) {
+        magnitude_ = rhs.magnitude_->cloneTo<Magnitude::Magnitude>();
+    }
+    return *this;
+}
+
 std::string Base::getMagnitudeFilename() const {
     const Magnitude::Numerical* mag =
             dynamic_cast<const Magnitude::Numerical*>(magnitude_);
diff --git a/src/core/source/Source.h b/src/core/source/Source.h
index 5b81f53..0a8b937 100755
--- a/src/core/source/Source.h
+++ b/src/core/source/Source.h
@@ -46,6 +46,8 @@ public:
     Base(const Base& rhs);
     virtual ~Base();
 
+    Base& operator=(const Base& rhs);
+
     virtual Geometry::Element::Group<const Geometry::Elem> elems() const = 0;
 
     virtual void set(
-- 
2.43.0


From 8a3e996a405f40a5c72ead2034e8e2864781bd7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:21 +0000
Subject: [PATCH 058/114] fix: keep finding the members after an erased one

---
 src/core/argument/Object.h | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/core/argument/Object.h b/src/core/argument/Object.h
index 0706994..bc4f69f 100755
--- a/src/core/argument/Object.h
+++ b/src/core/argument/Object.h
@@ -212,9 +212,13 @@ public:
     }
     Object& eraseMember(const std::string& name) {
         if (existsName(name)) {
-            objMembers_ .erase(objMembers_.begin() + nameMembers_.at(name));
-            objName_    .erase(objName_   .begin() + nameMembers_.at(name));
-            nameMembers_.erase(name);
+            const std::size_t pos = nameMembers_.at(name);
+            nameMembers_.erase(objName_.at(pos));
+            objMembers_ .erase(objMembers_.begin() + pos);
+            objName_    .erase(objName_   .begin() + pos);
+            for (std::size_t i = pos; i < objName_.size(); i++) {
+                nameMembers_.at(objName_[i]) = i;
+            }
         }
         return *this;
     }
-- 
2.43.0


From 728c507fb5ceddca7558f067f37bea5f6cac5366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:37 +0000
Subject: [PATCH 059/114] fix: let an object take the value of one of its
 members

---
 src/core/argument/Object.h | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/src/core/argument/Object.h b/src/core/argument/Object.h
index bc4f69f..8b8251a 100755
--- a/src/core/argument/Object.h
+++ b/src/core/argument/Object.h
@@ -100,11 +100,16 @@ public:
         if (this == &rhs) {
             return *this;
         }
-        copy_(rhs);
+        Object aux(rhs);
+        move_(std::move(aux));
         return *this;
     }
     Object& operator =(Object&& rhs) {
-        move_(std::move(rhs));
+        if (this == &rhs) {
+            return *this;
+        }
+        Object aux(std::move(rhs));
+        move_(std::move(aux));
         return *this;
     }
     template<typename... T>
@@ -191,23 +196,17 @@ public:
         return objMembers_.at(nameMembers_.at(name));
     }
     Object&   addMember(const std::string& name, const Object& val) {
-        setObject();
-        if (nameMembers_.count(name) == 0) {
-            nameMembers_[name] = objMembers_.size();
-            objMembers_.push_back(Object());
-            objName_   .push_back(name);
-        }
-        objMembers_.at(nameMembers_.at(name)) = val;
-        return *this;
+        return addMember(name, Object(val));
     }
     Object&   addMember(const std::string& name, Object&& val) {
+        Object aux(std::move(val));
         setObject();
         if (nameMembers_.count(name) == 0) {
             nameMembers_[name] = objMembers_.size();
             objMembers_.push_back(Object());
             objName_   .push_back(name);
         }
-        objMembers_.at(nameMembers_.at(name)) = std::move(val);
+        objMembers_.at(nameMembers_.at(name)) = std::move(aux);
         return *this;
     }
     Object& eraseMember(const std::string& name) {
-- 
2.43.0


From 4b7c041dad964c1b151ef6de526c30304fe1f2b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:37 +0000
Subject: [PATCH 060/114] fix: keep all the digits of the reals set in an
 object

---
 src/core/argument/Object.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/core/argument/Object.hpp b/src/core/argument/Object.hpp
index adfc622..09c9859 100755
--- a/src/core/argument/Object.hpp
+++ b/src/core/argument/Object.hpp
@@ -83,6 +83,7 @@ Object& Object::set(const T&... params) {
 template<typename T>
 void Object::set_(const T& param) {
     std::stringstream aux;
+    aux.precision(std::numeric_limits<Real>::max_digits10);
     aux << param;
     strValue_.push_back(aux.str());
 }
@@ -90,6 +91,7 @@ void Object::set_(const T& param) {
 template<typename T1, typename T2, typename... T>
 void Object::set_(const T1& param1, const T2& param2, const T&... params) {
     std::stringstream aux;
+    aux.precision(std::numeric_limits<Real>::max_digits10);
     aux << param1;
     strValue_.push_back(aux.str());
     set_(param2, params...);
-- 
2.43.0


From b6d1f91e8194f47da4f952191a6cdb7c5c4eebb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:59 +0000
Subject: [PATCH 061/114] fix: keep the values read before the same text
 appears again

---
 src/core/argument/StringParser.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/argument/StringParser.h b/src/core/argument/StringParser.h
index 1f2ea16..ac9279f 100755
--- a/src/core/argument/StringParser.h
+++ b/src/core/argument/StringParser.h
@@ -146,7 +146,7 @@ struct Details {
                     trim(used);
                     trim(remain);
                     if(!remain.empty()) {
-                        used = used.substr(0, used.find(remain));
+                        used = used.substr(0, used.size() - remain.size());
                         inlist.push_front(remain);
                         trim(used);
                     }
@@ -184,7 +184,7 @@ struct Details {
                     trim(remain);
                     rem.clear();
                     if(!remain.empty()) {
-                        used = used.substr(0, used.find(remain));
+                        used = used.substr(0, used.size() - remain.size());
                         rem.push_front(remain);
                         trim(used);
                     }
-- 
2.43.0


From 0ac3008d9a7b4cb139d73a05d0076b1ce9e0ccb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:59 +0000
Subject: [PATCH 062/114] fix: read every element of a list of values given in
 one text

---
 src/core/argument/StringParser.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/core/argument/StringParser.h b/src/core/argument/StringParser.h
index ac9279f..76afde4 100755
--- a/src/core/argument/StringParser.h
+++ b/src/core/argument/StringParser.h
@@ -169,6 +169,7 @@ struct Details {
                           std::size_t p) {
             std::list<std::string> rem;
             std::string aux1;
+            out.clear();
             while (!inlist.empty()) {
                 T outElem;
                 aux1 += inlist.front();
@@ -185,13 +186,13 @@ struct Details {
                     rem.clear();
                     if(!remain.empty()) {
                         used = used.substr(0, used.size() - remain.size());
-                        rem.push_front(remain);
+                        inlist.push_front(remain);
                         trim(used);
                     }
                     if(!used.empty()) {
                         outlist.push_back(used);
                     }
-                    aux1 = remain;
+                    aux1.clear();
                 } else {
                     aux1 += " ";
                 }
-- 
2.43.0


From f5826236ea985877fcb153b3f0c7b5169a8eebb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:59 +0000
Subject: [PATCH 063/114] fix: set the description of the argument parser

---
 src/core/argument/Parser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/argument/Parser.cpp b/src/core/argument/Parser.cpp
index 1b1177d..32e538c 100755
--- a/src/core/argument/Parser.cpp
+++ b/src/core/argument/Parser.cpp
@@ -47,7 +47,7 @@ Parser& Parser::usage(const std::string& usage) {
 }
 
 Parser& Parser::description(const std::string& desc) {
-    description(desc);
+    Group::description(desc);
     return *this;
 }
 
-- 
2.43.0


From cb3ab5a3d428a58b8fe87a5e50242279f4c2d49e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:59 +0000
Subject: [PATCH 064/114] fix: recognise long options joined to their values

---
 src/core/argument/Parser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/argument/Parser.cpp b/src/core/argument/Parser.cpp
index 32e538c..6930fd7 100755
--- a/src/core/argument/Parser.cpp
+++ b/src/core/argument/Parser.cpp
@@ -222,7 +222,7 @@ std::pair<Object, std::vector<std::string>> Parser::parse_() {
         } else if (getArgType_(*it) == ArgType::LongOpt) {
             std::size_t posEq = it->find("=");
             if (posEq != std::string::npos) {
-                arg.first  = it->substr(2, posEq);
+                arg.first  = it->substr(2, posEq - 2);
                 arg.second.clear();
                 if (!it->substr(posEq+1).empty()) {
                     arg.second.push_back(it->substr(posEq+1));
-- 
2.43.0


From 254c9f69c422bcfd7111bc3a4aaf62fcb2fe1def Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:59 +0000
Subject: [PATCH 065/114] fix: report the positional arguments left over

---
 src/core/argument/Parser.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/core/argument/Parser.cpp b/src/core/argument/Parser.cpp
index 6930fd7..4f593c7 100755
--- a/src/core/argument/Parser.cpp
+++ b/src/core/argument/Parser.cpp
@@ -355,6 +355,7 @@ std::pair<Object, std::vector<std::string>> Parser::parse_() {
         }
         positions = rem;
     }
+    rem = positions;
     res.second.clear();
     for (std::size_t i = 0; i < unresolvedOptions.size(); i++) {
         res.second.insert(res.second.end(),
@@ -368,9 +369,9 @@ std::pair<Object, std::vector<std::string>> Parser::parse_() {
         }
     }
     for (std::size_t i = 0; i < rem.size(); i++) {
-        input_.insert(input_.end(),
-                      rem[i].begin(),
-                      rem[i].end());
+        res.second.insert(res.second.end(),
+                          rem[i].begin(),
+                          rem[i].end());
     }
     try {
         parsePostprocess(res.first);
-- 
2.43.0


From 5a48fb5f7ef8952c25039bbb7d67b2647125c773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:59 +0000
Subject: [PATCH 066/114] fix: keep the positional arguments given

---
 src/core/argument/GroupBase.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/argument/GroupBase.cpp b/src/core/argument/GroupBase.cpp
index a88d337..6893486 100755
--- a/src/core/argument/GroupBase.cpp
+++ b/src/core/argument/GroupBase.cpp
@@ -196,7 +196,7 @@ void GroupBase::parsePostprocess(Object& out) {
             throw Error::Group::Required(argsAll);
         }
     } else {
-        for (std::size_t i = 0; i < positions_.size(); i++) {
+        for (std::size_t i = lastPosParsed_; i < positions_.size(); i++) {
             std::string optName = positions_[i]->getName();
             Object aux;
             positions_[i]->notParsed(aux);
-- 
2.43.0


From 289822f129dcf6b8127b0abbc03122c9de82418e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:22 +0000
Subject: [PATCH 067/114] fix: let an argument parser be used again

---
 src/core/argument/Group.cpp     | 7 +++++--
 src/core/argument/GroupBase.cpp | 5 +++++
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/core/argument/Group.cpp b/src/core/argument/Group.cpp
index e38195c..687fa5a 100755
--- a/src/core/argument/Group.cpp
+++ b/src/core/argument/Group.cpp
@@ -103,9 +103,12 @@ MEGroup& Group::addMutuallyExclusiveGroup() {
 }
 
 void Group::parsePreprocess(Object& out) {
-    out.setObject();
+    GroupBase::parsePreprocess(out);
+    lastPosParsed_ = 0;
     for (std::size_t i = 0; i < child_.size(); i++) {
-        if (!child_[i]->isMutuallyExclusive()) {
+        if (child_[i]->isMutuallyExclusive()) {
+            child_[i]->parsePreprocess(out);
+        } else {
             Object aux;
             aux.setObject();
             child_[i]->parsePreprocess(aux);
diff --git a/src/core/argument/GroupBase.cpp b/src/core/argument/GroupBase.cpp
index 6893486..98a2e38 100755
--- a/src/core/argument/GroupBase.cpp
+++ b/src/core/argument/GroupBase.cpp
@@ -150,6 +150,11 @@ std::vector<std::string> GroupBase::possibleOptions(const std::string& id,
 }
 
 void GroupBase::parsePreprocess(Object& out) {
+    lastPosParsed_ = 0;
+    for (std::map<std::string, bool>::iterator
+         it = optionParsed_.begin(); it != optionParsed_.end(); ++it) {
+        it->second = false;
+    }
     out.setObject();
 }
 
-- 
2.43.0


From fe5326021b01bde42ac7bdcc0cce592da1de5a43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:22 +0000
Subject: [PATCH 068/114] fix: explain which values an argument can take

---
 src/core/argument/Value.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/core/argument/Value.h b/src/core/argument/Value.h
index 4b58b83..27231aa 100755
--- a/src/core/argument/Value.h
+++ b/src/core/argument/Value.h
@@ -67,6 +67,7 @@ public:
             }
         }
         aux << ")";
+        str_ = aux.str();
     }
     virtual ~NotChoices() throw() {}
 
-- 
2.43.0


From e3bae38182ee9c5068117248ba2744b518c73bac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:22 +0000
Subject: [PATCH 069/114] fix: copy switches that can be repeated

---
 src/core/argument/MultiSwitch.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/argument/MultiSwitch.cpp b/src/core/argument/MultiSwitch.cpp
index 02653e2..1d36257 100755
--- a/src/core/argument/MultiSwitch.cpp
+++ b/src/core/argument/MultiSwitch.cpp
@@ -58,7 +58,7 @@ MultiSwitch::MultiSwitch(const std::string& name,
 
 MultiSwitch::MultiSwitch(const MultiSwitch& rhs)
 :   Argument(rhs),
-    SwitchBase(rhs) {
+    OptionBase(rhs) {
     hasDefault_ = rhs.hasDefault_;
     default_    = rhs.default_;
 }
-- 
2.43.0


From be99a6943d28262579da3e137eea7bfebbdfc0bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:22 +0000
Subject: [PATCH 070/114] fix: keep the arguments defined when a repeated one
 is refused

---
 src/core/argument/GroupBase.cpp | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/core/argument/GroupBase.cpp b/src/core/argument/GroupBase.cpp
index 98a2e38..e40a03a 100755
--- a/src/core/argument/GroupBase.cpp
+++ b/src/core/argument/GroupBase.cpp
@@ -250,18 +250,21 @@ OptionBase& GroupBase::addOption(OptionBase* arg) {
 }
 
 void GroupBase::addPositionProcess(GroupBase* child, PositionBase* pos) {
+    bool hasName = false;
     try {
         if (child == nullptr) {
             insertName(pos->getName());
+            hasName = true;
             positions_.push_back(pos);
         } else if (child->isMutuallyExclusive()) {
             insertName(pos->getName());
+            hasName = true;
         }
         if (parent_ != nullptr) {
             parent_->addPositionProcess(this, pos);
         }
     } catch (...) {
-        if (names_.count(pos->getName()) != 0) {
+        if (hasName) {
             names_.erase(pos->getName());
         }
         if ((child == nullptr) && !positions_.empty()) {
@@ -280,15 +283,19 @@ void GroupBase::addOptionProcess(GroupBase* child, OptionBase* opt) {
     } else {
         name = opt->getLongIdentifier();
     }
+    bool hasShortOpt = false, hasLongOpt = false, hasName = false;
     try {
         if (opt->hasShortIdentifier()) {
             insertShortOpt(opt->getShortIdentifier(), name);
+            hasShortOpt = true;
         }
         if (opt->hasLongIdentifier()) {
             insertLongOpt(opt->getLongIdentifier(), name);
+            hasLongOpt = true;
         }
         if (child == nullptr) {
             insertName(opt->getName());
+            hasName = true;
             if (optionName_.count(name) == 0) {
                 options_.push_back(opt);
                 optionName_[name] = opt;
@@ -298,20 +305,19 @@ void GroupBase::addOptionProcess(GroupBase* child, OptionBase* opt) {
             }
         } else if (child->isMutuallyExclusive()) {
             insertName(opt->getName());
+            hasName = true;
         }
         if (parent_ != nullptr) {
             parent_->addOptionProcess(this, opt);
         }
     } catch (...) {
-        if (names_.count(opt->getName()) != 0) {
+        if (hasName) {
             names_.erase(opt->getName());
         }
-        if (opt->hasShortIdentifier() &&
-            (shortOpts_.count(opt->getShortIdentifier()))) {
+        if (hasShortOpt) {
             shortOpts_.erase(opt->getShortIdentifier());
         }
-        if (opt->hasLongIdentifier() &&
-            (longOpts_.count(opt->getLongIdentifier()))) {
+        if (hasLongOpt) {
             longOpts_.erase(opt->getLongIdentifier());
         }
         if ((child == nullptr) && !options_.empty()) {
-- 
2.43.0


From 354cf1471dc30dc94fb847701c850ae736b10d5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:23 +0000
Subject: [PATCH 071/114] fix: read the smallest integer

---
 src/core/argument/Object.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/argument/Object.h b/src/core/argument/Object.h
index 8b8251a..192c8ff 100755
--- a/src/core/argument/Object.h
+++ b/src/core/argument/Object.h
@@ -271,7 +271,8 @@ public:
     bool     isReal  () const          { return is <Real>();          }
     Int     getInt   () const          { 
 		Real val = getReal();
-		if (std::numeric_limits<Int>::max() < std::abs(val)) {
+		if (val > std::numeric_limits<Int>::max() ||
+		    val < std::numeric_limits<Int>::min()) {
 			std::stringstream msg;
 			msg << "Integer value overflow: " << val;
 			throw std::logic_error(msg.str());
-- 
2.43.0


From 75ecec4c3d46af26ef98fb339b8af5be1079d956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:01 +0000
Subject: [PATCH 072/114] fix: free the data replaced in an assignment

---
 src/core/Data.cpp | 50 ++++++++---------------------------------------
 1 file changed, 8 insertions(+), 42 deletions(-)

diff --git a/src/core/Data.cpp b/src/core/Data.cpp
index 538db1a..c52bcc5 100755
--- a/src/core/Data.cpp
+++ b/src/core/Data.cpp
@@ -21,6 +21,8 @@
 
 #include "Data.h"
 
+#include <utility>
+
 namespace SEMBA {
 
 Data::Data() {
@@ -101,48 +103,12 @@ Data& Data::operator=(const Data& rhs) {
         return *this;
     }
 
-    solver = nullptr;
-    mesh = nullptr;
-    physicalModels = nullptr;
-    sources = nullptr;
-    outputRequests = nullptr;
-
-    if (rhs.solver != nullptr) {
-        solver = new Solver::Info(*rhs.solver);
-    }
-
-    if (rhs.physicalModels != nullptr) {
-        physicalModels = rhs.physicalModels->clone();
-    }
-
-    if (rhs.mesh != nullptr) {
-        mesh = rhs.mesh->cloneTo<Geometry::Mesh::Mesh>();
-        if (physicalModels != nullptr) {
-            mesh->reassignPointers(*physicalModels);
-        } else {
-            mesh->reassignPointers();
-        }
-
-        if (rhs.outputRequests != nullptr) {
-            outputRequests = rhs.outputRequests->clone();
-            for (size_t i = 0; i < outputRequests->size(); ++i) {
-                Geometry::Element::Group<const Geometry::Elem> outRqElems =
-                        (*outputRequests)(i)->elems();
-                mesh->reassign(outRqElems);
-                (*outputRequests)(i)->set(outRqElems);
-            }
-        }
-
-        if (rhs.sources != nullptr) {
-            sources = rhs.sources->clone();
-            for (size_t i = 0; i < sources->size(); ++i) {
-                Geometry::Element::Group<const Geometry::Elem> sourceElems =
-                        (*sources)(i)->elems();
-                mesh->reassign(sourceElems);
-                (*sources)(i)->set(sourceElems);
-            }
-        }
-    }
+    Data aux(rhs);
+    std::swap(solver,         aux.solver);
+    std::swap(mesh,           aux.mesh);
+    std::swap(physicalModels, aux.physicalModels);
+    std::swap(sources,        aux.sources);
+    std::swap(outputRequests, aux.outputRequests);
 
     return *this;
 }
-- 
2.43.0


From 47a94b6d5735ba2e33568a13cb24881e5fc0fb98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:01 +0000
Subject: [PATCH 073/114] fix: initialise the snapping option of the mesher

---
 src/mesher/Options.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mesher/Options.cpp b/src/mesher/Options.cpp
index aec0797..fde5c11 100755
--- a/src/mesher/Options.cpp
+++ b/src/mesher/Options.cpp
@@ -34,6 +34,7 @@ namespace Mesher {
 Options::Options() {
     mesher_ = Mesher::DMesher;
     mode_ = Mode::structured;
+    snap_ = false;
     forbiddenLength_ = 1.0;
     subgridPoints_ = 0;
     scalingFactor_ = 1.0;
-- 
2.43.0


From d74d6d02326d672a6e1565b5afa3816b740dd1c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:49 +0000
Subject: [PATCH 074/114] fix: read problems without materials

---
 src/parser/json/Parser.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parser/json/Parser.cpp b/src/parser/json/Parser.cpp
index 8bac27e..6e4b1b4 100755
--- a/src/parser/json/Parser.cpp
+++ b/src/parser/json/Parser.cpp
@@ -188,10 +188,10 @@ Source::Group<>* Parser::readSources(
 }
 
 PhysicalModel::Group<>* Parser::readPhysicalModels(const json& j){
+    PhysicalModel::Group<>* res = new PhysicalModel::Group<>();
     if (j.find("materials") == j.end()) {
-        return nullptr;
+        return res;
     }
-    PhysicalModel::Group<>* res = new PhysicalModel::Group<>();
     json mats = j.at("materials");
     for (json::const_iterator it = mats.begin(); it != mats.end(); ++it) {
         res->add(readPhysicalModel( *it ));
-- 
2.43.0


From 9828fb20725b693c0e5fb5cedad1139c7f607ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:49 +0000
Subject: [PATCH 075/114] fix: read matched connectors

---
 src/parser/json/Parser.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/parser/json/Parser.cpp b/src/parser/json/Parser.cpp
index 6e4b1b4..10dbfc0 100755
--- a/src/parser/json/Parser.cpp
+++ b/src/parser/json/Parser.cpp
@@ -309,6 +309,8 @@ PhysicalModel::PhysicalModel* Parser::readPhysicalModel(const json& j) {
 			return new PhysicalModel::Multiport::Predefined(id, name, mpType);
 		} else if (mpType == PhysicalModel::Multiport::Multiport::openCircuit) {
 			return new PhysicalModel::Multiport::Predefined(id, name, mpType);
+		} else if (mpType == PhysicalModel::Multiport::Multiport::matched) {
+			return new PhysicalModel::Multiport::Predefined(id, name, mpType);
         } else if (mpType == PhysicalModel::Multiport::Multiport::dispersive) {
             return new PhysicalModel::Multiport::Dispersive(id, name,
                     j.at("filename").get<std::string>());
-- 
2.43.0


From cab256f2543eb659d15d9bf2069593cff2a11c16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:49 +0000
Subject: [PATCH 076/114] fix: keep the magnetic bulk current requests magnetic

---
 src/core/outputRequest/BulkCurrent.cpp | 5 +++--
 src/core/outputRequest/BulkCurrent.h   | 3 ++-
 src/parser/json/Parser.cpp             | 6 +++---
 3 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/core/outputRequest/BulkCurrent.cpp b/src/core/outputRequest/BulkCurrent.cpp
index 74a71a4..0cdc356 100755
--- a/src/core/outputRequest/BulkCurrent.cpp
+++ b/src/core/outputRequest/BulkCurrent.cpp
@@ -29,8 +29,9 @@ BulkCurrent::BulkCurrent(
         const std::string& name,
         const Geometry::Element::Group<const Geometry::Elem>& elem,
         const Math::Constants::CartesianAxis& dir,
-        const Math::UInt& skip)
-:   SEMBA::OutputRequest::Base(bulkCurrentElectric, name, domain),
+        const Math::UInt& skip,
+        const Type& type)
+:   SEMBA::OutputRequest::Base(type, name, domain),
     Geometry::Element::Group<const Geometry::Elem>(elem) {
 
     dir_ = dir;
diff --git a/src/core/outputRequest/BulkCurrent.h b/src/core/outputRequest/BulkCurrent.h
index bf7be2d..0ae1ab2 100755
--- a/src/core/outputRequest/BulkCurrent.h
+++ b/src/core/outputRequest/BulkCurrent.h
@@ -33,7 +33,8 @@ public:
                 const std::string& name,
                 const Geometry::Element::Group<const Geometry::Elem>& box,
                 const Math::Constants::CartesianAxis& dir,
-                const Math::UInt& skip);
+                const Math::UInt& skip,
+                const Type& type = bulkCurrentElectric);
     BulkCurrent(const BulkCurrent& rhs);
     virtual ~BulkCurrent();
 
diff --git a/src/parser/json/Parser.cpp b/src/parser/json/Parser.cpp
index 10dbfc0..504b324 100755
--- a/src/parser/json/Parser.cpp
+++ b/src/parser/json/Parser.cpp
@@ -394,18 +394,18 @@ OutputRequest::Base* Parser::readOutputRequest(
 			return new OutputRequest::BulkCurrent(domain, name,
 				boxToElemGroup(mesh, j.at("box").get<std::string>()),
 				strToCartesianAxis(j.at("direction").get<std::string>()),
-				j.at("skip").get<int>());
+				j.at("skip").get<int>(), type);
 		} else if (gidOutputType.compare("OutRq_on_point") == 0) {
 			return new OutputRequest::BulkCurrent(domain, name,
 				readCoordIdAsNodes(mesh, j.at("elemIds").get<json>()),
 				strToCartesianAxis(j.at("direction").get<std::string>()),
-				j.at("skip").get<int>());
+				j.at("skip").get<int>(), type);
 		} else {
 			return new OutputRequest::BulkCurrent(domain, name,
 				readElemIdsAsGroupOf<const Geometry::Elem>(
 					mesh, j.at("elemIds").get<json>()),
 				strToCartesianAxis(j.at("direction").get<std::string>()),
-				j.at("skip").get<int>());
+				j.at("skip").get<int>(), type);
 		}
 	}
 
-- 
2.43.0


From d6f16024fc5f0527034edb0b8a35cc6b3a2d95fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:18 +0000
Subject: [PATCH 077/114] fix: keep the sources and requests in copies of
 problems without a mesh

---
 src/core/Data.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/core/Data.cpp b/src/core/Data.cpp
index c52bcc5..0f640c1 100755
--- a/src/core/Data.cpp
+++ b/src/core/Data.cpp
@@ -49,6 +49,14 @@ Data::Data(const Data& rhs) {
         physicalModels = rhs.physicalModels->clone();
     }
 
+    if (rhs.outputRequests != nullptr) {
+        outputRequests = rhs.outputRequests->clone();
+    }
+
+    if (rhs.sources != nullptr) {
+        sources = rhs.sources->clone();
+    }
+
     if (rhs.mesh != nullptr) {
         mesh = rhs.mesh->cloneTo<Geometry::Mesh::Mesh>();
         if (physicalModels != nullptr) {
@@ -57,8 +65,7 @@ Data::Data(const Data& rhs) {
             mesh->reassignPointers();
         }
 
-        if (rhs.outputRequests != nullptr) {
-            outputRequests = rhs.outputRequests->clone();
+        if (outputRequests != nullptr) {
             for (size_t i = 0; i < outputRequests->size(); ++i) {
                 Geometry::Element::Group<const Geometry::Elem> outRqElems =
                         (*outputRequests)(i)->elems();
@@ -67,8 +74,7 @@ Data::Data(const Data& rhs) {
             }
         }
 
-        if (rhs.sources != nullptr) {
-            sources = rhs.sources->clone();
+        if (sources != nullptr) {
             for (size_t i = 0; i < sources->size(); ++i) {
                 Geometry::Element::Group<const Geometry::Elem> sourceElems =
                         (*sources)(i)->elems();
-- 
2.43.0


From 23facff3df10e6e98d9125f87d615e7a7264e64e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:18 +0000
Subject: [PATCH 078/114] fix: refuse problem files that are not valid

---
 src/parser/json/Parser.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/parser/json/Parser.cpp b/src/parser/json/Parser.cpp
index 504b324..0f1dcb6 100755
--- a/src/parser/json/Parser.cpp
+++ b/src/parser/json/Parser.cpp
@@ -60,6 +60,7 @@ Data Parser::read(std::istream& stream) const {
     }
     catch( const std::exception & ex ) {
         std::cerr << ex.what() << std::endl;
+        throw;
     }
 
     Util::ProgressBar progress;
-- 
2.43.0


From cf6c114be62448696edf8f8d3eacbc4fb2d13d1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:18 +0000
Subject: [PATCH 079/114] fix: refuse an empty list of grids

---
 src/parser/json/Parser.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/parser/json/Parser.cpp b/src/parser/json/Parser.cpp
index 0f1dcb6..bdf6bde 100755
--- a/src/parser/json/Parser.cpp
+++ b/src/parser/json/Parser.cpp
@@ -541,6 +541,10 @@ Geometry::Grid3 Parser::readGrids(const json& j) {
         throw std::logic_error("Grids object not found.");
     }
 
+    if (j.at("grids").empty()) {
+        throw std::logic_error("Grids object is empty.");
+    }
+
     json g = j.at("grids").front();
     std::string gridType = g.at("gridType").get<std::string>();
     if (gridType.compare("gridCondition") == 0) {
-- 
2.43.0


From 92bfb1c2aada8d656092df8060849a69696821b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:37 +0000
Subject: [PATCH 080/114] fix: give each solid of a file its own layer

---
 src/parser/stl/Parser.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/parser/stl/Parser.cpp b/src/parser/stl/Parser.cpp
index ef2a5af..cc934e1 100755
--- a/src/parser/stl/Parser.cpp
+++ b/src/parser/stl/Parser.cpp
@@ -73,7 +73,11 @@ Data Parser::read(std::istream& stl) const {
             std::string line;
             while (stl.peek() != EOF) {
                 std::getline(stl, line);
-                if (trim(line) == "outer loop") {
+                trim(line);
+                if (line.compare(0, 8, "endsolid") == 0) {
+                    break;
+                }
+                if (line == "outer loop") {
                     std::vector<const Geometry::CoordR3*> coord;
                     coord.reserve(3);
                     while (stl.peek() != EOF && label != "endloop") {
-- 
2.43.0


From 699a5ec36fe3f1b9758bb3f493c082f98049e36d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:37 +0000
Subject: [PATCH 081/114] fix: read the whole name of each solid

---
 src/parser/stl/Parser.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/parser/stl/Parser.cpp b/src/parser/stl/Parser.cpp
index cc934e1..e995ce0 100755
--- a/src/parser/stl/Parser.cpp
+++ b/src/parser/stl/Parser.cpp
@@ -47,7 +47,10 @@ Data Parser::read(std::istream& stl) const {
     stl.seekg(0); // Rewinds.
     while (stl.peek() != EOF) {
         stl >> label;
-        if (label == "vertex") {
+        if (label == "solid" || label == "endsolid") {
+            std::string name;
+            std::getline(stl, name);
+        } else if (label == "vertex") {
             Math::CVecR3 vertex;
             stl >> vertex(Math::Constants::x)
                 >> vertex(Math::Constants::y)
@@ -67,7 +70,8 @@ Data Parser::read(std::istream& stl) const {
         stl >> label;
         if (label == "solid") {
             std::string layerName;
-            stl >> layerName;
+            std::getline(stl, layerName);
+            trim(layerName);
             Geometry::Layer::Layer* lay = 
                 lG.addId(new Geometry::Layer::Layer(layerName))(0);
             std::string line;
-- 
2.43.0


From de6f3bce04ad016186832b5aac643f5ee071afbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:37 +0000
Subject: [PATCH 082/114] fix: refuse facets without three vertices

---
 src/parser/stl/Parser.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/parser/stl/Parser.cpp b/src/parser/stl/Parser.cpp
index e995ce0..4841c5f 100755
--- a/src/parser/stl/Parser.cpp
+++ b/src/parser/stl/Parser.cpp
@@ -55,6 +55,9 @@ Data Parser::read(std::istream& stl) const {
             stl >> vertex(Math::Constants::x)
                 >> vertex(Math::Constants::y)
                 >> vertex(Math::Constants::z);
+            if (!stl) {
+                throw std::logic_error("Invalid vertex in STL file.");
+            }
             vertices.push_back(vertex);
         }
     }
@@ -94,6 +97,9 @@ Data Parser::read(std::istream& stl) const {
                             coord.push_back(cG.getPos(pos));
                         }
                     }
+                    if (coord.size() != 3 || label != "endloop") {
+                        throw std::logic_error("Invalid facet in STL file.");
+                    }
                     label.clear();
                     eG.addId(new Geometry::Tri3(Geometry::ElemId(0),
                                                 &coord[0], lay));
-- 
2.43.0


From 52a22c8c2848ba7f3aacc75b460d934d85e27d35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:46 +0000
Subject: [PATCH 083/114] fix: write all digits of the coordinates to VTK files

---
 src/exporter/vtk/Exporter.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/exporter/vtk/Exporter.cpp b/src/exporter/vtk/Exporter.cpp
index d39d262..365c3ce 100755
--- a/src/exporter/vtk/Exporter.cpp
+++ b/src/exporter/vtk/Exporter.cpp
@@ -21,6 +21,8 @@
 
 #include "Exporter.h"
 
+#include <limits>
+
 #include "geometry/mesh/Unstructured.h"
 #include "geometry/element/Triangle.h"
 #include "geometry/element/Quadrilateral.h"
@@ -210,11 +212,12 @@ void Exporter::writePoints_(std::ofstream &outFile,
                             const std::vector<Math::CVecR3>& pos) {
     outFile << "      " << "<Points>" << std::endl;
     outFile << "        " << "<DataArray "
-            << "type=\"Float32\" "
+            << "type=\"Float64\" "
             << "NumberOfComponents=\"3\" "
             << "format=\"ascii\""
             << ">" << std::endl;
     outFile << "         ";
+    outFile.precision(std::numeric_limits<Math::Real>::max_digits10);
     for (std::size_t i = 0; i < pos.size(); i++) {
         outFile << " " << pos[i](Math::Constants::x)
                 << " " << pos[i](Math::Constants::y)
-- 
2.43.0


From 55452aefb039a0552051fa92aa63a068bdaf6ad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:46 +0000
Subject: [PATCH 084/114] fix: keep the VTK files of groups with the same name
 apart

---
 src/exporter/vtk/Exporter.cpp | 9 +++++++--
 src/exporter/vtk/Exporter.h   | 6 +++++-
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/exporter/vtk/Exporter.cpp b/src/exporter/vtk/Exporter.cpp
index 365c3ce..879cb62 100755
--- a/src/exporter/vtk/Exporter.cpp
+++ b/src/exporter/vtk/Exporter.cpp
@@ -158,14 +158,19 @@ void Exporter::writeMesh_(const Data* smb) {
 }
 
 void Exporter::writeFile_(const Group::Group<const Geometry::ElemR>& elems,
-                          const std::string& name,
+                          const std::string& group,
                           std::ofstream& outMain,
                           std::size_t& part) {
     if (elems.empty()) {
         return;
     }
+    // Each group has a file of its own.
+    std::string name = group;
+    for (std::size_t i = part; !written_.insert(name).second; i++) {
+        name = group + "_" + std::to_string(i);
+    }
     outMain << "    " << "<DataSet "
-            << "group=\"" << name << "\" "
+            << "group=\"" << group << "\" "
             << "part=\"" << part++ << "\" "
             << "file=\""
             << getBasename() + ".vtk" + Separator + name + ".vtu" << "\" "
diff --git a/src/exporter/vtk/Exporter.h b/src/exporter/vtk/Exporter.h
index cbc6f77..1686bfd 100755
--- a/src/exporter/vtk/Exporter.h
+++ b/src/exporter/vtk/Exporter.h
@@ -23,6 +23,8 @@
 #define SEMBA_EXPORTER_VTK_EXPORTER_H_
 
 #include <fstream>
+#include <set>
+#include <string>
 #include <utility>
 #include <algorithm>
 
@@ -61,9 +63,11 @@ private:
         VTK_QUADRATIC_TETRA      = 24,
         VTK_QUADRATIC_HEXAHEDRON = 25
     };
+    std::set<std::string> written_;
+
     void writeMesh_(const Data* smb);
     void writeFile_(const Group::Group<const Geometry::ElemR>& elems,
-                    const std::string& name,
+                    const std::string& group,
                     std::ofstream& outMain,
                     std::size_t& part);
     std::pair<std::vector<Math::CVecR3>, 
-- 
2.43.0


From b13bfb3a2cac340480d7246d1d63c479927da3b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:46 +0000
Subject: [PATCH 085/114] fix: escape the names of groups in VTK files

---
 src/exporter/vtk/Exporter.cpp | 29 +++++++++++++++++++++++++++--
 src/exporter/vtk/Exporter.h   |  1 +
 2 files changed, 28 insertions(+), 2 deletions(-)

diff --git a/src/exporter/vtk/Exporter.cpp b/src/exporter/vtk/Exporter.cpp
index 879cb62..c5dcc1a 100755
--- a/src/exporter/vtk/Exporter.cpp
+++ b/src/exporter/vtk/Exporter.cpp
@@ -170,10 +170,11 @@ void Exporter::writeFile_(const Group::Group<const Geometry::ElemR>& elems,
         name = group + "_" + std::to_string(i);
     }
     outMain << "    " << "<DataSet "
-            << "group=\"" << group << "\" "
+            << "group=\"" << escape_(group) << "\" "
             << "part=\"" << part++ << "\" "
             << "file=\""
-            << getBasename() + ".vtk" + Separator + name + ".vtu" << "\" "
+            << escape_(getBasename() + ".vtk" + Separator + name + ".vtu")
+            << "\" "
             << "/>" << std::endl;
 
     std::string filename = getFilename() + ".vtk" + Separator + name + ".vtu";
@@ -296,6 +297,30 @@ void Exporter::writeCells_(
     outFile << "      " << "</Cells>" << std::endl;
 }
 
+std::string Exporter::escape_(const std::string& text) {
+    std::string res;
+    for (std::size_t i = 0; i < text.size(); i++) {
+        switch (text[i]) {
+        case '&':
+            res += "&amp;";
+            break;
+        case '<':
+            res += "&lt;";
+            break;
+        case '>':
+            res += "&gt;";
+            break;
+        case '"':
+            res += "&quot;";
+            break;
+        default:
+            res += text[i];
+            break;
+        }
+    }
+    return res;
+}
+
 std::string Exporter::makeValid_(const std::string& allocator) {
     std::string res = allocator;
     std::replace(res.begin(), res.end(), '/', '_');
diff --git a/src/exporter/vtk/Exporter.h b/src/exporter/vtk/Exporter.h
index 1686bfd..c9d226c 100755
--- a/src/exporter/vtk/Exporter.h
+++ b/src/exporter/vtk/Exporter.h
@@ -80,6 +80,7 @@ private:
             const Group::Group<const Geometry::ElemR>& elems,
             std::map<Geometry::CoordId, std::size_t>& mapCoords);
 
+    static std::string escape_(const std::string&);
     static std::string makeValid_(const std::string&);
 };
 
-- 
2.43.0


From 308f576f35a23e57f94c94419a86179100582403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:46 +0000
Subject: [PATCH 086/114] fix: write polygons as polygons to VTK files

---
 src/exporter/vtk/Exporter.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/exporter/vtk/Exporter.cpp b/src/exporter/vtk/Exporter.cpp
index c5dcc1a..37e40b9 100755
--- a/src/exporter/vtk/Exporter.cpp
+++ b/src/exporter/vtk/Exporter.cpp
@@ -288,6 +288,8 @@ void Exporter::writeCells_(
             outFile << CELL_TYPES::VTK_TETRA;
         } else if (elems(i)->is<Geometry::Hex8>()) {
             outFile << CELL_TYPES::VTK_HEXAHEDRON;
+        } else if (elems(i)->is<Geometry::Surf>()) {
+            outFile << CELL_TYPES::VTK_POLYGON;
         } else {
             outFile << CELL_TYPES::VTK_POLY_LINE;
         }
-- 
2.43.0


From 36404d25c920f2bafb2f4d6b22bbe6a6f3e75b42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:46 +0000
Subject: [PATCH 087/114] fix: close GiD files once

---
 src/exporter/gid/Exporter.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/exporter/gid/Exporter.cpp b/src/exporter/gid/Exporter.cpp
index 995e699..dd39770 100755
--- a/src/exporter/gid/Exporter.cpp
+++ b/src/exporter/gid/Exporter.cpp
@@ -96,7 +96,6 @@ Exporter::~Exporter() {
         GiD_PostDone();
     }
     numberOfOutputGiD_--;
-    GiD_fClosePostMeshFile(meshFile_);
 }
 
 void Exporter::writeAllElements_(
-- 
2.43.0


From b0f8ba3c283f83dabc7154c434d021e874f452b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:46 +0000
Subject: [PATCH 088/114] fix: leave the mesh as it is when writing it to GiD
 files

---
 src/exporter/gid/Exporter.cpp | 18 +++++++++++-------
 src/exporter/gid/Exporter.h   |  1 +
 2 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/exporter/gid/Exporter.cpp b/src/exporter/gid/Exporter.cpp
index dd39770..402050d 100755
--- a/src/exporter/gid/Exporter.cpp
+++ b/src/exporter/gid/Exporter.cpp
@@ -68,10 +68,14 @@ void Exporter::init_(
         throw std::logic_error("Invalid GiD exporting mode.");
     }
 
-    Math::Real scalingFactor =
-        smb->solver->getSettings()("geometryScalingFactor").getReal();
-    if (scalingFactor != 0.0) {
-        smb->mesh->applyScalingFactor(1.0 / scalingFactor);
+    scaling_ = 1.0;
+    if (smb->solver != nullptr &&
+        smb->solver->getSettings().existsName("geometryScalingFactor")) {
+        Math::Real scalingFactor =
+            smb->solver->getSettings()("geometryScalingFactor").getReal();
+        if (scalingFactor != 0.0) {
+            scaling_ = 1.0 / scalingFactor;
+        }
     }
     writeMesh_(smb);
 }
@@ -322,9 +326,9 @@ void Exporter::writeCoordinates_(Geometry::CoordR3Group& cG)  {
     GiD_fBeginCoordinates(meshFile_);
     for (std::size_t i = 0; i < cG.size(); i++) {
         GiD_fWriteCoordinates(meshFile_, ++coordCounter_,
-                (*cG(i))(Math::Constants::x),
-				(*cG(i))(Math::Constants::y),
-				(*cG(i))(Math::Constants::z));
+                (*cG(i))(Math::Constants::x) * scaling_,
+                (*cG(i))(Math::Constants::y) * scaling_,
+                (*cG(i))(Math::Constants::z) * scaling_);
     }
     GiD_fEndCoordinates(meshFile_);
 }
diff --git a/src/exporter/gid/Exporter.h b/src/exporter/gid/Exporter.h
index 2414a3b..78d85c8 100755
--- a/src/exporter/gid/Exporter.h
+++ b/src/exporter/gid/Exporter.h
@@ -67,6 +67,7 @@ private:
     GiD_FILE meshFile_;
     GiD_FILE resultFile_;
     GiD_PostMode mode_;
+    Math::Real scaling_;
 
     void init_(const Data* smb, GiD_PostMode mode, const std::string& fn);
     void writeMesh_(const Data* smb);
-- 
2.43.0


From 3dbaa7947ea8b82c8b00db55d36c58814bc2b008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:46 +0000
Subject: [PATCH 089/114] fix: do not count GiD exporters that could not be
 built

---
 src/exporter/gid/Exporter.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/exporter/gid/Exporter.cpp b/src/exporter/gid/Exporter.cpp
index 402050d..329d407 100755
--- a/src/exporter/gid/Exporter.cpp
+++ b/src/exporter/gid/Exporter.cpp
@@ -48,6 +48,9 @@ void Exporter::init_(
         GiD_PostMode mode,
         const std::string& fn) {
     // Sets default values.
+    if (mode != GiD_PostAscii && mode != GiD_PostBinary) {
+        throw std::logic_error("Invalid GiD exporting mode.");
+    }
     mode_ = mode;
     meshFile_ = 0;
     resultFile_ = 0;
@@ -65,7 +68,7 @@ void Exporter::init_(
         openPostResultFile_(fn + ".post.res");
         break;
     default:
-        throw std::logic_error("Invalid GiD exporting mode.");
+        break;
     }
 
     scaling_ = 1.0;
-- 
2.43.0


From a1d8f0f3e7a2f8cb2db7db88542507a39de7dc4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:00 +0000
Subject: [PATCH 090/114] fix: leave paths as they are when asking for their
 base name

---
 src/core/filesystem/Project.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/core/filesystem/Project.cpp b/src/core/filesystem/Project.cpp
index 8549bd7..756a426 100755
--- a/src/core/filesystem/Project.cpp
+++ b/src/core/filesystem/Project.cpp
@@ -129,7 +129,10 @@ std::string Project::getBasename() const {
     _splitpath(getFilename().c_str(), nullptr, nullptr, fname, ext);
     std::string res = std::string(fname) + ext;
 #else
-    std::string res(basename(const_cast<char*>(c_str())));
+    char *cstr = new char[length() + 1];
+    strcpy(cstr, c_str());
+    std::string res(basename(cstr));
+    delete [] cstr;
 #endif
     return res;
 }
-- 
2.43.0


From 5ea57889ee1106101634f9377872d73ae2176b07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:00 +0000
Subject: [PATCH 091/114] fix: do not report missing paths as folders

---
 src/core/filesystem/Project.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/core/filesystem/Project.cpp b/src/core/filesystem/Project.cpp
index 756a426..7540a0d 100755
--- a/src/core/filesystem/Project.cpp
+++ b/src/core/filesystem/Project.cpp
@@ -288,8 +288,7 @@ bool Project::checkExistance_(const std::string& fn) const {
     }
 #else
     struct stat sb;
-    exists = (stat(fn.c_str(), &sb) == 0);
-    exists &= S_ISDIR(sb.st_mode);
+    exists = (stat(fn.c_str(), &sb) == 0) && S_ISDIR(sb.st_mode);
 #endif
     return exists;
 }
@@ -318,8 +317,7 @@ bool Project::isFolder() const {
     return false;
 #else
     struct stat sb;
-    stat(c_str(), &sb);
-    return S_ISDIR(sb.st_mode);
+    return (stat(c_str(), &sb) == 0) && S_ISDIR(sb.st_mode);
 #endif
 }
 
-- 
2.43.0


From 70b267f629ae37b1a550547fe764daa4336b9ae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:00 +0000
Subject: [PATCH 092/114] fix: look for the extension in the name of the file

---
 src/core/filesystem/Project.cpp | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/core/filesystem/Project.cpp b/src/core/filesystem/Project.cpp
index 7540a0d..e935c3e 100755
--- a/src/core/filesystem/Project.cpp
+++ b/src/core/filesystem/Project.cpp
@@ -339,14 +339,13 @@ void Project::exec(const std::string arguments) const {
 }
 
 std::string Project::getExtension() const {
-    size_t pos = rfind(".");
-    if (pos == std::string::npos) {
-        return *this;
+    // Dots in the folder or at the front of the name are not extensions.
+    std::string name = getBasename();
+    size_t pos = name.rfind(".");
+    if (pos == std::string::npos || pos == 0) {
+        return std::string();
     }
-    if (pos == 0) {
-        return *this;
-    }
-    return this->substr(pos, std::string::npos);
+    return name.substr(pos);
 }
 
 std::string Project::getFullPath() const {
-- 
2.43.0


From 653ecb7dd95e3d3340ecb1e2cb77c761719ae5b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:00 +0000
Subject: [PATCH 093/114] fix: make paths relative only to the folder they
 start with

---
 src/core/filesystem/Project.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/core/filesystem/Project.cpp b/src/core/filesystem/Project.cpp
index e935c3e..679c729 100755
--- a/src/core/filesystem/Project.cpp
+++ b/src/core/filesystem/Project.cpp
@@ -297,13 +297,17 @@ Project Project::relativeTo(const Project& rhs) const {
     std::string rhsFolder;
     if (rhs.isFolder()) {
         rhsFolder = rhs.getFilename();
+        if (rhsFolder.find_last_of("/\\") != rhsFolder.length() - 1) {
+            rhsFolder += "/";
+        }
     } else {
         rhsFolder = rhs.getFolder();
     }
     std::string name = getFilename();
-    std::string res = name.substr(name.find(rhsFolder) + rhsFolder.length(),
-                                  name.length());
-    return Project(res);
+    if (name.compare(0, rhsFolder.length(), rhsFolder) != 0) {
+        return Project(name);
+    }
+    return Project(name.substr(rhsFolder.length()));
 }
 
 bool Project::isFolder() const {
-- 
2.43.0


From a613798a471866e7ca090cf7032f67f86d57d449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:00 +0000
Subject: [PATCH 094/114] fix: report paths that do not exist when asking for
 their full path

---
 src/core/filesystem/Project.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/core/filesystem/Project.cpp b/src/core/filesystem/Project.cpp
index 679c729..4af5015 100755
--- a/src/core/filesystem/Project.cpp
+++ b/src/core/filesystem/Project.cpp
@@ -21,6 +21,7 @@
 
 #include "Project.h"
 
+#include <cstdlib>
 #include <cstring>
 #include <iostream>
 #include <stdexcept>
@@ -355,7 +356,12 @@ std::string Project::getExtension() const {
 std::string Project::getFullPath() const {
     std::string res;
 #ifndef _WIN32
-    res = (const char*) realpath(this->getFilename().c_str(), nullptr);
+    char* path = realpath(this->getFilename().c_str(), nullptr);
+    if (path == nullptr) {
+        throw std::ios_base::failure("Can not find " + *this);
+    }
+    res = path;
+    free(path);
     if (Project(res).isFolder()) {
         res += "/";
     }
-- 
2.43.0


From 5c7d9eba79e6114d8cf8227e68dd3aedfb9782bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:00 +0000
Subject: [PATCH 095/114] fix: list only the files that end in the extension

---
 src/core/filesystem/Project.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/core/filesystem/Project.cpp b/src/core/filesystem/Project.cpp
index 4af5015..7c9d1d6 100755
--- a/src/core/filesystem/Project.cpp
+++ b/src/core/filesystem/Project.cpp
@@ -205,8 +205,9 @@ std::vector<std::string> Project::getFilesBasenames_(
     // Stores files with names matching extension.
     std::vector<std::string> res;
     for (std::size_t i = 0; i < files.size(); i++) {
-        size_t index = files[i].find(extension);
-        if (index != std::string::npos) {
+        if (files[i].length() >= extension.length() &&
+            files[i].compare(files[i].length() - extension.length(),
+                             extension.length(), extension) == 0) {
             res.push_back(files[i]);
         }
     }
-- 
2.43.0


From be70a45fd4ff807681c5b201afdf1d341250186b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:00 +0000
Subject: [PATCH 096/114] fix: remove only the asked folder whatever its name

---
 src/core/filesystem/Project.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/core/filesystem/Project.cpp b/src/core/filesystem/Project.cpp
index 7c9d1d6..2638f09 100755
--- a/src/core/filesystem/Project.cpp
+++ b/src/core/filesystem/Project.cpp
@@ -267,8 +267,16 @@ void Project::deleteDirIfExists_(const std::string& directory) const {
 
     // Deletes if exists.
     if (checkExistance_(directory)) {
-        std::string command = "rm -r ";
-        command += directory;
+        // The name is quoted, it can hold any character.
+        std::string command = "rm -r -- '";
+        for (std::size_t i = 0; i < directory.length(); i++) {
+            if (directory[i] == '\'') {
+                command += "'\\''";
+            } else {
+                command += directory[i];
+            }
+        }
+        command += "'";
         if (system(command.c_str())) {
             std::cout << std::endl << "WARNING @ Project: ";
             std::cout << "System command failed to execute " << command
-- 
2.43.0


From fb258e8b7761166f830822e0893c0e0e98a2aa8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:00 +0000
Subject: [PATCH 097/114] fix: report files that can not be opened

---
 src/core/filesystem/Project.cpp | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/src/core/filesystem/Project.cpp b/src/core/filesystem/Project.cpp
index 2638f09..f637263 100755
--- a/src/core/filesystem/Project.cpp
+++ b/src/core/filesystem/Project.cpp
@@ -222,13 +222,12 @@ void Project::openFile(std::ofstream& file,
 void Project::openFile_(const std::string& fileName,
                         std::ofstream& file,
                         const bool& textMode) const {
-    try {
-        if (textMode) {
-            file.open(fileName.c_str());
-        } else {
-            file.open(fileName.c_str(), std::ios::binary);
-        }
-    } catch(const std::exception&) {
+    if (textMode) {
+        file.open(fileName.c_str());
+    } else {
+        file.open(fileName.c_str(), std::ios::binary);
+    }
+    if (!file) {
         throw std::ios_base::failure(fileName + std::string(" not exists"));
     }
 }
@@ -336,9 +335,8 @@ bool Project::isFolder() const {
 }
 
 void Project::openAsInput(std::ifstream& file) const {
-    try {
-        file.open(this->c_str());
-    } catch(const std::exception&) {
+    file.open(this->c_str());
+    if (!file) {
         throw std::ios_base::failure(std::string("File can't be opened: ") +
                                      *this);
     }
-- 
2.43.0


From ab99635dad6f7d2917b0d0972f04ed6fa89721af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:13 +0000
Subject: [PATCH 098/114] fix: print the help of arguments with what its
 placeholders stand for

---
 src/core/argument/Formatter.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/core/argument/Formatter.cpp b/src/core/argument/Formatter.cpp
index d9f1009..fec285e 100755
--- a/src/core/argument/Formatter.cpp
+++ b/src/core/argument/Formatter.cpp
@@ -359,10 +359,10 @@ void Formatter::printArg_(const std::string& arg,
         } else {
             std::cout << std::string(tab-arg.size(),' ');
         }
-        replaceProg_(help);
-        replaceDefault_(help, def);
-        replaceChoices_(help, choices);
-        printParagraph_(help);
+        std::string text = replaceProg_(help);
+        text = replaceDefault_(text, def);
+        text = replaceChoices_(text, choices);
+        printParagraph_(text);
     } else {
         std::cout << std::endl;
     }
-- 
2.43.0


From f17073554899e7b32c48ab938893ab9e312b4830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:13 +0000
Subject: [PATCH 099/114] fix: keep the text after the choices in help messages

---
 src/core/argument/Formatter.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/core/argument/Formatter.cpp b/src/core/argument/Formatter.cpp
index fec285e..36aa616 100755
--- a/src/core/argument/Formatter.cpp
+++ b/src/core/argument/Formatter.cpp
@@ -228,6 +228,7 @@ std::string Formatter::replaceChoices_(
         res += aux.substr(0, aux.find(CHOICES)) + choicesStr;
         aux  = aux.substr(aux.find(CHOICES) + CHOICES.size());
     }
+    res += aux;
     return res;
 }
 
-- 
2.43.0


From 4719d1ccbea19f8f1a98dba73cb4089cffd55c3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:13 +0000
Subject: [PATCH 100/114] fix: fill the lines of usage and help messages

---
 src/core/argument/Formatter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/argument/Formatter.cpp b/src/core/argument/Formatter.cpp
index 36aa616..d79df4a 100755
--- a/src/core/argument/Formatter.cpp
+++ b/src/core/argument/Formatter.cpp
@@ -247,7 +247,7 @@ void Formatter::printParagraph_(const std::string& str,
         }
         if (newPos > max && !first) {
             std::cout << std::endl << std::string(min, ' ') << word;
-            pos = newPos;
+            pos = min + word.size();
         } else {
             if (!first) {
                 std::cout << " ";
-- 
2.43.0


From 85a4beec565cc694460b9c5348170e51a3cf6202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:13 +0000
Subject: [PATCH 101/114] fix: use the default width when that of the console
 is unknown

---
 src/core/argument/Formatter.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/core/argument/Formatter.cpp b/src/core/argument/Formatter.cpp
index d79df4a..e406016 100755
--- a/src/core/argument/Formatter.cpp
+++ b/src/core/argument/Formatter.cpp
@@ -276,7 +276,9 @@ std::size_t Formatter::getConsoleSize_() {
         return size;
     }
     struct winsize w;
-    ioctl(0, TIOCGWINSZ, &w);
+    if (ioctl(0, TIOCGWINSZ, &w) != 0 || w.ws_col == 0) {
+        return size;
+    }
     size = w.ws_col;
 #endif
     return size;
-- 
2.43.0


From 3cb0d4cfa7a0b66ed4c71372bc7934c0c89decd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:13 +0000
Subject: [PATCH 102/114] fix: keep the help of arguments in its column

---
 src/core/argument/Formatter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/argument/Formatter.cpp b/src/core/argument/Formatter.cpp
index e406016..a8eea64 100755
--- a/src/core/argument/Formatter.cpp
+++ b/src/core/argument/Formatter.cpp
@@ -365,7 +365,7 @@ void Formatter::printArg_(const std::string& arg,
         std::string text = replaceProg_(help);
         text = replaceDefault_(text, def);
         text = replaceChoices_(text, choices);
-        printParagraph_(text);
+        printParagraph_(text, tab, tab);
     } else {
         std::cout << std::endl;
     }
-- 
2.43.0


From 9945aa5aa2ead4a481ccab907e754851162469a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:36 +0000
Subject: [PATCH 103/114] fix: apply the mesher options given on the command
 line

---
 src/mesher/Options.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/mesher/Options.cpp b/src/mesher/Options.cpp
index fde5c11..5047e0e 100755
--- a/src/mesher/Options.cpp
+++ b/src/mesher/Options.cpp
@@ -154,13 +154,13 @@ void Options::setSubgridPoints(const Math::Int& sg) {
 }
 
 void Options::addArguments(Argument::Group& args) const {
-    args.addOption(new Argument::Switch("VTK Export", "vtkexport"));
+    args.addOption(new Argument::Switch("vtkExport", "vtkexport"));
     args.addOption(
         new Argument::Option<Math::Real, Math::Real, Math::Real>("gridstep"));
-    args.addOption(new Argument::Option<std::string>("Mode", "mode"))
+    args.addOption(new Argument::Option<std::string>("mode"))
         .choices({{"Structured"}, {"Relaxed"}, {"Slanted"}, {"Conformal"}});
     args.addOption(
-        new Argument::Option<Math::Real>("Forbidden length", "length"));
+        new Argument::Option<Math::Real>("forbiddenLength", "length"));
 }
 
 void Options::set(const Solver::Settings& opts) {
@@ -203,6 +203,13 @@ void Options::set(const Solver::Settings& opts) {
     if (opts.existsName(        "forbiddenLength")) {
         setForbiddenLength(opts("forbiddenLength").getReal());
     }
+    if (opts.existsName("gridstep")) {
+        const std::tuple<Math::Real, Math::Real, Math::Real> step =
+            opts("gridstep").get<Math::Real, Math::Real, Math::Real>();
+        setGridStep(Math::CVecR3(std::get<0>(step),
+                                 std::get<1>(step),
+                                 std::get<2>(step)));
+    }
     if (opts.existsName(      "geometryScalingFactor")) {
         setScalingFactor(opts("geometryScalingFactor").getReal());
     }
-- 
2.43.0


From 62e5b99f0caa486dfb820cdaaa465a97b3857b01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:52 +0000
Subject: [PATCH 104/114] fix: write no progress line when the width of the
 console is unknown

---
 src/core/util/ProgressBar.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/core/util/ProgressBar.cpp b/src/core/util/ProgressBar.cpp
index bd84d84..0d8b67d 100755
--- a/src/core/util/ProgressBar.cpp
+++ b/src/core/util/ProgressBar.cpp
@@ -238,7 +238,9 @@ std::size_t ProgressBar::getSize_() const {
         return size;
     }
     struct winsize w;
-    ioctl(0, TIOCGWINSZ, &w);
+    if (ioctl(fileno(stdout), TIOCGWINSZ, &w) != 0) {
+        return size;
+    }
     size = w.ws_col;
 #endif
     return size;
-- 
2.43.0


From 300f0eb9c27e4e0a1bffcc368f6f7faf2b637d79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:52 +0000
Subject: [PATCH 105/114] fix: keep progress lines within narrow consoles

---
 src/core/util/ProgressBar.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/util/ProgressBar.cpp b/src/core/util/ProgressBar.cpp
index 0d8b67d..e99650b 100755
--- a/src/core/util/ProgressBar.cpp
+++ b/src/core/util/ProgressBar.cpp
@@ -191,7 +191,7 @@ void ProgressBar::printLine_() const {
     std::cout << " ";
     pos++;
     if (sizeBar < 3) {
-        printSpaces_(3);
+        printSpaces_(sizeBar);
     } else {
         std::cout << "[";
         std::size_t sizeBarInt = sizeBar - 2;
-- 
2.43.0


From 7f0e0b3c684c64c2c7d897dca8a105501a4081a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:52 +0000
Subject: [PATCH 106/114] fix: pad with blanks after a progress line cut at its
 time

---
 src/core/util/ProgressBar.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/core/util/ProgressBar.cpp b/src/core/util/ProgressBar.cpp
index e99650b..fe5f38d 100755
--- a/src/core/util/ProgressBar.cpp
+++ b/src/core/util/ProgressBar.cpp
@@ -182,6 +182,7 @@ void ProgressBar::printLine_() const {
             std::cout << ":";
             std::cout << std::right << std::setw(2) << std::setfill('0')
                       << seconds;
+            std::cout << std::setfill(' ');
         }
     }
     pos += sizeTime;
-- 
2.43.0


From 638644d1cd48931d602f5e49e435bcde49f73e94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:52 +0000
Subject: [PATCH 107/114] fix: show the whole time of a finished task

---
 src/core/util/ProgressBar.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/core/util/ProgressBar.cpp b/src/core/util/ProgressBar.cpp
index fe5f38d..9eb397b 100755
--- a/src/core/util/ProgressBar.cpp
+++ b/src/core/util/ProgressBar.cpp
@@ -90,6 +90,7 @@ void ProgressBar::end() {
         return;
     }
     step_ = size_;
+    timeAct_ = Clock::now();
     printLine_();
     std::cout << std::endl;
     init_ = false;
-- 
2.43.0


From 57b4330d51311bbb73518ad8db697b9a332cc2c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:52 +0000
Subject: [PATCH 108/114] fix: show the sizes of tasks of 1e14 steps and more

---
 src/core/util/ProgressBar.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/core/util/ProgressBar.cpp b/src/core/util/ProgressBar.cpp
index 9eb397b..d6818f7 100755
--- a/src/core/util/ProgressBar.cpp
+++ b/src/core/util/ProgressBar.cpp
@@ -269,6 +269,12 @@ void ProgressBar::printSize_(const std::size_t size) const {
     } else if (size < 100000000000000UL) {
         print = size/1000000000UL;
         unit  = "G";
+    } else if (size < 100000000000000000UL) {
+        print = size/1000000000000UL;
+        unit  = "T";
+    } else {
+        print = size/1000000000000000UL;
+        unit  = "P";
     }
     std::cout << std::right << std::setw(5) << std::setfill(' ') << print;
     std::cout << unit;
-- 
2.43.0


From e9c37d6e30dfae5226eb8797d014caaf4b98ccb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:24 +0000
Subject: [PATCH 109/114] fix: keep the names of tasks from filling narrow
 consoles

---
 src/core/util/ProgressBar.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/util/ProgressBar.cpp b/src/core/util/ProgressBar.cpp
index d6818f7..598efe1 100755
--- a/src/core/util/ProgressBar.cpp
+++ b/src/core/util/ProgressBar.cpp
@@ -124,7 +124,7 @@ void ProgressBar::printLine_() const {
     std::cout << "\r";
     printSpaces_(sizePrev);
     pos += sizePrev;
-    if (pos + sizeName > sizeCon) {
+    if (pos + sizeName >= sizeCon) {
         sizeName = sizeCon - 1 - pos;
     }
     std::string name = name_;
-- 
2.43.0


From 4383d2dc28ba0da575cad74854fc90c44620d40c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:57 +0000
Subject: [PATCH 110/114] fix: resume at the number of time steps that was set

---
 src/solver/Options.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/solver/Options.cpp b/src/solver/Options.cpp
index cb0eec1..5026c05 100755
--- a/src/solver/Options.cpp
+++ b/src/solver/Options.cpp
@@ -202,7 +202,9 @@ std::string Options::toArgsStr() const {
         ss << " -cfl " << getCFL();
     }
     if (isResumeSimulation()) {
-        if (getTimeStep() != 0.0) {
+        if (endingCondition_ == EndingCondition::numberOfTimeSteps) {
+            ss << " -r " << getNumberOfTimeSteps();
+        } else if (getTimeStep() != 0.0) {
             ss << " -r " << (std::size_t)floor(getFinalTime() / getTimeStep());
         } else {
             ss << " -r " << (std::size_t)floor(getFinalTime());
-- 
2.43.0


From d075fb1f840c1d4c06a9dfcf1a69b3d64ed27b3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:57 +0000
Subject: [PATCH 111/114] fix: lay help out for the console it is written to

---
 src/core/argument/Formatter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/argument/Formatter.cpp b/src/core/argument/Formatter.cpp
index a8eea64..1cd522a 100755
--- a/src/core/argument/Formatter.cpp
+++ b/src/core/argument/Formatter.cpp
@@ -276,7 +276,7 @@ std::size_t Formatter::getConsoleSize_() {
         return size;
     }
     struct winsize w;
-    if (ioctl(0, TIOCGWINSZ, &w) != 0 || w.ws_col == 0) {
+    if (ioctl(fileno(stdout), TIOCGWINSZ, &w) != 0 || w.ws_col == 0) {
         return size;
     }
     size = w.ws_col;
-- 
2.43.0


From b2667cf0d997eeb43f619e8ae3a1805f484d411c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:02 +0000
Subject: [PATCH 112/114] fix: keep a value an object takes from within itself

---
 src/core/argument/Object.h | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/src/core/argument/Object.h b/src/core/argument/Object.h
index 192c8ff..138d989 100755
--- a/src/core/argument/Object.h
+++ b/src/core/argument/Object.h
@@ -242,13 +242,12 @@ public:
         return objMembers_.at(i);
     }
     Object&   addValue(const Object& val) {
-        setArray();
-        objMembers_.push_back(val);
-        return *this;
+        return addValue(Object(val));
     }
     Object&   addValue(Object&& val) {
+        Object aux(std::move(val));
         setArray();
-        objMembers_.push_back(std::move(val));
+        objMembers_.push_back(std::move(aux));
         return *this;
     }
     Object& eraseValue(const std::size_t& i) {
@@ -297,10 +296,7 @@ public:
         return res;
     }
     Object&     setString(const std::string& str) {
-        clear_();
-        type_ = Type::String;
-        strValue_.push_back(str);
-        return *this;
+        return setGenericString(std::list<std::string>(1, str));
     }
     
     const std::list<std::string>& getGenericString() const {
@@ -308,9 +304,10 @@ public:
     }
     Object&                       setGenericString(
             const std::list<std::string>& str) {
+        std::list<std::string> aux(str);
         clear_();
         type_ = Type::String;
-        strValue_ = str;
+        strValue_.swap(aux);
         return *this;
     }
 
-- 
2.43.0


From d17b046d7c0248bda944a8b7051796f3f70e8fd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:03 +0000
Subject: [PATCH 113/114] fix: build grids of whole numbers of steps without an
 extra cell

---
 src/core/geometry/Grid.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/geometry/Grid.hpp b/src/core/geometry/Grid.hpp
index 6b66377..1d82864 100755
--- a/src/core/geometry/Grid.hpp
+++ b/src/core/geometry/Grid.hpp
@@ -44,7 +44,8 @@ Grid<D>::Grid(const BoxRD& box,
         if (dxyz(i) == (Math::Real) 0.0) {
             nCells = 1;
         } else {
-            nCells = ceil(boxLength / dxyz(i));
+            // Rounding of the quotient must not add a cell.
+            nCells = Math::Util::ceil(boxLength / dxyz(i), 1e-9);
             if (Math::Util::greater(boxLength, nCells*dxyz(i),
                     dxyz(i), tolerance)) {
                 nCells++;
-- 
2.43.0


From 81819208460cc46ab0d52ddc3d97db1216e96425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:03 +0000
Subject: [PATCH 114/114] fix: chop boxes without slivers where lines meet
 their ends

---
 src/core/geometry/Box.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/core/geometry/Box.hpp b/src/core/geometry/Box.hpp
index d468d19..1febb9b 100755
--- a/src/core/geometry/Box.hpp
+++ b/src/core/geometry/Box.hpp
@@ -403,8 +403,14 @@ std::vector<Box<T,D>> Box<T,D>::chop(const Grid<D>& grid) const {
         std::vector<Math::Real> inRange =
             grid.getPosInRange(d, min_(d), max_(d));
         pos[d].push_back(min_(d));
+        // Lines lying on a bound save for rounding do not cut the box.
+        Math::Real tol = 0.0;
+        if (!inRange.empty()) {
+            const std::vector<Math::Real> steps = grid.getStep(d);
+            tol = *std::min_element(steps.begin(), steps.end()) * 1e-9;
+        }
         for (std::size_t i = 0; i < inRange.size(); i++) {
-            if (inRange[i] > min_(d) && inRange[i] < max_(d)) {
+            if (inRange[i] - min_(d) > tol && max_(d) - inRange[i] > tol) {
                 pos[d].push_back(inRange[i]);
             }
         }
-- 
2.43.0

