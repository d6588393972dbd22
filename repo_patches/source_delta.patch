From 2f8fbf67771d4fe6d84451e16b5b3955ae214007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:15 +0000
Subject: [PATCH 001/139] fix: make the remainder of a double vector by a
 double compile (ambiguous A_Mod specialisation)

---
 .../ufjfmltk-core/include/ufjfmltk/core/ExprOps.hpp    | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/ExprOps.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/ExprOps.hpp
index b794676..713d5c9 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/ExprOps.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/ExprOps.hpp
@@ -210,6 +210,16 @@ namespace mltk{
             }
     };
 
+    template <typename OP1>
+    class  A_Mod< double, OP1, A_Scalar<double> >: public BExprOp< double, OP1, A_Scalar<double> > {
+        public:
+            A_Mod(OP1 const& a, A_Scalar<double> const& b): BExprOp<double, OP1, A_Scalar<double> >(a, b) {}
+
+            double operator[](const size_t& idx) const override {
+                return std::fmod(this->op1[idx], this->op2[idx]);
+            }
+    };
+
     template <typename OP1, typename OP2>
     class  A_Mod< double , OP1, OP2 >: public BExprOp< double, OP1, OP2 > {
         public:
-- 
2.43.0


From 3e2395f292884cd4f2911495b6884143e9e47253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:15 +0000
Subject: [PATCH 002/139] fix: assigning a shorter vector to a point keeps no
 stale coordinates

---
 subprojects/ufjfmltk-core/include/ufjfmltk/core/Point.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Point.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Point.hpp
index 2d2cba6..9072eb3 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Point.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Point.hpp
@@ -298,7 +298,7 @@ namespace mltk {
 
             // assignment operator from same type
             Point& operator=(Point const& b) {
-                if(b.size() > size()){
+                if(b.size() != size()){
                     x.resize(b.size());
                 }
 
@@ -321,7 +321,7 @@ namespace mltk {
             }
 
             Point& operator=(std::vector<T> const& b) {
-                if(b.size() > size()){
+                if(b.size() != size()){
                     x.resize(b.size());
                 }
 
@@ -334,7 +334,7 @@ namespace mltk {
 
             template< typename T2 >
             Point& operator=(std::vector<T2> const& b) {
-                if(b.size() > size()){
+                if(b.size() != size()){
                     x.resize(b.size());
                 }
 
-- 
2.43.0


From 94483a20e405c0821791c14b46d426bcf60f7ebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:15 +0000
Subject: [PATCH 003/139] fix: max of a point with no positive coordinate

---
 subprojects/ufjfmltk-core/include/ufjfmltk/core/Point.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Point.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Point.hpp
index 9072eb3..935d9da 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Point.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Point.hpp
@@ -542,7 +542,7 @@ namespace mltk {
      */
     template < typename T, typename R >
     T max(const Point<T, R> &p){
-        T _max = std::numeric_limits<T>::min();
+        T _max = std::numeric_limits<T>::lowest();
         for(size_t i = 0; i < p.size(); i++){
             if(p[i] > _max) _max = p[i];
         }
-- 
2.43.0


From 4b413174343e57d3e7629af54a1f68cabe88c061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:32 +0000
Subject: [PATCH 004/139] fix: updatePointValue counts a new class once and
 does not use an invalidated iterator

---
 subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
index 123a324..8e41636 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
@@ -1991,12 +1991,12 @@ namespace mltk{
             if(class_pos == m_classes.end()){
                 m_classes.push_back(_c);
                 class_names.push_back(std::to_string(_c));
-                class_distribution.push_back(1);
+                class_distribution.push_back(0);
+                class_pos = m_classes.end() - 1;
             }
-            auto oldclass_pos = std::find(m_classes.begin(), m_classes.end(), int(old_value))- m_classes.begin();
+            size_t oldclass_pos = std::find(m_classes.begin(), m_classes.end(), int(old_value))- m_classes.begin();
             class_distribution[class_pos - m_classes.begin()]++;
-            class_distribution[oldclass_pos]--;
-            if(class_distribution[oldclass_pos] == 0){
+            if(oldclass_pos < class_distribution.size() && --class_distribution[oldclass_pos] == 0){
                 class_distribution.erase(class_distribution.begin() + oldclass_pos);
                 m_classes.erase(m_classes.begin() + oldclass_pos);
                 class_names.erase(class_names.begin() + oldclass_pos);
-- 
2.43.0


From ec1dbb6cea4e72cd0825cdb677b1e9810373e9a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:32 +0000
Subject: [PATCH 005/139] fix: removePoint finds any present id, refuses absent
 ones and keeps the index vector valid

---
 .../include/ufjfmltk/core/Data.hpp            | 27 ++++++-------------
 1 file changed, 8 insertions(+), 19 deletions(-)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
index 8e41636..a31bcf4 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
@@ -1184,30 +1184,19 @@ namespace mltk{
         int i;
 
         if(m_size == 1){ std::cout << "Error: RemovePoint, only one point left\n"; return false; }
-        //Ids bound verification
-        if(pid > m_points[m_size - 1]->Id() || pid <= 0) return false;
-        int y;
-        if(!index.empty()){
-            index.resize(m_size);
-
-            for(i = 0; i < m_size; ++i){
-                if(i >= pid){
-                    index[i-1] = index[i] - 1;
-                }
-            }
-        }
+        if(pid <= 0) return false;
 
         //Find the point by its id and erase it
         for(i = 0; i < m_size; i++){
-            if(m_points[i]->Id() == pid){
-                y = m_points[i]->Y();
-                m_points.erase(m_points.begin() + i);
-                break;
-            }
+            if(m_points[i]->Id() == pid) break;
         }
+        if(i == m_size) return false;
+        int y = m_points[i]->Y();
+        m_points.erase(m_points.begin() + i);
         m_size--;
-        auto pos = std::find(m_classes.begin(), m_classes.end(), y) - m_classes.begin();
-        class_distribution[pos]--;
+        if(!index.empty()) this->resetIndex();
+        size_t pos = std::find(m_classes.begin(), m_classes.end(), y) - m_classes.begin();
+        if(pos < class_distribution.size()) class_distribution[pos]--;
         return true;
     }
 
-- 
2.43.0


From 31b39a3899f4f0790026b6270bb2d84f13321ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:32 +0000
Subject: [PATCH 006/139] fix: removePoints keeps the last point and a valid
 index vector

---
 .../include/ufjfmltk/core/Data.hpp            | 24 ++++++++-----------
 1 file changed, 10 insertions(+), 14 deletions(-)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
index a31bcf4..1c68784 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
@@ -1239,7 +1239,7 @@ namespace mltk{
 
     template<typename T>
     std::vector<bool> mltk::Data< T >::removePoints(std::vector<int> ids){
-        int idsize = ids.size(), i, j;
+        int idsize = ids.size(), i;
         bool save;
         std::shared_ptr<Point< T > > po;
         auto p = m_points.begin();
@@ -1260,24 +1260,20 @@ namespace mltk{
 
             if(save) p++;
             else{
+                //Size verification.
+                if(m_size == 1){
+                    std::clog << "Error: RemovePoint, only one point left." << std::endl;
+                    notFound[i] = true;
+                    break;
+                }
                 p = m_points.erase(p);
                 int c = po->Y();
-                if(!index.empty()){
-                    index.resize(m_size);
-
-                    for(j = 0; j < m_size; ++j){
-                        if(j >= ids[i]){
-                            index[j-1] = index[j] - 1;
-                        }
-                    }
-                }
-                //Size verification.
-                if(m_size == 1){ std::clog << "Error: RemovePoint, only one point left." << std::endl; break;}
-                auto class_pos = std::find(m_classes.begin(), m_classes.end(), c) - m_classes.begin();
-                class_distribution[class_pos]--;
+                size_t class_pos = std::find(m_classes.begin(), m_classes.end(), c) - m_classes.begin();
+                if(class_pos < class_distribution.size()) class_distribution[class_pos]--;
                 m_size--;
             }
         }
+        if(!index.empty()) this->resetIndex();
 
         return notFound;
     }
-- 
2.43.0


From 4548a8cf35f996d6f6070f994116d4c41aa04ad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:32 +0000
Subject: [PATCH 007/139] fix: inserting a point of another sample reports a
 refusal and leaves that sample alone

---
 subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
index 1c68784..ea98073 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
@@ -1420,14 +1420,12 @@ namespace mltk{
 
     template<typename T>
     bool mltk::Data< T >::insertPoint(const Data< T >& samples, int _index, bool keepIndex){
-        if(_index > samples.size() - 1){
+        if(_index < 0 || _index >= samples.size()){
             std::cerr << "Index out of bounds. (insertPoint)" << std::endl;
             return false;
         }
 
-        insertPoint(samples.point(_index), keepIndex);
-
-        return true;
+        return insertPoint(*samples.point(_index), keepIndex);
     }
 
     template<typename T>
-- 
2.43.0


From 8ff2cb8297cefb5bf72219a1817da826eecc185c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:32 +0000
Subject: [PATCH 008/139] fix: insertPoint keeps the feature names of the
 dataset

---
 subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
index ea98073..c828564 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
@@ -1437,7 +1437,7 @@ namespace mltk{
             return false;
         }
 
-        if(p->size() > 0) {
+        if(p->size() > 0 && this->fnames.size() != p->size()) {
             this->fnames = std::vector<int>(p->size(), 0);
             std::iota(this->fnames.begin(), this->fnames.end(), 1);
         }
-- 
2.43.0


From 5f08ec0f0566ea915d3419436a62171c3fbe13ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:32 +0000
Subject: [PATCH 009/139] fix: clearing a dataset clears its class counts

---
 subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
index c828564..d9f7a78 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
@@ -1713,6 +1713,7 @@ namespace mltk{
         index.clear();
         m_classes.clear();
         class_names.clear();
+        class_distribution.clear();
         m_size = 0;
         m_dim = 0;
         normalized = false;
-- 
2.43.0


From 36c68e714a05d70a66e6cbfa4b8959dbf0059ff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:32 +0000
Subject: [PATCH 010/139] fix: changeXVector allocates the points it fills

---
 subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
index d9f7a78..997206c 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
@@ -1481,8 +1481,7 @@ namespace mltk{
 
         //Copy features and classes of the points making the changes
         for(i = 0; i < m_size; i++){
-            nPoints[i]->X() = m_points[_index[i]]->X();
-            nPoints[i]->X() = m_points[_index[i]]->X();
+            nPoints[i] = std::make_shared<Point< T > >(*m_points[_index[i]]);
         }
 
         //Save changes in the class
-- 
2.43.0


From 9cb6c944cff44de06c75a2420c8a4b7d2a94d298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:32 +0000
Subject: [PATCH 011/139] fix: classesCopy replaces the destination and
 describes the points it copied

---
 subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
index 997206c..e04042a 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
@@ -1505,6 +1505,7 @@ namespace mltk{
         for(auto c: classes){
             _classes.insert(c);
         }
+        this->m_points.clear();
         for(size_t i = 0; i < _data.size(); i++){
             if(_classes.find(_data[i]->Y()) != _classes.end()){
                 this->m_points.push_back(std::make_shared<Point< T > >());
@@ -1520,13 +1521,19 @@ namespace mltk{
         this->fnames = _data.getFeaturesNames();
         this->m_size = _size;
         this->m_classes = classes;
+        this->class_names.clear();
+        for(auto c: classes){
+            size_t pos = std::find(_data.m_classes.begin(), _data.m_classes.end(), c) - _data.m_classes.begin();
+            this->class_names.push_back((pos < _data.class_names.size()) ? _data.class_names[pos] : std::to_string(c));
+        }
         this->m_dim = _data.dim();
         this->type = _data.getType();
-        this->index = _data.getIndex();
+        this->resetIndex();
         this->is_empty = _data.isEmpty();
         this->normalized = _data.isNormalized();
         this->time_mult = _data.getTime_mult();
         this->cdist_computed = false;
+        this->computeClassesDistribution();
     }
 
     template<typename T>
-- 
2.43.0


From c742921546291358226ed59b82da881dc7d5c2b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:32 +0000
Subject: [PATCH 012/139] fix: a copy keeps the positive/negative class names,
 copying onto itself is harmless

---
 subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
index e04042a..28ea656 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
@@ -1545,6 +1545,7 @@ namespace mltk{
 
     template<typename T>
     void mltk::Data< T >::copy(const mltk::Data<T> &_data){
+        if(this == &_data) return;
         size_t _size = _data.size();
         if(this->m_points.size() > 0) this->m_points.clear();
         //this->m_points.reserve(_size);
@@ -1571,6 +1572,9 @@ namespace mltk{
         this->time_mult = _data.getTime_mult();
         this->cdist_computed = _data.cdist_computed;
         this->dataset_name = _data.dataset_name;
+        this->pos_class = _data.pos_class;
+        this->neg_class = _data.neg_class;
+        this->atEnd = _data.atEnd;
     }
 
     template<typename T>
-- 
2.43.0


From c2f0d491b3f433ab14b5201b53eb756d47d435c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:32 +0000
Subject: [PATCH 013/139] fix: copyZero leaves no point and no class of the
 destination behind

---
 subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
index 28ea656..6a1dd5e 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
@@ -1580,6 +1580,12 @@ namespace mltk{
     template<typename T>
     void mltk::Data< T >::copyZero(const mltk::Data< T >& other){
         fnames = other.fnames;
+        m_points.clear();
+        index.clear();
+        m_classes.clear();
+        class_names.clear();
+        class_distribution.clear();
+        type = other.type;
         m_dim = other.m_dim;
         m_size = 0;
         is_empty = other.is_empty;
-- 
2.43.0


From 653e0323cbad323d962a74363fc00341b776c672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:32 +0000
Subject: [PATCH 014/139] fix: comparing datasets with unequally long class
 counts reads out of bounds

---
 .../ufjfmltk-core/include/ufjfmltk/core/Data.hpp    | 13 +------------
 1 file changed, 1 insertion(+), 12 deletions(-)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
index 6a1dd5e..ed20650 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
@@ -1778,18 +1778,7 @@ namespace mltk{
             }
         }
 
-        if(m_classes.size() != rhs.classes().size()) return false;
-        for(i = 0; i < m_classes.size(); i++){
-            if(m_classes[i] != rhs.classes()[i]){
-                return false;
-            }
-        }
-
-        for(i = 0; i < class_distribution.size(); i++){
-            if(class_distribution[i] != rhs.class_distribution[i]){
-                return false;
-            }
-        }
+        if(m_classes != rhs.m_classes || class_distribution != rhs.class_distribution) return false;
 
         return fnames == rhs.fnames &&
                index == rhs.index &&
-- 
2.43.0


From a646e425000e2418adadd5c5b3649edc81f338ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:32 +0000
Subject: [PATCH 015/139] fix: computeClassesDistribution registers labels
 missing from the class list

---
 subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
index ed20650..dbac838 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
@@ -1836,6 +1836,11 @@ namespace mltk{
             int c = p->Y();
             auto class_it = std::find(this->m_classes.begin(), this->m_classes.end(), c);
             size_t class_pos = class_it - this->m_classes.begin();
+            if(class_pos == this->m_classes.size()){
+                this->m_classes.push_back(c);
+                this->class_names.push_back(std::to_string(c));
+                this->class_distribution.push_back(0);
+            }
             class_distribution[class_pos]++;
         }
     }
-- 
2.43.0


From dee2022b5e88ee5ebc6b7f8f8440905f88e0090d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:32 +0000
Subject: [PATCH 016/139] fix: join updates dimension, class names and class
 counts, joining an empty dataset changes nothing

---
 .../include/ufjfmltk/core/Data.hpp            | 23 ++++++++++---------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
index dbac838..5f6ab0a 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
@@ -1599,6 +1599,7 @@ namespace mltk{
         std::vector<int> index1 = data.getIndex(), antindex = index;
         auto points1 = data.points();
 
+        if(size1 == 0) return;
         if(m_dim > dim1){
             std::cerr << "Error: sample1 dimension must be less or equal to sample2\n";
             exit(1);
@@ -1623,22 +1624,22 @@ namespace mltk{
         std::sort(classes1.begin(), classes1.end());
         std::set_difference(classes1.begin(), classes1.end(), classes.begin(), classes.end(),
                             std::inserter(diff, diff.begin()));
-        m_classes.reserve(m_classes.size()+diff.size());
-        m_classes.insert(m_classes.end(), diff.begin(), diff.end());
-
-        std::vector<std::string> diff_names, classes_names1 = data.classesNames(), classes_names = class_names;
-        std::sort(classes_names.begin(), classes_names.end());
-        std::sort(classes_names1.begin(), classes_names1.end());
-        std::set_difference(classes_names1.begin(), classes_names1.end(), classes_names.begin(), classes_names.end(),
-                            std::inserter(diff_names, diff_names.begin()));
-        class_names.reserve(class_names.size()+diff_names.size());
-        class_names.insert(class_names.end(), diff_names.begin(), diff_names.end());
+        for(auto c: diff){
+            auto other_classes = data.classes();
+            auto other_names = data.classesNames();
+            size_t pos = std::find(other_classes.begin(), other_classes.end(), c) - other_classes.begin();
+            m_classes.push_back(c);
+            class_names.push_back((pos < other_names.size()) ? other_names[pos] : std::to_string(c));
+        }
 
         class_distribution.assign(m_classes.size(), 0);
-        computeClassesDistribution();
+        cdist_computed = false;
+        if(this->isClassification()) computeClassesDistribution();
         if(fnames.empty()){
             fnames = data.getFeaturesNames();
         }
+        m_dim = this->dim();
+        is_empty = false;
     }
 
     template<typename T>
-- 
2.43.0


From 6fee27b8b4db7fb242bb21662f4a4f455ed239ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:22 +0000
Subject: [PATCH 017/139] fix: sampling draws from the whole of each class and
 terminates without replacement

---
 subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
index 5f6ab0a..ee445c8 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
@@ -2028,7 +2028,6 @@ namespace mltk{
         std::random_device rd;
         std::mt19937 gen((seed == 0)? std::random_device()() : seed);
         Data< T > sample;
-        std::set<std::size_t> ids;
         auto classes_split = splitByClasses();
         Point<double> class_dist(m_classes.size());
         std::vector<std::uniform_int_distribution<size_t>> dist;
@@ -2038,13 +2037,15 @@ namespace mltk{
             class_dist[i] = (double(temp_dist[i]) / size()) * samp_size;
         }
         for(int i = 0; i < class_dist.size(); i++){
-            dist.emplace_back(0, class_dist[i]-1);
+            dist.emplace_back(0, (classes_split[i].size() > 0) ? classes_split[i].size()-1 : 0);
         }
         for(size_t i = 0; i < class_dist.size(); i++){
             class_dist[i] = (class_dist[i] < 1) ? 1 : std::floor(class_dist[i]);
+            if(classes_split[i].size() == 0) class_dist[i] = 0;
         }
 
         for(size_t i = 0; i < class_dist.size(); i++){
+            std::set<std::size_t> ids;
             for(size_t j = 0; j < class_dist[i]; j++){
                 std::size_t idx = dist[i](gen);
                 if(!with_replacement) {
-- 
2.43.0


From 8bb07e3c37b818bfa8211ab320d65f6c9822fe41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:22 +0000
Subject: [PATCH 018/139] fix: selectFeatures carries the selected names over
 and refuses absent features

---
 .../include/ufjfmltk/core/Data.hpp            | 37 +++++++++++--------
 1 file changed, 21 insertions(+), 16 deletions(-)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
index ee445c8..da056f8 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
@@ -2066,31 +2066,36 @@ namespace mltk{
         std::sort(feats.begin(), feats.end());
         size_t _size = (size == -1)?feats.size():size;
         Data<T> new_data;
-        std::vector<size_t> feats_pos(feats.size());
-        int i, j, invalid;
+        std::vector<size_t> feats_pos;
+        std::vector<int> new_fnames;
+        size_t i;
 
-        for(i = 0, j = 0, invalid=0; (i < fnames.size()) && (invalid < feats.size()) && (j < feats.size()); ){
-            if(feats[j] < 1) { invalid++; j++; continue; }
-            if(fnames[i] == feats[j]){
-                feats_pos[j] = i;
-                j++;
+        for(auto const& feat: feats){
+            if(feat < 1) continue;
+            size_t pos = std::find(fnames.begin(), fnames.end(), int(feat)) - fnames.begin();
+            if(pos == fnames.size()){
+                std::cerr << "Error: SelectFeatures, feature " << feat << " does not exist.\n";
+                return new_data;
             }
-            i++;
+            feats_pos.push_back(pos);
+            new_fnames.push_back(fnames[pos]);
         }
+        _size = std::min(_size, feats_pos.size());
+        new_fnames.resize(_size);
 
-        assert((j == feats.size()) && "There are non-existing features on remove set.");
-        
+        new_data.setName(this->name());
+        new_data.setType(this->getType());
         for(auto const& point: this->m_points){
-            auto new_point = make_point<T>(_size-invalid);
-            for(i = 0; i < (_size-invalid); i++){
+            auto new_point = make_point<T>(_size);
+            for(i = 0; i < _size; i++){
                 (*new_point)[i] = (*point)[feats_pos[i]];
-                (*new_point).Y() = (*point).Y();
-                (*new_point).Id() = (*point).Id();
-                (*new_point).Alpha() = (*point).Alpha();
             }
-            new_data.setName(this->name());
+            (*new_point).Y() = (*point).Y();
+            (*new_point).Id() = (*point).Id();
+            (*new_point).Alpha() = (*point).Alpha();
             new_data.insertPoint(new_point, true);
         }
+        new_data.setFeaturesNames(new_fnames);
         return new_data;
     }
 
-- 
2.43.0


From 35b27917f04bc3bf78ebb20a7f7c9a23b2266da0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:22 +0000
Subject: [PATCH 019/139] fix: removeFeatures handles repeated and unsorted
 names and never removes the last feature

---
 .../include/ufjfmltk/core/Data.hpp            | 59 ++++++-------------
 1 file changed, 17 insertions(+), 42 deletions(-)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
index da056f8..af9db32 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
@@ -1351,10 +1351,7 @@ namespace mltk{
 
     template<typename T>
     bool mltk::Data< T >::removeFeatures(std::vector<int> feats){
-        size_t i, j, k, psize = m_points.size(), rsize = feats.size();
-        typename std::vector< T >::iterator itr;
-        std::vector<int>::iterator fitr;
-        std::vector<bool> exist(rsize, true);
+        size_t i, j, k, psize = m_points.size();
 
         if(feats.empty()) return true;
 
@@ -1367,53 +1364,31 @@ namespace mltk{
             return false;
         }*/
 
-        //Sort feats for remove features easily
-        sort(feats.begin(), feats.end());
-
-        //Check the existence of the features to be removed
-        for(i = 0; i < rsize; i++){
-            for(j = 0; j < m_dim; j++){
-                if((feats[i] > -1) && feats[i] == fnames[j]){
-                    break;
-                }
-            }
-            if(j == m_dim){
-                exist[i] = false;
-            }
+        //Mark the existing features to be removed
+        std::vector<bool> remove(fnames.size(), false);
+        for(j = 0; j < fnames.size(); j++){
+            remove[j] = fnames[j] > -1 && std::find(feats.begin(), feats.end(), fnames[j]) != feats.end();
+        }
+        if(std::find(remove.begin(), remove.end(), false) == remove.end()){
+            std::cerr << "Error: RemoveFeature, no feature would be left.\n";
+            return false;
         }
 
         //Remove features from each point
         for(i = 0; i < psize; i++){
-            if(m_points[i] == nullptr) std::clog << "WARNING: point is null." << std::endl;
-
-            // Iterate through the point features
-            for(itr = m_points[i]->X().begin(),k = 0, j = 0; itr != m_points[i]->X().end();){
-                while(k < rsize && !exist[k]) k++; // go to next existent feature
-                if(k == rsize) break;              // Verify if is in the end of the feats vector
-
-                // Feature to remove found, remove it from the point and go to the next feat to remove
-                if(fnames[j] == feats[k]){
-                    itr = m_points[i]->X().erase(itr);
-                    k++;
-                }else{
-                    itr++;
-                }
-                j++;
+            auto& x = m_points[i]->X();
+            for(j = 0, k = 0; j < x.size(); j++){
+                if(j >= remove.size() || !remove[j]) x[k++] = x[j];
             }
+            x.resize(k);
         }
 
         //remove names of removed features
-        for(k = 0; k < rsize; k++){
-            for(fitr = fnames.begin(); fitr != fnames.end();){
-                if((*fitr) == feats[k]){
-                    fitr = fnames.erase(fitr);
-                    m_dim--;
-                    break;
-                }else{
-                    fitr++;
-                }
-            }
+        for(j = 0, k = 0; j < remove.size(); j++){
+            if(!remove[j]) fnames[k++] = fnames[j];
         }
+        fnames.resize(k);
+        m_dim = k;
 
         return true;
     }
-- 
2.43.0


From 3843370a049565e894739ba981c2589eb051c490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:22 +0000
Subject: [PATCH 020/139] fix: the feature added by normalize gets a name of
 its own

---
 subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
index af9db32..beb149d 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
@@ -1636,7 +1636,7 @@ namespace mltk{
             }
         }
         m_dim = old_dim + 1;
-        fnames.push_back(this->dim());
+        fnames.push_back(fnames.empty() ? 1 : *std::max_element(fnames.begin(), fnames.end()) + 1);
 
         normalized = true;
     }
-- 
2.43.0


From 232e33001ec7c0b4ffcaca3792e54e7e60b3f62e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:22 +0000
Subject: [PATCH 021/139] fix: insertFeatures finds every present name whatever
 the name order and does not leak

---
 .../include/ufjfmltk/core/Data.hpp            | 28 ++++++++-----------
 1 file changed, 11 insertions(+), 17 deletions(-)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
index beb149d..3ff73c0 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
@@ -1281,17 +1281,16 @@ namespace mltk{
     template<typename T>
     mltk::Data< T > mltk::Data< T >::insertFeatures(std::vector<int> ins_feat, bool keepIndex){
         size_t i, j, s, offset = 0, fsize = ins_feat.size();
-        bool saveflag = false;
         std::vector<int> new_fnames(fsize, 0);
         std::shared_ptr<Point< T > > p;
-        auto *smout = new mltk::Data< T >;
+        mltk::Data< T > smout;
 
         if(fsize == 0) return this->copy();
         sort(ins_feat.begin(), ins_feat.end());
 
         //error check
-        if(fsize > m_dim){ std::cerr << "Error: InsertFeature, fsize(" << ins_feat.size() << ")>dim(" << m_dim << ")\n"; return *smout; }
-        smout->setDim(fsize);
+        if(fsize > m_dim){ std::cerr << "Error: InsertFeature, fsize(" << ins_feat.size() << ")>dim(" << m_dim << ")\n"; return smout; }
+        smout.setDim(fsize);
 
         //Copying information to new data array
         for(i = 0; i < m_size; i++){
@@ -1303,31 +1302,26 @@ namespace mltk{
 
             //Copying features
             s = 0, offset = 0;
-            for(j = 0; j < m_dim; j++){
-                if(offset < fsize && fnames[j] == ins_feat[offset]){
-                    saveflag = true;
-                    offset++;
-                }
-
-                if(saveflag){
+            for(offset = 0; offset < fsize; offset++){
+                j = std::find(fnames.begin(), fnames.end(), ins_feat[offset]) - fnames.begin();
+                if(j < m_dim){
                     p->X()[s] = m_points[i]->X()[j];
                     new_fnames[s] = fnames[j];
                     s++;
-                    saveflag = false;
                 }
             }
             //error check
             if(s != fsize){
                 std::cerr << "Error: Something went wrong on InsertFeature\n";
                 std::cerr << "s = " << s << ", dim = " << m_dim << ", fsize = " << fsize << std::endl;
-                smout->clear();
-                return *smout;
+                smout.clear();
+                return smout;
             }
-            smout->insertPoint(p, keepIndex);
+            smout.insertPoint(p, keepIndex);
         }
-        smout->setFeaturesNames(new_fnames);
+        smout.setFeaturesNames(new_fnames);
 
-        return *smout;
+        return smout;
     }
 
     template<typename T>
-- 
2.43.0


From 481d35559ce2ec0e68d9c3e3377a317e9f4a2fbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:24 +0000
Subject: [PATCH 022/139] fix: a point sampled twice is stored as two points

---
 subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
index 3ff73c0..059cf0f 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
@@ -2023,7 +2023,7 @@ namespace mltk{
                     }
                     ids.insert(idx);
                 }
-                sample.insertPoint(classes_split[i][idx]);
+                sample.insertPoint(*classes_split[i][idx]);
             }
         }
 
-- 
2.43.0


From f00cde8007f4a52e66fb78cd6aa7acce7e06f04e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:24 +0000
Subject: [PATCH 023/139] fix: two-fold splits test on the other fold, not on
 the training fold

---
 .../ufjfmltk-valid/include/ufjfmltk/valid/Validation.hpp        | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/subprojects/ufjfmltk-valid/include/ufjfmltk/valid/Validation.hpp b/subprojects/ufjfmltk-valid/include/ufjfmltk/valid/Validation.hpp
index 26d0d30..822e4e5 100644
--- a/subprojects/ufjfmltk-valid/include/ufjfmltk/valid/Validation.hpp
+++ b/subprojects/ufjfmltk-valid/include/ufjfmltk/valid/Validation.hpp
@@ -474,7 +474,7 @@ namespace mltk::validation {
             train.join(data_folds[i]);
 
             int gone = 0;
-            int next_j=(i+2) % folds;
+            int next_j=(i+1) % folds;
 
             for(int j = (i+1) % folds; gone < folds-2; gone++, j = (j+1) % folds){
                 train.join(data_folds[j]);
-- 
2.43.0


From 83bc76e14e3bdea2fb7e95c352481c40962c1a32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:24 +0000
Subject: [PATCH 024/139] fix: accuracy of a metrics report counts the true
 negatives

---
 .../ufjfmltk-valid/include/ufjfmltk/valid/Validation.hpp        | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/subprojects/ufjfmltk-valid/include/ufjfmltk/valid/Validation.hpp b/subprojects/ufjfmltk-valid/include/ufjfmltk/valid/Validation.hpp
index 822e4e5..d171713 100644
--- a/subprojects/ufjfmltk-valid/include/ufjfmltk/valid/Validation.hpp
+++ b/subprojects/ufjfmltk-valid/include/ufjfmltk/valid/Validation.hpp
@@ -566,7 +566,7 @@ namespace mltk::validation {
             }
         }
 
-        report.accuracy = (double)report.tp / data.size();
+        report.accuracy = (double)(report.tp + report.tn) / data.size();
         report.error = 1.0 - report.accuracy;
         report.errors = report.fp+report.fn;
         report.sensitivity = (double)report.tp/(report.tp + report.fn);
-- 
2.43.0


From 14e105003cea7c09e6e655f73031e6c315f96662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:24 +0000
Subject: [PATCH 025/139] fix: rows of the confusion matrix are the true
 labels, as documented and as metricsReport reads them

---
 .../ufjfmltk-valid/include/ufjfmltk/valid/Validation.hpp        | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/subprojects/ufjfmltk-valid/include/ufjfmltk/valid/Validation.hpp b/subprojects/ufjfmltk-valid/include/ufjfmltk/valid/Validation.hpp
index d171713..4fd3398 100644
--- a/subprojects/ufjfmltk-valid/include/ufjfmltk/valid/Validation.hpp
+++ b/subprojects/ufjfmltk-valid/include/ufjfmltk/valid/Validation.hpp
@@ -596,7 +596,7 @@ namespace mltk::validation {
                 }
                 if (idp && idy) break;
             }
-            confusion_m[idp][idy]++;
+            confusion_m[idy][idp]++;
         }
         return confusion_m;
     }
-- 
2.43.0


From 3b31780dbc45f6650017c89d2c6600be16662865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:24 +0000
Subject: [PATCH 026/139] fix: classificationReport divides as real numbers and
 uses the definition of specificity

---
 .../include/ufjfmltk/valid/Validation.hpp              | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/subprojects/ufjfmltk-valid/include/ufjfmltk/valid/Validation.hpp b/subprojects/ufjfmltk-valid/include/ufjfmltk/valid/Validation.hpp
index 4fd3398..c6bf038 100644
--- a/subprojects/ufjfmltk-valid/include/ufjfmltk/valid/Validation.hpp
+++ b/subprojects/ufjfmltk-valid/include/ufjfmltk/valid/Validation.hpp
@@ -628,10 +628,12 @@ namespace mltk::validation {
             }
         }
         report.accuracy /= real.size();
-        report.sensitivity = report.tp/(report.tp+report.fn);
-        report.specificity = report.tn/(report.fn+report.tn);
-        report.precision = report.tp/(report.tp+report.fp);
-        report.recall = report.tp/(report.tp+report.fn);
+        report.error = 1.0 - report.accuracy;
+        report.errors = report.fp+report.fn;
+        report.sensitivity = (double)report.tp/(report.tp+report.fn);
+        report.specificity = (double)report.tn/(report.fp+report.tn);
+        report.precision = (double)report.tp/(report.tp+report.fp);
+        report.recall = report.sensitivity;
         report.fscore = 2*(report.precision*report.recall)/(report.precision + report.recall);
         return report;
     }
-- 
2.43.0


From f04db0ef067af6c83b3eab2a25b480eb95534ad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:59 +0000
Subject: [PATCH 027/139] fix: copies without points report being empty

---
 subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
index 059cf0f..da0eb65 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
@@ -1498,7 +1498,7 @@ namespace mltk{
         this->m_dim = _data.dim();
         this->type = _data.getType();
         this->resetIndex();
-        this->is_empty = _data.isEmpty();
+        this->is_empty = this->m_points.empty();
         this->normalized = _data.isNormalized();
         this->time_mult = _data.getTime_mult();
         this->cdist_computed = false;
@@ -1557,7 +1557,7 @@ namespace mltk{
         type = other.type;
         m_dim = other.m_dim;
         m_size = 0;
-        is_empty = other.is_empty;
+        is_empty = true;
         normalized = other.normalized;
         cdist_computed = false;
     }
-- 
2.43.0


From e8cda73464475279eaafc74c4b89ed60553e25db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:43 +0000
Subject: [PATCH 028/139] fix: the first point inserted sets the dimension

---
 subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
index da0eb65..db1dd2d 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
@@ -1415,7 +1415,7 @@ namespace mltk{
         m_points.insert(m_points.end(), p);
         m_size++;
         if(is_empty) is_empty = false;
-        if(m_dim == 0) m_dim = p->size();
+        if(m_points.size() == 1) m_dim = p->size();
 
         if(this->isClassification()){
             auto class_pos = std::find(this->m_classes.begin(), this->m_classes.end(), p->Y());
-- 
2.43.0


From 4855bae00dfb0d98c42068deb14645602d0e08aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:58 +0000
Subject: [PATCH 029/139] fix: atod reads exponents

---
 subprojects/ufjfmltk-core/src/Utils.cpp | 18 ++----------------
 1 file changed, 2 insertions(+), 16 deletions(-)

diff --git a/subprojects/ufjfmltk-core/src/Utils.cpp b/subprojects/ufjfmltk-core/src/Utils.cpp
index 3a1fa13..713340a 100755
--- a/subprojects/ufjfmltk-core/src/Utils.cpp
+++ b/subprojects/ufjfmltk-core/src/Utils.cpp
@@ -4,6 +4,7 @@
    \author Mateus Coutinho Marim
 */
 #include <cmath>
+#include <cstdlib>
 #include <sstream>
 #include <algorithm>
 #include <iostream>
@@ -39,22 +40,7 @@ namespace mltk::utils{
 
         double atod(const char* s)
         {
-            double val, power;
-            int i, sign;
-            for (i = 0; isspace(s[i]); i++) /* skip white space */
-                ;
-            sign = (s[i] == '-') ? -1 : 1;
-            if (s[i] == '+' || s[i] == '-')
-                i++;
-            for (val = 0.0; isdigit(s[i]); i++)
-                val = 10.0 * val + (s[i] - '0');
-            if (s[i] == '.')
-                i++;
-            for (power = 1.0; isdigit(s[i]); i++) {
-                val = 10.0 * val + (s[i] - '0');
-                power *= 10;
-            }
-            return sign * val / power;
+            return std::strtod(s, nullptr);
         }
 
         std::string itos(int n){
-- 
2.43.0


From 458a76d4b0b763ea4eab37c2414e3448c46ca56d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:58 +0000
Subject: [PATCH 030/139] fix: is_number accepts exactly the decimal numerals

---
 subprojects/ufjfmltk-core/src/Utils.cpp | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/subprojects/ufjfmltk-core/src/Utils.cpp b/subprojects/ufjfmltk-core/src/Utils.cpp
index 713340a..402a03a 100755
--- a/subprojects/ufjfmltk-core/src/Utils.cpp
+++ b/subprojects/ufjfmltk-core/src/Utils.cpp
@@ -14,8 +14,21 @@ using namespace std;
 
 namespace mltk::utils{
         bool is_number(std::string s){
-            return !s.empty() && std::find_if(s.begin(),
-                                              s.end(), [](unsigned char c) { return !(std::isdigit(c) || c == '.' || c == '-' || c == '+' || c == 'e'); }) == s.end();
+            size_t i = 0, digits = 0;
+            auto is_digit = [&s](size_t pos){ return pos < s.size() && std::isdigit((unsigned char)s[pos]); };
+
+            if(i < s.size() && (s[i] == '+' || s[i] == '-')) i++;
+            for(; is_digit(i); i++) digits++;
+            if(i < s.size() && s[i] == '.') i++;
+            for(; is_digit(i); i++) digits++;
+            if(digits == 0) return false;
+            if(i < s.size() && (s[i] == 'e' || s[i] == 'E')){
+                i++;
+                if(i < s.size() && (s[i] == '+' || s[i] == '-')) i++;
+                if(!is_digit(i)) return false;
+                while(is_digit(i)) i++;
+            }
+            return i == s.size();
         }
 
         int stoin(std::string str){
-- 
2.43.0


From 3b370078574008508097ff981fa765c2d74af86c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:58 +0000
Subject: [PATCH 031/139] fix: loading a path without extension or name is
 refused instead of read out of bounds

---
 subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
index db1dd2d..cc24797 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
@@ -592,6 +592,8 @@ namespace mltk{
     Type mltk::Data< T >::identifyFileType(std::string file){
         size_t l , k, i, j, tsize = types.size();
 
+        if(file.find('.') == std::string::npos) return Type::TYPE_INVALID;
+
         for(k = file.size() - 1; (k >= 0 && file[k] != '.') ; k--){
             for(i = 0; i < tsize; ++i){
                 if(file[k] == types[i][types[i].size()-1]){
@@ -2104,6 +2106,7 @@ namespace mltk{
     template<typename T>
     std::string Data<T>::discover_dataset_name(const std::string &path) {
         auto tokens = mltk::utils::tokenize(path, '/');
+        if(tokens.empty()) return std::string();
         tokens = mltk::utils::tokenize(tokens.back(), '.');
         return (tokens.empty())?std::string():tokens[0];
     }
-- 
2.43.0


From ebb6f886804e5bf60202ebc20101404ec8cee822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:58 +0000
Subject: [PATCH 032/139] fix: every class text gets one label of its own when
 loading

---
 .../include/ufjfmltk/core/Data.hpp            | 30 ++++++++-----------
 1 file changed, 12 insertions(+), 18 deletions(-)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
index cc24797..fdcb187 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
@@ -1139,34 +1139,28 @@ namespace mltk{
     template<typename T>
     int mltk::Data<T>::process_class(std::string& item) {
         int c = 0;
-        auto class_name_it = std::find(this->class_names.begin(), this->class_names.end(), item);
 
         item.erase(std::remove_if(item.begin(), item.end(), ::isspace), item.end());
-        if(item.empty()) return std::numeric_limits<int>::infinity();
+        if(item.empty()) return 0;
 
+        auto class_name_it = std::find(this->class_names.begin(), this->class_names.end(), item);
         if(class_name_it == class_names.end()){
-            this->class_names.push_back(item);
             auto has_mone = std::find(class_names.begin(), class_names.end(), "-1");
-            if(has_mone == class_names.end()){
-                if(utils::is_number(item)) {
-                    c = std::stoi(item);
-                }else{
-                    auto pos = std::find(class_names.begin(), class_names.end(), item);
-                    c = (int)(pos - this->class_names.begin())+1;
-                }
+            double number = utils::is_number(item) ? utils::atod(item.c_str()) : 0;
+            if(utils::is_number(item) && std::fabs(number) <= std::numeric_limits<int>::max()) {
+                c = (int)number;
+            }else if(has_mone == class_names.end()){
+                c = (int)this->class_names.size()+1;
             }else{
                 c = 1;
             }
-            if(item == "-1"){
-                c = -1;
+            //a label already taken by another class can't be used
+            for(int next = (int)this->class_names.size()+1; std::find(m_classes.begin(), m_classes.end(), c) != m_classes.end(); next++){
+                c = next;
             }
-
+            this->class_names.push_back(item);
         }else{
-            if(utils::is_number(item)) {
-                c = std::stoi(item);
-            }else{
-                c = (int)(class_name_it - this->class_names.begin())+1;
-            }
+            c = this->m_classes[class_name_it - this->class_names.begin()];
         }
         auto class_it = std::find(this->m_classes.begin(), this->m_classes.end(), c);
         if(class_it == this->m_classes.end()){
-- 
2.43.0


From c190993d024fc3c6929a5ab43778daa915756ee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:58 +0000
Subject: [PATCH 033/139] fix: loading a file replaces the previous content

---
 subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
index fdcb187..2951694 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
@@ -631,6 +631,7 @@ namespace mltk{
     bool mltk::Data< T >::load(const std::string& file){
         Type t = identifyFileType(file);
         this->dataset_name = discover_dataset_name(file);
+        this->clear();
         this->cdist_computed = true;
 
         this->atEnd = false;
@@ -658,6 +659,7 @@ namespace mltk{
     bool mltk::Data< T >::load(const std::string& file, bool _atEnd){
         Type t = identifyFileType(file);
         this->dataset_name = discover_dataset_name(file);
+        this->clear();
         this->cdist_computed = true;
 
         this->atEnd = _atEnd;
-- 
2.43.0


From eb50ab9c14ee903db3f2543178a0cf2b91887b40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:58 +0000
Subject: [PATCH 034/139] fix: csv reader skips blank lines, trims values and
 stays in bounds

---
 .../ufjfmltk-core/include/ufjfmltk/core/Data.hpp      | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
index 2951694..74b1b8e 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
@@ -702,6 +702,7 @@ namespace mltk{
         //Verify if the class is at the begining or at the end and error check
         while(std::getline(input, str)){
             str = mltk::utils::trim_copy(str);
+            if(str.empty()) continue;
             ssize = str.size();
             _dim = -1;
             ss.str(str);
@@ -735,7 +736,7 @@ namespace mltk{
                 _dim++;
             }
 
-            if(ldim != _dim && ldim != 0){
+            if(ldim != _dim && _size != 0){
                 std::cerr << "All the samples must have the same dimension!" << std::endl;
                 return false;
             }
@@ -744,6 +745,7 @@ namespace mltk{
             _size++;
             ss.clear();
         }
+        _dim = ldim;
 
         input.clear();
         input.seekg(0, std::ios::beg);
@@ -764,6 +766,7 @@ namespace mltk{
         //Read sample (line) from file
         while(std::getline(input, str)){
             str = mltk::utils::trim_copy(str);
+            if(str.empty()) continue;
             auto new_point = std::make_shared<Point< T > >();
 
             ss.str(str);
@@ -780,8 +783,10 @@ namespace mltk{
                     cond = _dim != -1;
 
                 if(cond){
-                    if(utils::is_number(item))
-                        new_point->X()[(!atEnd) ? _dim : _dim + 1] = utils::atod(item.c_str());
+                    size_t pos = (!atEnd) ? _dim : _dim + 1;
+                    utils::trim(item);
+                    if(pos < new_point->size() && utils::is_number(item))
+                        new_point->X()[pos] = utils::atod(item.c_str());
                 }else{
                     double c;
 
-- 
2.43.0


From 67151d9fb640d187723c4ef6f7add76d789c6ab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:43 +0000
Subject: [PATCH 035/139] fix: data reader skips blank lines and empty fields
 and stays in bounds

---
 .../ufjfmltk-core/include/ufjfmltk/core/Data.hpp     | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
index 74b1b8e..1d084c5 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
@@ -827,6 +827,7 @@ namespace mltk{
         //get dimension of the points and do error check
         while(std::getline(input, str)){
             str = mltk::utils::trim_copy(str);
+            if(str.empty()) continue;
             _dim = -1;
 
             ss.str(str);
@@ -857,7 +858,7 @@ namespace mltk{
                     }
                 }
             }
-            if(ldim != _dim && ldim != 0){
+            if(ldim != _dim && _size != 0){
                 std::cerr << "Error (line: " << _size << "): all the samples must have the same dimension! (_dim: " << _dim << ", last_dim: " << ldim << ")" << std::endl;
                 return false;
             }
@@ -865,6 +866,7 @@ namespace mltk{
             ldim = _dim;
             _size++;
         }
+        _dim = ldim;
 
         input.clear();
         input.seekg(0, std::ios::beg);
@@ -886,6 +888,7 @@ namespace mltk{
         //get lines from file
         while(std::getline(input, str)){
             str = mltk::utils::trim_copy(str);
+            if(str.empty()) continue;
             auto new_point = std::make_shared<Point< T > >();
 
             ss.str(str);
@@ -896,6 +899,7 @@ namespace mltk{
             _dim = 0;
             while(std::getline(ss, item, ' ')){
                 item = mltk::utils::trim_copy(item);
+                if(item.empty()) continue;
                 const char * pch = std::strchr(item.c_str(), ':');
                 if(!pch){
                     if(this->isClassification()) {
@@ -910,16 +914,18 @@ namespace mltk{
                     ss1.str(item);
                     ss1.clear();
                     //Get feature name and value
-                    while(std::getline(ss1, item, ':')){
+                    while(_dim < fnames.size() && std::getline(ss1, item, ':')){
                         item.erase( std::remove(item.begin(), item.end(), '\r'), item.end() );
                         if(!is_feature){
                             fnames[_dim] = utils::stoin(item);
                             is_feature = true;
                         }else{
                             if(utils::is_number(item)){
-                                new_point->X()[_dim++] = utils::atod(item.c_str());
+                                new_point->X()[_dim] = utils::atod(item.c_str());
                             }
+                            _dim++;
                             is_feature = false;
+                            break;
                         }
                     }
                 }
-- 
2.43.0


From 1eaf09d3cd853fa2b0c2ce82d57c058257f1b0d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:43 +0000
Subject: [PATCH 036/139] fix: data reader keeps the regression type

---
 .../ufjfmltk-core/include/ufjfmltk/core/Data.hpp     | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
index 1d084c5..67319e8 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
@@ -817,7 +817,7 @@ namespace mltk{
         std::stringstream ss, ss1;
         int _dim, ldim, _size;
         double c;
-        bool is_feature, type_detect = false;
+        bool is_feature, type_detect = !this->isClassification();
 
         if(!input){
             std::cout << "File could not be opened!" << std::endl;
@@ -934,10 +934,12 @@ namespace mltk{
             m_points[_size - 1]->Id() = _size;
         }
 
-        if(m_classes.size() == 2){
-            type = "BinClassification";
-        }else{
-            type = "MultiClassification";
+        if(this->isClassification()){
+            if(m_classes.size() == 2){
+                type = "BinClassification";
+            }else{
+                type = "MultiClassification";
+            }
         }
 
         input.close();
-- 
2.43.0


From ee48f4f662a3df1d967cbae8194da0f4b0be6ca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:43 +0000
Subject: [PATCH 037/139] fix: arff reader skips header, comment and blank
 lines, reads labels placed first and stays in bounds

---
 .../include/ufjfmltk/core/Data.hpp            | 21 +++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
index 67319e8..1e956af 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
@@ -952,7 +952,8 @@ namespace mltk{
         std::ifstream input(path.c_str());
         std::istringstream ss;
         std::string str, item;
-        int _dim, ldim, _size, c;
+        int _dim, ldim, _size;
+        double c;
         bool atBegin, flag, cond;
 
         if(!input){
@@ -960,12 +961,14 @@ namespace mltk{
             return false;
         }
 
-        _dim = ldim = _size = c = 0;
+        _dim = ldim = _size = 0;
+        c = 0;
         atBegin = flag = cond = false;
 
         //Verify if the class is at the begining or at the end and error check
         while(std::getline(input, str)){
             str = mltk::utils::trim_copy(str);
+            if(str.empty() || str[0] == '@' || str[0] == '%') continue;
             _dim = 0;
             ss.str(str);
 
@@ -993,7 +996,7 @@ namespace mltk{
                 _dim++;
             }
 
-            if(ldim != _dim && ldim != 0){
+            if(ldim != _dim && _size != 0){
                 std::cerr << "All the samples must have the same dimension!" << std::endl;
                 return false;
             }
@@ -1002,6 +1005,7 @@ namespace mltk{
             _size++;
             ss.clear();
         }
+        _dim = std::max(ldim, 1);
         input.clear();
         input.seekg(0, std::ios::beg);
 
@@ -1024,6 +1028,7 @@ namespace mltk{
         //Read line (sample) from file
         while(std::getline(input, str)){
             str = mltk::utils::trim_copy(str);
+            if(str.empty() || str[0] == '@' || str[0] == '%') continue;
             auto new_point = std::make_shared<Point< T > >();
             _dim = -1;
             ss.str(str);
@@ -1036,15 +1041,19 @@ namespace mltk{
                 if(atEnd)
                     cond = (!ss.eof() && atEnd);
                 else
-                    cond = _dim != 0;
+                    cond = _dim != -1;
 
                 if(cond){
-                    if(utils::is_number(item)){
-                        new_point->X()[_dim + 1] = utils::atod(item.c_str());
+                    size_t pos = (!atEnd) ? _dim : _dim + 1;
+                    utils::trim(item);
+                    if(pos < new_point->size() && utils::is_number(item)){
+                        new_point->X()[pos] = utils::atod(item.c_str());
                     }
                 }else{
                     if(this->isClassification()){
                         c = process_class(item);
+                    }else{
+                        c = utils::atod(item.c_str());
                     }
                     new_point->Y() = c;
                 }
-- 
2.43.0


From 12ccac0acd452cded25c607810c0cf33c8e2c130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:43 +0000
Subject: [PATCH 038/139] fix: txt reader skips blank lines and repeated blanks

---
 subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
index 1e956af..3170111 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
@@ -1087,11 +1087,13 @@ namespace mltk{
         //error check
         while(std::getline(input, str)){
             str = mltk::utils::trim_copy(str);
+            if(str.empty()) continue;
             ss.str(str);
             n1 = 0;
             _dim = 0;
 
             while(std::getline(ss, item, ' ')){
+                if(item.empty()) continue;
                 if(n1 >= 2){
                     _dim++;
                 }
@@ -1108,6 +1110,7 @@ namespace mltk{
             _size++;
             ss.clear();
         }
+        _dim = d;
 
         //Initialize _size and _dim
         this->m_size = _size;
@@ -1130,6 +1133,7 @@ namespace mltk{
         //get line from file (sample)
         while(std::getline(input, str)){
             str = mltk::utils::trim_copy(str);
+            if(str.empty()) continue;
             auto new_point = std::make_shared<Point< T > >();
 
             //Allocate memory for features
@@ -1139,6 +1143,8 @@ namespace mltk{
 
             //read features from line
             while(std::getline(ss, item, ' ')){
+                if(item.empty()) continue;
+                utils::trim(item);
                 if(n >= 2){
                     if(utils::is_number(item))
                         new_point->X()[n - 2] = utils::atod(item.c_str());
-- 
2.43.0


From 912fefa51cccd676286f64a7abfb00ca027f3e30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:43 +0000
Subject: [PATCH 039/139] fix: loading a file without records leaves an empty
 dataset

---
 subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
index 3170111..9ac34d7 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
@@ -805,7 +805,7 @@ namespace mltk{
             ss.clear();
         }
 
-        is_empty = false;
+        is_empty = m_points.empty();
 
         return true;
     }
@@ -943,7 +943,7 @@ namespace mltk{
         }
 
         input.close();
-        is_empty = false;
+        is_empty = m_points.empty();
         return true;
     }
 
@@ -1065,7 +1065,7 @@ namespace mltk{
             ss.clear();
         }
 
-        is_empty = false;
+        is_empty = m_points.empty();
 
         return true;
     }
@@ -1161,7 +1161,7 @@ namespace mltk{
             ss.clear();
         }
 
-        is_empty = false;
+        is_empty = m_points.empty();
 
         return true;
     }
-- 
2.43.0


From fda5cc554dfd6cadd143a223c9f0cae3dce648f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:52 +0000
Subject: [PATCH 040/139] fix: a file type is identified by its whole extension

---
 .../include/ufjfmltk/core/Data.hpp            | 43 +++++--------------
 1 file changed, 10 insertions(+), 33 deletions(-)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
index 9ac34d7..7e4f320 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
@@ -590,39 +590,16 @@ namespace mltk{
 
     template<typename T>
     Type mltk::Data< T >::identifyFileType(std::string file){
-        size_t l , k, i, j, tsize = types.size();
-
-        if(file.find('.') == std::string::npos) return Type::TYPE_INVALID;
-
-        for(k = file.size() - 1; (k >= 0 && file[k] != '.') ; k--){
-            for(i = 0; i < tsize; ++i){
-                if(file[k] == types[i][types[i].size()-1]){
-                    for(j = types[i].size() - 1, l = 0; (j >= 0 && file[k-l] != '.') ; j--, l++){
-                        if(j == 0 && types[i][j] == file[k-l]){
-                            switch(i){
-                                case 0:
-                                    return Type::TYPE_DATA;
-                                    break;
-                                case 1:
-                                    return Type::TYPE_CSV;
-                                    break;
-                                case 2:
-                                    return Type::TYPE_ARFF;
-                                    break;
-                                case 3:
-                                    return Type::TYPE_TXT;
-                                    break;
-                                default:
-                                    return Type::TYPE_INVALID;
-                                    break;
-                            }
-                        }else if(types[i][j] != file[k-l]){
-                            break;
-                        }
-                    }
-                }
-            }
-        }
+        size_t dot = file.rfind('.');
+
+        if(dot == std::string::npos) return Type::TYPE_INVALID;
+
+        std::string extension = file.substr(dot + 1);
+
+        if(extension == types[0]) return Type::TYPE_DATA;
+        if(extension == types[1]) return Type::TYPE_CSV;
+        if(extension == types[2]) return Type::TYPE_ARFF;
+        if(extension == types[3]) return Type::TYPE_TXT;
 
         return Type::TYPE_INVALID;
     }
-- 
2.43.0


From 93541ad02b5950b42b33f06f258d227e0e31837e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:52 +0000
Subject: [PATCH 041/139] fix: a record of a data file is counted in one class
 only

---
 subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
index 7e4f320..58d6799 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
@@ -794,7 +794,7 @@ namespace mltk{
         std::stringstream ss, ss1;
         int _dim, ldim, _size;
         double c;
-        bool is_feature, type_detect = !this->isClassification();
+        bool is_feature, has_label, type_detect = !this->isClassification();
 
         if(!input){
             std::cout << "File could not be opened!" << std::endl;
@@ -874,11 +874,14 @@ namespace mltk{
 
             //Read features from line
             _dim = 0;
+            has_label = false;
             while(std::getline(ss, item, ' ')){
                 item = mltk::utils::trim_copy(item);
                 if(item.empty()) continue;
                 const char * pch = std::strchr(item.c_str(), ':');
                 if(!pch){
+                    if(has_label) continue;
+                    has_label = true;
                     if(this->isClassification()) {
                         c = process_class(item);
                     }else{
-- 
2.43.0


From 92737448f25427054fc0472b54fe5b80f633b0c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:36 +0000
Subject: [PATCH 042/139] fix: sampling doesn't lose a point to rounding when
 the classes divide evenly

---
 subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
index 58d6799..7a5cd4a 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Data.hpp
@@ -2009,7 +2009,7 @@ namespace mltk{
 
         auto temp_dist = classesDistribution();
         for(int i = 0; i < temp_dist.size(); i++){
-            class_dist[i] = (double(temp_dist[i]) / size()) * samp_size;
+            class_dist[i] = double(temp_dist[i]) * samp_size / size();
         }
         for(int i = 0; i < class_dist.size(); i++){
             dist.emplace_back(0, (classes_split[i].size() > 0) ? classes_split[i].size()-1 : 0);
-- 
2.43.0


From 26c0d99c4e6b43cfc804823611394e6bc963ebc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:10 +0000
Subject: [PATCH 043/139] fix: cross-validation folds do not start from the
 solution learned in another fold

---
 .../include/ufjfmltk/valid/Validation.hpp            | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/subprojects/ufjfmltk-valid/include/ufjfmltk/valid/Validation.hpp b/subprojects/ufjfmltk-valid/include/ufjfmltk/valid/Validation.hpp
index c6bf038..46fe001 100644
--- a/subprojects/ufjfmltk-valid/include/ufjfmltk/valid/Validation.hpp
+++ b/subprojects/ufjfmltk-valid/include/ufjfmltk/valid/Validation.hpp
@@ -214,9 +214,14 @@ namespace mltk::validation {
         /*cross-validation*/
         if(qtde > 0)
         {
+            const Solution initial_solution = classifier.getSolution();
+            const int initial_steps = classifier.getSteps(), initial_ctot = classifier.getCtot();
             for(errocross = 0, i = 0; i < qtde; i++)
             {
                 if(verbose) std::cout << "\nExecucao " << i + 1 << " / " << qtde << ":\n";
+                classifier.setSolution(initial_solution);
+                classifier.setSteps(initial_steps);
+                classifier.setCtot(initial_ctot);
                 errocross += kfold(samples, classifier, fold, stratified, _seed + i, verbose).error;
             }
             if(verbose >= 1)std::cout << "\n\nErro " << fold << "-Fold Cross Validation: " << errocross/qtde << "%\n";
@@ -318,6 +323,9 @@ namespace mltk::validation {
         sample.shuffle(_seed);
         std::vector<TrainTestPair<T>> folds = kfoldsplit(sample, fold, stratified, true, seed);
         ValidationReport solution;
+        // every fold starts from the state the classifier was given with, not from what it learned in another fold
+        const Solution initial_solution = classifier.getSolution();
+        const int initial_steps = classifier.getSteps(), initial_ctot = classifier.getCtot();
 
         //Start cross-validation
         for(size_t fp = 0, fn = 0, tp = 0, tn = 0, j = 0; j < fold; ++j){
@@ -335,7 +343,9 @@ namespace mltk::validation {
 
             // Training phase
             classifier.setSamples(_train_sample);
-            Solution s = classifier.getSolution();
+            classifier.setSolution(initial_solution);
+            classifier.setSteps(initial_steps);
+            classifier.setCtot(initial_ctot);
             bool isDual = classifier.getFormulationString() == "Dual";
             classifier.setSeed(_seed);
             if(!isDual){
-- 
2.43.0


From 5d56da34f2d01d3d46b845cac993c485a83290c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:21 +0000
Subject: [PATCH 044/139] fix: dtoa of a negative power of ten prints a digit,
 not a colon

---
 subprojects/ufjfmltk-core/src/Utils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/subprojects/ufjfmltk-core/src/Utils.cpp b/subprojects/ufjfmltk-core/src/Utils.cpp
index 402a03a..43fda29 100755
--- a/subprojects/ufjfmltk-core/src/Utils.cpp
+++ b/subprojects/ufjfmltk-core/src/Utils.cpp
@@ -113,7 +113,7 @@ namespace mltk::utils{
                     *(c++) = '-';
                 // set up for scientific notation
                 if (useExp) {
-                    if (m < 0)
+                    if (m < 0 && n < pow(10.0, m))
                         m -= 1.0;
                     n = n / pow(10.0, m);
                     m1 = m;
-- 
2.43.0


From 548af0992366777d38214d3651f01781ae3b7d5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:45 +0000
Subject: [PATCH 045/139] fix: dtoa never prints a digit above nine when the
 quotient rounds up

---
 subprojects/ufjfmltk-core/src/Utils.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/subprojects/ufjfmltk-core/src/Utils.cpp b/subprojects/ufjfmltk-core/src/Utils.cpp
index 43fda29..df69b33 100755
--- a/subprojects/ufjfmltk-core/src/Utils.cpp
+++ b/subprojects/ufjfmltk-core/src/Utils.cpp
@@ -127,6 +127,7 @@ namespace mltk::utils{
                     double weight = pow(10.0, m);
                     if (weight > 0 && !std::isinf(weight)) {
                         digit = floor(n / weight);
+                        if (digit > 9) digit = 9; // the quotient may round up to 10
                         n -= (digit * weight);
                         *(c++) = '0' + digit;
                     }
-- 
2.43.0


From 7fc46a09269541557338526f7d97dfa70aa02790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:23 +0000
Subject: [PATCH 046/139] fix: distCentersWithoutFeats measures without the
 given features, not only with them

---
 .../ufjfmltk-core/include/ufjfmltk/core/Statistics.hpp     | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Statistics.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Statistics.hpp
index 895f021..914a80c 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Statistics.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Statistics.hpp
@@ -286,12 +286,13 @@ namespace mltk::stats {
         }
 
         for(dist = 0.0, j = 0; j < dim; ++j){
+            bool excluded = index >= 0 && fnames[j] == index;
             for(i = 0; i < featsize; ++i){
-                if(fnames[j] == feats[i])
-                    dist -= std::pow(avg_pos[j] - avg_neg[j], 2);
+                if(fnames[j] == feats[i]) excluded = true;
             }
+            if(!excluded) dist += std::pow(avg_pos[j] - avg_neg[j], 2);
         }
 
-        return std::sqrt(std::fabs(dist));
+        return std::sqrt(dist);
     }
 }
-- 
2.43.0


From 5ff4f611f83c13fcaa1a1ee0fd66025f007deb68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:46 +0000
Subject: [PATCH 047/139] fix: Lorentzian distance sums log(1 + |x - y|)

---
 .../ufjfmltk-core/include/ufjfmltk/core/DistanceMetric.hpp      | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/DistanceMetric.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/DistanceMetric.hpp
index 626c4a4..83e1c1b 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/DistanceMetric.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/DistanceMetric.hpp
@@ -75,7 +75,7 @@ namespace mltk::metrics::dist{
                 this->m_name = "Lorentzian";
             }
             T operator()(const Point <T> &p1, const Point <T> &p2) const {
-                return mltk::log(1 - mltk::abs(p1 - p2)).sum();
+                return mltk::log(1 + mltk::abs(p1 - p2)).sum();
             }
         };
 
-- 
2.43.0


From 9d4ddc0157de145d9db256e8c0031830cab5655f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:46 +0000
Subject: [PATCH 048/139] fix: distance measures scaled by a fraction are not
 zero by integer division

---
 .../include/ufjfmltk/core/DistanceMetric.hpp              | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/DistanceMetric.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/DistanceMetric.hpp
index 83e1c1b..b66eecb 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/DistanceMetric.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/DistanceMetric.hpp
@@ -107,7 +107,7 @@ namespace mltk::metrics::dist{
         class  NonIntersection : public DistanceMetric<T> {
         public:
             T operator()(const Point <T> &p1, const Point <T> &p2) const {
-                return (1 / 2) * mltk::abs(p1 - p2).sum();
+                return 0.5 * mltk::abs(p1 - p2).sum();
             }
         };
 
@@ -318,7 +318,7 @@ namespace mltk::metrics::dist{
                 this->m_name = "Average";
             }
             T operator()(const Point <T> &p1, const Point <T> &p2) const {
-                return std::sqrt((1/p1.size())*(mltk::pow(p1 - p2, 2)).sum());
+                return std::sqrt((mltk::pow(p1 - p2, 2)).sum() / p1.size());
             }
         };
 
@@ -400,7 +400,7 @@ namespace mltk::metrics::dist{
                 this->m_name = "JensenShannon";
             }
             T operator()(const Point <T> &p1, const Point <T> &p2) const {
-                return (1/2) * (p1 * mltk::log((2 * p1)/(p1 + p2))).sum() + (p2 * mltk::log((2 * p2)/(p1 + p2))).sum();
+                return 0.5 * ((p1 * mltk::log((2 * p1)/(p1 + p2))).sum() + (p2 * mltk::log((2 * p2)/(p1 + p2))).sum());
             }
         };
 
@@ -412,7 +412,7 @@ namespace mltk::metrics::dist{
                 this->m_name = "JensenDifference";
             }
             T operator()(const Point <T> &p1, const Point <T> &p2) const {
-                return (1/2) * ((p1 * mltk::log(p1) + p2 * mltk::log(p2))/2 - ((p1 + p2)/2) * mltk::log((p1 + p2)/2)).sum();
+                return 0.5 * ((p1 * mltk::log(p1) + p2 * mltk::log(p2))/2 - ((p1 + p2)/2) * mltk::log((p1 + p2)/2)).sum();
             }
         };
 
-- 
2.43.0


From d53275ab09b0c10983459ea45b8c9ca240344a31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:46 +0000
Subject: [PATCH 049/139] fix: MinSymmetric takes the smaller of the two sums

---
 .../ufjfmltk-core/include/ufjfmltk/core/DistanceMetric.hpp      | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/DistanceMetric.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/DistanceMetric.hpp
index b66eecb..c619a65 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/DistanceMetric.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/DistanceMetric.hpp
@@ -438,7 +438,7 @@ namespace mltk::metrics::dist{
         class  MinSymmetric: public DistanceMetric<T> {
         public:
             T operator()(const Point <T> &p1, const Point <T> &p2) const {
-                return std::max((mltk::pow(p1 - p2, 2)/p1).sum(), (mltk::pow(p1 - p2, 2)/p2).sum());
+                return std::min((mltk::pow(p1 - p2, 2)/p1).sum(), (mltk::pow(p1 - p2, 2)/p2).sum());
             }
         };
 
-- 
2.43.0


From 598d1eac1e2a79510f6314da943c8ef12cf3385b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:46 +0000
Subject: [PATCH 050/139] fix: Bhattacharyya distance is the negative logarithm
 of the coefficient

---
 .../ufjfmltk-core/include/ufjfmltk/core/DistanceMetric.hpp      | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/DistanceMetric.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/DistanceMetric.hpp
index c619a65..30f70e3 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/DistanceMetric.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/DistanceMetric.hpp
@@ -172,7 +172,7 @@ namespace mltk::metrics::dist{
                 this->m_name = "Bhattacharyya";
             }
             T operator()(const Point <T> &p1, const Point <T> &p2) const {
-                return -std::sqrt(mltk::pow(p1 * p2, 0.5).sum());
+                return -std::log(mltk::pow(p1 * p2, 0.5).sum());
             }
         };
 
-- 
2.43.0


From ee273c24d96a90b29716551fa378800c895b353b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:46 +0000
Subject: [PATCH 051/139] fix: Clark distance is the root of its sum

---
 .../ufjfmltk-core/include/ufjfmltk/core/DistanceMetric.hpp      | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/DistanceMetric.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/DistanceMetric.hpp
index 30f70e3..cf4a415 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/DistanceMetric.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/DistanceMetric.hpp
@@ -234,7 +234,7 @@ namespace mltk::metrics::dist{
                 this->m_name = "Clark";
             }
             T operator()(const Point <T> &p1, const Point <T> &p2) const {
-                return mltk::pow((p1 - p2)/(mltk::abs(p1) + mltk::abs(p2)), 2).sum();
+                return std::sqrt(mltk::pow((p1 - p2)/(mltk::abs(p1) + mltk::abs(p2)), 2).sum());
             }
         };
 
-- 
2.43.0


From 3835bbaf41cf4e852a057cafa212e97c4cc2ae97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:46 +0000
Subject: [PATCH 052/139] fix: Chord distance normalises by the norms, so it is
 zero for equal vectors

---
 .../ufjfmltk-core/include/ufjfmltk/core/DistanceMetric.hpp      | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/DistanceMetric.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/DistanceMetric.hpp
index cf4a415..c152210 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/DistanceMetric.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/DistanceMetric.hpp
@@ -158,7 +158,7 @@ namespace mltk::metrics::dist{
                 this->m_name = "Chord";
             }
             T operator()(const Point <T> &p1, const Point <T> &p2) const {
-                return std::sqrt(2 - 2 * ((p1 * p2).sum() / (mltk::pow(p1, 2).sum() * mltk::pow(p2, 2).sum())));
+                return std::sqrt(std::max<T>(0, 2 - 2 * ((p1 * p2).sum() / (std::sqrt(mltk::pow(p1, 2).sum()) * std::sqrt(mltk::pow(p2, 2).sum())))));
             }
         };
 
-- 
2.43.0


From 6d379fa9bb98f1d9af744a86059574cee939bd2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:46 +0000
Subject: [PATCH 053/139] fix: Kumar-Johnson distance squares the difference
 and uses the power 3/2

---
 .../ufjfmltk-core/include/ufjfmltk/core/DistanceMetric.hpp      | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/DistanceMetric.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/DistanceMetric.hpp
index c152210..1c1199e 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/DistanceMetric.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/DistanceMetric.hpp
@@ -464,7 +464,7 @@ namespace mltk::metrics::dist{
                 this->m_name = "KumarJohnson";
             }
             T operator()(const Point <T> &p1, const Point <T> &p2) const {
-                return (mltk::pow(mltk::pow(p1, 2) + mltk::pow(p2, 2), 2)/(2 * mltk::pow(p1 * p2, 3/2))).sum();
+                return (mltk::pow(mltk::pow(p1, 2) - mltk::pow(p2, 2), 2)/(2 * mltk::pow(p1 * p2, 1.5))).sum();
             }
         };
 
-- 
2.43.0


From 53a37634c89ede6fa4b4d9ad9f65e17125725125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:46 +0000
Subject: [PATCH 054/139] fix: Hassanat distance of negative coordinates shifts
 both by the smaller one

---
 .../ufjfmltk-core/include/ufjfmltk/core/DistanceMetric.hpp      | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/DistanceMetric.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/DistanceMetric.hpp
index 1c1199e..c66e094 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/DistanceMetric.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/DistanceMetric.hpp
@@ -495,7 +495,7 @@ namespace mltk::metrics::dist{
                         sum += 1 - (1+_min)/(1+std::max(p1[i], p2[i]));
                     }else{
                         auto _max = std::max(p1[i], p2[i]);
-                        sum += 1 - (1+_min + std::abs(_min))/(1+_max + std::abs(_max));
+                        sum += 1 - (1+_min + std::abs(_min))/(1+_max + std::abs(_min));
                     }
                 }
                 return sum;
-- 
2.43.0


From f5b90fe103ca4360d332e30b28157370c5b6a6b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:25 +0000
Subject: [PATCH 055/139] fix: the label-weighted kernel matrix can grow with
 the data

---
 subprojects/ufjfmltk-core/include/ufjfmltk/core/Kernel.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Kernel.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Kernel.hpp
index 87e8e01..553485e 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Kernel.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Kernel.hpp
@@ -179,7 +179,7 @@ namespace mltk{
         int i = 0, j = 0;
         size_t size = samples->size(), dim = samples->dim();
 
-        H.resize(size, std::vector<double>(size));
+        H.assign(size, std::vector<double>(size));
 
         /* Calculating Matrix */
         for(i = 0; i < size; ++i) {
-- 
2.43.0


From a77e15afdd69be159472be0a1fcec862aff7455e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:25 +0000
Subject: [PATCH 056/139] fix: the matrix without a dimension is label-weighted
 in both triangles

---
 subprojects/ufjfmltk-core/include/ufjfmltk/core/Kernel.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Kernel.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Kernel.hpp
index 553485e..70d0910 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Kernel.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Kernel.hpp
@@ -206,8 +206,9 @@ namespace mltk{
         /* Calculating Matrix */
         for(i = 0; i < size; ++i) {
             for (j = i; j < size; ++j) {
-                HwithoutDim[i][j] = functionWithoutDim(samples->point(i), samples->point(j), dim, samples->dim());
-                HwithoutDim[j][i] = HwithoutDim[i][j]*samples->point(i)->Y() * samples->point(j)->Y();
+                HwithoutDim[i][j] = functionWithoutDim(samples->point(i), samples->point(j), dim, samples->dim()) *
+                        samples->point(i)->Y() * samples->point(j)->Y();
+                HwithoutDim[j][i] = HwithoutDim[i][j];
             }
         }
     // clog << "\nH matrix without dim generated.\n";
-- 
2.43.0


From 0fd5ab4a425d200c5bc246ff7206d5422d8b1cc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:25 +0000
Subject: [PATCH 057/139] fix: the polynomial kernel without a dimension is the
 polynomial kernel of the other dimensions

---
 subprojects/ufjfmltk-core/include/ufjfmltk/core/Kernel.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Kernel.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Kernel.hpp
index 70d0910..364c78f 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Kernel.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Kernel.hpp
@@ -273,7 +273,7 @@ namespace mltk{
                 for(i = 0; i < dim; ++i)
                     if(i != j)
                         sum += (*one)[i] * (*two)[i];
-                sum = (param > 1) ? std::pow(sum+1, param) : sum;
+                sum = (param > 1) ? std::pow(sum, param) : sum;
                 break;
 
             case mltk::GAUSSIAN: //Gaussiano
-- 
2.43.0


From 23fe5cc2e76601b4e08b083ac9cf4a6fe85c8c90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:25 +0000
Subject: [PATCH 058/139] fix: the norm in dual variables is the quadratic form
 of the kernel matrix

---
 subprojects/ufjfmltk-core/include/ufjfmltk/core/Kernel.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Kernel.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Kernel.hpp
index 364c78f..c702516 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Kernel.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Kernel.hpp
@@ -303,10 +303,10 @@ namespace mltk{
         sum = sum1 = 0;
 
         for(i = 0; i < size; ++i){
-            for(j = 0; j < size; j++){
+            for(sum1 = 0, j = 0; j < size; j++){
                 sum1 += points[j]->Alpha() * points[j]->Y() * K[i][j];
-                sum += points[i]->Y() * points[i]->Alpha() * sum1;
             }
+            sum += points[i]->Y() * points[i]->Alpha() * sum1;
         }
 
         return sqrt(sum);
-- 
2.43.0


From 69f4c2e18f23d580e3a1d63ec193a4335fb6ec9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:56 +0000
Subject: [PATCH 059/139] fix: the distance matrix is filled by point id
 without racing row allocations

---
 .../include/ufjfmltk/core/DistanceMatrix.hpp  | 28 +++++++++++--------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/DistanceMatrix.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/DistanceMatrix.hpp
index 340f042..4183e45 100644
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/DistanceMatrix.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/DistanceMatrix.hpp
@@ -37,20 +37,26 @@ namespace mltk::metrics::dist {
 
         void compute(const mltk::Data<double> &data) {
             mltk::ThreadPool pool(threads);
-            
-            auto loop = [data, this](const int a, const int b) {
+            const auto points = data.points();
+
+            // rows and columns are found by the ids of the points, so they are sized before any task writes
+            size_t max_id = data.size();
+            for(auto const& point: points) max_id = std::max(max_id, point->Id());
+            this->rows = mltk::Point<double>::Matrix(max_id);
+            for(size_t id = 1; id <= max_id; id++) {
+                this->rows[id-1] = mltk::Point<double>((isDiagonal) ? id : max_id);
+            }
+
+            auto loop = [&points, this](const int a, const int b) {
                 for(size_t idx = a; idx < b; idx++) {
-                    this->rows[idx] = mltk::Point<double>((isDiagonal) ? idx+1 : data.size());
+                    const size_t id = points[idx]->Id();
 
-                    for(size_t j = 0; j < idx; j++){
-                        this->rows[data(idx).Id()-1][data(j).Id()-1] = this->dist_function(data(idx), data(j));
-                    }
-                    
-                    if(isDiagonal) continue;
+                    for(size_t j = 0; j < points.size(); j++){
+                        const size_t other = points[j]->Id();
 
-                    for(size_t j = idx+1; j < data.size(); j++){
-                        this->rows[data(idx).Id()-1][data(j).Id()-1] = this->dist_function(data(idx), data(j));
-                    }    
+                        if(j == idx || (isDiagonal && other > id)) continue;
+                        this->rows[id-1][other-1] = this->dist_function(*points[idx], *points[j]);
+                    }
                 }
             };
 
-- 
2.43.0


From 07d8fdef0a7569a86fe0480ae1e2448078bd13e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:56 +0000
Subject: [PATCH 060/139] fix: neighbours from a triangular distance matrix
 rank the query itself first

---
 .../include/ufjfmltk/classifier/KNNClassifier.hpp   | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/KNNClassifier.hpp b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/KNNClassifier.hpp
index ba533b3..7e53169 100755
--- a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/KNNClassifier.hpp
+++ b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/KNNClassifier.hpp
@@ -98,15 +98,12 @@ namespace mltk{
                             size_t id2 = points[i2]->Id()-1;
                             size_t idp = p.Id()-1;
                             
-                            if(idp == id1 || idp == id2) return false;
+                            // the matrix is lower triangular, a point is at no distance of itself
+                            auto distance = [this, idp](size_t id) {
+                                return (idp == id) ? 0.0 : this->distances[std::max(idp, id)][std::min(idp, id)];
+                            };
 
-                            size_t idp1 = (idp > id1) ? idp : id1;
-                            size_t id1p = (idp > id1) ? id1 : idp;
-                            
-                            size_t idp2 = (idp > id2) ? idp : id2;
-                            size_t id2p = (idp > id2) ? id2 : idp;
-
-                            return this->distances[idp1][id1p] < this->distances[idp2][id2p];
+                            return distance(id1) < distance(id2);
                         });
                     }
                 }
-- 
2.43.0


From 3550a051774296ec29847e60ed98185e7e359254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:56 +0000
Subject: [PATCH 061/139] fix: precomputing distances keeps the matrix the
 classifier then reads

---
 .../include/ufjfmltk/classifier/KNNClassifier.hpp            | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/KNNClassifier.hpp b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/KNNClassifier.hpp
index 7e53169..42db1db 100755
--- a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/KNNClassifier.hpp
+++ b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/KNNClassifier.hpp
@@ -52,9 +52,10 @@ namespace mltk{
                     }
 
                     metrics::dist::DistanceMatrix<Callable> precomputeDistances(mltk::Data<T> &data, bool diagonal = false, const size_t threads = std::thread::hardware_concurrency()){
-                        this->precomputed = true;
+                        metrics::dist::DistanceMatrix<Callable> matrix(data, diagonal, threads);
 
-                        return metrics::dist::DistanceMatrix<Callable>(data, diagonal, threads);
+                        this->setPrecomputedDistances(matrix);
+                        return matrix;
                     }
             };
             
-- 
2.43.0


From 92bee7a0af087f67c17a99d83c52c77dab421268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:55 +0000
Subject: [PATCH 062/139] fix: primal classifiers return the decision value
 when it is asked for

---
 .../include/ufjfmltk/classifier/PrimalClassifier.hpp             | 1 +
 1 file changed, 1 insertion(+)

diff --git a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/PrimalClassifier.hpp b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/PrimalClassifier.hpp
index a57f638..20c5e84 100755
--- a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/PrimalClassifier.hpp
+++ b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/PrimalClassifier.hpp
@@ -53,6 +53,7 @@ namespace mltk{
                         func += this->solution.w[i] * p[i];
                     }
 
+                    if (raw_value) return func;
                     return (func >= 0) ? 1 : -1;
                 }
 
-- 
2.43.0


From c64a76bb941a1ee03c141947806964c532afb3d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:55 +0000
Subject: [PATCH 063/139] fix: dual classifiers return the decision value when
 it is asked for

---
 .../include/ufjfmltk/classifier/DualClassifier.hpp               | 1 +
 1 file changed, 1 insertion(+)

diff --git a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/DualClassifier.hpp b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/DualClassifier.hpp
index e3eea10..cbc17ab 100755
--- a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/DualClassifier.hpp
+++ b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/DualClassifier.hpp
@@ -40,6 +40,7 @@ namespace mltk{
                     func += this->solution.alpha[r] * (*this->samples)[r]->Y() * fk;
                 }
 
+                if (raw_value) return func;
                 return (func >= 0) ? 1 : -1;
             }
 
-- 
2.43.0


From b687e9f2e4dc66c76198d00bf05b997ec527936d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:55 +0000
Subject: [PATCH 064/139] fix: balanced perceptron learns its bias and rejects
 points of another dimension

---
 .../include/ufjfmltk/classifier/Perceptron.hpp              | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp
index 05eb6f7..70b253a 100755
--- a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp
+++ b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp
@@ -109,7 +109,7 @@ namespace mltk{
 
                         if (point->Y() != pred) {
                             weights += this->rate * (*point) * point->Y();
-                            bias += this->rate * bias;
+                            bias += this->rate * point->Y();
                             ite++;
                             errors++;
                         }
@@ -145,6 +145,10 @@ namespace mltk{
             }
 
             double evaluate(const Point<T> &p, bool raw_value) override {
+                if (p.size() != weights.size()) {
+                    std::cerr << "The point must have the same dimension of the feature set!" << std::endl;
+                    return 0;
+                }
                 if (raw_value) {
                     return mltk::dot(weights, p) + bias;
                 } else {
-- 
2.43.0


From fcd21b1718f12bde73fda3348007ffde2be123b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:55 +0000
Subject: [PATCH 065/139] fix: the maximum norm of the fixed margin perceptron
 includes the updated first weight

---
 .../include/ufjfmltk/classifier/Perceptron.hpp                | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp
index 70b253a..c25874f 100755
--- a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp
+++ b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp
@@ -309,7 +309,9 @@ namespace mltk{
                                 } else
                                     w[j] += this->rate * (y * x[j]);
 
-                                if (j > 0) {
+                                if (j == 0) {
+                                    largw_temp = fabs(w[0]);
+                                } else {
                                     if (fabs(largw_temp - fabs(w[j])) / largw_temp < this->EPS)
                                         n_temp++;
                                     else if (fabs(w[j]) > largw_temp) {
-- 
2.43.0


From f131fccf4bde1f9b79cd5bf70cb94c5036dc54c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:55 +0000
Subject: [PATCH 066/139] fix: the maximum norm of the fixed margin IMA
 includes the updated first weight

---
 .../ufjfmltk-classifier/include/ufjfmltk/classifier/IMA.hpp   | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/IMA.hpp b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/IMA.hpp
index 0ff4e8c..7d3a4e7 100755
--- a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/IMA.hpp
+++ b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/IMA.hpp
@@ -450,7 +450,9 @@ namespace mltk{
                                 } else
                                     this->w[j] += this->rate * (y * x[j]);
 
-                                if (j > 0) {
+                                if (j == 0) {
+                                    maiorw_temp = fabs(this->w[0]);
+                                } else {
                                     if (fabs(maiorw_temp - fabs(this->w[j])) / maiorw_temp < this->EPS)
                                         n_temp++;
                                     else if (fabs(this->w[j]) > maiorw_temp) {
-- 
2.43.0


From 49dbc4195ee1aae47079873146a301c91e0eb732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:55 +0000
Subject: [PATCH 067/139] fix: fixed margin perceptron decides at its
 hyperplane, not at the margin of the initial solution

---
 .../include/ufjfmltk/classifier/Perceptron.hpp                  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp
index c25874f..4e20dc0 100755
--- a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp
+++ b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp
@@ -375,7 +375,7 @@ namespace mltk{
                 func += this->solution.w[i] * p[i];
             }
 
-            if (!raw_value) return (func >= this->solution.margin * this->solution.norm) ? 1 : -1;
+            if (!raw_value) return (func >= 0) ? 1 : -1;
             else return func;
         }
 
-- 
2.43.0


From a0d99672be4e88c235dc5cb0ead2c163e2a82aae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:55 +0000
Subject: [PATCH 068/139] fix: initialise the members of the IMA learners

---
 .../ufjfmltk-classifier/include/ufjfmltk/classifier/IMA.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/IMA.hpp b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/IMA.hpp
index 7d3a4e7..14d4c6c 100755
--- a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/IMA.hpp
+++ b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/IMA.hpp
@@ -25,7 +25,7 @@ namespace mltk{
         template<typename T = double>
         class IMAp : public PrimalClassifier<T> {
         private:
-            double margin;
+            double margin = 0;
             /// Support vector.
             std::vector<int> svs;
 
@@ -52,9 +52,9 @@ namespace mltk{
         template<typename T = double>
         class IMApFixedMargin : public PrimalClassifier<T> {
         private:
-            int n, maiorn = 0, flagNao1aDim;
+            int n = 1, maiorn = 0, flagNao1aDim = 0;
             double margin = 0.0, maiorw = 0.0;
-            unsigned long tMax;
+            unsigned long tMax = 0;
 
             /// Support vector.
             std::vector<int> svs;
-- 
2.43.0


From 7a0fe3bf1e6d94ceae506fcbc849a0bfa53a2c14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:55 +0000
Subject: [PATCH 069/139] fix: IMA measures its initial solution instead of an
 empty weight vector

---
 .../ufjfmltk-classifier/include/ufjfmltk/classifier/IMA.hpp     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/IMA.hpp b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/IMA.hpp
index 14d4c6c..0ba4b61 100755
--- a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/IMA.hpp
+++ b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/IMA.hpp
@@ -159,7 +159,7 @@ namespace mltk{
                 for (min = DBL_MAX, max = -DBL_MAX, i = 0; i < size; ++i) {
                     y = points[i]->Y();
                     for (func[i] = 0, j = 0; j < dim; ++j)
-                        func[i] += this->w[j] * points[i]->X()[j];
+                        func[i] += this->solution.w[j] * points[i]->X()[j];
                     if (y == 1 && func[i] < min) min = func[i];
                     else if (y == -1 && func[i] > max) max = func[i];
                 }
-- 
2.43.0


From c999e96c69b101770da6a96873d6e495201e4f8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:27 +0000
Subject: [PATCH 070/139] fix: IMA keeps the hyperplane whose margin it reports
 and decides at it

---
 .../include/ufjfmltk/classifier/IMA.hpp                  | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/IMA.hpp b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/IMA.hpp
index 0ba4b61..e0a35bb 100755
--- a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/IMA.hpp
+++ b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/IMA.hpp
@@ -258,9 +258,10 @@ namespace mltk{
                 //Shift no bias
                 double mmargin = (fabs(max) + fabs(min)) / 2.0;
                 if (fabs(max) > fabs(min))
-                    tempSol.bias += fabs(mmargin - rmargin);
+                    tempSol.bias += fabs(mmargin - rmargin) * norm;
                 else
-                    tempSol.bias -= fabs(mmargin - rmargin);
+                    tempSol.bias -= fabs(mmargin - rmargin) * norm;
+                bias = tempSol.bias;
 
                 //Obtaining new gamma_f
                 gamma = (min - max) / 2.0;
@@ -360,7 +361,7 @@ namespace mltk{
             for (func = this->solution.bias, i = 0; i < dim; i++) {
                 func += this->solution.w[i] * p[i];
             }
-            if (!raw_value) return (func >= this->solution.margin * this->solution.norm) ? 1 : -1;
+            if (!raw_value) return (func >= 0) ? 1 : -1;
             else return func;
         }
 
@@ -519,7 +520,7 @@ namespace mltk{
                 func += this->solution.w[i] * p[i];
             }
 
-            if (!raw_value) return (func >= this->solution.margin * this->solution.norm) ? 1 : -1;
+            if (!raw_value) return (func >= 0) ? 1 : -1;
             else return func;
         }
 
-- 
2.43.0


From 2f7f0f4a078028fd4cb478812d546feaa7449731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:22 +0000
Subject: [PATCH 071/139] fix: the dual fixed margin perceptron tracks the norm
 of its own expansion

---
 .../include/ufjfmltk/classifier/Perceptron.hpp              | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp
index 4e20dc0..7d2db5b 100755
--- a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp
+++ b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp
@@ -510,16 +510,16 @@ namespace mltk{
                     //Checking if the point is a mistake
 
                     if (y * func[idx] - this->gamma * norm <= 0) {
-                        lambda = (this->gamma) ? (1 - this->rate * this->gamma / norm) : 1;
+                        lambda = (this->gamma && norm != 0.0) ? (1 - this->rate * this->gamma / norm) : 1;
                         norm *= lambda;
+                        norm = sqrt(norm * norm + tworate * y * lambda * (func[idx] - bias) +
+                                    sqrate * (*K)[idx][idx]);
 
                         for (r = 0; r < size; ++r) {
                             (*this->samples)[r]->Alpha() *= lambda;
                             func[r] = lambda * func[r] + this->rate * y * ((*K)[idx][r] + 1) + bias * (1 - lambda);
                         }
 
-                        norm = sqrt(norm * norm + tworate * (*this->samples)[idx]->Y() * lambda * (func[idx] - bias) +
-                                    sqrate * (*K)[idx][idx]);
                         (*this->samples)[idx]->Alpha() += this->rate;
 
                         bias += this->rate * y;
-- 
2.43.0


From 30c6a935d31da2dddd26a0c2d2dac67830bdf246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:22 +0000
Subject: [PATCH 072/139] fix: dual IMA keeps the bias of the multipliers it
 restores

---
 .../ufjfmltk-classifier/include/ufjfmltk/classifier/IMA.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/IMA.hpp b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/IMA.hpp
index e0a35bb..3f0526e 100755
--- a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/IMA.hpp
+++ b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/IMA.hpp
@@ -649,15 +649,15 @@ namespace mltk{
             sol = percDual.getSolution();
             this->alpha = percDual.getAlphaVector();
             norm = sol.norm;
-            this->solution.bias = sol.bias;
             func = sol.func.X();
 
+            for (i = 0; i < size; ++i) points[i]->Alpha() = saved_alphas[i];
+
+            this->svs.clear();
             for (i = 0; i < size; ++i) {
                 if (points[i]->Alpha() > this->EPS * this->rate) { this->svs.push_back(i); }
             }
 
-            for (i = 0; i < size; ++i) points[i]->Alpha() = saved_alphas[i];
-
             this->solution.norm = this->kernel->norm(*this->samples);
 
             /*recuperando o vetor DJ -- "pesos" das componentes*/
-- 
2.43.0


From 93e2c36074658277ee0a78aba702e8d8a20c81f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:22 +0000
Subject: [PATCH 073/139] fix: dual IMA does not start from multipliers left by
 another training

---
 .../ufjfmltk-classifier/include/ufjfmltk/classifier/IMA.hpp      | 1 +
 1 file changed, 1 insertion(+)

diff --git a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/IMA.hpp b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/IMA.hpp
index 3f0526e..810b9fa 100755
--- a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/IMA.hpp
+++ b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/IMA.hpp
@@ -579,6 +579,7 @@ namespace mltk{
             }
             this->solution.bias = 0;
             this->solution.w.resize(this->samples->dim());
+            for (i = 0; i < size; ++i) points[i]->Alpha() = 0.0;
 
             if (this->verbose) {
                 std::cout << "-------------------------------------------------------------------\n";
-- 
2.43.0


From 0daa338b01d13fc0ea66a2eaf1713c6aa6922aab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:22 +0000
Subject: [PATCH 074/139] fix: dual perceptrons derive their weights from their
 multipliers only

---
 .../include/ufjfmltk/classifier/Perceptron.hpp                | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp
index 7d2db5b..470bf5e 100755
--- a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp
+++ b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp
@@ -458,7 +458,7 @@ namespace mltk{
             this->solution.norm = norm;
             this->solution.alpha = this->alpha;
             this->solution.margin = 0.0;
-            this->solution.w.resize(dim);
+            this->solution.w.assign(dim, 0.0);
 
             for (i = 0; i < size; i++) {
                 for (j = 0; j < dim; j++) {
@@ -544,7 +544,7 @@ namespace mltk{
             this->solution.bias = bias;
             this->solution.norm = norm;
             this->solution.func = func;
-            this->solution.w.resize(dim);
+            this->solution.w.assign(dim, 0.0);
             this->solution.alpha.resize(size);
             for (i = 0; i < dim; i++) {
                 for (j = 0; j < size; j++) {
-- 
2.43.0


From b2e55bd833408e1002e57db4e070700d32ee4f28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:46 +0000
Subject: [PATCH 075/139] fix: perceptrons can be trained again on other
 samples

---
 .../ufjfmltk/classifier/Perceptron.hpp        | 30 +++++++++++++++----
 1 file changed, 25 insertions(+), 5 deletions(-)

diff --git a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp
index 470bf5e..abd87b4 100755
--- a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp
+++ b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp
@@ -190,7 +190,7 @@ namespace mltk{
             std::vector<T> x;
             std::vector<int> index = this->samples->getIndex();
 
-            if (this->solution.w.empty()) this->solution.w.resize(dim);
+            if (this->solution.w.size() != dim) this->solution.w.assign(dim, 0.0);
             this->solution.bias = 0;
             this->solution.norm = 0.0;
 
@@ -258,8 +258,12 @@ namespace mltk{
             std::vector<int> index = this->samples->getIndex();
             std::shared_ptr<Point<T> > p;
 
-            if (func.empty()) func.resize(size);
-            if (w.empty()) w.resize(dim);
+            func.resize(size);
+            if (w.size() != dim) {
+                // the weights were learned on samples with other features
+                w.assign(dim, 0.0);
+                norm = bias = 0.0;
+            }
             e = s = 0;
             this->timer.reset();
             while (this->timer.elapsed() - time <= 0) {
@@ -419,8 +423,10 @@ namespace mltk{
             dMatrix *K = this->kernel->getKernelMatrixPointer();
             int y;
             iota(index.begin(), index.end(), 0);
-            if (this->alpha.empty()) {
+            if (this->alpha.size() != size) {
+                // the multipliers belong to other samples
                 this->alpha.assign(size, 0.0);
+                norm = bias = 0.0;
             }
             if(!initial){
                 this->solution = Solution();
@@ -491,6 +497,7 @@ namespace mltk{
             const double tworate = 2 * this->rate;
             std::vector<int> index = this->samples->getIndex();
             std::vector<double> func = this->solution.func.X(), Kv;
+            if (!this->kernel) this->kernel = new Kernel<T>(this->kernel_type, this->kernel_param);
             this->kernel->compute(this->samples);
             dMatrix *K = this->kernel->getKernelMatrixPointer();
 
@@ -498,7 +505,20 @@ namespace mltk{
                 this->alpha.resize(this->samples->size());
             }
 
-            if (func.empty()) { func.resize(size); }
+            if (func.size() != size) {
+                // nothing was learned on these samples yet
+                func.assign(size, 0.0);
+                norm = bias = 0.0;
+                for (r = 0; r < size; ++r) (*this->samples)[r]->Alpha() = 0.0;
+            } else {
+                // the functional values have to belong to the current samples
+                for (norm = 0.0, i = 0; i < size; ++i) {
+                    for (func[i] = bias, r = 0; r < size; ++r)
+                        func[i] += (*this->samples)[r]->Alpha() * (*this->samples)[r]->Y() * (*K)[i][r];
+                    norm += (*this->samples)[i]->Alpha() * (*this->samples)[i]->Y() * (func[i] - bias);
+                }
+                norm = (norm > 0.0) ? sqrt(norm) : 0.0;
+            }
             e = 1, s = 0;
             this->timer.reset();
 
-- 
2.43.0


From 8dbce23601945b1921d82b3832299d8f6c49530d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:46 +0000
Subject: [PATCH 076/139] fix: fixed margin IMA can be trained again on samples
 with other features

---
 .../ufjfmltk-classifier/include/ufjfmltk/classifier/IMA.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/IMA.hpp b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/IMA.hpp
index 810b9fa..723258c 100755
--- a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/IMA.hpp
+++ b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/IMA.hpp
@@ -400,7 +400,11 @@ namespace mltk{
             
             if (!this->solution.w.empty())
                 this->w = this->solution.w.X();
-            else this->w.resize(this->samples->dim(), 0.0);
+            if (this->w.size() != dim) {
+                // the weights were learned on samples with other features
+                this->w.assign(dim, 0.0);
+                norm = bias = 0.0;
+            }
             while (time - this->timer.elapsed() > 0) {
                 for (e = 0, i = 0; i < size; ++i) {
                     //shuffling data r = i + rand()%(size-i); j = index[i]; idx = index[i] = index[r]; index[r] = j;
-- 
2.43.0


From 812a298814d8beccfc32f809c4e417d2b9c9efa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:37 +0000
Subject: [PATCH 077/139] fix: IMA measures its initial solution by the maximum
 norm when asked to

---
 .../ufjfmltk-classifier/include/ufjfmltk/classifier/IMA.hpp    | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/IMA.hpp b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/IMA.hpp
index 723258c..fe63c94 100755
--- a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/IMA.hpp
+++ b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/IMA.hpp
@@ -143,6 +143,9 @@ namespace mltk{
                     for (this->solution.norm = 0.0, i = 0; i < dim; ++i)
                         this->solution.norm += this->solution.w[i] * this->solution.w[i];
                     this->solution.norm = sqrt(this->solution.norm);
+                } else if (this->q == -1) {
+                    for (this->solution.norm = 0.0, i = 0; i < dim; ++i)
+                        this->solution.norm = std::max(this->solution.norm, fabs(this->solution.w[i]));
                 } else {
                     for (this->solution.norm = 0.0, i = 0; i < dim; ++i)
                         this->solution.norm += std::pow(fabs(this->solution.w[i]), this->q);
-- 
2.43.0


From e3829de47e1e9613cbc8d7dcc4eb09faf557b56d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:25 +0000
Subject: [PATCH 078/139] fix: a diverged fixed margin perceptron does not
 report success

---
 .../include/ufjfmltk/classifier/Perceptron.hpp               | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp
index abd87b4..def45aa 100755
--- a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp
+++ b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp
@@ -279,7 +279,8 @@ namespace mltk{
                     }
 
                     //Checking if the point is a mistake
-                    if (y * func[idx] <= this->gamma * norm - this->samples->point(idx)->Alpha() * this->flexible) {
+                    double slack = (this->flexible != 0) ? this->samples->point(idx)->Alpha() * this->flexible : 0.0;
+                    if (!(y * func[idx] > this->gamma * norm - slack)) {
                         lambda = (norm != 0.0) ? (1 - this->rate * this->gamma / norm) : 1;
                         for (r = 0; r < size; ++r) {
                             std::shared_ptr<Point<T> > b = this->samples->point(r);
@@ -529,7 +530,7 @@ namespace mltk{
 
                     //Checking if the point is a mistake
 
-                    if (y * func[idx] - this->gamma * norm <= 0) {
+                    if (!(y * func[idx] - this->gamma * norm > 0)) {
                         lambda = (this->gamma && norm != 0.0) ? (1 - this->rate * this->gamma / norm) : 1;
                         norm *= lambda;
                         norm = sqrt(norm * norm + tworate * y * lambda * (func[idx] - bias) +
-- 
2.43.0


From a7764b682f077d97720114b5b5cd5435cd8064c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:25 +0000
Subject: [PATCH 079/139] fix: a diverged fixed margin IMA does not report
 success

---
 .../ufjfmltk-classifier/include/ufjfmltk/classifier/IMA.hpp  | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/IMA.hpp b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/IMA.hpp
index fe63c94..b4dd076 100755
--- a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/IMA.hpp
+++ b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/IMA.hpp
@@ -242,7 +242,7 @@ namespace mltk{
                 //std::cout << mltk::Point<double>(func) << std::endl;
                 for (min = DBL_MAX, max = -DBL_MAX, i = 0; i < size; ++i) {
                     y = points[i]->Y();
-                    alpha = points[i]->Alpha();
+                    alpha = (this->flexible != 0) ? points[i]->Alpha() : 0.0;
                     if ((func[i] + y * alpha * this->flexible) >= 0 &&
                         min > (func[i] + y * alpha * this->flexible) / norm) {
                         min = (func[i] + y * alpha * this->flexible) / norm;
@@ -421,7 +421,8 @@ namespace mltk{
                     }
 
                     //Checking if the point is a mistake
-                    if (y * func[idx] <= this->gamma * norm - (*this->samples)[idx]->Alpha() * this->flexible) {
+                    double slack = (this->flexible != 0) ? (*this->samples)[idx]->Alpha() * this->flexible : 0.0;
+                    if (!(y * func[idx] > this->gamma * norm - slack)) {
                         lambda = (norm) ? (1 - this->rate * this->gamma / norm) : 1;
                         for (r = 0; r < size; ++r)
                             (*this->samples)[r]->Alpha() *= lambda;
-- 
2.43.0


From 66db04bbf81f4eae6faaa719b76bd04c0b875ffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:52 +0000
Subject: [PATCH 080/139] fix: IMA does not spend its time on a margin that
 rounding already meets

---
 .../ufjfmltk-classifier/include/ufjfmltk/classifier/IMA.hpp  | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/IMA.hpp b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/IMA.hpp
index b4dd076..2457b91 100755
--- a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/IMA.hpp
+++ b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/IMA.hpp
@@ -115,7 +115,7 @@ namespace mltk{
         template<typename T>
         bool IMAp<T>::train() {
             unsigned int tMax = 0;
-            int i, j, n, maiorn = 0, flagNao1aDim = 0, y, it, sign = 1, svs = 0;
+            int i, j, n, maiorn = 0, flagNao1aDim = 0, y, it, sign = 1, svs = 0, updates = -1;
             size_t size = this->samples->size(), dim = this->samples->dim(), t1 = 1, t3 = 1;
             double gamma = 0.0, secs, bias = 0.0, alpha, rmargin = margin, inc, stime;
             double min = 0.0, max = 0.0, norm = 1.0, maiorw = 0.0;
@@ -270,6 +270,9 @@ namespace mltk{
                 gamma = (min - max) / 2.0;
                 inc = (1 + this->alpha_aprox) * rmargin;
                 if (gamma < inc) gamma = inc;
+                // a margin met without any update has to grow by more than rounding
+                if (imapFixMargin.getCtot() == updates) gamma *= 1 + this->EPS;
+                updates = imapFixMargin.getCtot();
                 rmargin = mmargin;
 
                 if (it == 2)
-- 
2.43.0


From 71a22e8994c127e295ea21266be0738464e46cd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:53 +0000
Subject: [PATCH 081/139] fix: dual perceptron uses the kernel set before
 training

---
 .../include/ufjfmltk/classifier/Perceptron.hpp                  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp
index def45aa..e5a09e0 100755
--- a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp
+++ b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp
@@ -419,7 +419,7 @@ namespace mltk{
             std::vector<int> index(size); //= this->samples->getIndex();
             std::vector<double> func(size, 0.0), Kv;
             std::vector<std::shared_ptr<Point<T> > > points = this->samples->points();
-            if(!this->kernel) this->kernel = new Kernel<T>(mltk::KernelType::INNER_PRODUCT);
+            if(!this->kernel) this->kernel = new Kernel<T>(this->kernel_type, this->kernel_param);
             this->kernel->compute(this->samples);
             dMatrix *K = this->kernel->getKernelMatrixPointer();
             int y;
-- 
2.43.0


From ccce3bbd5e6776a692464e1ebd55a2eb8a444242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:53 +0000
Subject: [PATCH 082/139] fix: dual IMA can be trained with a kernel set after
 construction

---
 .../ufjfmltk-classifier/include/ufjfmltk/classifier/IMA.hpp      | 1 +
 1 file changed, 1 insertion(+)

diff --git a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/IMA.hpp b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/IMA.hpp
index 2457b91..6cd59f0 100755
--- a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/IMA.hpp
+++ b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/IMA.hpp
@@ -578,6 +578,7 @@ namespace mltk{
             if(!this->samples){
                 return false;
             }
+            if(!this->kernel) this->kernel = new Kernel<T>(this->kernel_type, this->kernel_param);
             this->kernel->compute(this->samples);
             this->timer.reset();
 
-- 
2.43.0


From f11cf4eea21702437f3fc0aae4aeef39baf7dda4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:46 +0000
Subject: [PATCH 083/139] fix: rounding does not turn the norm of a dual
 perceptron into NaN

---
 .../include/ufjfmltk/classifier/Perceptron.hpp              | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp
index e5a09e0..572c79a 100755
--- a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp
+++ b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp
@@ -447,7 +447,7 @@ namespace mltk{
 
                     //Checking if the point is a mistake
                     if (y * f <= 0.0) {
-                        norm = std::sqrt(norm * norm + tworate * points[idx]->Y() * (func[idx] - bias) + sqrate * (*K)[idx][idx]);
+                        norm = std::sqrt(std::max(0.0, norm * norm + tworate * points[idx]->Y() * (func[idx] - bias) + sqrate * (*K)[idx][idx]));
                         this->alpha[i] += this->rate;
                         bias += this->rate * y;
                         ++this->ctot, ++e;
@@ -533,8 +533,8 @@ namespace mltk{
                     if (!(y * func[idx] - this->gamma * norm > 0)) {
                         lambda = (this->gamma && norm != 0.0) ? (1 - this->rate * this->gamma / norm) : 1;
                         norm *= lambda;
-                        norm = sqrt(norm * norm + tworate * y * lambda * (func[idx] - bias) +
-                                    sqrate * (*K)[idx][idx]);
+                        norm = sqrt(std::max(0.0, norm * norm + tworate * y * lambda * (func[idx] - bias) +
+                                    sqrate * (*K)[idx][idx]));
 
                         for (r = 0; r < size; ++r) {
                             (*this->samples)[r]->Alpha() *= lambda;
-- 
2.43.0


From d7b5891b877e6c105a846dc85ebdcf56e0abdd2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:12 +0000
Subject: [PATCH 084/139] fix: dual fixed margin perceptron reports success for
 its multipliers, not for drifted values

---
 .../ufjfmltk/classifier/Perceptron.hpp        | 27 ++++++++++++++-----
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp
index 572c79a..80c60ef 100755
--- a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp
+++ b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp
@@ -506,6 +506,18 @@ namespace mltk{
                 this->alpha.resize(this->samples->size());
             }
 
+            // computes the functional values and the norm from the multipliers
+            auto expand = [&] {
+                norm = 0.0;
+                for (size_t p = 0; p < size; ++p) {
+                    func[p] = bias;
+                    for (size_t v = 0; v < size; ++v)
+                        func[p] += (*this->samples)[v]->Alpha() * (*this->samples)[v]->Y() * (*K)[p][v];
+                    norm += (*this->samples)[p]->Alpha() * (*this->samples)[p]->Y() * (func[p] - bias);
+                }
+                norm = (norm > 0.0) ? sqrt(norm) : 0.0;
+            };
+
             if (func.size() != size) {
                 // nothing was learned on these samples yet
                 func.assign(size, 0.0);
@@ -513,12 +525,7 @@ namespace mltk{
                 for (r = 0; r < size; ++r) (*this->samples)[r]->Alpha() = 0.0;
             } else {
                 // the functional values have to belong to the current samples
-                for (norm = 0.0, i = 0; i < size; ++i) {
-                    for (func[i] = bias, r = 0; r < size; ++r)
-                        func[i] += (*this->samples)[r]->Alpha() * (*this->samples)[r]->Y() * (*K)[i][r];
-                    norm += (*this->samples)[i]->Alpha() * (*this->samples)[i]->Y() * (func[i] - bias);
-                }
-                norm = (norm > 0.0) ? sqrt(norm) : 0.0;
+                expand();
             }
             e = 1, s = 0;
             this->timer.reset();
@@ -556,7 +563,13 @@ namespace mltk{
 
                 ++this->steps; //Number of iterations update
                 //stop criterion
-                if (e == 0) break;
+                if (e == 0) {
+                    // the updated values may have drifted away from the multipliers
+                    expand();
+                    for (r = 0; r < size; ++r)
+                        if (!((*this->samples)[r]->Y() * func[r] - this->gamma * norm > 0)) ++e;
+                    if (e == 0) break;
+                }
                 if (this->steps > this->MAX_IT) break;
                 if (this->ctot > this->MAX_UP) break;
             }
-- 
2.43.0


From 443607a5aeebab0d3566db5effaabd42c46e8ebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:51 +0000
Subject: [PATCH 085/139] fix: dual IMA drops negligible multipliers only

---
 .../ufjfmltk-classifier/include/ufjfmltk/classifier/IMA.hpp   | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/IMA.hpp b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/IMA.hpp
index 6cd59f0..084d4a5 100755
--- a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/IMA.hpp
+++ b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/IMA.hpp
@@ -629,7 +629,7 @@ namespace mltk{
                 this->solution.bias = solr->bias;
 
                 for (sv = 0, min = DBL_MAX, max = -DBL_MAX, i = 0; i < size; ++i) {
-                    if (points[i]->Alpha() > this->EPS * this->rate) {
+                    if (fabs(points[i]->Alpha()) > this->EPS * this->rate) {
                         sv++;
                         saved_alphas[i] = points[i]->Alpha();
                     }
@@ -668,7 +668,7 @@ namespace mltk{
 
             this->svs.clear();
             for (i = 0; i < size; ++i) {
-                if (points[i]->Alpha() > this->EPS * this->rate) { this->svs.push_back(i); }
+                if (fabs(points[i]->Alpha()) > this->EPS * this->rate) { this->svs.push_back(i); }
             }
 
             this->solution.norm = this->kernel->norm(*this->samples);
-- 
2.43.0


From 69e5756cb0132c4ba98e0f5d52138ad7a0c1fd2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:47 +0000
Subject: [PATCH 086/139] fix: dual fixed margin perceptron does not claim a
 margin from a norm lost to rounding

---
 .../ufjfmltk/classifier/Perceptron.hpp        | 21 ++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp
index 80c60ef..4992348 100755
--- a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp
+++ b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp
@@ -506,16 +506,23 @@ namespace mltk{
                 this->alpha.resize(this->samples->size());
             }
 
-            // computes the functional values and the norm from the multipliers
+            // computes the functional values and the norm from the multipliers,
+            // tells if the norm is more than the rounding of terms that cancel
             auto expand = [&] {
+                double magnitude = 0.0;
                 norm = 0.0;
                 for (size_t p = 0; p < size; ++p) {
                     func[p] = bias;
-                    for (size_t v = 0; v < size; ++v)
-                        func[p] += (*this->samples)[v]->Alpha() * (*this->samples)[v]->Y() * (*K)[p][v];
+                    for (size_t v = 0; v < size; ++v) {
+                        double term = (*this->samples)[v]->Alpha() * (*this->samples)[v]->Y() * (*K)[p][v];
+                        func[p] += term;
+                        magnitude += fabs((*this->samples)[p]->Alpha() * term);
+                    }
                     norm += (*this->samples)[p]->Alpha() * (*this->samples)[p]->Y() * (func[p] - bias);
                 }
+                bool reliable = norm > 1E-11 * magnitude;
                 norm = (norm > 0.0) ? sqrt(norm) : 0.0;
+                return reliable;
             };
 
             if (func.size() != size) {
@@ -565,10 +572,14 @@ namespace mltk{
                 //stop criterion
                 if (e == 0) {
                     // the updated values may have drifted away from the multipliers
-                    expand();
+                    bool reliable = expand();
                     for (r = 0; r < size; ++r)
                         if (!((*this->samples)[r]->Y() * func[r] - this->gamma * norm > 0)) ++e;
-                    if (e == 0) break;
+                    if (e == 0) {
+                        // no margin can be told from a norm lost to rounding
+                        if (this->gamma > 0 && !reliable) e = size;
+                        break;
+                    }
                 }
                 if (this->steps > this->MAX_IT) break;
                 if (this->ctot > this->MAX_UP) break;
-- 
2.43.0


From 2827796ef509004db26201d6d325a58066315025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:14 +0000
Subject: [PATCH 087/139] fix: SMO evaluates the objective at the upper end of
 the segment

---
 .../ufjfmltk-classifier/include/ufjfmltk/classifier/SMO.hpp     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/SMO.hpp b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/SMO.hpp
index f743972..4b8405e 100755
--- a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/SMO.hpp
+++ b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/SMO.hpp
@@ -316,7 +316,7 @@ namespace mltk{
                     double c1 = eta / 2.0;
                     double c2 = y2 * (e1 - e2) - eta * alpha2;
                     min_val_f = c1 * min_val * min_val + c2 * min_val;
-                    max_val_f = c1 * max_val * max_val + c2 * min_val;
+                    max_val_f = c1 * max_val * max_val + c2 * max_val;
 
                     if (min_val_f > max_val_f + this->EPS) new_alpha2 = min_val;
                     else if (min_val_f < max_val_f - this->EPS) new_alpha2 = max_val;
-- 
2.43.0


From 3f7fb29a374361cbde7f6acd9a64064cc5a087d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:14 +0000
Subject: [PATCH 088/139] fix: SMO does not take a multiplier at rounding
 distance of a bound for an interior one

---
 .../include/ufjfmltk/classifier/SMO.hpp                    | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/SMO.hpp b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/SMO.hpp
index 4b8405e..839994b 100755
--- a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/SMO.hpp
+++ b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/SMO.hpp
@@ -338,6 +338,13 @@ namespace mltk{
                     new_alpha2 += s * (new_alpha1 - this->C);
                     new_alpha1 = this->C;
                 }
+                /*a multiplier that only rounding keeps away from a bound is at the bound*/
+                const double eps = 1e-14 * (alpha1 + alpha2);
+                if (new_alpha1 < eps) new_alpha1 = 0;
+                else if (new_alpha1 > this->C - eps) new_alpha1 = this->C;
+                if (new_alpha2 < eps) new_alpha2 = 0;
+                else if (new_alpha2 > this->C - eps) new_alpha2 = this->C;
+
                 /*saving new alphas*/
                 (*this->samples)[i1]->Alpha() = new_alpha1;
                 (*this->samples)[i2]->Alpha() = new_alpha2;
-- 
2.43.0


From 26d80fd2a3eecdbb2304fe25a0bbab49e41e2415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:14 +0000
Subject: [PATCH 089/139] fix: SMO keeps the errors of the points whose
 multipliers a step changed

---
 .../ufjfmltk-classifier/include/ufjfmltk/classifier/SMO.hpp  | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/SMO.hpp b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/SMO.hpp
index 839994b..ca9fd2e 100755
--- a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/SMO.hpp
+++ b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/SMO.hpp
@@ -392,16 +392,13 @@ namespace mltk{
                 itr = this->head->next;
                 while (itr != nullptr) {
                     i = itr->index;
-                    if ((i != i1 && i != i2) && (*this->samples)[i]->Alpha() < C) {
+                    if ((*this->samples)[i]->Alpha() < C) {
                         this->l_data[i].error = function(i) - (*this->samples)[i]->Y();
                         error_tot += this->l_data[i].error;
                     }
                     itr = itr->next;
                 }
 
-                this->l_data[i1].error = 0.0;
-                this->l_data[i2].error = 0.0;
-
                 if (this->verbose > 1)
                     std::cout << "Total error= " << error_tot << ", alpha(" << i1 << ")= " << new_alpha1 << ", alpha(" << i2
                          << ")= " << new_alpha2 << std::endl;
-- 
2.43.0


From d4b1f9f27d18f1ccc5bbbc82520fd05b243d5f5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:21 +0000
Subject: [PATCH 090/139] fix: the bias of SMO satisfies the optimality
 conditions when multipliers end at their bounds

---
 .../include/ufjfmltk/classifier/SMO.hpp       | 29 +++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/SMO.hpp b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/SMO.hpp
index ca9fd2e..044f23c 100755
--- a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/SMO.hpp
+++ b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/SMO.hpp
@@ -18,6 +18,7 @@
 
 #include "DualClassifier.hpp"
 #include "int_dll.h"
+#include <limits>
 #include <list>
 
 namespace mltk{
@@ -57,6 +58,8 @@ namespace mltk{
 
                 bool training_routine();
 
+                void adjust_bias();
+
                 void test_learning();
 
                 int train_matrix(Kernel<T> *matrix);
@@ -462,6 +465,8 @@ namespace mltk{
                     ++epoch;
                 }
 
+                adjust_bias();
+
                 /*final verbose*/
                 if (this->verbose) {
                     test_learning();
@@ -471,6 +476,30 @@ namespace mltk{
                 return true;
             }
 
+            /**
+             * \brief When a step leaves both multipliers at bounds (or there are points of one class only), the
+             * bias of the last step need not satisfy the optimality conditions. They hold for the biases of the
+             * interval computed here.
+             */
+            template<typename T>
+            void SMO<T>::adjust_bias() {
+                double low = -std::numeric_limits<double>::infinity();
+                double high = std::numeric_limits<double>::infinity();
+
+                for (size_t i = 0; i < this->samples->size(); ++i) {
+                    double y = (*this->samples)[i]->Y(), alpha = (*this->samples)[i]->Alpha();
+                    double limit = y - (function(i) - this->solution.bias);
+
+                    if ((y > 0) ? alpha < this->C : alpha > 0) low = std::max(low, limit);
+                    if ((y > 0) ? alpha > 0 : alpha < this->C) high = std::min(high, limit);
+                }
+
+                if (this->solution.bias < low - this->TOL || this->solution.bias > high + this->TOL) {
+                    if (low > high) this->solution.bias = (low + high) / 2.0;
+                    else this->solution.bias = std::min(std::max(this->solution.bias, low), high);
+                }
+            }
+
             template<typename T>
             void SMO<T>::test_learning() {
                 size_t i = 0, size = this->samples->size();
-- 
2.43.0


From 8722eef5871689b7bf3d740453796584a2aa627c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:20 +0000
Subject: [PATCH 091/139] fix: SMO does not keep multipliers that are smaller
 than its shortest step

---
 .../ufjfmltk-classifier/include/ufjfmltk/classifier/SMO.hpp  | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/SMO.hpp b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/SMO.hpp
index 044f23c..5d16282 100755
--- a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/SMO.hpp
+++ b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/SMO.hpp
@@ -341,8 +341,9 @@ namespace mltk{
                     new_alpha2 += s * (new_alpha1 - this->C);
                     new_alpha1 = this->C;
                 }
-                /*a multiplier that only rounding keeps away from a bound is at the bound*/
-                const double eps = 1e-14 * (alpha1 + alpha2);
+                /*a multiplier that only rounding keeps away from a bound is at the bound (no later step is
+                  short enough to move a multiplier smaller than EPS * EPS)*/
+                const double eps = std::max(1e-14 * (alpha1 + alpha2), this->EPS * this->EPS);
                 if (new_alpha1 < eps) new_alpha1 = 0;
                 else if (new_alpha1 > this->C - eps) new_alpha1 = this->C;
                 if (new_alpha2 < eps) new_alpha2 = 0;
-- 
2.43.0


From 9117d98a4f3300daa35e01278a8ad2f57cd56d6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:48 +0000
Subject: [PATCH 092/139] fix: copies of SMO do not share the kernel they
 delete

---
 .../ufjfmltk-classifier/include/ufjfmltk/classifier/SMO.hpp  | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/SMO.hpp b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/SMO.hpp
index 5d16282..f5aad52 100755
--- a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/SMO.hpp
+++ b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/SMO.hpp
@@ -69,6 +69,11 @@ namespace mltk{
                 explicit SMO(const Data<T>& samples, KernelType kernel_type = KernelType::INNER_PRODUCT,
                              double param = 0, int verbose = 0);
 
+                /// Copies the configuration: the kernel and the working lists belong to one learner.
+                SMO(const SMO<T>& smo): Learner<T>(smo), Classifier<T>(smo), DualClassifier<T>(smo), param(smo.param) {
+                    this->kernel = nullptr;
+                }
+
                 bool train() override;
 
                 ~SMO();
-- 
2.43.0


From 52cf22ca496aef4711c8ef11354c748ae5232d0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:17 +0000
Subject: [PATCH 093/139] fix: multi-class wrappers can be trained on samples
 with another number of classes

---
 .../include/ufjfmltk/classifier/OneVsAll.hpp  | 26 +++++----
 .../include/ufjfmltk/classifier/OneVsOne.hpp  | 53 ++++++++-----------
 2 files changed, 39 insertions(+), 40 deletions(-)

diff --git a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/OneVsAll.hpp b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/OneVsAll.hpp
index c0b425e..9de599b 100755
--- a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/OneVsAll.hpp
+++ b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/OneVsAll.hpp
@@ -5,6 +5,7 @@
 #ifndef UFJF_MLTK_ONEVSALL_HPP
 #define UFJF_MLTK_ONEVSALL_HPP
 
+#include <functional>
 #include "PrimalClassifier.hpp"
 #include "DualClassifier.hpp"
 #include "ufjfmltk/core/Sampling.hpp"
@@ -20,9 +21,17 @@ namespace mltk{
                 using LearnerPointer = std::shared_ptr<Learner<T> >;
 
                 /// Over sampling method (optional)
-                OverSampling<T> *samp_method;
+                OverSampling<T> *samp_method = nullptr;
                 /// Vector of binary base m_learners
                 std::vector<LearnerPointer> base_learners;
+                /// Makes a base learner with the parameters of the given classifier
+                std::function<LearnerPointer()> make_learner;
+
+                // initialize the base m_learners
+                void initLearners(size_t n_classes) {
+                    base_learners.resize(n_classes);
+                    for (auto &learner: base_learners) learner = make_learner();
+                }
 
             public:
                 OneVsAll() = default;
@@ -33,14 +42,10 @@ namespace mltk{
                     this->samples = mltk::make_data<double>(samples);
                     this->samp_method = samp_method;
 
-                    // initialize the base m_learners if samples were given
-                    if (this->samples && base_learners.size() == 0) {
-                        base_learners.resize(this->samples->classes().size());
-                        for (size_t i = 0; i < this->samples->classes().size(); ++i) {
-                            // copy the parameters of the given classifier
-                            base_learners[i] = std::make_shared<ClassifierType<T> >(classifier);
-                        }
-                    }
+                    // copy the parameters of the given classifier
+                    auto prototype = std::make_shared<ClassifierType<T> >(classifier);
+                    this->make_learner = [prototype] { return std::make_shared<ClassifierType<T> >(*prototype); };
+                    this->initLearners(this->samples->classes().size());
                 }
 
                 bool train() override;
@@ -56,6 +61,9 @@ namespace mltk{
                 auto classes = this->samples->classes();
                 size_t current_class = 0, j, n_classes = classes.size(), size = this->samples->size();
 
+                // the samples may have been replaced by samples with another number of classes
+                if (base_learners.size() != n_classes) initLearners(n_classes);
+
                 // iterate over each base learner
                 for (auto &learner: base_learners) {
                     Data<T> temp_samples;
diff --git a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/OneVsOne.hpp b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/OneVsOne.hpp
index 804611a..a360578 100755
--- a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/OneVsOne.hpp
+++ b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/OneVsOne.hpp
@@ -6,6 +6,7 @@
 #define UFJF_MLTK_ONEVSONE_HPP
 #pragma once
 
+#include <functional>
 #include "PrimalClassifier.hpp"
 #include "DualClassifier.hpp"
 #include "ufjfmltk/core/Sampling.hpp"
@@ -22,7 +23,18 @@ namespace mltk{
             /// Matrix of binary base m_learners
             std::vector<std::vector<LearnerPointer> > base_learners;
             /// Over sampling method used during training (optional)
-            OverSampling<T> *samp_method;
+            OverSampling<T> *samp_method = nullptr;
+            /// Makes a base learner with the parameters of the given classifier
+            std::function<LearnerPointer()> make_learner;
+
+            // initialize the m_learners matrix
+            void initLearners(size_t n_classes) {
+                base_learners.assign(n_classes, std::vector<LearnerPointer>(n_classes));
+
+                for (size_t i = 0; i < n_classes; ++i)
+                    for (size_t j = 0; j < n_classes; ++j)
+                        if (i != j) base_learners[i][j] = make_learner();
+            }
 
         public:
             OneVsOne() = default;
@@ -34,21 +46,9 @@ namespace mltk{
                 this->verbose = _verbose;
                 this->samp_method = samp_method;
 
-                auto classes = this->samples->classes();
-                // initialize the m_learners matrix is samples were given
-                if (base_learners.size() == 0) {
-                    base_learners.resize(classes.size());
-
-                    for (size_t i = 0; i < classes.size(); ++i) {
-                        base_learners[i].resize(classes.size());
-
-                        for (size_t j = 0; j < base_learners[i].size(); ++j) {
-                            if (classes[i] != classes[j]) {
-                                base_learners[i][j] = std::make_shared<ClassifierType<T> >(classifier);
-                            }
-                        }
-                    }
-                }
+                auto prototype = std::make_shared<ClassifierType<T> >(classifier);
+                this->make_learner = [prototype] { return std::make_shared<ClassifierType<T> >(*prototype); };
+                this->initLearners(this->samples->classes().size());
             }
 
             template<template<typename> class ClassifierType>
@@ -58,21 +58,9 @@ namespace mltk{
                 this->verbose = _verbose;
                 this->samp_method = samp_method;
 
-                auto classes = this->samples->classes();
-                // initialize the m_learners matrix is samples were given
-                if (base_learners.size() == 0) {
-                    base_learners.resize(classes.size());
-
-                    for (size_t i = 0; i < classes.size(); ++i) {
-                        base_learners[i].resize(classes.size());
-
-                        for (size_t j = 0; j < base_learners[i].size(); ++j) {
-                            if (classes[i] != classes[j]) {
-                                base_learners[i][j] = std::make_shared<ClassifierType<T> >(classifier);
-                            }
-                        }
-                    }
-                }
+                auto prototype = std::make_shared<ClassifierType<T> >(classifier);
+                this->make_learner = [prototype] { return std::make_shared<ClassifierType<T> >(*prototype); };
+                this->initLearners(this->samples->classes().size());
             }
 
             bool train() override;
@@ -87,6 +75,9 @@ namespace mltk{
             auto classes = this->samples->classes();
             size_t n_classes = classes.size();
 
+            // the samples may have been replaced by samples with another number of classes
+            if (base_learners.size() != n_classes) initLearners(n_classes);
+
             for (size_t i = 0; i < n_classes; ++i) {
                 for (size_t j = 0; j < n_classes; ++j) {
                     if (classes[i] != classes[j]) {
-- 
2.43.0


From bbe794630a0aa3a0fb3fd05ec91cad52c4a97092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:31 +0000
Subject: [PATCH 094/139] fix: multi-class wrappers compute the kernel matrix
 of each binary problem

---
 .../include/ufjfmltk/classifier/OneVsAll.hpp                    | 2 ++
 .../include/ufjfmltk/classifier/OneVsOne.hpp                    | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/OneVsAll.hpp b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/OneVsAll.hpp
index 9de599b..d4441b2 100755
--- a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/OneVsAll.hpp
+++ b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/OneVsAll.hpp
@@ -83,6 +83,8 @@ namespace mltk{
 
                     // train the current learner
                     learner->setSamples(temp_samples);
+                    // the kernel matrix of a dual learner belongs to its previous samples
+                    if (auto dual = std::dynamic_pointer_cast<DualClassifier<T> >(learner)) dual->recomputeKernel();
                     learner->train();
 
                     // consider the next class
diff --git a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/OneVsOne.hpp b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/OneVsOne.hpp
index a360578..0e923bc 100755
--- a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/OneVsOne.hpp
+++ b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/OneVsOne.hpp
@@ -101,6 +101,8 @@ namespace mltk{
 
                         // train the current binary learner
                         learner->setSamples(temp_samples);
+                        // the kernel matrix of a dual learner belongs to its previous samples
+                        if (auto dual = std::dynamic_pointer_cast<DualClassifier<T> >(learner)) dual->recomputeKernel();
                         learner->train();
                     }
                 }
-- 
2.43.0


From 67915755828879d76c044e365d4c6b7439216f5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:00 +0000
Subject: [PATCH 095/139] fix: k-means draws its initial centers from the
 points that exist

---
 .../include/ufjfmltk/clusterer/KMeans.hpp                   | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/subprojects/ufjfmltk-clusterer/include/ufjfmltk/clusterer/KMeans.hpp b/subprojects/ufjfmltk-clusterer/include/ufjfmltk/clusterer/KMeans.hpp
index b4f68b7..d2db676 100755
--- a/subprojects/ufjfmltk-clusterer/include/ufjfmltk/clusterer/KMeans.hpp
+++ b/subprojects/ufjfmltk-clusterer/include/ufjfmltk/clusterer/KMeans.hpp
@@ -104,7 +104,7 @@ namespace mltk{
 
                     // generate the ids of the centers in the dataset using the random number generator function
                     std::generate(centers_ids.begin(), centers_ids.end(), [&size](){
-                        return mltk::random::intInRange(0, int(size));
+                        return mltk::random::intInRange(0, int(size) - 1);
                     });
                     // get the values from the dataset for the centers
                     std::transform(centers_ids.begin(), centers_ids.end(), this->m_centers.begin(),
@@ -113,7 +113,7 @@ namespace mltk{
                                    });
                 } else if (initialization == "kmeanspp") {
                     // choose the first center randomly
-                    this->m_centers[0] = points[mltk::random::intInRange(0, int(size))]->X();
+                    this->m_centers[0] = points[mltk::random::intInRange(0, int(size) - 1)]->X();
                     // choose the next cluster in points with a probability directly proportional to the metrics from the
                     // last chosen cluster.
                     for (size_t i = 1; i < this->m_centers.size(); i++) {
@@ -132,7 +132,7 @@ namespace mltk{
                         // use the distances as a probability distribution
                         std::discrete_distribution<size_t> _dist(distances.begin(), distances.end());
                         // generate the id for the next cluster
-                        size_t center = mltk::random::intInRange(0, int(size));
+                        size_t center = mltk::random::intInRange(0, int(size) - 1);
                         this->m_centers[i] = points[center]->X();
                     }
                 }
-- 
2.43.0


From ecc48b18dd6252249e918c8d875a4196618b7147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:00 +0000
Subject: [PATCH 096/139] fix: the centers of k-means are the means of their
 clusters

---
 .../include/ufjfmltk/clusterer/KMeans.hpp         | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/subprojects/ufjfmltk-clusterer/include/ufjfmltk/clusterer/KMeans.hpp b/subprojects/ufjfmltk-clusterer/include/ufjfmltk/clusterer/KMeans.hpp
index d2db676..051e7dd 100755
--- a/subprojects/ufjfmltk-clusterer/include/ufjfmltk/clusterer/KMeans.hpp
+++ b/subprojects/ufjfmltk-clusterer/include/ufjfmltk/clusterer/KMeans.hpp
@@ -76,16 +76,17 @@ namespace mltk{
             void KMeans<T, Callable>::compute_centers(){
                 int i = 0;
                 std::for_each(this->m_clusters.begin(), this->m_clusters.end(), [&](const auto& cluster){
-                    for(const size_t id: cluster){
-                        this->m_centers[i] += *this->samples->point(id);
+                    // the center of a cluster without points stays where it is
+                    if(cluster.size() > 0){
+                        Point<T> center(std::vector<T>(this->samples->dim(), 0));
+                        for(const size_t id: cluster){
+                            center += *this->samples->point(id);
+                        }
+                        center /= cluster.size();
+                        this->m_centers[i] = center;
                     }
                     i++;
                 });
-                i = 0;
-                std::for_each(this->m_centers.begin(), this->m_centers.end(), [&](auto& center){
-                   center /= this->m_clusters[i].size();
-                   i++;
-                });
             }
 
             template<typename T, typename Callable>
-- 
2.43.0


From de3fa07ca78c9f1343ea836e8252e3832a88086e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:01 +0000
Subject: [PATCH 097/139] fix: the clusters of k-means contain each point once
 however often they are computed

---
 .../include/ufjfmltk/clusterer/KMeans.hpp                   | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/subprojects/ufjfmltk-clusterer/include/ufjfmltk/clusterer/KMeans.hpp b/subprojects/ufjfmltk-clusterer/include/ufjfmltk/clusterer/KMeans.hpp
index 051e7dd..fc605a2 100755
--- a/subprojects/ufjfmltk-clusterer/include/ufjfmltk/clusterer/KMeans.hpp
+++ b/subprojects/ufjfmltk-clusterer/include/ufjfmltk/clusterer/KMeans.hpp
@@ -60,6 +60,9 @@ namespace mltk{
                 double sum_d = 0;
                 double cost = 0.0;
 
+                for(auto& cluster: this->m_clusters){
+                    cluster.clear();
+                }
                 std::for_each(points.begin(), points.end(), [&](const std::shared_ptr<Point<T> > q){
                     std::vector<double> distances(this->m_centers.size(), 0.0);
                     std::transform(this->m_centers.begin(), this->m_centers.end(), distances.begin(), [&](const Point<T>& center){
@@ -161,9 +164,6 @@ namespace mltk{
                     }
                     if (time - this->timer.elapsed() <= 0) break;
                     has_converged = fabs(cost - old_cost) <= this->EPS;
-                    for(auto& cluster: this->m_clusters){
-                        cluster.clear();
-                    }
                 } while (!has_converged);
 
                 return true;
-- 
2.43.0


From cb1a6e55d14491f1c7eab7f34ca3c2f0e62b92b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:01 +0000
Subject: [PATCH 098/139] fix: the clusters of k-means hold positions of
 points, not identifiers

---
 .../include/ufjfmltk/clusterer/KMeans.hpp                   | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/subprojects/ufjfmltk-clusterer/include/ufjfmltk/clusterer/KMeans.hpp b/subprojects/ufjfmltk-clusterer/include/ufjfmltk/clusterer/KMeans.hpp
index fc605a2..93461e5 100755
--- a/subprojects/ufjfmltk-clusterer/include/ufjfmltk/clusterer/KMeans.hpp
+++ b/subprojects/ufjfmltk-clusterer/include/ufjfmltk/clusterer/KMeans.hpp
@@ -57,7 +57,7 @@ namespace mltk{
 
             template<typename T, typename Callable>
             double KMeans<T, Callable>::assign_clusters(const std::vector<mltk::PointPointer<T>>& points) {
-                double sum_d = 0;
+                size_t position = 0;
                 double cost = 0.0;
 
                 for(auto& cluster: this->m_clusters){
@@ -69,7 +69,7 @@ namespace mltk{
                         return this->dist_function(*q, center);
                     });
                     size_t cluster_id = std::min_element(distances.begin(), distances.end()) - distances.begin();
-                    this->m_clusters[cluster_id].X().push_back(q->Id()-1);
+                    this->m_clusters[cluster_id].X().push_back(position++);
                     cost += distances[cluster_id] * distances[cluster_id];
                 });
                 return cost;
@@ -151,7 +151,7 @@ namespace mltk{
                     old_cost = cost;
                     has_converged = true;
                     // assign each point to the nearest cluster
-                    cost = assign_clusters(points);
+                    cost = assign_clusters(this->samples->points());
                     // update the centers of the clusters
                     compute_centers();
 
-- 
2.43.0


From 9ade0cccec67617c68665519964a69446aaf4eb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:45 +0000
Subject: [PATCH 099/139] fix: k-means uses the metric it is given

---
 .../ufjfmltk-clusterer/include/ufjfmltk/clusterer/KMeans.hpp  | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/subprojects/ufjfmltk-clusterer/include/ufjfmltk/clusterer/KMeans.hpp b/subprojects/ufjfmltk-clusterer/include/ufjfmltk/clusterer/KMeans.hpp
index 93461e5..727e45c 100755
--- a/subprojects/ufjfmltk-clusterer/include/ufjfmltk/clusterer/KMeans.hpp
+++ b/subprojects/ufjfmltk-clusterer/include/ufjfmltk/clusterer/KMeans.hpp
@@ -19,7 +19,7 @@ namespace mltk{
              * \brief Wrapper for the implementation of the K-Means clustering algorithm.
              */
             template<typename T = double, typename Callable = metrics::dist::Euclidean<T> >
-            class KMeans : public Clusterer<T> {
+            class KMeans : public Clusterer<T, Callable> {
             private:
                 /// Algorithm used for the initialization of the K-Means algorithm
                 std::string initialization;
@@ -48,7 +48,7 @@ namespace mltk{
             template<typename T, typename Callable>
             KMeans<T, Callable>::KMeans(const mltk::Data<T>& samples, size_t k, std::string initialization, size_t seed,
                                         int verbose)
-                    : Clusterer<T>(mltk::make_data<T>(samples), k), initialization(std::move(initialization)){
+                    : Clusterer<T, Callable>(mltk::make_data<T>(samples), k), initialization(std::move(initialization)){
                 this->m_centers.assign(this->n_clusters, std::vector<T>(this->samples->dim(), 0.0));
                 this->m_clusters.assign(this->n_clusters, std::vector<size_t>());
                 this->verbose = verbose;
-- 
2.43.0


From ff8f5129f65ccca93def8e35b64fd5cc7bf9280f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:33 +0000
Subject: [PATCH 100/139] fix: k-means++ draws its next center by the distance
 from the last one

---
 .../include/ufjfmltk/clusterer/KMeans.hpp           | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/subprojects/ufjfmltk-clusterer/include/ufjfmltk/clusterer/KMeans.hpp b/subprojects/ufjfmltk-clusterer/include/ufjfmltk/clusterer/KMeans.hpp
index 727e45c..f5bd728 100755
--- a/subprojects/ufjfmltk-clusterer/include/ufjfmltk/clusterer/KMeans.hpp
+++ b/subprojects/ufjfmltk-clusterer/include/ufjfmltk/clusterer/KMeans.hpp
@@ -130,13 +130,16 @@ namespace mltk{
                                            sum_d += d;
                                            return d;
                                        });
-                        for (double &distance : distances) {
-                            distance /= sum_d;
-                        }
-                        // use the distances as a probability distribution
-                        std::discrete_distribution<size_t> _dist(distances.begin(), distances.end());
                         // generate the id for the next cluster
                         size_t center = mltk::random::intInRange(0, int(size) - 1);
+                        if (sum_d > 0) {
+                            for (double &distance : distances) {
+                                distance /= sum_d;
+                            }
+                            // use the distances as a probability distribution
+                            std::discrete_distribution<size_t> _dist(distances.begin(), distances.end());
+                            center = _dist(mltk::random::m_generator);
+                        }
                         this->m_centers[i] = points[center]->X();
                     }
                 }
-- 
2.43.0


From 3da1c60b7ffac4682500627eb214ff051ac5a5a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:34 +0000
Subject: [PATCH 101/139] fix: seeding the random generator always restarts its
 sequence

---
 subprojects/ufjfmltk-core/src/Datasets.cpp | 22 +++++++++++++++++-----
 subprojects/ufjfmltk-core/src/Random.cpp   |  9 +++------
 2 files changed, 20 insertions(+), 11 deletions(-)

diff --git a/subprojects/ufjfmltk-core/src/Datasets.cpp b/subprojects/ufjfmltk-core/src/Datasets.cpp
index c26fe0f..2852994 100755
--- a/subprojects/ufjfmltk-core/src/Datasets.cpp
+++ b/subprojects/ufjfmltk-core/src/Datasets.cpp
@@ -5,6 +5,18 @@
 #include "ufjfmltk/core/Datasets.hpp"
 
 namespace mltk::datasets {
+    /// draws a point from the random generator, without seeding it again
+    template <typename Distribution = std::uniform_real_distribution<double> >
+    static mltk::Point<double> random_point(size_t size, double val1 = 0.0, double val2 = 1.0) {
+        mltk::Point<double> p(size);
+
+        for (size_t i = 0; i < size; i++) {
+            p[i] = mltk::random::floatInRange<double, Distribution>(val1, val2);
+        }
+        p.Y() = 0;
+        return p;
+    }
+
     mltk::Data<double> make_spirals(size_t n_samples, int n_classes, bool shuffle, double noise, size_t n_loops,
                                     double margin, size_t seed) {
         mltk::random::init(seed);
@@ -13,12 +25,12 @@ namespace mltk::datasets {
 
         dataset.setName("spirals");
 
-        mltk::Point<> theta = mltk::random_init<double>(samples_byclass, seed) * n_loops * 360.0 * M_PI / 180.0;
+        mltk::Point<> theta = random_point(samples_byclass) * n_loops * 360.0 * M_PI / 180.0;
         mltk::Point<> r = theta * margin * n_classes;
         for (int i = 0; i < n_classes; i++) {
             mltk::Point<> rotated_theta = theta + i * 2.0 * M_PI / n_classes;
-            mltk::Point<> x1 = r * mltk::cos(rotated_theta) + mltk::random_init<double>(samples_byclass, seed) * noise;
-            mltk::Point<> x2 = r * mltk::sin(rotated_theta) + mltk::random_init<double>(samples_byclass, seed) * noise;
+            mltk::Point<> x1 = r * mltk::cos(rotated_theta) + random_point(samples_byclass) * noise;
+            mltk::Point<> x2 = r * mltk::sin(rotated_theta) + random_point(samples_byclass) * noise;
 
             for (size_t j = 0; j < samples_byclass; j++) {
                 auto point = mltk::Point<double>({x1[j], x2[j]});
@@ -114,8 +126,8 @@ namespace mltk::datasets {
         RegPair pair;
         mltk::Point<double> ground_truth(n_dims, 0.0), y(n_samples);
         n_informative = std::min(n_dims, n_informative);
-        auto random_init = [&n_dims, seed](const mltk::PointPointer<double> &point) {
-            *point = mltk::random_init<double, std::normal_distribution<double>>(0, 1, n_dims, seed);
+        auto random_init = [&n_dims](const mltk::PointPointer<double> &point) {
+            *point = random_point<std::normal_distribution<double>>(n_dims);
         };
 
         dataset.apply(random_init);
diff --git a/subprojects/ufjfmltk-core/src/Random.cpp b/subprojects/ufjfmltk-core/src/Random.cpp
index 0498a7a..60d032a 100755
--- a/subprojects/ufjfmltk-core/src/Random.cpp
+++ b/subprojects/ufjfmltk-core/src/Random.cpp
@@ -10,12 +10,9 @@ namespace mltk::random {
     std::mt19937 m_generator{std::random_device{}()};
 
     size_t  init(unsigned int seed) {
-        if(seed != seed_param){
-            m_generator.discard(std::mt19937::state_size);
-            seed_param = seed;
-            m_seed = (seed == 0)?std::random_device {} (): seed;
-            m_generator.seed(m_seed);
-        }
+        seed_param = seed;
+        m_seed = (seed == 0)?std::random_device {} (): seed;
+        m_generator.seed(m_seed);
         return m_seed;
     }
 
-- 
2.43.0


From 540273a99b19b8da38b287a9bfe1f5a9ab38ba9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:28 +0000
Subject: [PATCH 102/139] fix: oversampling can be used with every metric

---
 .../ufjfmltk-core/include/ufjfmltk/core/Sampling.hpp        | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Sampling.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Sampling.hpp
index ec274b3..feab151 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Sampling.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Sampling.hpp
@@ -131,7 +131,7 @@ namespace mltk{
 
     public:
         explicit SMOTE(size_t k = 1, double r = 0.1, size_t seed = 0, Callable dist_metric = Callable())
-        : k(k), r(r), seed(seed), OverSampling<T>(dist_metric) {}
+        : k(k), r(r), seed(seed), OverSampling<T, Callable>(dist_metric) {}
 
         Data< T > operator()(Data< T > &data) override {
             std::random_device rd;
@@ -221,7 +221,7 @@ namespace mltk{
         
     public:
         explicit BorderlineSMOTEOne(size_t k = 1, double r = 0.1, size_t m = 1, size_t seed = 0, Callable dist_metric = Callable())
-        : k(k), r(r), m(m), seed(seed), OverSampling<T>(dist_metric) {}
+        : k(k), r(r), m(m), seed(seed), OverSampling<T, Callable>(dist_metric) {}
 
         Data< T > operator()(Data< T > &data) override {
             // Find the majority class
@@ -278,7 +278,7 @@ namespace mltk{
 
             // apply SMOTE algorithm to the danger subset
             if(danger_subset.size() > 0){
-                SMOTE< T > smote(k, r, seed);
+                SMOTE< T, Callable > smote(k, r, seed, this->distance_metric);
                 smote(danger_subset);
             }
 
-- 
2.43.0


From e19c0f5a8c46b7ad7a83ce9028a90bf7fbbbdb56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:28 +0000
Subject: [PATCH 103/139] fix: SMOTE interpolates between a minority point and
 its neighbors in the minority class

---
 subprojects/ufjfmltk-core/include/ufjfmltk/core/Sampling.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Sampling.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Sampling.hpp
index feab151..1b70f48 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Sampling.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Sampling.hpp
@@ -179,7 +179,7 @@ namespace mltk{
 
                 // get the k neighbors
                 for(size_t i = 0; (i < k) && (i < distance.size()); i++){
-                    k_neighbors[i] = data[distance[i].first-1];
+                    k_neighbors[i] = Z[distance[i].first-1];
                 }
 
                 // create the artificial points and insert them to the dataset
@@ -189,7 +189,7 @@ namespace mltk{
                     Point< T > s(_z.size(), 0.0, 0);
                     double alpha = distribution(generator);
                     
-                    s = _z + alpha * (_z - _k);
+                    s = _z + alpha * (_k - _z);
                     s.Y() = min_class;
 
                     artificial_data.push_back(mltk::make_point< T >(s));
-- 
2.43.0


From 400227e89e13caccc7f122cfd5233f24376f75e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:12 +0000
Subject: [PATCH 104/139] fix: Borderline SMOTE adds points interpolated around
 the minority points in danger

---
 .../include/ufjfmltk/core/Sampling.hpp        | 124 +++++++++---------
 1 file changed, 65 insertions(+), 59 deletions(-)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Sampling.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Sampling.hpp
index 1b70f48..dbe8f0f 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Sampling.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Sampling.hpp
@@ -110,6 +110,53 @@ namespace mltk{
     class  OverSampling{
     protected:
         Callable distance_metric;
+
+        /// Create artificial points between a point and its k nearest neighbors in Z, all with the label of the point
+        void interpolate(Data< T > &Z, const Point< T > &_z, size_t k, std::mt19937 &generator,
+                         std::vector<SamplePointer< T > > &artificial_data) {
+            std::uniform_real_distribution<double> distribution(0.0,1.0);
+            std::vector<std::pair<size_t, double> > distance(Z.size());
+            std::vector<SamplePointer< T > > k_neighbors(k);
+            size_t id = 0;
+
+            // compute the metrics from a point to the rest
+            std::transform(Z.begin(), Z.end(), distance.begin(), [this, &_z, &id](auto p){
+                id++;
+                return std::make_pair(id, this->distance_metric(_z, *p));
+            });
+
+            // sort the distances in increasing metrics order
+            std::sort(distance.begin(), distance.end(), [](auto &d1, auto &d2){
+                return d1.second < d2.second;
+            });
+
+            // remove points with equal metrics or duplicate ids
+            distance.erase(std::unique(distance.begin(), distance.end(), [](auto &d1, auto &d2){
+                return (d1.second == d2.second) || ((d1.first == d2.first));
+            }), distance.end());
+
+            distance.erase(std::remove_if(distance.begin(), distance.end(), [](auto &d){
+                return d.second == 0;
+            }), distance.end());
+
+            // get the k neighbors
+            for(size_t i = 0; (i < k) && (i < distance.size()); i++){
+                k_neighbors[i] = Z[distance[i].first-1];
+            }
+
+            // create the artificial points and insert them to the dataset
+            for(auto p = k_neighbors.begin(); p != k_neighbors.end(); p++){
+                if(!*p) continue;
+                auto _k = *(*p);
+                Point< T > s(_z.size(), 0.0, 0);
+                double alpha = distribution(generator);
+                
+                s = _z + alpha * (_k - _z);
+                s.Y() = _z.Y();
+
+                artificial_data.push_back(mltk::make_point< T >(s));
+            }
+        }
     public:
         OverSampling()=default;
         explicit OverSampling(Callable dist_metric): distance_metric(dist_metric) {}
@@ -137,7 +184,6 @@ namespace mltk{
             std::random_device rd;
             seed = (seed > 0)?seed:rd();
             std::mt19937 generator(seed);
-            std::uniform_real_distribution<double> distribution(0.0,1.0); 
             // number of generated artificial points
             size_t n_apoints = r * data.size();
             // find the minority class
@@ -152,48 +198,7 @@ namespace mltk{
             
             // iterate through all the elements from the Z set
             for(auto z = Z.begin(); z != Z.end(); ++z){
-                std::vector<std::pair<size_t, double> > distance(Z.size());
-                std::vector<SamplePointer< T > > k_neighbors(k);
-                size_t id = 0;
-                auto _z = *(*z);
-
-                // compute the metrics from a point to the rest
-                std::transform(Z.begin(), Z.end(), distance.begin(), [this, &_z, &id](auto p){
-                    id++;
-                    return std::make_pair(id, this->distance_metric(_z, *p));
-                });
-
-                // sort the distances in increasing metrics order
-                std::sort(distance.begin(), distance.end(), [](auto &d1, auto &d2){
-                    return d1.second < d2.second;
-                });
-
-                // remove points with equal metrics or duplicate ids
-                distance.erase(std::unique(distance.begin(), distance.end(), [](auto &d1, auto &d2){
-                    return (d1.second == d2.second) || ((d1.first == d2.first));
-                }), distance.end());
-
-                distance.erase(std::remove_if(distance.begin(), distance.end(), [](auto &d){
-                    return d.second == 0;
-                }), distance.end());
-
-                // get the k neighbors
-                for(size_t i = 0; (i < k) && (i < distance.size()); i++){
-                    k_neighbors[i] = Z[distance[i].first-1];
-                }
-
-                // create the artificial points and insert them to the dataset
-                for(auto p = k_neighbors.begin(); p != k_neighbors.end(); p++){
-                    if(!*p) continue;
-                    auto _k = *(*p);
-                    Point< T > s(_z.size(), 0.0, 0);
-                    double alpha = distribution(generator);
-                    
-                    s = _z + alpha * (_k - _z);
-                    s.Y() = min_class;
-
-                    artificial_data.push_back(mltk::make_point< T >(s));
-                }
+                this->interpolate(Z, *(*z), k, generator, artificial_data);
             }
 
             std::shuffle(artificial_data.begin(), artificial_data.end(), std::default_random_engine(seed));
@@ -229,16 +234,18 @@ namespace mltk{
             auto class_distribution = data.classesDistribution();
             int maj_class = classes[std::max_element(class_distribution.begin(), class_distribution.end()) - class_distribution.begin()];
             // Initialize the danger subset
-            Data< T > danger_subset;
-            std::set<size_t> danger_ids;
+            std::vector<SamplePointer< T > > danger_subset;
 
             // iterate through all the elements from the Z set
             for(auto z = data.begin(); z != data.end(); ++z){
                 std::vector<std::pair<size_t, double> > distance(data.size());
-                std::vector<SamplePointer< T > > M(m);
+                std::vector<SamplePointer< T > > M;
                 size_t id = 0;
                 auto _z = (*z);
 
+                // only the points outside of the majority class are in danger
+                if(_z->Y() == maj_class) continue;
+
                 // compute the euclidean metrics from a point to the rest
                 std::transform(data.begin(), data.end(), distance.begin(), [this, &_z, &id](auto p){
                     id++;
@@ -261,7 +268,7 @@ namespace mltk{
 
                 // get the m neighbors
                 for(size_t i = 0; (i < m) && (i < distance.size()); i++){
-                    M[i] = data[distance[i].first-1];
+                    M.push_back(data[distance[i].first-1]);
                 }
                 
                 // set m' as the number of points on the majority class set on m neighbors
@@ -271,23 +278,22 @@ namespace mltk{
                 
                 // insert the point to the danger subset if m/2 <= m' < m
                 if(m_ >= (m/2) && m_ < m){
-                    danger_ids.insert(_z->Id());
-                    danger_subset.insertPoint(_z);
+                    danger_subset.push_back(_z);
                 }
             }
 
-            // apply SMOTE algorithm to the danger subset
-            if(danger_subset.size() > 0){
-                SMOTE< T, Callable > smote(k, r, seed, this->distance_metric);
-                smote(danger_subset);
+            // interpolate between the points in danger and their neighbors in the same class
+            std::mt19937 generator((seed > 0) ? seed : std::random_device()());
+            std::vector<SamplePointer< T > > artificial_data;
+            for(auto &p: danger_subset){
+                Data< T > Z;
+                std::vector<int> class_copy = {int(p->Y())};
+                Z.classesCopy(data, class_copy);
+                this->interpolate(Z, *p, k, generator, artificial_data);
             }
 
-            for(auto p = danger_subset.begin(); p != danger_subset.end(); p++){
-                auto _p = (*p);
-
-                if(danger_ids.find(_p->Id()) != danger_ids.end()){
-                    data.insertPoint(_p);
-                }
+            for(auto &p: artificial_data){
+                data.insertPoint(p);
             }
 
             return data;
-- 
2.43.0


From 3b674f4faa29ac4af676cfc882baf00b3ef22b51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:12 +0000
Subject: [PATCH 105/139] fix: each blob has its own number of points

---
 subprojects/ufjfmltk-core/src/Datasets.cpp | 32 ++++++++++------------
 1 file changed, 15 insertions(+), 17 deletions(-)

diff --git a/subprojects/ufjfmltk-core/src/Datasets.cpp b/subprojects/ufjfmltk-core/src/Datasets.cpp
index 2852994..cd43817 100755
--- a/subprojects/ufjfmltk-core/src/Datasets.cpp
+++ b/subprojects/ufjfmltk-core/src/Datasets.cpp
@@ -59,7 +59,7 @@ namespace mltk::datasets {
                          double center_max, bool shuffle, const bool has_classes, const size_t seed) {
         mltk::random::init(seed);
         std::vector<mltk::Point<>> centers(n_centers, mltk::Point<>(n_dims, 0.0));
-        std::vector<size_t> samples_per_center(n_centers, std::floor(n_samples / n_centers));
+        std::vector<size_t> samples_per_center(n_centers, n_samples);
         std::vector<double> clusters_std(n_centers, cluster_std);
 
         std::for_each(centers.begin(), centers.end(), [&center_min, &center_max](auto &center) {
@@ -81,24 +81,22 @@ namespace mltk::datasets {
         if(has_classes) dataset.setType("Classification");
         else dataset.setType("Clustering");
 
-        for (const auto &n: n_samples) {
-            for (int c = 0; c < centers.size(); c++) {
-                auto center = centers[c];
-                for (int i = 0; i < n; i++) {
-                    mltk::Point<double> p(n_dims, 0.0);
-                    for (int j = 0; j < n_dims; j++) {
-                        p[j] = mltk::random::floatInRange<double, std::normal_distribution<double>>(center[j],
-                                                                                                    clusters_std[c]);
-                    }
-                    if(has_classes) {
-                        if (centers.size() == 2) {
-                            p.Y() = (c == 0) ? -1 : 1;
-                        } else {
-                            p.Y() = c + 1;
-                        }
+        for (int c = 0; c < centers.size(); c++) {
+            auto center = centers[c];
+            for (int i = 0; i < n_samples[c]; i++) {
+                mltk::Point<double> p(n_dims, 0.0);
+                for (int j = 0; j < n_dims; j++) {
+                    p[j] = mltk::random::floatInRange<double, std::normal_distribution<double>>(center[j],
+                                                                                                clusters_std[c]);
+                }
+                if(has_classes) {
+                    if (centers.size() == 2) {
+                        p.Y() = (c == 0) ? -1 : 1;
+                    } else {
+                        p.Y() = c + 1;
                     }
-                    dataset.insertPoint(p);
                 }
+                dataset.insertPoint(p);
             }
         }
         if (shuffle) dataset.shuffle(seed);
-- 
2.43.0


From ac8743f09bde558fbb35d910b015ed1e32669d74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:29 +0000
Subject: [PATCH 106/139] fix: the spirals have the requested number of points

---
 subprojects/ufjfmltk-core/src/Datasets.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/subprojects/ufjfmltk-core/src/Datasets.cpp b/subprojects/ufjfmltk-core/src/Datasets.cpp
index cd43817..5677a60 100755
--- a/subprojects/ufjfmltk-core/src/Datasets.cpp
+++ b/subprojects/ufjfmltk-core/src/Datasets.cpp
@@ -20,7 +20,7 @@ namespace mltk::datasets {
     mltk::Data<double> make_spirals(size_t n_samples, int n_classes, bool shuffle, double noise, size_t n_loops,
                                     double margin, size_t seed) {
         mltk::random::init(seed);
-        size_t samples_byclass = std::ceil(n_samples / n_classes);
+        size_t samples_byclass = (n_samples + n_classes - 1) / n_classes;
         mltk::Data<double> dataset;
 
         dataset.setName("spirals");
@@ -32,7 +32,10 @@ namespace mltk::datasets {
             mltk::Point<> x1 = r * mltk::cos(rotated_theta) + random_point(samples_byclass) * noise;
             mltk::Point<> x2 = r * mltk::sin(rotated_theta) + random_point(samples_byclass) * noise;
 
-            for (size_t j = 0; j < samples_byclass; j++) {
+            // the first classes take the points that are left over when the classes can't be equally sized
+            size_t class_size = n_samples / n_classes + (i < n_samples % n_classes);
+
+            for (size_t j = 0; j < class_size; j++) {
                 auto point = mltk::Point<double>({x1[j], x2[j]});
                 if (n_classes == 2) point.Y() = (i == 0) ? -1 : 1;
                 else if (n_classes > 0) point.Y() = i + 1;
-- 
2.43.0


From 98631a0cad0452c0de43fe49b7712bb0d3f07257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:21 +0000
Subject: [PATCH 107/139] fix: hard voting does not overwrite the weights of
 the learners

---
 .../include/ufjfmltk/ensemble/VotingClassifier.hpp         | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/subprojects/ufjfmltk-ensemble/include/ufjfmltk/ensemble/VotingClassifier.hpp b/subprojects/ufjfmltk-ensemble/include/ufjfmltk/ensemble/VotingClassifier.hpp
index 4760255..8b0e0ac 100755
--- a/subprojects/ufjfmltk-ensemble/include/ufjfmltk/ensemble/VotingClassifier.hpp
+++ b/subprojects/ufjfmltk-ensemble/include/ufjfmltk/ensemble/VotingClassifier.hpp
@@ -38,10 +38,11 @@ namespace mltk{
             double evaluate(const Point<T> &p, bool raw_value = false) override {
                 auto _classes = this->samples->classes();
                 mltk::Point<double> votes(_classes.size(), 0.0);
+                // without weights, every learner has one vote
+                mltk::Point<double> _weights(this->m_learners.size(), 1);
                 if (voting_type == "soft") {
                     assert(this->weights.size() > 0);
-                } else {
-                    this->weights = Point<double>(this->m_learners.size(), 1);
+                    _weights = this->weights;
                 }
                 for (size_t i = 0; i < this->m_learners.size(); i++) {
                     auto pred = this->m_learners[i]->evaluate(p);
@@ -50,7 +51,7 @@ namespace mltk{
                         return (a == pred);
                     }) - _classes.begin();
                     // count prediction as a vote
-                    votes[pred_pos] += this->weights[i];
+                    votes[pred_pos] += _weights[i];
                 }
                 size_t max_votes = std::max_element(votes.X().begin(), votes.X().end()) - votes.X().begin();
                 return _classes[max_votes];
-- 
2.43.0


From 1a313417c75d6746b1f652df7b00672c9e769642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:21 +0000
Subject: [PATCH 108/139] fix: assigning a voting classifier returns it and
 keeps the type of vote

---
 .../include/ufjfmltk/ensemble/VotingClassifier.hpp              | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/subprojects/ufjfmltk-ensemble/include/ufjfmltk/ensemble/VotingClassifier.hpp b/subprojects/ufjfmltk-ensemble/include/ufjfmltk/ensemble/VotingClassifier.hpp
index 8b0e0ac..a552034 100755
--- a/subprojects/ufjfmltk-ensemble/include/ufjfmltk/ensemble/VotingClassifier.hpp
+++ b/subprojects/ufjfmltk-ensemble/include/ufjfmltk/ensemble/VotingClassifier.hpp
@@ -79,6 +79,8 @@ namespace mltk{
                 this->m_learners = voter.m_learners;
                 this->weights = voter.weights;
                 this->samples = voter.samples;
+                this->voting_type = voter.voting_type;
+                return *this;
             }
         };
     }
-- 
2.43.0


From caa33000796b927d9ad02730c5bf889eec898bc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:21 +0000
Subject: [PATCH 109/139] fix: ensembles ignore the votes for classes that do
 not exist

---
 .../include/ufjfmltk/ensemble/BaggingClassifier.hpp             | 2 +-
 .../include/ufjfmltk/ensemble/PerceptronCommittee.hpp           | 2 +-
 .../include/ufjfmltk/ensemble/VotingClassifier.hpp              | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/subprojects/ufjfmltk-ensemble/include/ufjfmltk/ensemble/BaggingClassifier.hpp b/subprojects/ufjfmltk-ensemble/include/ufjfmltk/ensemble/BaggingClassifier.hpp
index 52ee33f..80482c0 100755
--- a/subprojects/ufjfmltk-ensemble/include/ufjfmltk/ensemble/BaggingClassifier.hpp
+++ b/subprojects/ufjfmltk-ensemble/include/ufjfmltk/ensemble/BaggingClassifier.hpp
@@ -47,7 +47,7 @@ namespace mltk {
                 for (size_t i = 0; i < n_estimators; i++) {
                     int pred = this->m_learners[i]->evaluate(p);
                     size_t pred_pos = std::find(classes.begin(), classes.end(), pred) - classes.begin();
-                    votes[pred_pos]++;
+                    if (pred_pos < classes.size()) votes[pred_pos]++;
                 }
                 return classes[std::max_element(votes.X().begin(), votes.X().end()) - votes.X().begin()];
             }
diff --git a/subprojects/ufjfmltk-ensemble/include/ufjfmltk/ensemble/PerceptronCommittee.hpp b/subprojects/ufjfmltk-ensemble/include/ufjfmltk/ensemble/PerceptronCommittee.hpp
index 5e06db4..cbbda47 100755
--- a/subprojects/ufjfmltk-ensemble/include/ufjfmltk/ensemble/PerceptronCommittee.hpp
+++ b/subprojects/ufjfmltk-ensemble/include/ufjfmltk/ensemble/PerceptronCommittee.hpp
@@ -39,7 +39,7 @@ namespace mltk{
                         return (a == pred);
                     }) - _classes.begin();
                     // count prediction as a vote
-                    votes[pred_pos] += 1;
+                    if (pred_pos < _classes.size()) votes[pred_pos] += 1;
                 }
                 size_t max_votes = std::max_element(votes.X().begin(), votes.X().end()) - votes.X().begin();
                 return _classes[max_votes];
diff --git a/subprojects/ufjfmltk-ensemble/include/ufjfmltk/ensemble/VotingClassifier.hpp b/subprojects/ufjfmltk-ensemble/include/ufjfmltk/ensemble/VotingClassifier.hpp
index a552034..e0a961c 100755
--- a/subprojects/ufjfmltk-ensemble/include/ufjfmltk/ensemble/VotingClassifier.hpp
+++ b/subprojects/ufjfmltk-ensemble/include/ufjfmltk/ensemble/VotingClassifier.hpp
@@ -51,7 +51,7 @@ namespace mltk{
                         return (a == pred);
                     }) - _classes.begin();
                     // count prediction as a vote
-                    votes[pred_pos] += _weights[i];
+                    if (pred_pos < _classes.size()) votes[pred_pos] += _weights[i];
                 }
                 size_t max_votes = std::max_element(votes.X().begin(), votes.X().end()) - votes.X().begin();
                 return _classes[max_votes];
-- 
2.43.0


From 4bf24a62e4fb58744ebb718daed257a1e086fc06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:21 +0000
Subject: [PATCH 110/139] fix: bagging uses the seed it is given by setSeed

---
 .../include/ufjfmltk/ensemble/BaggingClassifier.hpp         | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/subprojects/ufjfmltk-ensemble/include/ufjfmltk/ensemble/BaggingClassifier.hpp b/subprojects/ufjfmltk-ensemble/include/ufjfmltk/ensemble/BaggingClassifier.hpp
index 80482c0..3dc25d4 100755
--- a/subprojects/ufjfmltk-ensemble/include/ufjfmltk/ensemble/BaggingClassifier.hpp
+++ b/subprojects/ufjfmltk-ensemble/include/ufjfmltk/ensemble/BaggingClassifier.hpp
@@ -12,7 +12,6 @@ namespace mltk {
         class BaggingClassifier : public Ensemble<T>, public classifier::Classifier<T> {
         private:
             size_t n_estimators = 10;
-            size_t seed = 0;
 
         public:
             BaggingClassifier() = default;
@@ -20,7 +19,8 @@ namespace mltk {
             template<class Estimator>
             explicit BaggingClassifier(const Data<T> &samples, const Estimator &estimator, size_t n_estimators = 10,
                                        size_t seed = 0)
-                    : n_estimators(n_estimators), seed(seed) {
+                    : n_estimators(n_estimators) {
+                this->seed = seed;
                 this->samples = mltk::make_data<T>(samples);
                 this->m_learners.resize(n_estimators);
                 for (size_t i = 0; i < n_estimators; i++) {
@@ -29,7 +29,7 @@ namespace mltk {
             }
 
             bool train() override {
-                seed = (seed == 0) ? std::random_device()() : seed;
+                size_t seed = (this->seed == 0) ? std::random_device()() : this->seed;
 
                 size_t samp_size = this->samples->size() / n_estimators;
                 for (size_t i = 0; i < n_estimators; i++) {
-- 
2.43.0


From 78728ea560a5fc6cad143a21c1cdb0be3499bc3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:21 +0000
Subject: [PATCH 111/139] fix: perceptron committees use their seed

---
 .../include/ufjfmltk/ensemble/PerceptronCommittee.hpp            | 1 +
 1 file changed, 1 insertion(+)

diff --git a/subprojects/ufjfmltk-ensemble/include/ufjfmltk/ensemble/PerceptronCommittee.hpp b/subprojects/ufjfmltk-ensemble/include/ufjfmltk/ensemble/PerceptronCommittee.hpp
index cbbda47..cf1a9ea 100755
--- a/subprojects/ufjfmltk-ensemble/include/ufjfmltk/ensemble/PerceptronCommittee.hpp
+++ b/subprojects/ufjfmltk-ensemble/include/ufjfmltk/ensemble/PerceptronCommittee.hpp
@@ -21,6 +21,7 @@ namespace mltk{
                 this->m_learners.resize(n);
                 for (size_t i = 0; i < n; i++) {
                     this->m_learners[i] = std::make_shared<classifier::BalancedPerceptron<T>>();
+                    if (this->seed != 0) this->m_learners[i]->setSeed(this->seed + i);
                     this->m_learners[i]->setSamples(this->samples);
                     this->m_learners[i]->train();
                 }
-- 
2.43.0


From 1ebc496137cc5e38f94d0e5f69f1c35327083f92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:21 +0000
Subject: [PATCH 112/139] fix: AdaBoost measures the error of a member by the
 weights of the points it misses

---
 .../include/ufjfmltk/ensemble/AdaBoostClassifier.hpp          | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/subprojects/ufjfmltk-ensemble/include/ufjfmltk/ensemble/AdaBoostClassifier.hpp b/subprojects/ufjfmltk-ensemble/include/ufjfmltk/ensemble/AdaBoostClassifier.hpp
index 257004b..9c8c603 100755
--- a/subprojects/ufjfmltk-ensemble/include/ufjfmltk/ensemble/AdaBoostClassifier.hpp
+++ b/subprojects/ufjfmltk-ensemble/include/ufjfmltk/ensemble/AdaBoostClassifier.hpp
@@ -39,12 +39,12 @@ namespace mltk {
                     learner->setSeed(this->seed+m);
                     learner->setSamples(this->samples);
                     learner->train();
-                    // compute the probability of miss classification for each point
+                    // find the points the estimator misses
                     Point<double> errors(_size, 0.0);
                     for(size_t i = 0; i < _size; i++){
                         auto point = (*this->samples)[i];
 
-                        if(point->Y() != learner->evaluate(*point)) errors[i] = weights[i];
+                        if(point->Y() != learner->evaluate(*point)) errors[i] = 1.0;
                     }
                     // compute the estimator error as the weighted average of each point error
                     err[m] = mltk::dot(weights, errors)/weights.sum();
-- 
2.43.0


From 90cda386f54019fe7c43a8cba39b75a9b1526dcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:36 +0000
Subject: [PATCH 113/139] fix: LMS applies its rate to the bias

---
 .../ufjfmltk-regressor/include/ufjfmltk/regressor/LMS.hpp       | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/subprojects/ufjfmltk-regressor/include/ufjfmltk/regressor/LMS.hpp b/subprojects/ufjfmltk-regressor/include/ufjfmltk/regressor/LMS.hpp
index 3c0eb2d..698f12c 100755
--- a/subprojects/ufjfmltk-regressor/include/ufjfmltk/regressor/LMS.hpp
+++ b/subprojects/ufjfmltk-regressor/include/ufjfmltk/regressor/LMS.hpp
@@ -64,7 +64,7 @@ namespace mltk{
                     //Verify if the point is a error
                     auto error = (input->Y() - func[j]);
                     w += this->rate * error * (*input);
-                    this->solution.bias += (input->Y() - func[j]);
+                    this->solution.bias += this->rate * error;
                     ++this->ctot;
                 }
                 cost_func *= 0.5;
-- 
2.43.0


From 2cd32a4ad3ebf18fa56b0223a8b70ca5b5aa0028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:36 +0000
Subject: [PATCH 114/139] fix: LMS starts from its initial solution

---
 .../ufjfmltk-regressor/include/ufjfmltk/regressor/LMS.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/subprojects/ufjfmltk-regressor/include/ufjfmltk/regressor/LMS.hpp b/subprojects/ufjfmltk-regressor/include/ufjfmltk/regressor/LMS.hpp
index 698f12c..e0e5d2b 100755
--- a/subprojects/ufjfmltk-regressor/include/ufjfmltk/regressor/LMS.hpp
+++ b/subprojects/ufjfmltk-regressor/include/ufjfmltk/regressor/LMS.hpp
@@ -50,8 +50,12 @@ namespace mltk{
             }
 
             this->timer.reset();
-            this->solution.w.assign(dim, 0.0);
-            mltk::Point<> w(this->samples->dim());
+            // start from the given solution, if there is one for the samples
+            if (this->solution.w.size() != dim) {
+                this->solution.w.assign(dim, 0.0);
+                this->solution.bias = 0.0;
+            }
+            mltk::Point<> w(this->solution.w.X());
             for (this->steps = 0; this->steps < this->MAX_IT; this->steps++) {
                 cost_func = 0;
                 for (j = 0; j < size; j++) {
-- 
2.43.0


From 3e63018dcf57d80bc692d1aaa07f5cb53b9528de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:36 +0000
Subject: [PATCH 115/139] fix: k-nearest neighbors regression can be asked for
 more neighbors than points

---
 .../include/ufjfmltk/regressor/KNNRegressor.hpp              | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/subprojects/ufjfmltk-regressor/include/ufjfmltk/regressor/KNNRegressor.hpp b/subprojects/ufjfmltk-regressor/include/ufjfmltk/regressor/KNNRegressor.hpp
index f74ab17..a4eae77 100755
--- a/subprojects/ufjfmltk-regressor/include/ufjfmltk/regressor/KNNRegressor.hpp
+++ b/subprojects/ufjfmltk-regressor/include/ufjfmltk/regressor/KNNRegressor.hpp
@@ -53,10 +53,11 @@ namespace mltk{
                     double sum = 0.0;
 
                     // sum the values in the k nearest neighbors and return the average
-                    for (size_t j = 0; j < this->k; j++) {
+                    size_t n_neighbors = std::min(this->k, points.size());
+                    for (size_t j = 0; j < n_neighbors; j++) {
                         sum += points[idx[j]]->Y();
                     }
-                    return sum / this->k;
+                    return sum / n_neighbors;
                 }
             };
         }
-- 
2.43.0


From 9c9b9b408cf7c9ab4b1f7afcf30c7e14f6241833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:36 +0000
Subject: [PATCH 116/139] fix: Fisher and Golub selection use the final
 dimension that was set

---
 .../include/ufjfmltk/featselect/Fisher.hpp                | 7 ++-----
 .../include/ufjfmltk/featselect/Golub.hpp                 | 8 +++-----
 2 files changed, 5 insertions(+), 10 deletions(-)

diff --git a/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/Fisher.hpp b/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/Fisher.hpp
index 753abc8..4f7dc01 100755
--- a/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/Fisher.hpp
+++ b/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/Fisher.hpp
@@ -12,8 +12,6 @@ namespace mltk{
         template<typename T = double>
         class Fisher : public FeatureSelection<T> {
         private:
-            int number = 0;
-
             struct fisher_select_score {
                 int fname;
                 double score;
@@ -40,7 +38,6 @@ namespace mltk{
             this->samples = mltk::make_data<T>(samples);
             this->classifier = classifier;
             this->final_dim = final_dim;
-            this->number = final_dim;
         }
 
         template<typename T>
@@ -49,7 +46,7 @@ namespace mltk{
             size_t num_pos = 0, num_neg = 0, svs = 0, dim = this->samples->dim(), size = this->samples->size();
             int partial = 0;
             double margin = 0.0;
-            std::vector<int> remove(dim - number, -1), fnames;
+            std::vector<int> remove(dim - this->final_dim, -1), fnames;
             std::vector<double> avg_neg(dim), avg_pos(dim), sd_neg(dim), sd_pos(dim), w;
             std::vector<fisher_select_score> scores(dim);
             std::shared_ptr<Data<T> > stmp(std::make_shared<Data<T> >()), stmp_partial(std::make_shared<Data<T> >());
@@ -120,7 +117,7 @@ namespace mltk{
             stmp_partial->copy(*this->samples);
             stmp->copy(*this->samples);
 
-            for (i = 0; i < (dim - this->number); ++i) {
+            for (i = 0; i < (dim - this->final_dim); ++i) {
                 if (this->verbose) std::cout << "Score: " << scores[i].score << ", Fname: " << scores[i].fname << "\n";
                 remove[i] = scores[i].fname;
                 stmp->removeFeatures(remove);
diff --git a/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/Golub.hpp b/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/Golub.hpp
index 732815d..01575cd 100755
--- a/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/Golub.hpp
+++ b/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/Golub.hpp
@@ -10,8 +10,6 @@ namespace mltk{
         template<typename T = double>
         class Golub : public FeatureSelection<T> {
         private:
-            int number;
-
             struct golub_select_score {
                 int fname;
                 double score;
@@ -31,7 +29,7 @@ namespace mltk{
         Golub<T>::Golub(const Data<T>& samples, classifier::Classifier<T> *classifier, int number) {
             this->samples = mltk::make_data<T>(samples);
             this->classifier = classifier;
-            this->number = number;
+            this->final_dim = number;
         }
 
         template<typename T>
@@ -40,7 +38,7 @@ namespace mltk{
             size_t num_pos = 0, num_neg = 0, svs = 0, dim = this->samples->dim(), size = this->samples->size();
             int partial = 0;
             double margin = 0.0;
-            std::vector<int> remove(dim - number), fnames;
+            std::vector<int> remove(dim - this->final_dim, -1), fnames;
             std::vector<double> avg_neg(dim), avg_pos(dim), sd_neg(dim), sd_pos(dim), w;
             std::vector<golub_select_score> scores(dim);
             std::shared_ptr<Data<T> > stmp(std::make_shared<Data<T> >()), stmp_partial(std::make_shared<Data<T> >());
@@ -111,7 +109,7 @@ namespace mltk{
             stmp_partial->copy(*this->samples);
             stmp->copy(*this->samples);
 
-            for (i = 0; i < (dim - this->number); ++i) {
+            for (i = 0; i < (dim - this->final_dim); ++i) {
                 if (this->verbose) std::cout << "Score: " << scores[i].score << ", Fname: " << scores[i].fname << "\n";
                 remove[i] = scores[i].fname;
                 stmp->removeFeatures(remove);
-- 
2.43.0


From 86ac5a0431131a53279cb878110227e81ff9b2b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:36 +0000
Subject: [PATCH 117/139] fix: Fisher and Golub selection score a constant
 feature as useless

---
 .../ufjfmltk-featselect/include/ufjfmltk/featselect/Fisher.hpp  | 2 +-
 .../ufjfmltk-featselect/include/ufjfmltk/featselect/Golub.hpp   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/Fisher.hpp b/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/Fisher.hpp
index 4f7dc01..e7e72e0 100755
--- a/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/Fisher.hpp
+++ b/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/Fisher.hpp
@@ -88,7 +88,7 @@ namespace mltk{
 
             /*calc scores*/
             for (i = 0; i < dim; ++i) {
-                scores[i].score = std::pow(avg_pos[i] - avg_neg[i], 2) / (sd_pos[i] + sd_neg[i]);
+                scores[i].score = (avg_pos[i] == avg_neg[i]) ? 0.0 : std::pow(avg_pos[i] - avg_neg[i], 2) / (sd_pos[i] + sd_neg[i]);
                 scores[i].fname = fnames[i];
                 if (this->verbose)
                     std::cout << "Score: " << scores[i].score << ", Fname: " << scores[i].fname << std::endl;
diff --git a/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/Golub.hpp b/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/Golub.hpp
index 01575cd..03dc7b0 100755
--- a/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/Golub.hpp
+++ b/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/Golub.hpp
@@ -80,7 +80,7 @@ namespace mltk{
 
             /*calc scores*/
             for (i = 0; i < dim; ++i) {
-                scores[i].score = fabs(avg_pos[i] - avg_neg[i]) / (sd_pos[i] + sd_neg[i]);
+                scores[i].score = (avg_pos[i] == avg_neg[i]) ? 0.0 : fabs(avg_pos[i] - avg_neg[i]) / (sd_pos[i] + sd_neg[i]);
                 scores[i].fname = fnames[i];
                 if (this->verbose)
                     std::cout << "Score: " << scores[i].score << ", Fname: " << scores[i].fname << std::endl;
-- 
2.43.0


From 01487902c249f7ad45506c40a5c53578f9fbb81e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:36 +0000
Subject: [PATCH 118/139] fix: recursive elimination returns the last features
 that could be trained on

---
 .../include/ufjfmltk/featselect/RFE.hpp          | 16 ++--------------
 1 file changed, 2 insertions(+), 14 deletions(-)

diff --git a/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/RFE.hpp b/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/RFE.hpp
index aa05301..0e7414f 100755
--- a/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/RFE.hpp
+++ b/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/RFE.hpp
@@ -53,7 +53,7 @@ namespace mltk{
         template<typename T>
         Data<T> RFE<T>::selectFeatures() {
             size_t dim = this->samples->dim(), partial_dim = 0, i = 0, j = 0;
-            std::vector<int> features, partial_features, choosen_feats, fnames;
+            std::vector<int> features, choosen_feats, fnames;
             std::vector<double> w, new_w;
             std::vector<select_weight> weight;
             std::shared_ptr<Data<T> > stmp_partial, stmp(std::make_shared<Data<T> >());
@@ -145,19 +145,7 @@ namespace mltk{
 
                 stmp_partial.reset();
                 stmp_partial = std::make_shared<Data<T> >();
-                stmp_partial->copy(*this->samples);
-
-                partial_features.clear();
-
-                int levelminusjump = (level - this->jump);
-
-                if (levelminusjump > 0) {
-                    partial_features.resize((size_t) (level - this->jump));
-                }
-
-                for (i = 0; (i < levelminusjump && levelminusjump > 0); ++i) {
-                    partial_features[i] = features[i];
-                }
+                stmp_partial->copy(*stmp);
 
                 if (this->cv->qtde > 0) {
                     if (level == 0) {
-- 
2.43.0


From 7b879b2eaa034bb889970073629d6e731605db19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:36 +0000
Subject: [PATCH 119/139] fix: recursive elimination compares average
 cross-validation errors

---
 .../ufjfmltk-featselect/include/ufjfmltk/featselect/RFE.hpp   | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/RFE.hpp b/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/RFE.hpp
index 0e7414f..eff9933 100755
--- a/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/RFE.hpp
+++ b/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/RFE.hpp
@@ -151,7 +151,7 @@ namespace mltk{
                     if (level == 0) {
                         for (this->cv->initial_error = 0, i = 0; i < this->cv->qtde; i++) {
                             auto report = validation::kfold(*stmp, *this->classifier, this->cv->fold, true, this->cv->seed[i], 0);
-                            this->cv->initial_error = report.error;
+                            this->cv->initial_error += report.error;
                         }
                         kfolderror = this->cv->initial_error / this->cv->qtde;
                     } else if (level % this->cv->jump == 0) {
@@ -197,7 +197,7 @@ namespace mltk{
 
                 /*stopping criterion*/
                 if (level >= this->depth ||
-                    (this->cv->qtde > 0 && (this->cv->actual_error - this->cv->initial_error) > this->cv->limit_error)) {
+                    (this->cv->qtde > 0 && (this->cv->actual_error - this->cv->initial_error) / this->cv->qtde > this->cv->limit_error)) {
                     std::cout << "---------------\n :: FINAL :: \n---------------\n";
                     choosen_feats = stmp->getFeaturesNames();
                     std::cout << "Choosen Features: ";
-- 
2.43.0


From 3ffe413f37fa049482e42d75bb057892a3664781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:36 +0000
Subject: [PATCH 120/139] fix: recursive elimination ranks features by the
 weights learned from all the points

---
 .../ufjfmltk-featselect/include/ufjfmltk/featselect/RFE.hpp     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/RFE.hpp b/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/RFE.hpp
index eff9933..bd26c19 100755
--- a/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/RFE.hpp
+++ b/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/RFE.hpp
@@ -177,7 +177,7 @@ namespace mltk{
                     //printf("Dim: %d, Margem: %lf, Distancia entre os centros: %f, SVs: %d\n", (dim-level), data_get_dist_centers(stmp), margin, svcount);
                 }
 
-                w = this->classifier->getSolutionRef()->w.X();
+                w = sol.w.X();
                 weight.resize(stmp->dim());
                 auto fnames = stmp->getFeaturesNames();
 
-- 
2.43.0


From 66021ec68d03709d797872d3d00fbc56cc48c8af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:36 +0000
Subject: [PATCH 121/139] fix: recursive elimination keeps its jump for the
 next selection

---
 .../include/ufjfmltk/featselect/RFE.hpp              | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/RFE.hpp b/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/RFE.hpp
index bd26c19..e4ee2a4 100755
--- a/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/RFE.hpp
+++ b/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/RFE.hpp
@@ -58,7 +58,7 @@ namespace mltk{
             std::vector<select_weight> weight;
             std::shared_ptr<Data<T> > stmp_partial, stmp(std::make_shared<Data<T> >());
             Solution sol;
-            int svcount = 0, level = 0, leveljump = 0, partial_svs = 0;
+            int svcount = 0, level = 0, leveljump = 0, partial_svs = 0, jump = this->jump;
             int partial = 0; //verifica se última solução é uma solução recuperada (parcial)
             double max_time = this->classifier->getMaxTime(), time_mult = this->samples->getTime_mult();
             double margin = 0, leave_oo = 0, kfolderror = 0, partial_time = 0, partial_margin = 0;
@@ -229,10 +229,10 @@ namespace mltk{
                     break;
                 }
 
-                if (level + this->jump > this->depth)
+                if (level + jump > this->depth)
                     leveljump = this->depth;
                 else
-                    leveljump = level + this->jump;
+                    leveljump = level + jump;
 
                 /*manutencao do w do pai para o IMA Primal*/
                 if (this->classifier->getFormulationString() == "Primal") {
@@ -267,11 +267,11 @@ namespace mltk{
                 weight.clear();
 
                 /*increment*/
-                if (level + this->jump > this->depth) {
+                if (level + jump > this->depth) {
                     level = this->depth;
-                    this->jump = 0;
+                    jump = 0;
                 } else {
-                    level += this->jump;
+                    level += jump;
 
                 }
                 /*get temp data struct*/
-- 
2.43.0


From 1a92b38e55d31e2754c60ca3291359e90908fbff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:36 +0000
Subject: [PATCH 122/139] fix: recursive elimination starts each training from
 the weights of the remaining features

---
 .../include/ufjfmltk/featselect/RFE.hpp         | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/RFE.hpp b/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/RFE.hpp
index e4ee2a4..4661559 100755
--- a/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/RFE.hpp
+++ b/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/RFE.hpp
@@ -236,16 +236,15 @@ namespace mltk{
 
                 /*manutencao do w do pai para o IMA Primal*/
                 if (this->classifier->getFormulationString() == "Primal") {
-                    for (j = 0; j < stmp->dim(); ++j)
-                        for (i = level; i < leveljump; ++i)
-                            if (weight[i - level].w == w[j])
-                                w[j] = 0;
-
-                    new_w.resize(dim - leveljump);
+                    new_w.clear();
 
-                    for (i = 0, j = 0; j < stmp->dim(); ++j)
-                        if (w[j] != 0)
-                            new_w[i++] = w[j];
+                    for (j = 0; j < stmp->dim(); ++j) {
+                        bool removed = false;
+                        for (i = level; i < leveljump; ++i)
+                            removed = removed || weight[i - level].fname == fnames[j];
+                        if (!removed)
+                            new_w.push_back(w[j]);
+                    }
                     //novo_w[i] = w[j]; //bias nao copia mais
                     w.clear();
                     w = new_w;
-- 
2.43.0


From 1b762c857dbcd71d989441cf2c1a70f64cb7ac82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:36 +0000
Subject: [PATCH 123/139] fix: the final dimension set for a selection gives
 its depth

---
 .../include/ufjfmltk/featselect/FeatureSelection.hpp         | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/FeatureSelection.hpp b/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/FeatureSelection.hpp
index 132956d..d9f5edb 100755
--- a/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/FeatureSelection.hpp
+++ b/subprojects/ufjfmltk-featselect/include/ufjfmltk/featselect/FeatureSelection.hpp
@@ -78,7 +78,10 @@ namespace mltk{
              * \brief setFinalDimension Set the classifier used for the FeatureSelection.
              * \param final_dim The final number of dimensions.
              */
-            void setFinalDimension(int final_dim) { this->final_dim = final_dim; }
+            void setFinalDimension(int final_dim) {
+                this->final_dim = final_dim;
+                if (this->samples) this->depth = this->samples->dim() - final_dim;
+            }
 
             /**
              * \brief setDepth Set the depth of the search.
-- 
2.43.0


From 38884012673d8d4379ff008498c692e9c80bd83b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:36 +0000
Subject: [PATCH 124/139] fix: a plot removes only the folders it created

---
 .../ufjfmltk-visual/include/ufjfmltk/visual/Visualization.hpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/subprojects/ufjfmltk-visual/include/ufjfmltk/visual/Visualization.hpp b/subprojects/ufjfmltk-visual/include/ufjfmltk/visual/Visualization.hpp
index aa66447..ff6ae1c 100755
--- a/subprojects/ufjfmltk-visual/include/ufjfmltk/visual/Visualization.hpp
+++ b/subprojects/ufjfmltk-visual/include/ufjfmltk/visual/Visualization.hpp
@@ -347,11 +347,9 @@ namespace mltk::visualize{
     void Visualization<T>::create_plotfolder() {
         do{
             this->plot_folder = PLOT_FOLDER+std::to_string(n_plots)+"/";
-            if(std::find(plot_folders.begin(), plot_folders.end(), this->plot_folder) == plot_folders.end()) {
-                plot_folders.push_back(this->plot_folder);
-            }
             n_plots++;
         }while(fs::exists(this->plot_folder));
+        plot_folders.push_back(this->plot_folder);
         try {
             fs::create_directory(this->plot_folder);
         }
-- 
2.43.0


From 368c40e6566f2b6550c1de51d47d6cea2acbf714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:36 +0000
Subject: [PATCH 125/139] fix: plots accept class names with dots and
 underscores

---
 .../include/ufjfmltk/visual/Visualization.hpp | 32 ++++++-------------
 1 file changed, 10 insertions(+), 22 deletions(-)

diff --git a/subprojects/ufjfmltk-visual/include/ufjfmltk/visual/Visualization.hpp b/subprojects/ufjfmltk-visual/include/ufjfmltk/visual/Visualization.hpp
index ff6ae1c..074cea4 100755
--- a/subprojects/ufjfmltk-visual/include/ufjfmltk/visual/Visualization.hpp
+++ b/subprojects/ufjfmltk-visual/include/ufjfmltk/visual/Visualization.hpp
@@ -935,33 +935,21 @@ namespace mltk::visualize{
         Point<int> classes = samples->classes();
         auto class_names = samples->classesNames();
         std::vector<std::string> names(files.size());
-        std::transform(files.begin(), files.end(), names.begin(), [type](std::string& path){
-            if(type == "decision") {
-                auto res = mltk::utils::tokenize(mltk::utils::tokenize(path, '_')[0], '/');
-                return mltk::utils::tokenize(mltk::utils::tokenize(path, '_')[0], '/')[1];
-            }else{
-                return mltk::utils::tokenize(mltk::utils::tokenize(path, '.')[0], '/')[1];
-            }
-        });
+        // the class name is the name of the file up to its suffix
+        auto class_name = [&type](const std::string& path){
+            auto file = path.substr(path.rfind('/') + 1);
+            return file.substr(0, file.rfind((type == "decision")?"_data":"."));
+        };
+        std::transform(files.begin(), files.end(), names.begin(), class_name);
         std::sort(names.begin(), names.end(),[&class_names, &classes](const auto& a, const auto& b){
             auto aclass_pos = std::find(class_names.begin(), class_names.end(), a) - class_names.begin();
             auto bclass_pos = std::find(class_names.begin(), class_names.end(), b) - class_names.begin();
             return classes[aclass_pos] < classes[bclass_pos];
         });
-        std::sort(files.begin(), files.end(), [&class_names, &classes, &type](const auto& a, const auto& b){
-            if(type == "decision") {
-                auto aclass_pos = std::find(class_names.begin(), class_names.end(),
-                                            mltk::utils::tokenize(mltk::utils::tokenize(a, '_')[0], '/')[1]) - class_names.begin();
-                auto bclass_pos = std::find(class_names.begin(), class_names.end(),
-                                            mltk::utils::tokenize(mltk::utils::tokenize(b, '_')[0], '/')[1]) - class_names.begin();
-                return classes[aclass_pos] < classes[bclass_pos];
-            }else{
-                auto aclass_pos = std::find(class_names.begin(), class_names.end(),
-                                            mltk::utils::tokenize(mltk::utils::tokenize(a, '.')[0], '/')[1]) - class_names.begin();
-                auto bclass_pos = std::find(class_names.begin(), class_names.end(),
-                                            mltk::utils::tokenize(mltk::utils::tokenize(b, '.')[0], '/')[1]) - class_names.begin();
-                return classes[aclass_pos] < classes[bclass_pos];
-            }
+        std::sort(files.begin(), files.end(), [&class_names, &classes, &class_name](const auto& a, const auto& b){
+            auto aclass_pos = std::find(class_names.begin(), class_names.end(), class_name(a)) - class_names.begin();
+            auto bclass_pos = std::find(class_names.begin(), class_names.end(), class_name(b)) - class_names.begin();
+            return classes[aclass_pos] < classes[bclass_pos];
         });
         return names;
     }
-- 
2.43.0


From 403b26a869d9ea3c59e5dfacf244cf2da4a84f2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:36 +0000
Subject: [PATCH 126/139] fix: the regression plot shows the target of the
 points

---
 .../ufjfmltk-visual/include/ufjfmltk/visual/Visualization.hpp   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/subprojects/ufjfmltk-visual/include/ufjfmltk/visual/Visualization.hpp b/subprojects/ufjfmltk-visual/include/ufjfmltk/visual/Visualization.hpp
index 074cea4..f8d490b 100755
--- a/subprojects/ufjfmltk-visual/include/ufjfmltk/visual/Visualization.hpp
+++ b/subprojects/ufjfmltk-visual/include/ufjfmltk/visual/Visualization.hpp
@@ -543,7 +543,7 @@ namespace mltk::visualize{
     std::string
     Visualization<T>::plot1DRegresion(int x, bool save, double scale, const std::string &title, const std::string &format,
                                       const std::string &x_label, const std::string &y_label) {
-        std::string dims = utils::itos(x+1) + ":" + utils::itos(2);
+        std::string dims = utils::itos(x+1) + ":" + utils::itos(this->samples->dim()+1);
         std::string cmd("plot ");
         std::vector<std::string> temp_files_names;
         size_t i;
-- 
2.43.0


From 388787a51ac3b704a063cd8efcc5759df2eb911a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:36 +0000
Subject: [PATCH 127/139] fix: the ranges of a plot contain all its points

---
 .../include/ufjfmltk/visual/Visualization.hpp | 42 +++++++++++--------
 1 file changed, 24 insertions(+), 18 deletions(-)

diff --git a/subprojects/ufjfmltk-visual/include/ufjfmltk/visual/Visualization.hpp b/subprojects/ufjfmltk-visual/include/ufjfmltk/visual/Visualization.hpp
index f8d490b..aaeb112 100755
--- a/subprojects/ufjfmltk-visual/include/ufjfmltk/visual/Visualization.hpp
+++ b/subprojects/ufjfmltk-visual/include/ufjfmltk/visual/Visualization.hpp
@@ -1043,26 +1043,29 @@ namespace mltk::visualize{
         AxisRanges axis_ranges;
         if(x > -1) {
             auto _x = this->samples->getFeature(x);
-            double x_min = mltk::min(_x), x_max = scale*mltk::max(_x);
+            double x_min = mltk::min(_x), x_max = mltk::max(_x);
+            x_max *= (x_max > 0)?scale:(2.0-scale);
             x_min += (x_min > 0)?(1.0-scale)*x_min:-(1.0-scale)*x_min;
-            axis_ranges[0].min = std::round(x_min);
-            axis_ranges[0].max = std::round(x_max);
+            axis_ranges[0].min = std::floor(x_min);
+            axis_ranges[0].max = std::ceil(x_max);
             configs["xrange"] = "[" + std::to_string(axis_ranges[0].min) + ":" + std::to_string(axis_ranges[0].max) + "]";
         }
         if(y > -1) {
             auto _y = this->samples->getFeature(y);
-            double y_min = mltk::min(_y), y_max = scale*mltk::max(_y);
+            double y_min = mltk::min(_y), y_max = mltk::max(_y);
+            y_max *= (y_max > 0)?scale:(2.0-scale);
             y_min += (y_min > 0)?(1.0-scale)*y_min:-(1.0-scale)*y_min;
-            axis_ranges[1].min = std::round(y_min);
-            axis_ranges[1].max = std::round(y_max);
+            axis_ranges[1].min = std::floor(y_min);
+            axis_ranges[1].max = std::ceil(y_max);
             configs["yrange"] = "[" + std::to_string(axis_ranges[1].min) + ":" + std::to_string(axis_ranges[1].max) + "]";
         }
         if(z > -1) {
             auto _z = this->samples->getFeature(z);
-            double z_min = mltk::min(_z), z_max = scale*mltk::max(_z);
+            double z_min = mltk::min(_z), z_max = mltk::max(_z);
+            z_max *= (z_max > 0)?scale:(2.0-scale);
             z_min += (z_min > 0)?(1.0-scale)*z_min:-(1.0-scale)*z_min;
-            axis_ranges[2].min = std::round(z_min);
-            axis_ranges[2].max = std::round(z_max);
+            axis_ranges[2].min = std::floor(z_min);
+            axis_ranges[2].max = std::ceil(z_max);
             configs["zrange"] = "[" + std::to_string(axis_ranges[2].min) + ":" + std::to_string(axis_ranges[2].max) + "]";
         }
         return axis_ranges;
@@ -1074,26 +1077,29 @@ namespace mltk::visualize{
                                                                             AxisRanges axis_ranges;
         if(x.size() > 0) {
             auto _x = x;
-            double x_min = mltk::min(_x), x_max = scale*mltk::max(_x);
+            double x_min = mltk::min(_x), x_max = mltk::max(_x);
+            x_max *= (x_max > 0)?scale:(2.0-scale);
             x_min += (x_min > 0)?(1.0-scale)*x_min:-(1.0-scale)*x_min;
-            axis_ranges[0].min = std::round(x_min);
-            axis_ranges[0].max = std::round(x_max);
+            axis_ranges[0].min = std::floor(x_min);
+            axis_ranges[0].max = std::ceil(x_max);
             if(axis_ranges[0].min != axis_ranges[0].max) configs["xrange"] = "[" + std::to_string(axis_ranges[0].min) + ":" + std::to_string(axis_ranges[0].max) + "]";
         }
         if(y.size() > 0) {
             auto _y = y;
-            double y_min = mltk::min(_y), y_max = scale*mltk::max(_y);
+            double y_min = mltk::min(_y), y_max = mltk::max(_y);
+            y_max *= (y_max > 0)?scale:(2.0-scale);
             y_min += (y_min > 0)?(1.0-scale)*y_min:-(1.0-scale)*y_min;
-            axis_ranges[1].min = std::round(y_min);
-            axis_ranges[1].max = std::round(y_max);
+            axis_ranges[1].min = std::floor(y_min);
+            axis_ranges[1].max = std::ceil(y_max);
             if(axis_ranges[1].min != axis_ranges[1].max) configs["yrange"] = "[" + std::to_string(axis_ranges[1].min) + ":" + std::to_string(axis_ranges[1].max) + "]";
         }
         if(z.size() > 0) {
             auto _z = z;
-            double z_min = mltk::min(_z), z_max = scale*mltk::max(_z);
+            double z_min = mltk::min(_z), z_max = mltk::max(_z);
+            z_max *= (z_max > 0)?scale:(2.0-scale);
             z_min += (z_min > 0)?(1.0-scale)*z_min:-(1.0-scale)*z_min;
-            axis_ranges[2].min = std::round(z_min);
-            axis_ranges[2].max = std::round(z_max);
+            axis_ranges[2].min = std::floor(z_min);
+            axis_ranges[2].max = std::ceil(z_max);
             if(axis_ranges[2].min != axis_ranges[2].max) configs["zrange"] = "[" + std::to_string(axis_ranges[2].min) + ":" + std::to_string(axis_ranges[2].max) + "]";
         }
         return axis_ranges;
-- 
2.43.0


From d6097fcac6181cce4e6a785855c181f8f4268194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:36 +0000
Subject: [PATCH 128/139] fix: decision surfaces can be plotted with the
 features in any order

---
 .../include/ufjfmltk/visual/Visualization.hpp                | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/subprojects/ufjfmltk-visual/include/ufjfmltk/visual/Visualization.hpp b/subprojects/ufjfmltk-visual/include/ufjfmltk/visual/Visualization.hpp
index aaeb112..e1a160d 100755
--- a/subprojects/ufjfmltk-visual/include/ufjfmltk/visual/Visualization.hpp
+++ b/subprojects/ufjfmltk-visual/include/ufjfmltk/visual/Visualization.hpp
@@ -868,7 +868,8 @@ namespace mltk::visualize{
         for(int i = 0; i < grid.size(); i++){
             int j;
             for(j = 0; j < grid.dim(); j++){
-                grid(i)[j] = learner.evaluate(mltk::Point({xx[i], yy[j]}));
+                // the learner sees the features in the order they have in the samples
+                grid(i)[j] = (x < y)?learner.evaluate(mltk::Point({xx[i], yy[j]})):learner.evaluate(mltk::Point({yy[j], xx[i]}));
                 data_file << xx[i] << " " << yy[j] << " " << std::to_string(grid(i)[j]) << std::endl;
             }
             data_file << std::endl;
@@ -892,7 +893,7 @@ namespace mltk::visualize{
 
         for(int i = 0; i < data_copy.size(); i++){
             auto class_pos = std::find(classes.begin(), classes.end(), data_copy(i).Y()) - classes.begin();
-            classes_files[class_pos] << data_copy(i)[0] << " " << data_copy(i)[1] << " " << data_copy(i).Y() << std::endl;
+            classes_files[class_pos] << (*this->samples)(i)[x] << " " << (*this->samples)(i)[y] << " " << data_copy(i).Y() << std::endl;
         }
         for(auto & classes_file : classes_files){
             classes_file.close();
-- 
2.43.0


From dba899388657315caf9374500f9a85fc0ef07c3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:19:55 +0000
Subject: [PATCH 129/139] fix: keep the trained multipliers available from
 every dual classifier

---
 .../ufjfmltk-classifier/include/ufjfmltk/classifier/IMA.hpp     | 2 +-
 .../include/ufjfmltk/classifier/Perceptron.hpp                  | 2 ++
 .../ufjfmltk-classifier/include/ufjfmltk/classifier/SMO.hpp     | 1 +
 3 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/IMA.hpp b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/IMA.hpp
index 084d4a5..9aa8a40 100755
--- a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/IMA.hpp
+++ b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/IMA.hpp
@@ -660,7 +660,6 @@ namespace mltk{
             this->ctot = percDual.getCtot();
             this->steps = percDual.getSteps();
             sol = percDual.getSolution();
-            this->alpha = percDual.getAlphaVector();
             norm = sol.norm;
             func = sol.func.X();
 
@@ -699,6 +698,7 @@ namespace mltk{
             for(i = 0; i < size; i++){
                 this->solution.alpha[i] = points[i]->Alpha();
             }
+            this->alpha = this->solution.alpha;
 
             if (this->verbose) {
                 std::cout << "-------------------------------------------------------------------\n";
diff --git a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp
index 4992348..55e1646 100755
--- a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp
+++ b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Perceptron.hpp
@@ -468,6 +468,7 @@ namespace mltk{
             this->solution.w.assign(dim, 0.0);
 
             for (i = 0; i < size; i++) {
+                points[i]->Alpha() = this->alpha[i];
                 for (j = 0; j < dim; j++) {
                     this->solution.w[j] += this->alpha[i] * points[i]->Y() * points[i]->X()[j];
                 }
@@ -598,6 +599,7 @@ namespace mltk{
                             (*this->samples)[j]->Alpha() * (*this->samples)[j]->Y() * (*this->samples)[j]->X()[i];
                 }
             }
+            this->alpha = this->solution.alpha;
 
             return (e == 0);
         }
diff --git a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/SMO.hpp b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/SMO.hpp
index f5aad52..583cee4 100755
--- a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/SMO.hpp
+++ b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/SMO.hpp
@@ -141,6 +141,7 @@ namespace mltk{
                     if ((*this->samples)[i]->Alpha() > 0) ++this->solution.svs;
                     if ((*this->samples)[i]->Alpha() > this->C) ret = false;
                 }
+                this->alpha = this->solution.alpha;
 
                 if (this->verbose) {
                     std::cout << "Number of Support Vectors: " << this->solution.svs << std::endl;
-- 
2.43.0


From 1e056b13a942581b9c0a2fad27dcd86b4a2b259d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:24:55 +0000
Subject: [PATCH 130/139] fix: compare feature subspaces whatever the order of
 their features

---
 .../ufjfmltk-core/include/ufjfmltk/core/Sampling.hpp      | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Sampling.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Sampling.hpp
index dbe8f0f..11b5fdc 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Sampling.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Sampling.hpp
@@ -30,12 +30,14 @@ namespace mltk{
 
         double div_ms(int i){
             double max_val = 0.0;
+            std::vector<size_t> Si = subspaces[i];
+            std::sort(Si.begin(), Si.end());
             for(int j = 0; j < subspaces.size();j++){
                 if(j == i) continue;
                 double val = 0.0;
-                std::vector<size_t> intersection;
-                std::set_intersection(subspaces[i].begin(), subspaces[i].end(),
-                                      subspaces[j].begin(), subspaces[j].end(),
+                std::vector<size_t> intersection, Sj = subspaces[j];
+                std::sort(Sj.begin(), Sj.end());
+                std::set_intersection(Si.begin(), Si.end(), Sj.begin(), Sj.end(),
                                       std::back_inserter(intersection));
                 val = double(intersection.size())/subspaces[j].size();
                 if(val > max_val) max_val = val;
-- 
2.43.0


From ea2b3910b28f338722b588a0b10886746b106e8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:24:55 +0000
Subject: [PATCH 131/139] fix: keep the correlation of a feature with the
 labels between -1 and 1

---
 .../ufjfmltk-core/include/ufjfmltk/core/Sampling.hpp        | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Sampling.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Sampling.hpp
index 11b5fdc..69e3242 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Sampling.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Sampling.hpp
@@ -56,8 +56,10 @@ namespace mltk{
         }
 
         double qual_correlation(const Data<T>& data, int feat){
-            Point<T> x = data.getFeature(feat);
-            return mltk::stats::covar(x, labels)/(mltk::stats::std_dev(x)*mltk::stats::std_dev(labels));
+            Point<double> x = data.getFeature(feat);
+            double deviations = std::sqrt(mltk::stats::covar(x, x)*mltk::stats::covar(labels, labels));
+            // a constant is correlated with nothing
+            return (deviations > 0) ? mltk::stats::covar(x, labels)/deviations : 0.0;
         }
 
         inline void setAlpha(double _alpha){ this->alpha = _alpha; }
-- 
2.43.0


From cd77ac2aec06415527d42d834f317791bc429dfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:24:55 +0000
Subject: [PATCH 132/139] fix: select diverse subspaces from the data they are
 asked for

---
 subprojects/ufjfmltk-core/include/ufjfmltk/core/Sampling.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Sampling.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Sampling.hpp
index 69e3242..31808da 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Sampling.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Sampling.hpp
@@ -65,6 +65,8 @@ namespace mltk{
         inline void setAlpha(double _alpha){ this->alpha = _alpha; }
 
         std::vector<std::vector<size_t>> operator()(const Data< T > &data){
+           labels = data.getLabels();
+           subspaces.assign(k, std::vector<size_t>(n_dims, -1));
            for(int i = 0; i < n_dims; i++) {
                for(int j = 0; j < subspaces.size(); j++) {
                    Point<double> fscore(data.dim(), -1.01);
-- 
2.43.0


From 1543737e972eaf7b619d6aeb3abd84d4d8f66663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:17:56 +0000
Subject: [PATCH 133/139] fix: keep the solution of a classifier in its copies

---
 .../include/ufjfmltk/classifier/Classifier.hpp                  | 2 ++
 subprojects/ufjfmltk-core/include/ufjfmltk/core/Learner.hpp     | 1 +
 2 files changed, 3 insertions(+)

diff --git a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Classifier.hpp b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Classifier.hpp
index 4247fd9..ab36467 100755
--- a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Classifier.hpp
+++ b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/Classifier.hpp
@@ -36,6 +36,8 @@ namespace mltk{
             Classifier<T>(const Classifier<T> &classifier)
                     : Learner<T>(classifier) {
                 this->hasInitialSolution = classifier.hasInitialSolution;
+                this->svs = classifier.svs;
+                this->solution = classifier.solution;
                 this->gamma = classifier.gamma;
             }
 
diff --git a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Learner.hpp b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Learner.hpp
index efac9cb..a7cb3fd 100755
--- a/subprojects/ufjfmltk-core/include/ufjfmltk/core/Learner.hpp
+++ b/subprojects/ufjfmltk-core/include/ufjfmltk/core/Learner.hpp
@@ -67,6 +67,7 @@ namespace mltk{
         this->MAX_EPOCH = learner.MAX_EPOCH;
         this->verbose = learner.verbose;
         this->seed = learner.seed;
+        this->pred_prob = learner.pred_prob;
       }
     
     
-- 
2.43.0


From bf67bf00e6529e440e956d4bde9ca0d1afb983af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:17:56 +0000
Subject: [PATCH 134/139] fix: give each copy of a dual classifier its own
 kernel

---
 .../ufjfmltk/classifier/DualClassifier.hpp    | 25 +++++++++++++++++++
 .../include/ufjfmltk/classifier/SMO.hpp       |  9 ++++---
 2 files changed, 31 insertions(+), 3 deletions(-)

diff --git a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/DualClassifier.hpp b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/DualClassifier.hpp
index cbc17ab..80ae64c 100755
--- a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/DualClassifier.hpp
+++ b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/DualClassifier.hpp
@@ -23,7 +23,32 @@ namespace mltk{
             double kernel_param = 0;
             /// Object for kernel computations.
             Kernel<T> *kernel = nullptr;
+        private:
+            /// Keeps the kernel of a copied classifier, each copy has its own.
+            std::shared_ptr<Kernel<T> > own_kernel;
+
+            void copyKernel(const DualClassifier<T> &classifier) {
+                this->own_kernel = (classifier.kernel) ? std::make_shared<Kernel<T> >(*classifier.kernel) : nullptr;
+                this->kernel = this->own_kernel.get();
+            }
         public:
+            DualClassifier() = default;
+
+            DualClassifier(const DualClassifier<T> &classifier)
+                    : Learner<T>(classifier), Classifier<T>(classifier), alpha(classifier.alpha),
+                      kernel_type(classifier.kernel_type), kernel_param(classifier.kernel_param) {
+                this->copyKernel(classifier);
+            }
+
+            DualClassifier<T> &operator=(const DualClassifier<T> &classifier) {
+                if (this == &classifier) return *this;
+                Classifier<T>::operator=(classifier);
+                this->alpha = classifier.alpha;
+                this->kernel_type = classifier.kernel_type;
+                this->kernel_param = classifier.kernel_param;
+                this->copyKernel(classifier);
+                return *this;
+            }
 
             virtual double evaluate(const Point <T> &p, bool raw_value = false) override {
                 double func, bias = this->solution.bias, fk = 0.0, lambda;
diff --git a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/SMO.hpp b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/SMO.hpp
index 583cee4..35c5d11 100755
--- a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/SMO.hpp
+++ b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/SMO.hpp
@@ -69,9 +69,12 @@ namespace mltk{
                 explicit SMO(const Data<T>& samples, KernelType kernel_type = KernelType::INNER_PRODUCT,
                              double param = 0, int verbose = 0);
 
-                /// Copies the configuration: the kernel and the working lists belong to one learner.
-                SMO(const SMO<T>& smo): Learner<T>(smo), Classifier<T>(smo), DualClassifier<T>(smo), param(smo.param) {
-                    this->kernel = nullptr;
+                /// The kernel, which the destructor deletes, and the working lists belong to one learner.
+                SMO(const SMO<T>& smo): Learner<T>(smo), Classifier<T>(smo), DualClassifier<T>(), param(smo.param) {
+                    this->alpha = smo.alpha;
+                    this->kernel_type = smo.kernel_type;
+                    this->kernel_param = smo.kernel_param;
+                    if (smo.kernel) this->kernel = new Kernel<T>(*smo.kernel);
                 }
 
                 bool train() override;
-- 
2.43.0


From a4f21e78ce0f2eb077fb3988450f49fe9497e6c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:17:56 +0000
Subject: [PATCH 135/139] fix: train the base learners of a multiclass wrapper
 apart from its copies

---
 .../include/ufjfmltk/classifier/OneVsAll.hpp                  | 4 ++--
 .../include/ufjfmltk/classifier/OneVsOne.hpp                  | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/OneVsAll.hpp b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/OneVsAll.hpp
index d4441b2..3916d5b 100755
--- a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/OneVsAll.hpp
+++ b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/OneVsAll.hpp
@@ -61,8 +61,8 @@ namespace mltk{
                 auto classes = this->samples->classes();
                 size_t current_class = 0, j, n_classes = classes.size(), size = this->samples->size();
 
-                // the samples may have been replaced by samples with another number of classes
-                if (base_learners.size() != n_classes) initLearners(n_classes);
+                // the previous base learners may belong to other samples or to copies of this learner
+                initLearners(n_classes);
 
                 // iterate over each base learner
                 for (auto &learner: base_learners) {
diff --git a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/OneVsOne.hpp b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/OneVsOne.hpp
index 0e923bc..f6ef5fb 100755
--- a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/OneVsOne.hpp
+++ b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/OneVsOne.hpp
@@ -75,8 +75,8 @@ namespace mltk{
             auto classes = this->samples->classes();
             size_t n_classes = classes.size();
 
-            // the samples may have been replaced by samples with another number of classes
-            if (base_learners.size() != n_classes) initLearners(n_classes);
+            // the previous base learners may belong to other samples or to copies of this learner
+            initLearners(n_classes);
 
             for (size_t i = 0; i < n_classes; ++i) {
                 for (size_t j = 0; j < n_classes; ++j) {
-- 
2.43.0


From b11b217b49298bb3db67850ecca9a0f974d6fc5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:17:56 +0000
Subject: [PATCH 136/139] fix: give each copy of an ensemble its own learners

---
 .../ufjfmltk/ensemble/AdaBoostClassifier.hpp  |  4 +-
 .../ufjfmltk/ensemble/BaggingClassifier.hpp   |  3 +-
 .../include/ufjfmltk/ensemble/Ensemble.hpp    | 39 +++++++++++++++++++
 .../ufjfmltk/ensemble/PerceptronCommittee.hpp |  4 +-
 .../ufjfmltk/ensemble/VotingClassifier.hpp    |  5 ++-
 5 files changed, 46 insertions(+), 9 deletions(-)

diff --git a/subprojects/ufjfmltk-ensemble/include/ufjfmltk/ensemble/AdaBoostClassifier.hpp b/subprojects/ufjfmltk-ensemble/include/ufjfmltk/ensemble/AdaBoostClassifier.hpp
index 9c8c603..741dcb8 100755
--- a/subprojects/ufjfmltk-ensemble/include/ufjfmltk/ensemble/AdaBoostClassifier.hpp
+++ b/subprojects/ufjfmltk-ensemble/include/ufjfmltk/ensemble/AdaBoostClassifier.hpp
@@ -20,10 +20,8 @@ namespace mltk {
             template<template<typename > class Estimator>
             explicit AdaBoostClassifier(const Data<T> &data, Estimator<T> base_estimator, const size_t n_estimators): n_estimators(n_estimators) {
                 this->samples = mltk::make_data<T>(data);
-                this->m_learners.resize(n_estimators);
-
                 for(size_t i = 0; i < n_estimators; i++){
-                    this->m_learners[i] = std::make_shared< Estimator<T> >(base_estimator);
+                    this->addLearner(std::make_shared< Estimator<T> >(base_estimator));
                 }
             }
 
diff --git a/subprojects/ufjfmltk-ensemble/include/ufjfmltk/ensemble/BaggingClassifier.hpp b/subprojects/ufjfmltk-ensemble/include/ufjfmltk/ensemble/BaggingClassifier.hpp
index 3dc25d4..33c858c 100755
--- a/subprojects/ufjfmltk-ensemble/include/ufjfmltk/ensemble/BaggingClassifier.hpp
+++ b/subprojects/ufjfmltk-ensemble/include/ufjfmltk/ensemble/BaggingClassifier.hpp
@@ -22,9 +22,8 @@ namespace mltk {
                     : n_estimators(n_estimators) {
                 this->seed = seed;
                 this->samples = mltk::make_data<T>(samples);
-                this->m_learners.resize(n_estimators);
                 for (size_t i = 0; i < n_estimators; i++) {
-                    this->m_learners[i] = std::make_shared<Estimator>(estimator);
+                    this->addLearner(std::make_shared<Estimator>(estimator));
                 }
             }
 
diff --git a/subprojects/ufjfmltk-ensemble/include/ufjfmltk/ensemble/Ensemble.hpp b/subprojects/ufjfmltk-ensemble/include/ufjfmltk/ensemble/Ensemble.hpp
index 02a38a1..51d14b6 100755
--- a/subprojects/ufjfmltk-ensemble/include/ufjfmltk/ensemble/Ensemble.hpp
+++ b/subprojects/ufjfmltk-ensemble/include/ufjfmltk/ensemble/Ensemble.hpp
@@ -4,6 +4,8 @@
 
 #pragma once
 
+#include <functional>
+#include <typeinfo>
 #include <ufjfmltk/core/Learner.hpp>
 #include <ufjfmltk/classifier/Classifier.hpp>
 
@@ -22,8 +24,45 @@ namespace ensemble{
             std::vector< LearnerPointer< T > > m_learners;
             /// Ensemble solution.
             Solution solution;
+            /// Copies each learner of the ensemble; the learners given as pointers stay shared between copies.
+            std::vector< std::function<LearnerPointer< T >(const LearnerPointer< T >&)> > m_copiers;
+
+            /// Adds a learner that belongs to the ensemble.
+            template<class Estimator>
+            void addLearner(std::shared_ptr<Estimator> learner) {
+                this->m_learners.push_back(learner);
+                this->m_copiers.push_back([](const LearnerPointer< T > &other) -> LearnerPointer< T > {
+                    if (!other || typeid(*other) != typeid(Estimator)) return other;
+                    return std::make_shared<Estimator>(dynamic_cast<const Estimator &>(*other));
+                });
+            }
+
+            void clearLearners() {
+                this->m_learners.clear();
+                this->m_copiers.clear();
+            }
+
+            void copyLearners(const Ensemble< T > &ensemble) {
+                std::vector< LearnerPointer< T > > copies(ensemble.m_learners);
+                for (size_t i = 0; i < copies.size() && i < ensemble.m_copiers.size(); i++) {
+                    copies[i] = ensemble.m_copiers[i](copies[i]);
+                }
+                this->m_learners = copies;
+                this->m_copiers = ensemble.m_copiers;
+            }
         public:
             Ensemble() = default;
+            Ensemble(const Ensemble< T > &ensemble): Learner< T > (ensemble), c_size(ensemble.c_size), solution(ensemble.solution) {
+                this->copyLearners(ensemble);
+            }
+            Ensemble< T > &operator=(const Ensemble< T > &ensemble) {
+                if (this == &ensemble) return *this;
+                Learner< T >::operator=(ensemble);
+                this->c_size = ensemble.c_size;
+                this->solution = ensemble.solution;
+                this->copyLearners(ensemble);
+                return *this;
+            }
             explicit Ensemble(DataPointer< T > samples): Learner< T > (samples) {}
             /*********************************************
              *               Getters                     *
diff --git a/subprojects/ufjfmltk-ensemble/include/ufjfmltk/ensemble/PerceptronCommittee.hpp b/subprojects/ufjfmltk-ensemble/include/ufjfmltk/ensemble/PerceptronCommittee.hpp
index cf1a9ea..8313f6f 100755
--- a/subprojects/ufjfmltk-ensemble/include/ufjfmltk/ensemble/PerceptronCommittee.hpp
+++ b/subprojects/ufjfmltk-ensemble/include/ufjfmltk/ensemble/PerceptronCommittee.hpp
@@ -18,9 +18,9 @@ namespace mltk{
             }
 
             bool train() override {
-                this->m_learners.resize(n);
+                this->clearLearners();
                 for (size_t i = 0; i < n; i++) {
-                    this->m_learners[i] = std::make_shared<classifier::BalancedPerceptron<T>>();
+                    this->addLearner(std::make_shared<classifier::BalancedPerceptron<T>>());
                     if (this->seed != 0) this->m_learners[i]->setSeed(this->seed + i);
                     this->m_learners[i]->setSamples(this->samples);
                     this->m_learners[i]->train();
diff --git a/subprojects/ufjfmltk-ensemble/include/ufjfmltk/ensemble/VotingClassifier.hpp b/subprojects/ufjfmltk-ensemble/include/ufjfmltk/ensemble/VotingClassifier.hpp
index e0a961c..115598d 100755
--- a/subprojects/ufjfmltk-ensemble/include/ufjfmltk/ensemble/VotingClassifier.hpp
+++ b/subprojects/ufjfmltk-ensemble/include/ufjfmltk/ensemble/VotingClassifier.hpp
@@ -22,7 +22,7 @@ namespace mltk{
             VotingClassifier(Data<T> &samples, const std::string &voting_type,
                 Learners... weak_learners): voting_type(voting_type) {
                 this->samples = std::make_shared<Data<T> >(samples);
-                this->m_learners = {std::make_shared<Learners>(std::forward<Learners>(weak_learners))...};
+                (this->addLearner(std::make_shared<Learners>(std::forward<Learners>(weak_learners))), ...);
             }
 
             bool train() override {
@@ -68,6 +68,7 @@ namespace mltk{
             void setVotingType(const std::string& vote_type){ this->voting_type = vote_type; }
 
             void setLearners(std::vector<LearnerPointer<T>>& m_learners){
+                this->m_copiers.clear();
                 this->m_learners = m_learners;
             }
 
@@ -76,7 +77,7 @@ namespace mltk{
             }
 
             VotingClassifier<T>& operator=(VotingClassifier<T> const& voter){
-                this->m_learners = voter.m_learners;
+                this->copyLearners(voter);
                 this->weights = voter.weights;
                 this->samples = voter.samples;
                 this->voting_type = voter.voting_type;
-- 
2.43.0


From aaaa7fc6432e68add91d05ee0b7df43916705f78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:20:02 +0000
Subject: [PATCH 137/139] fix: copy a one versus one wrapper instead of
 wrapping it endlessly

---
 .../include/ufjfmltk/classifier/OneVsOne.hpp                 | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/OneVsOne.hpp b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/OneVsOne.hpp
index f6ef5fb..de46be8 100755
--- a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/OneVsOne.hpp
+++ b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/OneVsOne.hpp
@@ -39,6 +39,11 @@ namespace mltk{
         public:
             OneVsOne() = default;
 
+            OneVsOne(const OneVsOne<T> &) = default;
+
+            /// Copies the wrapper, instead of wrapping it as the base classifier.
+            OneVsOne(OneVsOne<T> &wrapper) : OneVsOne(static_cast<const OneVsOne<T> &>(wrapper)) {}
+
             template<template<typename> class ClassifierType>
             OneVsOne(const Data<T> &samples, ClassifierType<T> &classifier, OverSampling<T> *samp_method = nullptr,
                      int _verbose = 0) {
-- 
2.43.0


From 4e197a5b60c329dd1ac03e56e10756445da46952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:23:00 +0000
Subject: [PATCH 138/139] fix: keep the weights of a primal classifier in its
 copies

---
 .../include/ufjfmltk/classifier/PrimalClassifier.hpp             | 1 +
 1 file changed, 1 insertion(+)

diff --git a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/PrimalClassifier.hpp b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/PrimalClassifier.hpp
index 20c5e84..0e48551 100755
--- a/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/PrimalClassifier.hpp
+++ b/subprojects/ufjfmltk-classifier/include/ufjfmltk/classifier/PrimalClassifier.hpp
@@ -33,6 +33,7 @@ namespace mltk{
                 }
                 PrimalClassifier<T>(const PrimalClassifier<T> &primal_learner)
                         : Classifier<T>(primal_learner) {
+                    this->w = primal_learner.w;
                     this->q = primal_learner.q;
                     this->p = primal_learner.p;
                     this->flexible = primal_learner.flexible;
-- 
2.43.0


From b39936cc4fe2c53b30100633a1f06766b3e9c906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:28:48 +0000
Subject: [PATCH 139/139] fix: assign the settings of a voting classifier with
 its learners

---
 .../include/ufjfmltk/ensemble/VotingClassifier.hpp            | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/subprojects/ufjfmltk-ensemble/include/ufjfmltk/ensemble/VotingClassifier.hpp b/subprojects/ufjfmltk-ensemble/include/ufjfmltk/ensemble/VotingClassifier.hpp
index 115598d..7cf1755 100755
--- a/subprojects/ufjfmltk-ensemble/include/ufjfmltk/ensemble/VotingClassifier.hpp
+++ b/subprojects/ufjfmltk-ensemble/include/ufjfmltk/ensemble/VotingClassifier.hpp
@@ -77,9 +77,9 @@ namespace mltk{
             }
 
             VotingClassifier<T>& operator=(VotingClassifier<T> const& voter){
-                this->copyLearners(voter);
+                Ensemble<T>::operator=(voter);
+                classifier::Classifier<T>::operator=(voter);
                 this->weights = voter.weights;
-                this->samples = voter.samples;
                 this->voting_type = voter.voting_type;
                 return *this;
             }
-- 
2.43.0

