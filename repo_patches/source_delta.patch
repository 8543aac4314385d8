From 7518f74e6c45d234de12c1a3c137ee2a879d91d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:00 +0000
Subject: [PATCH 01/48] fix: Kronecker deltas of arithmetic indices use
 std::to_string

The unqualified call is not found by argument dependent lookup, so every
operator mixing symbolic and arithmetic indices failed to compile.
---
 include/ieompp/algebra/kronecker.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ieompp/algebra/kronecker.hpp b/include/ieompp/algebra/kronecker.hpp
index bab6c61..1b2bac2 100644
--- a/include/ieompp/algebra/kronecker.hpp
+++ b/include/ieompp/algebra/kronecker.hpp
@@ -46,7 +46,7 @@ namespace ieompp
         typename std::enable_if<std::is_arithmetic<IndexType>::value, Kronecker>::type
         make_kronecker(const IndexType& a, const IndexType& b)
         {
-            return Kronecker{to_string(a), to_string(b)};
+            return Kronecker{std::to_string(a), std::to_string(b)};
         }
     } // namespace algebra
 } // namespace ieompp
-- 
2.43.0


From bf7cf353fb14fcdbb2fd09c5fe881baea684975a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:00 +0000
Subject: [PATCH 02/48] fix: kronecker functions in the header are inline

---
 include/ieompp/algebra/kronecker.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/ieompp/algebra/kronecker.hpp b/include/ieompp/algebra/kronecker.hpp
index 1b2bac2..d4fdec3 100644
--- a/include/ieompp/algebra/kronecker.hpp
+++ b/include/ieompp/algebra/kronecker.hpp
@@ -4,6 +4,7 @@
 #include <ostream>
 #include <string>
 #include <type_traits>
+#include <utility>
 
 namespace ieompp
 {
@@ -31,13 +32,13 @@ namespace ieompp
             }
         };
 
-        std::ostream& operator<<(std::ostream& strm, const Kronecker& kronecker)
+        inline std::ostream& operator<<(std::ostream& strm, const Kronecker& kronecker)
         {
             strm << u8"δ_{" << kronecker.a << "," << kronecker.b << "}";
             return strm;
         }
 
-        Kronecker make_kronecker(const std::string& a, const std::string& b)
+        inline Kronecker make_kronecker(const std::string& a, const std::string& b)
         {
             return Kronecker{a, b};
         }
-- 
2.43.0


From c8f65c5b2e63d93cd7c8f1f0dd00c47beec1f9ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:00 +0000
Subject: [PATCH 03/48] fix: multiplying a monomial by itself in place

Appending to the range that is being copied invalidated its iterators.
---
 include/ieompp/algebra/monomial/monomial.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/ieompp/algebra/monomial/monomial.hpp b/include/ieompp/algebra/monomial/monomial.hpp
index b54cac3..c5b6f83 100644
--- a/include/ieompp/algebra/monomial/monomial.hpp
+++ b/include/ieompp/algebra/monomial/monomial.hpp
@@ -2,6 +2,7 @@
 #define IEOMPP_ALGEBRA_MONOMIAL_MONOMIAL_HPP_
 
 #include <algorithm>
+#include <iterator>
 #include <vector>
 
 namespace ieompp
@@ -69,7 +70,9 @@ namespace ieompp
 
             Monomial& operator*=(const Monomial& rhs)
             {
-                std::copy(rhs.begin(), rhs.end(), std::back_inserter(*this));
+                const auto n = rhs.size();
+                this->reserve(this->size() + n);
+                std::copy_n(rhs.begin(), n, std::back_inserter(*this));
                 return *this;
             }
 
-- 
2.43.0


From a7a8e0d45f67123b2bdc9f1a71a3404c105ad4a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:00 +0000
Subject: [PATCH 04/48] fix: multiplying a term by itself in place

---
 include/ieompp/algebra/term/term.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/ieompp/algebra/term/term.hpp b/include/ieompp/algebra/term/term.hpp
index 31185e1..1f295ce 100644
--- a/include/ieompp/algebra/term/term.hpp
+++ b/include/ieompp/algebra/term/term.hpp
@@ -4,6 +4,10 @@
 #include "ieompp/types/number.hpp"
 
 #include <algorithm>
+#include <initializer_list>
+#include <iterator>
+#include <type_traits>
+#include <utility>
 #include <vector>
 
 namespace ieompp
@@ -50,8 +54,9 @@ namespace ieompp
 
             Term& operator*=(const Term& rhs)
             {
+                const Container rhs_operators(rhs.operators);
                 prefactor *= rhs.prefactor;
-                std::copy(rhs.operators.begin(), rhs.operators.end(),
+                std::copy(rhs_operators.begin(), rhs_operators.end(),
                           std::back_inserter(operators));
                 return *this;
             }
-- 
2.43.0


From 5ecd113e11d8e30a76995aa7e61cce9c371823a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:00 +0000
Subject: [PATCH 05/48] fix: Term::conjugate iterates over the operators of the
 term

---
 include/ieompp/algebra/term/term.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ieompp/algebra/term/term.hpp b/include/ieompp/algebra/term/term.hpp
index 1f295ce..f25061f 100644
--- a/include/ieompp/algebra/term/term.hpp
+++ b/include/ieompp/algebra/term/term.hpp
@@ -28,7 +28,7 @@ namespace ieompp
             {
                 prefactor = types::conjugate(prefactor);
                 std::reverse(operators.begin(), operators.end());
-                for(auto& op : *this) {
+                for(auto& op : operators) {
                     op.conjugate();
                 }
             }
-- 
2.43.0


From 5ffad7d9eb8b0cb8806ba23b2b3016a54c9ef5f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:00 +0000
Subject: [PATCH 06/48] fix: copy_as_unique_terms calls the existing comparison
 of terms

---
 include/ieompp/algebra/term/list.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/ieompp/algebra/term/list.hpp b/include/ieompp/algebra/term/list.hpp
index 4e82522..e5970ab 100644
--- a/include/ieompp/algebra/term/list.hpp
+++ b/include/ieompp/algebra/term/list.hpp
@@ -4,7 +4,7 @@
 #include "ieompp/algebra/term/order.hpp"
 
 #include <algorithm>
-#include <functional>
+#include <iterator>
 #include <list>
 
 namespace ieompp
@@ -24,7 +24,7 @@ namespace ieompp
                     lst.push_back(t);
                     continue;
                 }
-                if(pos->same_operators(t)) {
+                if(pos->have_same_operators(t)) {
                     pos->prefactor += t.prefactor;
                 } else {
                     lst.insert(pos, t);
-- 
2.43.0


From 87e2fd4cdc6aa660807640ff3a709d3affff87ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:00 +0000
Subject: [PATCH 07/48] fix: total_spin names the existing member of IndexType

---
 include/ieompp/algebra/term/checks.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ieompp/algebra/term/checks.hpp b/include/ieompp/algebra/term/checks.hpp
index 8885670..e0797f7 100644
--- a/include/ieompp/algebra/term/checks.hpp
+++ b/include/ieompp/algebra/term/checks.hpp
@@ -31,7 +31,7 @@ namespace ieompp
         int total_spin(const Term& t)
         {
             static_assert(
-                std::is_same<typename IndexType<Index, typename Term::Operator>::type, bool>::value,
+                std::is_same<typename IndexType<Index, typename Term::Operator>::Type, bool>::value,
                 "spin index must be a boolean");
 
             int spin = 0;
-- 
2.43.0


From 915bc9b020ef3220dfb5d11bb2a5c94c837b9950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:00 +0000
Subject: [PATCH 08/48] fix: printing of empty monomials and terms

---
 include/ieompp/algebra/monomial/io.hpp | 4 ++++
 include/ieompp/algebra/term/io.hpp     | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/include/ieompp/algebra/monomial/io.hpp b/include/ieompp/algebra/monomial/io.hpp
index 56dce2b..80c6d42 100644
--- a/include/ieompp/algebra/monomial/io.hpp
+++ b/include/ieompp/algebra/monomial/io.hpp
@@ -3,6 +3,7 @@
 
 #include "ieompp/algebra/monomial/monomial.hpp"
 
+#include <algorithm>
 #include <iterator>
 #include <ostream>
 
@@ -13,6 +14,9 @@ namespace ieompp
         template <typename Operator>
         std::ostream& operator<<(std::ostream& strm, const Monomial<Operator>& monomial)
         {
+            if(monomial.empty()) {
+                return strm;
+            }
             std::copy(monomial.begin(), --monomial.end(),
                       std::ostream_iterator<Operator>(strm, " "));
             strm << monomial.back();
diff --git a/include/ieompp/algebra/term/io.hpp b/include/ieompp/algebra/term/io.hpp
index c1c5d09..4dbf35a 100644
--- a/include/ieompp/algebra/term/io.hpp
+++ b/include/ieompp/algebra/term/io.hpp
@@ -3,6 +3,7 @@
 
 #include "ieompp/algebra/term/term.hpp"
 
+#include <algorithm>
 #include <iterator>
 #include <ostream>
 
@@ -14,6 +15,9 @@ namespace ieompp
         std::ostream& operator<<(std::ostream& strm, const Term<Prefactor, Operator, Container>& t)
         {
             strm << t.prefactor << u8" ⋅ ";
+            if(t.operators.empty()) {
+                return strm;
+            }
             std::copy(t.operators.begin(), --t.operators.end(),
                       std::ostream_iterator<Operator>(strm, " "));
             strm << t.operators.back();
-- 
2.43.0


From 23020286cb3d896757ac9eb50172f50fbe883ab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:00 +0000
Subject: [PATCH 09/48] fix: ordering of Kronecker deltas is a strict weak
 order

---
 include/ieompp/symbolic/prefactor.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ieompp/symbolic/prefactor.hpp b/include/ieompp/symbolic/prefactor.hpp
index 3d26ea4..278f6be 100644
--- a/include/ieompp/symbolic/prefactor.hpp
+++ b/include/ieompp/symbolic/prefactor.hpp
@@ -69,7 +69,7 @@ namespace ieompp
                               if(a.a < b.a) {
                                   return true;
                               }
-                              if(a.b > b.a) {
+                              if(a.a > b.a) {
                                   return false;
                               }
                               return a.b < b.b;
-- 
2.43.0


From 2521ac704914fe41dbdd56b2fc2333def9cb0951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:00 +0000
Subject: [PATCH 10/48] fix: multiplying a symbolic prefactor by itself in
 place

---
 include/ieompp/symbolic/prefactor.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/ieompp/symbolic/prefactor.hpp b/include/ieompp/symbolic/prefactor.hpp
index 278f6be..98bc97f 100644
--- a/include/ieompp/symbolic/prefactor.hpp
+++ b/include/ieompp/symbolic/prefactor.hpp
@@ -30,15 +30,18 @@ namespace ieompp
 
             Prefactor& operator*=(const std::vector<Kronecker>& rhs)
             {
-                std::copy(rhs.begin(), rhs.end(), std::back_inserter(kroneckers));
+                const auto n = rhs.size();
+                kroneckers.reserve(kroneckers.size() + n);
+                std::copy_n(rhs.begin(), n, std::back_inserter(kroneckers));
                 return *this;
             }
 
             template <typename Value_, typename Container_>
             Prefactor& operator*=(const Prefactor<Value_, Container_>& rhs)
             {
-                std::copy(rhs.kroneckers.begin(), rhs.kroneckers.end(),
-                          std::back_inserter(kroneckers));
+                const auto n = rhs.kroneckers.size();
+                kroneckers.reserve(kroneckers.size() + n);
+                std::copy_n(rhs.kroneckers.begin(), n, std::back_inserter(kroneckers));
                 value *= rhs.value;
 
                 return *this;
-- 
2.43.0


From 076233b03928e5a20b0adcf7ea0b68acaca64d2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:00 +0000
Subject: [PATCH 11/48] fix: print_tuple prints every element once

---
 include/ieompp/tuple.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ieompp/tuple.hpp b/include/ieompp/tuple.hpp
index 55cf820..35b4df1 100644
--- a/include/ieompp/tuple.hpp
+++ b/include/ieompp/tuple.hpp
@@ -13,7 +13,7 @@ namespace ieompp
         struct TuplePrinter {
             static void print(std::ostream& strm, const Tuple& t, const std::string& delimiter)
             {
-                strm << std::get<N>(t) << delimiter;
+                strm << std::get<I>(t) << delimiter;
                 TuplePrinter<Tuple, I + 1, N>::print(strm, t, delimiter);
             }
         };
-- 
2.43.0


From c0a561a3488c5f67bfc6772221fb921b8af86e1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:00 +0000
Subject: [PATCH 12/48] fix: specialised constructors of symbolic indices are
 inline

---
 include/ieompp/symbolic/index.hpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/include/ieompp/symbolic/index.hpp b/include/ieompp/symbolic/index.hpp
index 827fb2b..82578ad 100644
--- a/include/ieompp/symbolic/index.hpp
+++ b/include/ieompp/symbolic/index.hpp
@@ -1,6 +1,7 @@
 #ifndef IEOMPP_SYMBOLIC_INDEX_HPP_
 #define IEOMPP_SYMBOLIC_INDEX_HPP_
 
+#include <ostream>
 #include <sstream>
 #include <string>
 
@@ -29,17 +30,17 @@ namespace ieompp
         };
 
         template <>
-        Index<IndexTypeSpace>::Index() : index("r")
+        inline Index<IndexTypeSpace>::Index() : index("r")
         {
         }
 
         template <>
-        Index<IndexTypeMomentum>::Index() : index("k")
+        inline Index<IndexTypeMomentum>::Index() : index("k")
         {
         }
 
         template <>
-        Index<IndexTypeSpin>::Index() : index(u8"σ")
+        inline Index<IndexTypeSpin>::Index() : index(u8"σ")
         {
         }
 
@@ -49,17 +50,17 @@ namespace ieompp
         }
 
         template <>
-        Index<IndexTypeSpace>::Index(int i) : index("r_" + std::to_string(i))
+        inline Index<IndexTypeSpace>::Index(int i) : index("r_" + std::to_string(i))
         {
         }
 
         template <>
-        Index<IndexTypeMomentum>::Index(int i) : index("k_" + std::to_string(i))
+        inline Index<IndexTypeMomentum>::Index(int i) : index("k_" + std::to_string(i))
         {
         }
 
         template <>
-        Index<IndexTypeSpin>::Index(int i) : index(u8"σ_" + std::to_string(i))
+        inline Index<IndexTypeSpin>::Index(int i) : index(u8"σ_" + std::to_string(i))
         {
         }
 
-- 
2.43.0


From cb715b927fc596eba2133ee4d5a7dac32342286c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:52 +0000
Subject: [PATCH 13/48] fix: total_momentum works for every vector type of the
 lattices

---
 include/ieompp/algebra/term/checks.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ieompp/algebra/term/checks.hpp b/include/ieompp/algebra/term/checks.hpp
index e0797f7..7ce5f80 100644
--- a/include/ieompp/algebra/term/checks.hpp
+++ b/include/ieompp/algebra/term/checks.hpp
@@ -16,7 +16,7 @@ namespace ieompp
                                                        const Discretization& momentum_space)
         {
             auto momentum = momentum_space.lattice_vectors()[0];
-            momentum.setZero();
+            momentum -= momentum_space.lattice_vectors()[0];
             for(auto& op : t.operators) {
                 if(op.creator) {
                     momentum += momentum_space[get_index<Index>(op)];
-- 
2.43.0


From 4658cd35e20e16a57251f2977cc0c0e694cf38ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:50 +0000
Subject: [PATCH 14/48] fix: subtracting from an integer iterator in place

---
 include/ieompp/iterators/integer_iterator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ieompp/iterators/integer_iterator.hpp b/include/ieompp/iterators/integer_iterator.hpp
index 351d4c1..94a350c 100644
--- a/include/ieompp/iterators/integer_iterator.hpp
+++ b/include/ieompp/iterators/integer_iterator.hpp
@@ -149,7 +149,7 @@ namespace ieompp
         inline IntegerIterator<T, const_iterator>& IntegerIterator<T, const_iterator>::
         operator-=(const typename IntegerIterator<T, const_iterator>::difference_type& diff)
         {
-            _val += diff;
+            _val -= diff;
             return *this;
         }
 
-- 
2.43.0


From bd048e10caa648a396290a725b23fb54c59b6914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:50 +0000
Subject: [PATCH 15/48] fix: postfix operators of integer iterators return the
 old value

---
 include/ieompp/iterators/integer_iterator.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/ieompp/iterators/integer_iterator.hpp b/include/ieompp/iterators/integer_iterator.hpp
index 94a350c..bd26bfc 100644
--- a/include/ieompp/iterators/integer_iterator.hpp
+++ b/include/ieompp/iterators/integer_iterator.hpp
@@ -52,9 +52,9 @@ namespace ieompp
             reference operator*();
             value_type operator[](const difference_type& diff);
             reference operator++();
-            reference operator++(int);
+            value_type operator++(int);
             reference operator--();
-            reference operator--(int);
+            value_type operator--(int);
             IntegerIterator& operator+=(const difference_type& diff);
             IntegerIterator& operator-=(const difference_type& diff);
             IntegerIterator operator+(const difference_type& diff) const;
@@ -117,7 +117,7 @@ namespace ieompp
         }
 
         template <typename T, bool const_iterator>
-        inline typename IntegerIterator<T, const_iterator>::reference
+        inline typename IntegerIterator<T, const_iterator>::value_type
             IntegerIterator<T, const_iterator>::operator++(int)
         {
             return _val++;
@@ -131,7 +131,7 @@ namespace ieompp
         }
 
         template <typename T, bool const_iterator>
-        inline typename IntegerIterator<T, const_iterator>::reference
+        inline typename IntegerIterator<T, const_iterator>::value_type
             IntegerIterator<T, const_iterator>::operator--(int)
         {
             return _val--;
-- 
2.43.0


From a24a1e98456d64be6a4881c0146065b6c84f814f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:03 +0000
Subject: [PATCH 16/48] fix: the operators taking a distance first are friends
 of integer iterators

---
 include/ieompp/iterators/integer_iterator.hpp | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/include/ieompp/iterators/integer_iterator.hpp b/include/ieompp/iterators/integer_iterator.hpp
index bd26bfc..1922f33 100644
--- a/include/ieompp/iterators/integer_iterator.hpp
+++ b/include/ieompp/iterators/integer_iterator.hpp
@@ -31,13 +31,15 @@ namespace ieompp
             using pointer           = typename use_first<const T*, T*, const_iterator>::type;
             using reference         = typename use_first<const T&, T&, const_iterator>::type;
 
-            template <typename T_>
-            friend IntegerIterator<T_, const_iterator>
-            operator+(const IntegerIterator<T_, const_iterator>&, const difference_type&);
-
-            template <typename T_>
-            friend IntegerIterator<T_, const_iterator>
-            operator-(const IntegerIterator<T_, const_iterator>&, const difference_type&);
+            template <typename T_, bool const_>
+            friend IntegerIterator<T_, const_>
+            operator+(const typename IntegerIterator<T_, const_>::difference_type&,
+                      const IntegerIterator<T_, const_>&);
+
+            template <typename T_, bool const_>
+            friend IntegerIterator<T_, const_>
+            operator-(const typename IntegerIterator<T_, const_>::difference_type&,
+                      const IntegerIterator<T_, const_>&);
 
         private:
             value_type _val;
-- 
2.43.0


From 2611f01f8ef6ccd8dce891ca12a83d3e153262f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:03 +0000
Subject: [PATCH 17/48] fix: HasIndexOfType looks at existing indices only

---
 include/ieompp/algebra/operator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ieompp/algebra/operator.hpp b/include/ieompp/algebra/operator.hpp
index 75ecd3c..e863a1c 100644
--- a/include/ieompp/algebra/operator.hpp
+++ b/include/ieompp/algebra/operator.hpp
@@ -32,7 +32,7 @@ namespace ieompp
             static_assert(IsOperator<Op>::value, "Operator must be an operator");
 
             static constexpr bool value =
-                detail::HasIndexOfTypeHelper<Op, T, 0, Op::number_of_indices>::value;
+                detail::HasIndexOfTypeHelper<Op, T, 0, Op::number_of_indices - 1>::value;
         };
     } // namespace algebra
 } // namespace ieompp
-- 
2.43.0


From 45d687963f29deac9cdf80bf1d3bbcac6ae076ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:03 +0000
Subject: [PATCH 18/48] fix: triplet lists may be empty and drop vanishing last
 entries

---
 include/ieompp/types/triplet.hpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/ieompp/types/triplet.hpp b/include/ieompp/types/triplet.hpp
index bbd9178..72c6faf 100644
--- a/include/ieompp/types/triplet.hpp
+++ b/include/ieompp/types/triplet.hpp
@@ -34,6 +34,9 @@ namespace ieompp
             TripletList make_columns_unique() const
             {
                 TripletList filtered;
+                if(this->empty()) {
+                    return filtered;
+                }
                 filtered.reserve(this->size());
 
                 auto triplet = this->front();
@@ -47,12 +50,17 @@ namespace ieompp
                         triplet = *it;
                     }
                 }
-                filtered.push_back(triplet);
+                if(!types::IsZero(triplet.value)) {
+                    filtered.push_back(triplet);
+                }
                 return filtered;
             }
 
             bool has_unique_columns() const
             {
+                if(this->empty()) {
+                    return true;
+                }
                 for(auto it = this->begin() + 1; it != this->end(); ++it) {
                     if(it->column == (it - 1)->column) {
                         return false;
-- 
2.43.0


From fd523b33cd9656c2080948d4dcf84b7bbd899128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:03 +0000
Subject: [PATCH 19/48] fix: matrix checks compare with the transposed element
 and use their argument

---
 include/ieompp/types/matrix_check.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/ieompp/types/matrix_check.hpp b/include/ieompp/types/matrix_check.hpp
index 456e94d..c2a0fda 100644
--- a/include/ieompp/types/matrix_check.hpp
+++ b/include/ieompp/types/matrix_check.hpp
@@ -48,7 +48,7 @@ namespace ieompp
             const Index N = MatrixDimensionInfo<Matrix>::rows(m);
             for(Index i = 0; i < N; ++i) {
                 for(Index j = 0; j <= i; ++j) {
-                    if(!IsEqual(m(i, j), conjugate(m(i, j)))) {
+                    if(!IsEqual(m(i, j), conjugate(m(j, i)))) {
                         return false;
                     }
                 }
@@ -65,7 +65,7 @@ namespace ieompp
             const auto cols = MatrixDimensionInfo<Matrix>::columns(m);
             for(Index i = 0; i < rows; ++i) {
                 for(Index j = 0; j < cols; ++j) {
-                    if(!IsZero(t(i, j))) {
+                    if(!IsZero(m(i, j))) {
                         return false;
                     }
                 }
-- 
2.43.0


From 10c3269076fbacd118f4db8ff0900fb153612395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:03 +0000
Subject: [PATCH 20/48] fix: one thread without OpenMP

---
 include/ieompp/openmp.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ieompp/openmp.hpp b/include/ieompp/openmp.hpp
index fc1c895..0cebd1a 100644
--- a/include/ieompp/openmp.hpp
+++ b/include/ieompp/openmp.hpp
@@ -9,7 +9,7 @@
 
 #define omp_get_thread_num() 0
 #define omp_get_max_threads() 1
-#define omp_get_num_threads() 0
+#define omp_get_num_threads() 1
 
 #endif
 
-- 
2.43.0


From 31cdea1bf8e9cebc52e54e7f51ed99473fc5b807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:37 +0000
Subject: [PATCH 21/48] fix: normal ordered coefficients belong to one call of
 the Fermi jump

---
 include/ieompp/models/hubbard_real_space/fermi_jump/1d.hpp | 2 +-
 include/ieompp/models/hubbard_real_space/fermi_jump/2d.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/ieompp/models/hubbard_real_space/fermi_jump/1d.hpp b/include/ieompp/models/hubbard_real_space/fermi_jump/1d.hpp
index 24eee95..7ec57dc 100644
--- a/include/ieompp/models/hubbard_real_space/fermi_jump/1d.hpp
+++ b/include/ieompp/models/hubbard_real_space/fermi_jump/1d.hpp
@@ -121,7 +121,7 @@ namespace ieompp
                 Float operator()(const Vector& h) const
                 {
                     const auto& basis = _basis_ref.get();
-                    static Vector h_NO(basis.N);
+                    Vector h_NO(basis.N);
 
 #pragma omp parallel for
                     for(Index i = 0; i < basis.N; ++i) {
diff --git a/include/ieompp/models/hubbard_real_space/fermi_jump/2d.hpp b/include/ieompp/models/hubbard_real_space/fermi_jump/2d.hpp
index b739c91..961d78c 100644
--- a/include/ieompp/models/hubbard_real_space/fermi_jump/2d.hpp
+++ b/include/ieompp/models/hubbard_real_space/fermi_jump/2d.hpp
@@ -61,7 +61,7 @@ namespace ieompp
                 Float operator()(const Vector& h) const
                 {
                     const auto& basis = _basis_ref.get();
-                    static Vector h_NO(basis.N);
+                    Vector h_NO(basis.N);
 
 #pragma omp parallel for
                     for(Index i = 0; i < basis.N; ++i) {
-- 
2.43.0


From 40fffb553f3e360a6fcf410a91930a18a5ad0787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:37 +0000
Subject: [PATCH 22/48] fix: tables of Fourier coefficients contain their
 elements

---
 include/ieompp/models/hubbard_real_space/fermi_jump/1d.hpp | 2 +-
 include/ieompp/models/hubbard_real_space/fermi_jump_no.hpp | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/ieompp/models/hubbard_real_space/fermi_jump/1d.hpp b/include/ieompp/models/hubbard_real_space/fermi_jump/1d.hpp
index 7ec57dc..e16ef72 100644
--- a/include/ieompp/models/hubbard_real_space/fermi_jump/1d.hpp
+++ b/include/ieompp/models/hubbard_real_space/fermi_jump/1d.hpp
@@ -45,7 +45,7 @@ namespace ieompp
                 FermiJump1D(const Lattice& lattice, ExpectationValueFunction expectation_value, const Float& k_F)
                     : _N(lattice.size()), _expectation_value(std::move(expectation_value))
                 {
-                    _fourier_coefficients.reserve(_N);
+                    _fourier_coefficients.resize(_N);
 
 #pragma omp parallel for
                     for(Index i = 0; i < _N; ++i) {
diff --git a/include/ieompp/models/hubbard_real_space/fermi_jump_no.hpp b/include/ieompp/models/hubbard_real_space/fermi_jump_no.hpp
index 69f7057..05311ad 100644
--- a/include/ieompp/models/hubbard_real_space/fermi_jump_no.hpp
+++ b/include/ieompp/models/hubbard_real_space/fermi_jump_no.hpp
@@ -49,7 +49,7 @@ namespace ieompp
                 {
                     static const auto k_F = HalfPi<double>::value;
 
-                    _fourier_coefficients.reserve(_N);
+                    _fourier_coefficients.resize(_N);
 
 #pragma omp parallel for
                     for(Index i = 0; i < _N; ++i) {
@@ -107,7 +107,7 @@ namespace ieompp
                 {
                     static const auto k_F = HalfPi<double>::value;
 
-                    _fourier_coefficients.reserve(_N);
+                    _fourier_coefficients.resize(_N);
 
 #pragma omp parallel for
                     for(Index i = 0; i < _N; ++i) {
-- 
2.43.0


From 959c762a5d3499d9b717bcc24910f537157e2710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:37 +0000
Subject: [PATCH 23/48] fix: intermediate vectors of a time step belong to one
 call

---
 include/ieompp/ode/rk4.hpp                     | 4 ++--
 include/ieompp/types/blaze/multiply_assign.hpp | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/ieompp/ode/rk4.hpp b/include/ieompp/ode/rk4.hpp
index fbe14f6..a9ee59f 100644
--- a/include/ieompp/ode/rk4.hpp
+++ b/include/ieompp/ode/rk4.hpp
@@ -38,7 +38,7 @@ namespace ieompp
                 assert(types::MatrixDimensionInfo<Vector>::columns(u) == 1);
                 assert(types::MatrixDimensionInfo<Vector>::rows(u) == _dimension);
 
-                static Vector k_1, k_2, k_3, k_4;
+                Vector k_1, k_2, k_3, k_4;
 
                 k_1 = m * u;
                 k_2 = m * (u + (_step_size / 2) * k_1);
@@ -56,7 +56,7 @@ namespace ieompp
                 assert(types::MatrixDimensionInfo<Vector>::columns(u) == 1);
                 assert(types::MatrixDimensionInfo<Vector>::rows(u) == _dimension);
 
-                static Vector k_1, k_2, k_3, k_4;
+                Vector k_1, k_2, k_3, k_4;
 
                 k_1 = u;
                 types::multiply_assign(m, k_1);
diff --git a/include/ieompp/types/blaze/multiply_assign.hpp b/include/ieompp/types/blaze/multiply_assign.hpp
index 52ccee7..222e57e 100644
--- a/include/ieompp/types/blaze/multiply_assign.hpp
+++ b/include/ieompp/types/blaze/multiply_assign.hpp
@@ -20,7 +20,7 @@ namespace ieompp
 
             const Index rows = matrix.rows();
 
-            static blaze::DynamicVector<Scalar, blaze::columnVector> temp;
+            blaze::DynamicVector<Scalar, blaze::columnVector> temp;
             temp.resize(rows, false);
             temp.reset();
 
-- 
2.43.0


From 2cf43c51f36e1ecb94d970dcd547c78aac20c1d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:37 +0000
Subject: [PATCH 24/48] fix: sites of rectangular lattices are numbered
 consistently

---
 .../ieompp/lattices/periodic_square_lattice.hpp  | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/ieompp/lattices/periodic_square_lattice.hpp b/include/ieompp/lattices/periodic_square_lattice.hpp
index 91bbbef..1f77c00 100644
--- a/include/ieompp/lattices/periodic_square_lattice.hpp
+++ b/include/ieompp/lattices/periodic_square_lattice.hpp
@@ -114,26 +114,26 @@ namespace ieompp
         template <typename Float, typename Index>
         Index PeriodicSquareLattice<Float, Index>::index(const Index& x, const Index& y) const
         {
-            return x * _size_x + y;
+            return x * _size_y + y;
         }
 
         template <typename Float, typename Index>
         Index PeriodicSquareLattice<Float, Index>::x_index(const Index& i) const
         {
-            return i / _size_x;
+            return i / _size_y;
         }
 
         template <typename Float, typename Index>
         Index PeriodicSquareLattice<Float, Index>::y_index(const Index& i) const
         {
-            return i % _size_x;
+            return i % _size_y;
         }
 
         template <typename Float, typename Index>
         std::array<Index, 4> PeriodicSquareLattice<Float, Index>::neighbors(const Index& idx) const
         {
             const auto i = idx / _size_y;
-            const auto j = idx % _size_x;
+            const auto j = idx % _size_y;
             return std::array<Index, 4>{{index((i == 0) ? _size_x - 1 : i - 1, j),
                                          index(i, (j == 0) ? _size_y - 1 : j - 1),
                                          index((i == _size_x - 1) ? 0 : i + 1, j),
@@ -145,7 +145,7 @@ namespace ieompp
         PeriodicSquareLattice<Float, Index>::unique_neighbors(const Index& idx) const
         {
             const auto i = idx / _size_y;
-            const auto j = idx % _size_x;
+            const auto j = idx % _size_y;
             return std::array<Index, 2>{{index((i == _size_x - 1) ? 0 : i + 1, j),
                                          index(i, (j == _size_y - 1) ? 0 : j + 1)}};
         }
@@ -353,8 +353,8 @@ namespace ieompp
                                 typename PeriodicSquareLattice<Float, Index>::Vector>::type
             PeriodicSquareLattice<Float, Index>::operator[](const IndexT& idx) const
         {
-            const Index i = idx / _size_x;
-            const Index j = idx % _size_x;
+            const Index i = idx / _size_y;
+            const Index j = idx % _size_y;
             return Vector{_x_min + i * _dx, _y_min + j * _dy};
         }
 
@@ -376,7 +376,7 @@ namespace ieompp
             }
             const auto i = Index(std::round((v[0] - _x_min) / _dx));
             const auto j = Index(std::round((v[1] - _y_min) / _dy));
-            return i * _size_x + j;
+            return i * _size_y + j;
         }
     } // namespace lattices
 } // namespace ieompp
-- 
2.43.0


From 13902b9c161644253b9eb03c18f4cbf10c31487c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:37 +0000
Subject: [PATCH 25/48] fix: coordinates on the upper border belong to the
 first site of the square lattice

---
 include/ieompp/lattices/periodic_square_lattice.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/ieompp/lattices/periodic_square_lattice.hpp b/include/ieompp/lattices/periodic_square_lattice.hpp
index 1f77c00..1b3d019 100644
--- a/include/ieompp/lattices/periodic_square_lattice.hpp
+++ b/include/ieompp/lattices/periodic_square_lattice.hpp
@@ -374,8 +374,8 @@ namespace ieompp
             while(v[1] > _y_max) {
                 v[1] -= _y_length;
             }
-            const auto i = Index(std::round((v[0] - _x_min) / _dx));
-            const auto j = Index(std::round((v[1] - _y_min) / _dy));
+            const auto i = Index(std::round((v[0] - _x_min) / _dx)) % _size_x;
+            const auto j = Index(std::round((v[1] - _y_min) / _dy)) % _size_y;
             return i * _size_y + j;
         }
     } // namespace lattices
-- 
2.43.0


From 5e468ecc659b1987b246e175fa148bcb47c3d300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:37 +0000
Subject: [PATCH 26/48] fix: coordinates between the last and the first site
 are not wrapped below the lattice

---
 include/ieompp/lattices/periodic_chain.hpp          | 2 +-
 include/ieompp/lattices/periodic_square_lattice.hpp | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/ieompp/lattices/periodic_chain.hpp b/include/ieompp/lattices/periodic_chain.hpp
index 3b88057..acb8de7 100644
--- a/include/ieompp/lattices/periodic_chain.hpp
+++ b/include/ieompp/lattices/periodic_chain.hpp
@@ -249,7 +249,7 @@ namespace ieompp
             while(v < _x_min) {
                 v += _x_length;
             }
-            while(v > _x_max) {
+            while(v > _x_min + _x_length) {
                 v -= _x_length;
             }
             return SiteIndex(std::round((v - _x_min) / _dx)) % _size;
diff --git a/include/ieompp/lattices/periodic_square_lattice.hpp b/include/ieompp/lattices/periodic_square_lattice.hpp
index 1b3d019..779c844 100644
--- a/include/ieompp/lattices/periodic_square_lattice.hpp
+++ b/include/ieompp/lattices/periodic_square_lattice.hpp
@@ -365,13 +365,13 @@ namespace ieompp
             while(v[0] < _x_min) {
                 v[0] += _x_length;
             }
-            while(v[0] > _x_max) {
+            while(v[0] > _x_min + _x_length) {
                 v[0] -= _x_length;
             }
             while(v[1] < _y_min) {
                 v[1] += _y_length;
             }
-            while(v[1] > _y_max) {
+            while(v[1] > _y_min + _y_length) {
                 v[1] -= _y_length;
             }
             const auto i = Index(std::round((v[0] - _x_min) / _dx)) % _size_x;
-- 
2.43.0


From 3ef8c4f000abeef113e420589eceddba88d6fe45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:37 +0000
Subject: [PATCH 27/48] fix: closest site of a coordinate at the upper border
 of momentum space

---
 include/ieompp/lattices/periodic_chain.hpp          | 2 +-
 include/ieompp/lattices/periodic_square_lattice.hpp | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/ieompp/lattices/periodic_chain.hpp b/include/ieompp/lattices/periodic_chain.hpp
index acb8de7..dbfa4e4 100644
--- a/include/ieompp/lattices/periodic_chain.hpp
+++ b/include/ieompp/lattices/periodic_chain.hpp
@@ -110,7 +110,7 @@ namespace ieompp
             while(v < _x_min - dx2) {
                 v += _x_length;
             }
-            while(v > _x_max + dx2) {
+            while(v > _x_min + _x_length - dx2) {
                 v -= _x_length;
             }
             Float min_dist = ((*this)[SiteIndex(0)] - v) * ((*this)[SiteIndex(0)] - v), dist;
diff --git a/include/ieompp/lattices/periodic_square_lattice.hpp b/include/ieompp/lattices/periodic_square_lattice.hpp
index 779c844..b45d570 100644
--- a/include/ieompp/lattices/periodic_square_lattice.hpp
+++ b/include/ieompp/lattices/periodic_square_lattice.hpp
@@ -158,13 +158,13 @@ namespace ieompp
             while(v[0] < _x_min - dx2) {
                 v[0] += _x_length;
             }
-            while(v[0] > _x_max + dx2) {
+            while(v[0] > _x_min + _x_length - dx2) {
                 v[0] -= _x_length;
             }
             while(v[1] < _y_min - dy2) {
                 v[1] += _y_length;
             }
-            while(v[1] > _y_max + dy2) {
+            while(v[1] > _y_min + _y_length - dy2) {
                 v[1] -= _y_length;
             }
             Float min_dist = types::dot_product(v - (*this)[Index(0)], v - (*this)[Index(0)]);
-- 
2.43.0


From b484319d06db10f29e460053bb7533e20939534a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:37 +0000
Subject: [PATCH 28/48] fix: expectation value of two 3-operator monomials gets
 its arguments

---
 include/ieompp/models/hubbard_real_space/site_occupation.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ieompp/models/hubbard_real_space/site_occupation.hpp b/include/ieompp/models/hubbard_real_space/site_occupation.hpp
index 4c6f0dd..c02dd58 100644
--- a/include/ieompp/models/hubbard_real_space/site_occupation.hpp
+++ b/include/ieompp/models/hubbard_real_space/site_occupation.hpp
@@ -234,7 +234,7 @@ namespace ieompp
                     if(b.size() == 1) {
                         return expectation_value_3_1(a, b);
                     }
-                    return expectation_value_3_3();
+                    return expectation_value_3_3(a, b);
                 }
 
                 template <typename Vector>
-- 
2.43.0


From 739f3498ae58db45d34e5a5efe539b3fc8c3b16e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:37 +0000
Subject: [PATCH 29/48] fix: functions defined in library headers are inline

---
 include/ieompp/io/line.hpp  | 4 ++--
 include/ieompp/platform.hpp | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/ieompp/io/line.hpp b/include/ieompp/io/line.hpp
index 5d630a5..7bc1074 100644
--- a/include/ieompp/io/line.hpp
+++ b/include/ieompp/io/line.hpp
@@ -8,13 +8,13 @@ namespace ieompp
 {
     namespace io
     {
-        bool is_skippable_line(const std::string& str)
+        inline bool is_skippable_line(const std::string& str)
         {
             static const std::regex reg(R"(^\s*(?:#.*)?$)");
             return std::regex_match(str, reg);
         }
 
-        std::string next_line(std::istream& strm)
+        inline std::string next_line(std::istream& strm)
         {
             std::string buf;
             do {
diff --git a/include/ieompp/platform.hpp b/include/ieompp/platform.hpp
index 8c543db..52621f9 100644
--- a/include/ieompp/platform.hpp
+++ b/include/ieompp/platform.hpp
@@ -117,7 +117,7 @@ namespace ieompp
         static auto max_threads() { return compose(omp_get_max_threads()); }
     };
 
-    std::ostream& operator<<(std::ostream& strm, Platform::Endian e)
+    inline std::ostream& operator<<(std::ostream& strm, Platform::Endian e)
     {
         switch(e) {
             case Platform::Endian::Big:
-- 
2.43.0


From e0e5d0283182e41fb0fc13dc84611813891e9c18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:37 +0000
Subject: [PATCH 30/48] fix: reading the next line ends at the end of the input

---
 include/ieompp/io/line.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/ieompp/io/line.hpp b/include/ieompp/io/line.hpp
index 7bc1074..6b343f4 100644
--- a/include/ieompp/io/line.hpp
+++ b/include/ieompp/io/line.hpp
@@ -1,8 +1,11 @@
 #ifndef IEOMPP_IO_LINE_HPP_
 #define IEOMPP_IO_LINE_HPP_
 
+#include "ieompp/io/exception.hpp"
+
 #include <istream>
 #include <regex>
+#include <string>
 
 namespace ieompp
 {
@@ -17,12 +20,12 @@ namespace ieompp
         inline std::string next_line(std::istream& strm)
         {
             std::string buf;
-            do {
-                std::getline(strm, buf);
+            while(std::getline(strm, buf)) {
                 if(!is_skippable_line(buf)) {
                     return buf;
                 }
-            } while(true);
+            }
+            THROW(IOException, "Unexpected end of input");
         }
     } // namespace io
 } // namespace ieompp
-- 
2.43.0


From 4538cc95cbcaec24dd4d4a7c06b7a607b2b6e340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:37 +0000
Subject: [PATCH 31/48] fix: reading a response file that cannot be opened ends

---
 src/hubbard/include/cli.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/hubbard/include/cli.hpp b/src/hubbard/include/cli.hpp
index 85ef551..870c4fd 100644
--- a/src/hubbard/include/cli.hpp
+++ b/src/hubbard/include/cli.hpp
@@ -32,12 +32,11 @@ void read_response_file(const std::string& path, VariablesMap& vm,
     std::ifstream file(path.c_str());
     std::string buf;
     std::vector<std::string> args;
-    do {
-        getline(file, buf);
+    while(getline(file, buf)) {
         args.push_back(buf);
         boost::program_options::store(
             boost::program_options::command_line_parser(args).options(description).run(), vm);
-    } while(!file.eof());
+    }
     file.close();
     get_loggers().main->info("Finish reading response file \"{}\"", path);
 }
-- 
2.43.0


From 71421db338f825bdeb7ce8ee9e9f645711323012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:37 +0000
Subject: [PATCH 32/48] fix: cleaning an output file ends with the file and
 keeps its lines

---
 src/hubbard/include/checkpoint.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/hubbard/include/checkpoint.hpp b/src/hubbard/include/checkpoint.hpp
index f24d4da..4769094 100644
--- a/src/hubbard/include/checkpoint.hpp
+++ b/src/hubbard/include/checkpoint.hpp
@@ -68,12 +68,11 @@ void clean_output_file(const std::string& path, uint64_t entries)
     get_loggers().io->info("Start copying \"{}\" entries", entries);
     uint64_t counter = 0;
     std::string buffer;
-    while(counter < entries) {
-        std::getline(in_file, buffer);
+    while(counter < entries && std::getline(in_file, buffer)) {
         if(!ieompp::io::is_skippable_line(buffer)) {
             ++counter;
         }
-        out_file << buffer;
+        out_file << buffer << '\n';
     }
     out_file.flush();
     get_loggers().io->info("Finished copying entries {}", entries);
-- 
2.43.0


From 5a93018c312ff64c47cd8734402e54fc0a4533ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:37 +0000
Subject: [PATCH 33/48] fix: Platform works without LOGNAME and for every byte
 order

---
 include/ieompp/platform.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/ieompp/platform.hpp b/include/ieompp/platform.hpp
index 52621f9..0dcc63e 100644
--- a/include/ieompp/platform.hpp
+++ b/include/ieompp/platform.hpp
@@ -94,7 +94,8 @@ namespace ieompp
         {
 #if BOOST_OS_WINDOWS
 #else
-            return std::string(std::getenv("LOGNAME"));
+            const auto* name = std::getenv("LOGNAME");
+            return std::string(name != nullptr ? name : "");
 #endif
         }
 
@@ -107,10 +108,10 @@ namespace ieompp
             return Endian::Little;
 #elif BOOST_ENDIAN_BIG_WORD
             return Endian::BigWord;
-#elif BOOST_LITTLE_WORD
+#elif BOOST_ENDIAN_LITTLE_WORD
             return Endian::LittleWord;
 #else
-            return Endian::Unkown;
+            return Endian::Unknown;
 #endif
         }
 
-- 
2.43.0


From 88d6f419c9ba4b7a2d1de1f259f0fd6014a504f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:13 +0000
Subject: [PATCH 34/48] fix: blaze_version is inline

---
 include/ieompp/types/blaze.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ieompp/types/blaze.hpp b/include/ieompp/types/blaze.hpp
index 5958a6d..15a502f 100644
--- a/include/ieompp/types/blaze.hpp
+++ b/include/ieompp/types/blaze.hpp
@@ -11,7 +11,7 @@
 
 namespace ieompp
 {
-    auto blaze_version()
+    inline auto blaze_version()
     {
         static const auto str = compose(BLAZE_MAJOR_VERSION, '.', BLAZE_MINOR_VERSION);
         return str;
-- 
2.43.0


From 560b5d1d1cad44c6e72a7a49b5bf29c9aa22fa3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:13 +0000
Subject: [PATCH 35/48] fix: applying operators to the Fermi sea reports
 success like its parts

---
 .../models/hubbard_momentum_space/excited_fermi_sea.hpp       | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/ieompp/models/hubbard_momentum_space/excited_fermi_sea.hpp b/include/ieompp/models/hubbard_momentum_space/excited_fermi_sea.hpp
index 255e76b..a01244e 100644
--- a/include/ieompp/models/hubbard_momentum_space/excited_fermi_sea.hpp
+++ b/include/ieompp/models/hubbard_momentum_space/excited_fermi_sea.hpp
@@ -50,7 +50,7 @@ namespace ieompp
                         annihilated_particles.sort();
                     }
 
-                    return vanishes;
+                    return !vanishes;
                 }
 
                 template <typename Operator, typename Dispersion>
@@ -70,7 +70,7 @@ namespace ieompp
                         created_particles.sort();
                         annihilated_particles.sort();
                     }
-                    return vanishes;
+                    return !vanishes;
                 }
 
                 template <typename Indices, typename Dispersion>
-- 
2.43.0


From a59c2e453aa9d2fe8411a4606d32a0d52e324ef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:53 +0000
Subject: [PATCH 36/48] fix: headers include what they use

---
 include/ieompp/models/hubbard_momentum_space/blaze_sparse.hpp | 1 +
 include/ieompp/models/hubbard_real_space/blaze_sparse.hpp     | 1 +
 include/ieompp/models/hubbard_real_space/blaze_sparse_no.hpp  | 1 +
 include/ieompp/models/hubbard_real_space/fermi_jump/2d.hpp    | 3 +++
 include/ieompp/platform.hpp                                   | 1 +
 5 files changed, 7 insertions(+)

diff --git a/include/ieompp/models/hubbard_momentum_space/blaze_sparse.hpp b/include/ieompp/models/hubbard_momentum_space/blaze_sparse.hpp
index 0dd4d8b..dd233a1 100644
--- a/include/ieompp/models/hubbard_momentum_space/blaze_sparse.hpp
+++ b/include/ieompp/models/hubbard_momentum_space/blaze_sparse.hpp
@@ -4,6 +4,7 @@
 #include "ieompp/models/hubbard/operator_traits.hpp"
 #include "ieompp/models/hubbard_momentum_space/basis.hpp"
 #include "ieompp/models/hubbard_momentum_space/liouvillian.hpp"
+#include "ieompp/types/matrix.hpp"
 
 #include <cstdint>
 
diff --git a/include/ieompp/models/hubbard_real_space/blaze_sparse.hpp b/include/ieompp/models/hubbard_real_space/blaze_sparse.hpp
index 8a19516..3d4dce7 100644
--- a/include/ieompp/models/hubbard_real_space/blaze_sparse.hpp
+++ b/include/ieompp/models/hubbard_real_space/blaze_sparse.hpp
@@ -3,6 +3,7 @@
 
 #include "ieompp/models/hubbard_real_space/basis.hpp"
 #include "ieompp/models/hubbard_real_space/liouvillian.hpp"
+#include "ieompp/types/matrix.hpp"
 #include "ieompp/types/triplet.hpp"
 
 #include <cstdint>
diff --git a/include/ieompp/models/hubbard_real_space/blaze_sparse_no.hpp b/include/ieompp/models/hubbard_real_space/blaze_sparse_no.hpp
index 71f1b7d..aac8333 100644
--- a/include/ieompp/models/hubbard_real_space/blaze_sparse_no.hpp
+++ b/include/ieompp/models/hubbard_real_space/blaze_sparse_no.hpp
@@ -3,6 +3,7 @@
 
 #include "ieompp/models/hubbard_real_space/basis.hpp"
 #include "ieompp/models/hubbard_real_space/liouvillian.hpp"
+#include "ieompp/types/matrix.hpp"
 #include "ieompp/types/number.hpp"
 #include "ieompp/types/triplet.hpp"
 
diff --git a/include/ieompp/models/hubbard_real_space/fermi_jump/2d.hpp b/include/ieompp/models/hubbard_real_space/fermi_jump/2d.hpp
index 961d78c..c7be502 100644
--- a/include/ieompp/models/hubbard_real_space/fermi_jump/2d.hpp
+++ b/include/ieompp/models/hubbard_real_space/fermi_jump/2d.hpp
@@ -8,6 +8,9 @@
 
 #include <cmath>
 #include <functional>
+#include <numeric>
+#include <utility>
+#include <vector>
 
 namespace ieompp
 {
diff --git a/include/ieompp/platform.hpp b/include/ieompp/platform.hpp
index 0dcc63e..ec174e9 100644
--- a/include/ieompp/platform.hpp
+++ b/include/ieompp/platform.hpp
@@ -5,6 +5,7 @@
 #include "ieompp/string.hpp"
 #include "ieompp/version.hpp"
 
+#include <cstdint>
 #include <cstdlib>
 
 #include <boost/predef.h>
-- 
2.43.0


From ee0305fc50fbda607155a392dd6a55a94d9bc969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:23 +0000
Subject: [PATCH 37/48] fix: headers include the assertions and number helpers
 they use

---
 .../hubbard_momentum_space/non_vanishing_expectation_values.hpp | 1 +
 .../ieompp/models/hubbard_momentum_space/particle_number.hpp    | 1 +
 include/ieompp/models/hubbard_real_space/expectation_value.hpp  | 2 ++
 include/ieompp/models/hubbard_real_space/site_occupation.hpp    | 1 +
 include/ieompp/types/matrix_check.hpp                           | 1 +
 5 files changed, 6 insertions(+)

diff --git a/include/ieompp/models/hubbard_momentum_space/non_vanishing_expectation_values.hpp b/include/ieompp/models/hubbard_momentum_space/non_vanishing_expectation_values.hpp
index 57f23c9..e100ba7 100644
--- a/include/ieompp/models/hubbard_momentum_space/non_vanishing_expectation_values.hpp
+++ b/include/ieompp/models/hubbard_momentum_space/non_vanishing_expectation_values.hpp
@@ -6,6 +6,7 @@
 #include "ieompp/openmp.hpp"
 
 #include <algorithm>
+#include <cassert>
 #include <vector>
 
 namespace ieompp
diff --git a/include/ieompp/models/hubbard_momentum_space/particle_number.hpp b/include/ieompp/models/hubbard_momentum_space/particle_number.hpp
index 5414dfb..b11880b 100644
--- a/include/ieompp/models/hubbard_momentum_space/particle_number.hpp
+++ b/include/ieompp/models/hubbard_momentum_space/particle_number.hpp
@@ -6,6 +6,7 @@
 #include "ieompp/openmp.hpp"
 #include "ieompp/types/number.hpp"
 
+#include <cassert>
 #include <numeric>
 
 namespace ieompp
diff --git a/include/ieompp/models/hubbard_real_space/expectation_value.hpp b/include/ieompp/models/hubbard_real_space/expectation_value.hpp
index 711877f..a72521a 100644
--- a/include/ieompp/models/hubbard_real_space/expectation_value.hpp
+++ b/include/ieompp/models/hubbard_real_space/expectation_value.hpp
@@ -1,6 +1,8 @@
 #ifndef IEOMPP_MODELS_HUBBARD_REAL_SPACE_EXPECTATION_VALUE_HPP_
 #define IEOMPP_MODELS_HUBBARD_REAL_SPACE_EXPECTATION_VALUE_HPP_
 
+#include <cassert>
+#include <cmath>
 #include <functional>
 #include <vector>
 
diff --git a/include/ieompp/models/hubbard_real_space/site_occupation.hpp b/include/ieompp/models/hubbard_real_space/site_occupation.hpp
index c02dd58..31d97ca 100644
--- a/include/ieompp/models/hubbard_real_space/site_occupation.hpp
+++ b/include/ieompp/models/hubbard_real_space/site_occupation.hpp
@@ -6,6 +6,7 @@
 #include "ieompp/types/matrix.hpp"
 #include "ieompp/types/number.hpp"
 
+#include <cassert>
 #include <functional>
 #include <numeric>
 #include <vector>
diff --git a/include/ieompp/types/matrix_check.hpp b/include/ieompp/types/matrix_check.hpp
index c2a0fda..14b003d 100644
--- a/include/ieompp/types/matrix_check.hpp
+++ b/include/ieompp/types/matrix_check.hpp
@@ -2,6 +2,7 @@
 #define IEOMPP_TYPES_MATRIX_CHECK_HPP_
 
 #include "ieompp/types/matrix.hpp"
+#include "ieompp/types/number.hpp"
 
 #include <type_traits>
 
-- 
2.43.0


From 88f3c9d64412e472dbf3b3afc94a6112e6aeb444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:08 +0000
Subject: [PATCH 38/48] fix: coefficients of the Liouvillian in the normal
 ordered basis

The row of a single creator had the mean field and the correlated part of
c^+ n exchanged, and three coefficients of the rows with three operators used
<c^+ c> where the contraction is <c c^+>.
---
 .../models/hubbard_real_space/blaze_sparse_no.hpp      | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/ieompp/models/hubbard_real_space/blaze_sparse_no.hpp b/include/ieompp/models/hubbard_real_space/blaze_sparse_no.hpp
index aac8333..75371bb 100644
--- a/include/ieompp/models/hubbard_real_space/blaze_sparse_no.hpp
+++ b/include/ieompp/models/hubbard_real_space/blaze_sparse_no.hpp
@@ -93,8 +93,8 @@ namespace ieompp
                     }
 
                     // clang-format off
-                    triplets.emplace_back(row, row, liouvillian.U);
-                    triplets.emplace_back(row, basis.get_3op_index(row, row, row), liouvillian.U * expectation_value(basis[row].front().index1, basis[row].front().index1));
+                    triplets.emplace_back(row, row, liouvillian.U * expectation_value(basis[row].front().index1, basis[row].front().index1));
+                    triplets.emplace_back(row, basis.get_3op_index(row, row, row), liouvillian.U);
                     // clang-format on
 
                     triplets.sort();
@@ -144,7 +144,7 @@ namespace ieompp
                     // clang-format off
                     triplets.emplace_back(row, r1, liouvillian.U * expectation_value(op2.index1, op1.index1) * expectation_value_conj(op3.index1, op1.index1));
                     triplets.emplace_back(row, r2, liouvillian.U * expectation_value_conj(op2.index1, op1.index1) * expectation_value(op2.index1, op3.index1));
-                    triplets.emplace_back(row, r3, -liouvillian.U * expectation_value(op3.index1, op1.index1) * expectation_value(op2.index1, op3.index1));
+                    triplets.emplace_back(row, r3, -liouvillian.U * expectation_value_conj(op3.index1, op1.index1) * expectation_value(op2.index1, op3.index1));
                     // clang-format on
 
                     // 3-operator monomials
@@ -153,8 +153,8 @@ namespace ieompp
                     triplets.emplace_back(row, basis.get_3op_index(r1, r1, r3), -liouvillian.U * expectation_value(op2.index1, op1.index1));
                     triplets.emplace_back(row, basis.get_3op_index(r1, r2, r1), liouvillian.U * expectation_value_conj(op3.index1, op1.index1));
                     if(r2 != r3) {
-                        triplets.emplace_back(row, basis.get_3op_index(r2, r2, r3), liouvillian.U * expectation_value(op2.index1, op1.index1));
-                        triplets.emplace_back(row, basis.get_3op_index(r3, r2, r3), -liouvillian.U * expectation_value(op3.index1, op1.index1));
+                        triplets.emplace_back(row, basis.get_3op_index(r2, r2, r3), liouvillian.U * expectation_value_conj(op2.index1, op1.index1));
+                        triplets.emplace_back(row, basis.get_3op_index(r3, r2, r3), -liouvillian.U * expectation_value_conj(op3.index1, op1.index1));
                     }
                     // clang-format on
 
-- 
2.43.0


From c5eb6c52121fdee922a939f08b2d54cc5808e9b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:54 +0000
Subject: [PATCH 39/48] fix: neighbours on square lattices of one column

---
 include/ieompp/lattices/periodic_square_lattice.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/ieompp/lattices/periodic_square_lattice.hpp b/include/ieompp/lattices/periodic_square_lattice.hpp
index b45d570..69a214e 100644
--- a/include/ieompp/lattices/periodic_square_lattice.hpp
+++ b/include/ieompp/lattices/periodic_square_lattice.hpp
@@ -294,8 +294,9 @@ namespace ieompp
             const auto x_b = x_index(b);
             const auto y_b = y_index(b);
 
-            if(x_a == x_b) {
-                return ((y_a + 1) % _size_y == y_b) || ((y_b + 1) % _size_y == y_a);
+            if(x_a == x_b
+               && (((y_a + 1) % _size_y == y_b) || ((y_b + 1) % _size_y == y_a))) {
+                return true;
             }
 
             if(y_a == y_b) {
-- 
2.43.0


From c26e635f8c536c2216bc24f214cdea4880d80dc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:37 +0000
Subject: [PATCH 40/48] fix: theory of the free chain averages over a half
 filled Fermi sea

---
 src/hubbard/hubbard_real_1d_kinetic_theory.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/hubbard/hubbard_real_1d_kinetic_theory.cpp b/src/hubbard/hubbard_real_1d_kinetic_theory.cpp
index f8e670f..b547bdf 100644
--- a/src/hubbard/hubbard_real_1d_kinetic_theory.cpp
+++ b/src/hubbard/hubbard_real_1d_kinetic_theory.cpp
@@ -14,6 +14,7 @@ namespace po = boost::program_options;
 #include <ieompp/algebra/operator.hpp>
 #include <ieompp/constants.hpp>
 #include <ieompp/lattices/periodic_chain.hpp>
+#include <ieompp/models/hubbard/dispersion.hpp>
 #include <ieompp/models/hubbard_real_space/basis.hpp>
 #include <ieompp/models/hubbard_real_space/expectation_value.hpp>
 #include <ieompp/openmp.hpp>
@@ -59,7 +60,7 @@ int main()
     }
 
     const hubbard::ExpectationValue1DHalfFilled<double, decltype(lattice)> expectation_value(
-        lattice, 1., 0.5);
+        lattice, 0.5, ieompp::models::hubbard::calculate_fermi_momentum_1d(0.5));
 
     vector<vector<complex<double>>> results;
 #pragma omp parallel
-- 
2.43.0


From c1ded5477324cc77914b46882172e87f44d28161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:50 +0000
Subject: [PATCH 41/48] fix: SpatialIndexType of two-dimensional Hubbard
 operators compiles

---
 include/ieompp/models/hubbard/operator_traits.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/ieompp/models/hubbard/operator_traits.hpp b/include/ieompp/models/hubbard/operator_traits.hpp
index bbc00b3..d520a0b 100644
--- a/include/ieompp/models/hubbard/operator_traits.hpp
+++ b/include/ieompp/models/hubbard/operator_traits.hpp
@@ -4,6 +4,7 @@
 #include "ieompp/algebra/operator/get_index.hpp"
 
 #include <type_traits>
+#include <utility>
 
 namespace ieompp
 {
@@ -64,7 +65,8 @@ namespace ieompp
                               "Operator must be of 1d or 2d Hubbard type!");
 
                 using Type = typename std::
-                    conditional<Is1dHubbardOperator<Operator>::value, typename Operator::Index1,
+                    conditional<Is1dHubbardOperator<Operator>::value,
+                                typename algebra::IndexType<0, Operator>::Type,
                                 std::pair<typename algebra::IndexType<0, Operator>::Type,
                                           typename algebra::IndexType<1, Operator>::Type>>::type;
             };
-- 
2.43.0


From 58fe9c390d1d3f5630038f89e68264fd5bb0c89d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:50 +0000
Subject: [PATCH 42/48] fix: get_index accepts temporary operators with three
 or more indices

---
 include/ieompp/algebra/operator/get_index.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/ieompp/algebra/operator/get_index.hpp b/include/ieompp/algebra/operator/get_index.hpp
index 5aaefeb..c8f5a2e 100644
--- a/include/ieompp/algebra/operator/get_index.hpp
+++ b/include/ieompp/algebra/operator/get_index.hpp
@@ -4,6 +4,7 @@
 #include "ieompp/algebra/operator/operator.hpp"
 
 #include <type_traits>
+#include <utility>
 
 namespace ieompp
 {
@@ -65,7 +66,7 @@ namespace ieompp
         constexpr typename std::tuple_element<I, typename Operator<IndexTypes...>::Indices>::type&&
         get_index(Operator<IndexTypes...>&& op)
         {
-            return std::get<I>(op.indices);
+            return std::get<I>(std::move(op.indices));
         }
 
         template <std::size_t I, typename Index>
-- 
2.43.0


From 874ce2304ab12042c74f578cc757786b8ca7715f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:50 +0000
Subject: [PATCH 43/48] fix: terms made from a named prefactor hold a copy of
 it, not a reference

---
 include/ieompp/algebra/term/term.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/ieompp/algebra/term/term.hpp b/include/ieompp/algebra/term/term.hpp
index f25061f..a405603 100644
--- a/include/ieompp/algebra/term/term.hpp
+++ b/include/ieompp/algebra/term/term.hpp
@@ -72,10 +72,10 @@ namespace ieompp
         };
 
         template <typename Prefactor, typename Operator, typename Container = std::vector<Operator>>
-        Term<Prefactor, Operator> make_term(Prefactor&& prefactor,
-                                            std::initializer_list<Operator> operators)
+        Term<typename std::decay<Prefactor>::type, Operator, Container>
+        make_term(Prefactor&& prefactor, std::initializer_list<Operator> operators)
         {
-            return Term<Prefactor, Operator>{
+            return Term<typename std::decay<Prefactor>::type, Operator, Container>{
                 typename std::decay<Prefactor>::type(std::forward<Prefactor>(prefactor)),
                 Container{operators}};
         }
-- 
2.43.0


From 6fa40c69023244357cd1a8a9e93242dcf0529c3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:10 +0000
Subject: [PATCH 44/48] fix: row vectors have one row and as many columns as
 elements

---
 include/ieompp/types/blaze/traits.hpp | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/include/ieompp/types/blaze/traits.hpp b/include/ieompp/types/blaze/traits.hpp
index 9dcfb30..8f8110c 100644
--- a/include/ieompp/types/blaze/traits.hpp
+++ b/include/ieompp/types/blaze/traits.hpp
@@ -170,13 +170,12 @@ namespace ieompp
         struct MatrixDimensionInfo<blaze::DynamicVector<Scalar, TransposeFlag>> {
             static blaze::size_t rows(const blaze::DynamicVector<Scalar, TransposeFlag>& v)
             {
-                return v.size();
+                return (TransposeFlag == blaze::rowVector) ? 1 : v.size();
             }
 
-            static blaze::size_t
-            columns(const blaze::DynamicVector<Scalar, TransposeFlag>& /*unused*/)
+            static blaze::size_t columns(const blaze::DynamicVector<Scalar, TransposeFlag>& v)
             {
-                return 1;
+                return (TransposeFlag == blaze::rowVector) ? v.size() : 1;
             }
         };
 
@@ -184,13 +183,12 @@ namespace ieompp
         struct MatrixDimensionInfo<blaze::CompressedVector<Scalar, TransposeFlag>> {
             static blaze::size_t rows(const blaze::CompressedVector<Scalar, TransposeFlag>& v)
             {
-                return v.size();
+                return (TransposeFlag == blaze::rowVector) ? 1 : v.size();
             }
 
-            static blaze::size_t
-            columns(const blaze::CompressedVector<Scalar, TransposeFlag>& /*unused*/)
+            static blaze::size_t columns(const blaze::CompressedVector<Scalar, TransposeFlag>& v)
             {
-                return 1;
+                return (TransposeFlag == blaze::rowVector) ? v.size() : 1;
             }
         };
     } // namespace types
-- 
2.43.0


From f74b8663d3633611f2c5f661dd4ed3f048adfb08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:17 +0000
Subject: [PATCH 45/48] fix: conjugating a term conjugates the value of a
 symbolic prefactor

---
 include/ieompp/algebra/term/term.hpp  | 6 ++++--
 include/ieompp/symbolic/prefactor.hpp | 8 ++++++++
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/include/ieompp/algebra/term/term.hpp b/include/ieompp/algebra/term/term.hpp
index a405603..fe590d4 100644
--- a/include/ieompp/algebra/term/term.hpp
+++ b/include/ieompp/algebra/term/term.hpp
@@ -26,7 +26,8 @@ namespace ieompp
 
             void conjugate()
             {
-                prefactor = types::conjugate(prefactor);
+                using types::conjugate;
+                prefactor = conjugate(prefactor);
                 std::reverse(operators.begin(), operators.end());
                 for(auto& op : operators) {
                     op.conjugate();
@@ -35,7 +36,8 @@ namespace ieompp
 
             Term get_conjugate() const
             {
-                Term conj{types::conjugate(prefactor), {}};
+                using types::conjugate;
+                Term conj{conjugate(prefactor), {}};
                 std::reverse_copy(operators.begin(), operators.end(),
                                   std::back_inserter(conj.operators));
                 for(auto& op : conj.operators) {
diff --git a/include/ieompp/symbolic/prefactor.hpp b/include/ieompp/symbolic/prefactor.hpp
index 98bc97f..0a027d2 100644
--- a/include/ieompp/symbolic/prefactor.hpp
+++ b/include/ieompp/symbolic/prefactor.hpp
@@ -2,6 +2,7 @@
 #define IEOMPP_SYMBOLIC_PREFACTOR_HPP_
 
 #include "ieompp/algebra/kronecker.hpp"
+#include "ieompp/types/number/complex.hpp"
 
 #include <algorithm>
 #include <initializer_list>
@@ -88,6 +89,13 @@ namespace ieompp
             return Prefactor<Value>{val, kroneckers};
         }
 
+        template <typename Value, typename Kronecker>
+        Prefactor<Value, Kronecker> conjugate(Prefactor<Value, Kronecker> prefactor)
+        {
+            prefactor.value = types::conjugate(prefactor.value);
+            return prefactor;
+        }
+
         template <typename Value, typename Kronecker>
         std::ostream& operator<<(std::ostream& strm, const Prefactor<Value, Kronecker>& rhs)
         {
-- 
2.43.0


From 9c36e3106cf32b8fec72f74f40fe7d6a7e095a02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:46 +0000
Subject: [PATCH 46/48] fix: write_matrix of dense Eigen matrices is inline

---
 include/ieompp/io/eigen/dense.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ieompp/io/eigen/dense.hpp b/include/ieompp/io/eigen/dense.hpp
index 1d8c3bd..d6755dd 100644
--- a/include/ieompp/io/eigen/dense.hpp
+++ b/include/ieompp/io/eigen/dense.hpp
@@ -7,7 +7,7 @@ namespace ieompp
 {
     namespace io
     {
-        void write_matrix(std::ostream& strm, bool binary = false) {}
+        inline void write_matrix(std::ostream& strm, bool binary = false) {}
     }
 }
 
-- 
2.43.0


From b7a8587ab4f47753ea734ded3ad777d553625766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:46 +0000
Subject: [PATCH 47/48] fix: initialisation of Eigen matrices names existing
 types and headers

---
 include/ieompp/types/eigen/init.hpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/ieompp/types/eigen/init.hpp b/include/ieompp/types/eigen/init.hpp
index b12ec0b..4087c9f 100644
--- a/include/ieompp/types/eigen/init.hpp
+++ b/include/ieompp/types/eigen/init.hpp
@@ -2,6 +2,10 @@
 #define IEOMPP_TYPES_EIGEN_INIT_HPP_
 
 #include "ieompp/types/eigen/traits.hpp"
+#include "ieompp/types/number/is_zero.hpp"
+
+#include <functional>
+#include <type_traits>
 
 namespace ieompp
 {
@@ -10,7 +14,7 @@ namespace ieompp
         template <typename Matrix>
         typename std::enable_if<IsEigenSparseMatrix<Matrix>::value, void>::type
         init(Matrix& m, typename IndexType<Matrix>::Type rows,
-             typename IndexType<Matrix>::index cols,
+             typename IndexType<Matrix>::Type cols,
              std::function<typename ScalarType<Matrix>::Type(typename IndexType<Matrix>::Type,
                                                              typename IndexType<Matrix>::Type)>
                  f)
@@ -29,7 +33,7 @@ namespace ieompp
         template <typename Matrix>
         typename std::enable_if<IsEigenSparseMatrix<Matrix>::value, void>::type init_symmetric(
             Matrix& m, typename IndexType<Matrix>::Type rows,
-            std::function<typename ScalarType<Matrix>::scalar(typename IndexType<Matrix>::Type,
+            std::function<typename ScalarType<Matrix>::Type(typename IndexType<Matrix>::Type,
                                                               typename IndexType<Matrix>::Type)>
                 f)
         {
@@ -57,7 +61,7 @@ namespace ieompp
                                                              typename IndexType<Matrix>::Type)>
                  f)
         {
-            using Index = typename IndexType<Matrix>::Index;
+            using Index = typename IndexType<Matrix>::Type;
 
             m = Matrix::Zero(rows, cols);
             for(Index i = 0; i < rows; ++i) {
-- 
2.43.0


From 7a564f984fa2cbe8e8215c7722ed25c6c2b21967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:24 +0000
Subject: [PATCH 48/48] fix: traits of Eigen types have the member Type their
 users name

---
 include/ieompp/io/eigen/sparse.hpp         | 2 +-
 include/ieompp/types/eigen/dot_product.hpp | 2 +-
 include/ieompp/types/eigen/traits.hpp      | 8 ++++----
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/ieompp/io/eigen/sparse.hpp b/include/ieompp/io/eigen/sparse.hpp
index 9ef0fec..2800c44 100644
--- a/include/ieompp/io/eigen/sparse.hpp
+++ b/include/ieompp/io/eigen/sparse.hpp
@@ -20,7 +20,7 @@ namespace ieompp
         typename std::enable_if<types::IsEigenSparseMatrix<Matrix>::value, void>::type
         write_matrix(std::ostream& strm, const Matrix& m)
         {
-            using Index = typename types::index_type<Matrix>::type;
+            using Index = typename types::IndexType<Matrix>::Type;
 
             for(Index i = 0; i < m.outerSize(); ++i) {
                 for(typename Matrix::InnerIterator it(m, i); it; ++it) {
diff --git a/include/ieompp/types/eigen/dot_product.hpp b/include/ieompp/types/eigen/dot_product.hpp
index 54b857e..a3924c5 100644
--- a/include/ieompp/types/eigen/dot_product.hpp
+++ b/include/ieompp/types/eigen/dot_product.hpp
@@ -9,7 +9,7 @@ namespace ieompp
     {
         template <typename T>
         typename std::enable_if<ieompp::types::IsEigenMatrix<T>::value,
-                                typename ieompp::types::ScalarType<T>::type>::type
+                                typename ieompp::types::ScalarType<T>::Type>::type
         dot_product(const T& a, const T& b)
         {
             return a.dot(b);
diff --git a/include/ieompp/types/eigen/traits.hpp b/include/ieompp/types/eigen/traits.hpp
index 535dc85..2e7a78b 100644
--- a/include/ieompp/types/eigen/traits.hpp
+++ b/include/ieompp/types/eigen/traits.hpp
@@ -82,22 +82,22 @@ namespace ieompp
 
         template <typename Scalar, int Rows, int Cols, int Options, int MaxRows, int MaxCols>
         struct ScalarType<Eigen::Matrix<Scalar, Rows, Cols, Options, MaxRows, MaxCols>> {
-            using type = Scalar;
+            using Type = Scalar;
         };
 
         template <typename Scalar, int Options, typename Index>
         struct ScalarType<Eigen::SparseMatrix<Scalar, Options, Index>> {
-            using type = Scalar;
+            using Type = Scalar;
         };
 
         template <typename Scalar, int Rows, int Cols, int Options, int MaxRows, int MaxCols>
         struct IndexType<Eigen::Matrix<Scalar, Rows, Cols, Options, MaxRows, MaxCols>> {
-            using type = int;
+            using Type = int;
         };
 
         template <typename Scalar, int Options, typename Index>
         struct IndexType<Eigen::SparseMatrix<Scalar, Options, Index>> {
-            using type = Index;
+            using Type = Index;
         };
 
 
-- 
2.43.0

