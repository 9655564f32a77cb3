From eb306a13ff4dbde63de103e84fd7b67efd4c9743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:00:42 +0000
Subject: [PATCH 01/23] fix: SharedArray destructor decrements the count, not
 the pointer to it, and releases the count

---
 include/array.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/array.hpp b/include/array.hpp
index 941fa4e..c7989a6 100644
--- a/include/array.hpp
+++ b/include/array.hpp
@@ -228,7 +228,7 @@ public:
     typedef ValueType const* ConstIterator;
     size_t* _count; size_t _size; T* _ptr;
 public:
-    ~SharedArray() { --_count; if(*_count==0) { delete[] _ptr; } }
+    ~SharedArray() { --*_count; if(*_count==0) { delete _count; delete[] _ptr; } }
     SharedArray(size_t n) : _count(new size_t(1u)), _size(n), _ptr(new T[n]) { }
     SharedArray(size_t n, const T& x) : SharedArray(n) {
         for(size_t i=0; i!=n; ++i) { _ptr[i]=x; } }
-- 
2.43.0


From bef28aa893b978cc6207089412a8f0362d6cac03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:00:42 +0000
Subject: [PATCH 02/23] fix: Array move assignment releases the elements it
 replaces

---
 include/array.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/array.hpp b/include/array.hpp
index c7989a6..89f8b6c 100644
--- a/include/array.hpp
+++ b/include/array.hpp
@@ -132,7 +132,7 @@ public:
         return *this; }
     //! \brief Move assignment.
     Array<T>& operator=(Array<T>&& a) {
-        if(this!=&a) { this->_size=a._size; this->_ptr=a._ptr; a._size=0u; a._ptr=nullptr; } return *this; }
+        if(this!=&a) { this->_destroy_elements(); uninitialized_delete(_ptr); this->_size=a._size; this->_ptr=a._ptr; a._size=0u; a._ptr=nullptr; } return *this; }
 
     //! \brief True if the Array's size is 0.
     bool empty() const { return _size==0u; }
-- 
2.43.0


From e7ac2efc418afed1658590480124c37040b819d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:00:42 +0000
Subject: [PATCH 03/23] fix: Array refuses sizes whose storage is not
 representable

---
 include/array.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/array.hpp b/include/array.hpp
index 89f8b6c..ac4ea39 100644
--- a/include/array.hpp
+++ b/include/array.hpp
@@ -38,6 +38,7 @@
 #include <initializer_list>
 #include <iterator>
 #include <stdexcept>
+#include <new>
 #include <cassert>
 #include "metaprogramming.hpp"
 
@@ -52,7 +53,8 @@ struct Uninitialised { };
 template<class T>
 class Array {
 private:
-    static T* uninitialized_new(size_t n) { return static_cast<T*>(::operator new(n*sizeof(T))); }
+    static T* uninitialized_new(size_t n) { if(n>static_cast<size_t>(-1)/sizeof(T)) { throw std::bad_array_new_length(); }
+        return static_cast<T*>(::operator new(n*sizeof(T))); }
     static void uninitialized_delete(T* p) { ::operator delete(p); }
 public:
     typedef T ValueType;
-- 
2.43.0


From 723a3c2ad41d7bf2fe6c044b560f48e2e59b07f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:00:42 +0000
Subject: [PATCH 04/23] fix: an exception from an element or from allocation
 neither leaks nor corrupts an Array

---
 include/array.hpp | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/include/array.hpp b/include/array.hpp
index ac4ea39..088500a 100644
--- a/include/array.hpp
+++ b/include/array.hpp
@@ -80,7 +80,7 @@ public:
     //! \brief Default constructor. Constructs an empty Array.
     Array() : _size(0), _ptr(0) { }
     //! \brief Constructs an Array of size \a n with default-initialised elements.
-    explicit Array(const size_t n) : _size(n), _ptr(uninitialized_new(n)) { for(size_t i=0; i!=n; ++i) { new (_ptr+i) T(); } }
+    explicit Array(const size_t n) : _size(n), _ptr(uninitialized_new(n)) { size_t i=0; try { for(; i!=n; ++i) { new (_ptr+i) T(); } } catch(...) { _abandon(_ptr,i); throw; } }
     //! \brief Constructs an Array of size \a n with uninitialised elements. The elements should be initialised using placement new.
     explicit Array(const size_t n, Uninitialised) : _size(n), _ptr(uninitialized_new(n)) { }
     //! \brief Constructs an Array of size \a n with elements initialised to \a x.
@@ -130,7 +130,7 @@ public:
     //! \brief Copy assignment.
     Array<T>& operator=(const Array<T>& a) {
         if(this->size()==a.size()) { fill(a.begin()); }
-        else { this->_destroy_elements(); uninitialized_delete(_ptr); _size=a.size(); _ptr=uninitialized_new(_size); this->_uninitialized_fill(a.begin()); }
+        else { Array<T> tmp(a); this->swap(tmp); }
         return *this; }
     //! \brief Move assignment.
     Array<T>& operator=(Array<T>&& a) {
@@ -146,18 +146,17 @@ public:
     void resize(size_t n) {
         static_assert(DefaultConstructible<T>);
         if(size()!=n) {
-            pointer _new_ptr=uninitialized_new(n);
-            for(size_t i=0; i!=n; ++i) { if(i<_size) { new (_new_ptr+i) T(_ptr[i]); } else { new (_new_ptr+i) T(); } }
+            pointer _new_ptr=uninitialized_new(n); size_t i=0;
+            try { for(; i!=n; ++i) { if(i<_size) { new (_new_ptr+i) T(_ptr[i]); } else { new (_new_ptr+i) T(); } } } catch(...) { _abandon(_new_ptr,i); throw; }
             this->_destroy_elements(); uninitialized_delete(_ptr); _size=n; _ptr=_new_ptr; } }
     //! \brief Resizes the Array to hold \a n elements. If \a n is larger than the current size, the extra elements are initialised with value \a t.
     void resize(size_t n, const T& t) {
         if(size()!=n) {
-            pointer _new_ptr=uninitialized_new(n);
-            for(size_t i=0; i!=n; ++i) { if(i<_size) { new (_new_ptr+i) T(_ptr[i]); } else { new (_new_ptr+i) T(t); } }
+            pointer _new_ptr=uninitialized_new(n); size_t i=0;
+            try { for(; i!=n; ++i) { if(i<_size) { new (_new_ptr+i) T(_ptr[i]); } else { new (_new_ptr+i) T(t); } } } catch(...) { _abandon(_new_ptr,i); throw; }
             this->_destroy_elements(); uninitialized_delete(_ptr); _size=n; _ptr=_new_ptr; } }
     //! \brief Reallocates the Array to hold \a n elements. The new elements are default-constructed.
-    void reallocate(size_t n) { if(size()!=n) { this->_destroy_elements(); uninitialized_delete(_ptr);
-            _size=n; _ptr=uninitialized_new(_size); for(size_t i=0; i!=_size; ++i) { new (_ptr+i) T(); } } }
+    void reallocate(size_t n) { if(size()!=n) { Array<T> tmp(n); this->swap(tmp); } }
     //! \brief Efficiently swap two arrays.
     void swap(Array<T>& a) { std::swap(_size,a._size); std::swap(_ptr,a._ptr); }
 
@@ -208,15 +207,18 @@ public:
 private:
     void _destroy_elements() { pointer curr=_ptr+_size; while(curr!=_ptr) { --curr; curr->~T(); } }
     void _uninitialized_fill(const ValueType& x) {
-        pointer curr=_ptr; pointer end=_ptr+_size; while(curr!=end) { new (curr) T(x); ++curr; } }
+        pointer curr=_ptr; pointer end=_ptr+_size;
+        try { while(curr!=end) { new (curr) T(x); ++curr; } } catch(...) { _abandon(_ptr,static_cast<size_t>(curr-_ptr)); throw; } }
     template<class InputIterator> void _uninitialized_fill(InputIterator first) {
         pointer curr=_ptr; pointer end=_ptr+_size;
-        while(curr!=end) { new (curr) T(*first); ++curr; ++first; } }
+        try { while(curr!=end) { new (curr) T(*first); ++curr; ++first; } } catch(...) { _abandon(_ptr,static_cast<size_t>(curr-_ptr)); throw; } }
     template<class InputIterator, class Parameters> void _uninitialized_fill(InputIterator first, Parameters parameters) {
         pointer curr=_ptr; pointer end=_ptr+_size;
-        while(curr!=end) { new (curr) T(*first,parameters); ++curr; ++first; } }
+        try { while(curr!=end) { new (curr) T(*first,parameters); ++curr; ++first; } } catch(...) { _abandon(_ptr,static_cast<size_t>(curr-_ptr)); throw; } }
     template<class G> void _uninitialized_generate(G g) {
-        for(size_t i=0u; i!=this->size(); ++i) { new (_ptr+i) T(g(i)); } }
+        size_t i=0u; try { for(; i!=this->size(); ++i) { new (_ptr+i) T(g(i)); } } catch(...) { _abandon(_ptr,i); throw; } }
+    // Destroys the first n elements of storage p and releases it, after a constructor has thrown.
+    static void _abandon(pointer p, size_t n) { while(n!=0) { --n; (p+n)->~T(); } uninitialized_delete(p); }
 private:
     size_t _size;
     pointer _ptr;
-- 
2.43.0


From 150650450e601ff52dd937f7604087489ebdae4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:22:53 +0000
Subject: [PATCH 05/23] fix: appending a BinaryWord to itself terminates

---
 include/binary_word.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/binary_word.hpp b/include/binary_word.hpp
index 98fb80c..c24a3df 100644
--- a/include/binary_word.hpp
+++ b/include/binary_word.hpp
@@ -177,7 +177,8 @@ inline void BinaryWord::append( const bool& binarySymbol ) {
 }
 
 inline void BinaryWord::append( const BinaryWord& binaryWord ) {
-    for( size_t i = 0; i < binaryWord.size() ; i++ ){
+    const size_t appended_size = binaryWord.size(); // Fixed, since the word may be appended to itself
+    for( size_t i = 0; i < appended_size ; i++ ){
         this->push_back( binaryWord[i] );
     }
 }
-- 
2.43.0


From 9fd4b0f8182c7c2a96f40ae61d3e329839573624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:23:07 +0000
Subject: [PATCH 06/23] fix: reading a BinaryWord that ends the input succeeds,
 and an empty input is not examined

---
 include/binary_word.hpp | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/include/binary_word.hpp b/include/binary_word.hpp
index c24a3df..1b0f867 100644
--- a/include/binary_word.hpp
+++ b/include/binary_word.hpp
@@ -192,7 +192,9 @@ inline istream& operator>>(istream& input_stream, BinaryWord& binary_word) {
     binary_word.clear();
     //Read the first stream symbol to check the input format
     char symbol;
-    input_stream >> symbol;
+    if( !( input_stream >> symbol ) ) {
+        return input_stream;
+    }
     if( symbol == '[' ) {
         //If it is a standard std:vector input then put
         //the symbol back and use it's input operator
@@ -201,11 +203,15 @@ inline istream& operator>>(istream& input_stream, BinaryWord& binary_word) {
         input_stream >> bool_vector;
     } else {
         //Otherwise read a sequence of 0 and 1.
-        while( input_stream && ( symbol =='0' || symbol =='1' ) ) {
-            binary_word.push_back( symbol == '0' ? 0 : 1);
-            input_stream.get( symbol );
-        }
+        //The symbol after the word is only peeked at, so that
+        //a word ending the input is read successfully.
         input_stream.putback( symbol );
+        int next = input_stream.peek();
+        while( next == '0' || next == '1' ) {
+            binary_word.push_back( next == '1' );
+            input_stream.get();
+            next = input_stream.peek();
+        }
     }
     return input_stream;
 }
-- 
2.43.0


From 7afd465a6242d3c71dc78e8bc62f4a2c813e241f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:23:07 +0000
Subject: [PATCH 07/23] fix: writing a BinaryWord leaves the stream's boolalpha
 flag as it was

---
 include/binary_word.hpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/include/binary_word.hpp b/include/binary_word.hpp
index 1b0f867..c9da961 100644
--- a/include/binary_word.hpp
+++ b/include/binary_word.hpp
@@ -236,11 +236,9 @@ inline ostream& operator<<(ostream& os, const BinaryWord& bw) {
     if( bw.empty() ) {
         return os << 'e';
     }
-    os << std::noboolalpha;
     for(size_t i=0; i!=bw.size(); ++i) {
-        os << bw[i];
+        os << ( bw[i] ? '1' : '0' );
     }
-    os << std::boolalpha;
     return os;
 }
 
-- 
2.43.0


From 99b8d29313afede4f6374eb30692c38f75d0162b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:32:04 +0000
Subject: [PATCH 08/23] fix: Set::restrict keeps the elements of its argument
 instead of removing them

---
 include/container.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/container.hpp b/include/container.hpp
index aaf3531..74bc38d 100644
--- a/include/container.hpp
+++ b/include/container.hpp
@@ -196,7 +196,7 @@ template<class T> class Set : public std::set<T> {
         return *this; }
     Set<T>& restrict(const std::set<T>& s) {
         auto iter=this->begin();
-        while(iter!=this->end()) { if(s.find(*iter)!=s.end()) { this->erase(iter++); } else { ++iter; } }
+        while(iter!=this->end()) { if(s.find(*iter)==s.end()) { this->erase(iter++); } else { ++iter; } }
         return *this; }
     template<class TT> Set<T>& remove(const std::vector<TT>& l) {
         for(auto iter=l.begin(); iter!=l.end(); ++iter) {
-- 
2.43.0


From 1c5ac55210b3b96d83dba8e80afd9d36d6f4da12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:32:04 +0000
Subject: [PATCH 09/23] fix: Set::subset tests whether the set is a subset of
 its argument, as the free function does

---
 include/container.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/container.hpp b/include/container.hpp
index 74bc38d..9c61f9b 100644
--- a/include/container.hpp
+++ b/include/container.hpp
@@ -176,8 +176,8 @@ template<class T> class Set : public std::set<T> {
     bool contains(const T& t) const {
         return this->find(t)!=this->end(); }
     bool subset(const std::set<T>& s) const {
-        for(auto iter=s.begin(); iter!=s.end(); ++iter) {
-            if(!this->contains(*iter)) { return false; } } return true; }
+        for(auto iter=this->begin(); iter!=this->end(); ++iter) {
+            if(s.find(*iter)==s.end()) { return false; } } return true; }
     bool disjoint(const std::set<T>& s) const {
         for(auto iter=s.begin(); iter!=s.end(); ++iter) {
             if(this->contains(*iter)) { return false; } } return true; }
-- 
2.43.0


From 0b856d3d41ebe20c954f1c4052b678a33601755a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:32:04 +0000
Subject: [PATCH 10/23] fix: applying a function to a Set compiles

---
 include/container.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/container.hpp b/include/container.hpp
index 9c61f9b..4d4f2e4 100644
--- a/include/container.hpp
+++ b/include/container.hpp
@@ -205,7 +205,7 @@ template<class T> class Set : public std::set<T> {
 };
 template<class T, Invocable<T> F> inline
 Set<InvokeResult<F,T>> apply(F&& f, Set<T> const& set) {
-    typedef InvokeResult<F,T> R; Set<R> res; for (auto itm : set) { res.adjoin(f(itm)); } return res; }
+    typedef InvokeResult<F,T> R; Set<R> res; for (auto itm : set) { res.insert(f(itm)); } return res; }
 template<class T> inline Set<T> join(Set<T> s1, Set<T> const& s2) {
     s1.adjoin(s2); return s1; }
 template<class T> inline bool contains(const std::set<T>& s, const T& t) {
-- 
2.43.0


From 4c72fdc646c7e1fd27968fa2864fc2395de31e60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:32:04 +0000
Subject: [PATCH 11/23] fix: appending a List to itself terminates

---
 include/container.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/container.hpp b/include/container.hpp
index 4d4f2e4..ff60f6c 100644
--- a/include/container.hpp
+++ b/include/container.hpp
@@ -87,9 +87,9 @@ template<class T> class List : public std::vector<T> {
         explicit List(const std::vector<TT>& l) : std::vector<T>(l.begin(),l.end()) { }
     void append(const T& t) { this->push_back(t); }
     void append(const std::vector<T>& t) {
-        for(unsigned int i=0; i!=t.size(); ++i) { this->push_back(t[i]); } }
+        const size_t n=t.size(); for(size_t i=0; i!=n; ++i) { this->push_back(t[i]); } }
     void concatenate(const std::vector<T>& t) {
-        for(unsigned int i=0; i!=t.size(); ++i) { this->push_back(t[i]); } }
+        const size_t n=t.size(); for(size_t i=0; i!=n; ++i) { this->push_back(t[i]); } }
 };
 template<class T> inline List<T> catenate(const List<T>& l1, const List<T>& l2) {
     List<T> r(l1);
-- 
2.43.0


From ec25d723ab0cd8857df070f040ba2f09de92e4c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:32:04 +0000
Subject: [PATCH 12/23] fix: make_list of an Array compiles

---
 include/container.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/container.hpp b/include/container.hpp
index ff60f6c..06867ec 100644
--- a/include/container.hpp
+++ b/include/container.hpp
@@ -321,7 +321,7 @@ template<class T> inline Array<T> make_array(const Array<T>& ary) { return Array
 
 template<class T> inline List<T> make_list(const T& t) { return List<T>(1u,t); }
 template<class T> inline List<T> make_list(const std::vector<T>& vec) { return List<T>(vec); }
-template<class T> inline List<T> make_list(const Array<T>& ary) { return List<T>(ary); }
+template<class T> inline List<T> make_list(const Array<T>& ary) { return List<T>(ary.begin(),ary.end()); }
 template<class T> inline List<T> make_list(const Set<T>& set) { return List<T>(set.begin(),set.end()); }
 
 template<class T> inline Set<T> make_set(const std::vector<T>& lst) { return Set<T>(lst); }
-- 
2.43.0


From 7ef078624da35b2adbefdff892c4a8793987a3b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:32:04 +0000
Subject: [PATCH 13/23] fix: writing a tuple compiles

---
 include/stlio.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stlio.hpp b/include/stlio.hpp
index 93055b4..a7412a3 100644
--- a/include/stlio.hpp
+++ b/include/stlio.hpp
@@ -219,7 +219,7 @@ operator<<(std::ostream &os, const std::pair<S,T>& s)
 template<class... TS> inline
 std::ostream& operator<<(std::ostream& os, std::tuple<TS...> const& tup) {
     typename std::tuple_size<std::tuple<TS...>>::type sz;
-    os << "("; write_tuple(os,tup,sz); os << ")"; return os;
+    os << "("; Helper::write_tuple(os,tup,sz); os << ")"; return os;
 }
 
 /*
-- 
2.43.0


From 4079c0f7b34cd29c8310f727e4b3b178b77ede41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:32:04 +0000
Subject: [PATCH 14/23] fix: filling, appending to and concatenating a
 LinkedList compiles

---
 include/container.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/container.hpp b/include/container.hpp
index 06867ec..2015f23 100644
--- a/include/container.hpp
+++ b/include/container.hpp
@@ -142,15 +142,15 @@ template<class T> class LinkedList
     typedef typename std::list<T>::const_iterator ConstIterator;
     LinkedList() : std::list<T>() { }
     LinkedList(unsigned int n) : std::list<T>(n) { }
-    LinkedList(unsigned int n, const T& t) : std::vector<T>(n,t) { }
+    LinkedList(unsigned int n, const T& t) : std::list<T>(n,t) { }
     LinkedList(const std::list<T>& l) : std::list<T>(l) { }
     template<class X> LinkedList(const List<X>& l) : std::list<T>(l.begin(),l.end()) { }
     template<class X> LinkedList(const LinkedList<X>& l) : std::list<T>(l.begin(),l.end()) { }
     template<class I> LinkedList(const I& b, const I& e) : std::list<T>(b,e) { }
     // Conversion constructor from an value to a single-element list.
     void append(const T& t) { this->push_back(t); }
-    void append(const LinkedList<T>& t) { for(unsigned int i=0; i!=t.size(); ++i) { this->push_back(t[i]); } }
-    void concatenate(const LinkedList<T>& t) { for(unsigned int i=0; i!=t.size(); ++i) { this->push_back(t[i]); } }
+    void append(const LinkedList<T>& t) { LinkedList<T> c(t); this->splice(this->end(),c); }
+    void concatenate(const LinkedList<T>& t) { LinkedList<T> c(t); this->splice(this->end(),c); }
 };
 template<class T> inline ostream&
 operator<< (ostream &os, const std::list<T>& l) {
-- 
2.43.0


From c69c7391531b9f2e00414e17830b25468fc6ae0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:34:09 +0000
Subject: [PATCH 15/23] fix: read_sequence refuses an unterminated sequence
 also when the delimiters are equal, and does not examine an unread character

---
 include/stlio.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/stlio.hpp b/include/stlio.hpp
index a7412a3..2ee345c 100644
--- a/include/stlio.hpp
+++ b/include/stlio.hpp
@@ -154,13 +154,14 @@ read_sequence(istream& is, Container& v,
     v.clear();
 
     try {
-        is >> c;
-        if(c != opening) {
+        if(!(is >> c) || c != opening) {
             throw std::ios_base::failure(std::string("Helper::Base::read_vector: Input must begin with ")+opening);
         }
 
         /* Handle case of empty list */
-        is >> c;
+        if(!(is >> c)) {
+            throw std::ios_base::failure("Helper::Base::read_vector: End-of-file reached");
+        }
         if(c != closing) {
             is.putback(c);
             c=separator;
-- 
2.43.0


From 269927770cedf813b9f50c59541a54b8fb62c111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:41:50 +0000
Subject: [PATCH 16/23] fix: LRUCache::put copies its arguments before it
 changes the cache

---
 include/lru_cache.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/lru_cache.hpp b/include/lru_cache.hpp
index aa7a704..a48a792 100644
--- a/include/lru_cache.hpp
+++ b/include/lru_cache.hpp
@@ -79,6 +79,9 @@ template<class L, class V> class LRUCache {
     //! \details The element must not already exist; updates ages accordingly
     void put(L const& label, V const& val) {
         HELPER_PRECONDITION(not has_label(label));
+        // Copy first: copying may throw, and val may refer to the element to be removed
+        std::map<L,AgeValuePair> added;
+        added.insert({label,AgeValuePair(0,val)});
         if (_elements.size() < _maximum_size) {
             for (auto& other : _elements) other.second.age++;
         } else {
@@ -89,7 +92,7 @@ template<class L, class V> class LRUCache {
             }
             _elements.erase(to_remove);
         }
-        _elements.insert({label,AgeValuePair(0,val)});
+        _elements.insert(added.extract(added.begin()));
     }
 
     //! \brief The current size due to putting elements
-- 
2.43.0


From 23d98fcf16bd118955879af77abb0cf7742f2490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:22:31 +0000
Subject: [PATCH 17/23] fix: extracting a mutable reference from a handle
 detaches it from handles sharing its object

---
 include/handle.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/handle.hpp b/include/handle.hpp
index a05ece2..dc58efe 100644
--- a/include/handle.hpp
+++ b/include/handle.hpp
@@ -158,6 +158,7 @@ template<class T, class I> const T& dynamic_handle_extract(const Handle<I>& h) {
 }
 
 template<class T, class I> T& dynamic_handle_extract(Handle<I>& h) {
+    h.make_unique();
     const I* i=h.raw_const_pointer();
     const T* p=dynamic_cast<const T*>(i);
     if(p) { return const_cast<T&>(*p); }
-- 
2.43.0


From 002bdf82eded488ee4b9bbe0c1e58a2e3e47a9d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:36:48 +0000
Subject: [PATCH 18/23] fix: HELPER_TEST_WITHIN compares the real difference of
 compound and floating-point operands

---
 include/test.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/test.hpp b/include/test.hpp
index c5b395c..977c152 100644
--- a/include/test.hpp
+++ b/include/test.hpp
@@ -32,6 +32,7 @@
 #ifndef HELPER_TEST_HPP
 #define HELPER_TEST_HPP
 
+#include <cmath>
 #include <cstdlib>
 #include <cstring>
 #include <iostream>
@@ -306,8 +307,9 @@ int test_case_counter = 0;
 #define HELPER_TEST_WITHIN(expression,expected,tolerance)                         \
     {                                                                   \
         std::cout << #expression << " ~ " << #expected << ": " << std::flush; \
-        auto error=abs(expression-expected); \
-        bool ok = (error <= tolerance);                       \
+        using std::abs;                                                 \
+        auto error=abs((expression)-(expected));                        \
+        bool ok = (error <= (tolerance));                               \
         if(ok) {                                                        \
             std::cout << "true\n" << std::endl;                         \
         } else {                                                        \
-- 
2.43.0


From d5bbbe8f59f401b81807a89e911a1b6a4dc83261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:38:28 +0000
Subject: [PATCH 19/23] fix: stack_trace leaves std::cerr usable when a frame
 has no symbol name

---
 src/stack_trace.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/stack_trace.cpp b/src/stack_trace.cpp
index 022568c..b8456b7 100644
--- a/src/stack_trace.cpp
+++ b/src/stack_trace.cpp
@@ -54,7 +54,12 @@ void stack_trace() {
             size_t length;
             int status;
             char* demangled = abi::__cxa_demangle(symbols[i], no_output_buffer, &length, &status);
-            std::cerr << (status == 0 ? demangled : info.dli_sname) << "\n";
+            const char* name = (status == 0 ? demangled : info.dli_sname);
+            if (name) {
+                std::cerr << name << "\n";
+            } else {
+                std::cerr << i << " " << callstack[i] << "\n";
+            }
             free(demangled);
         } else {
             std::cerr << i << " " << callstack[i] << "\n";
-- 
2.43.0


From 6d12d96c2553bbecfefc429eca9f993da9536729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 14:39:08 +0000
Subject: [PATCH 20/23] fix: a SharedArray construction that fails releases its
 count

---
 include/array.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/array.hpp b/include/array.hpp
index 088500a..0a9066a 100644
--- a/include/array.hpp
+++ b/include/array.hpp
@@ -233,7 +233,8 @@ public:
     size_t* _count; size_t _size; T* _ptr;
 public:
     ~SharedArray() { --*_count; if(*_count==0) { delete _count; delete[] _ptr; } }
-    SharedArray(size_t n) : _count(new size_t(1u)), _size(n), _ptr(new T[n]) { }
+    SharedArray(size_t n) : _count(nullptr), _size(n), _ptr(new T[n]) {
+        try { _count=new size_t(1u); } catch(...) { delete[] _ptr; throw; } }
     SharedArray(size_t n, const T& x) : SharedArray(n) {
         for(size_t i=0; i!=n; ++i) { _ptr[i]=x; } }
     SharedArray(const InitializerList<T>& lst) : SharedArray(lst.size()) {
-- 
2.43.0


From 6df56a8dd21f0032399146e83a84bf67dd4e34ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 14:44:02 +0000
Subject: [PATCH 21/23] fix: assertion macros do not capture conditions and
 texts that use the names ss and result

---
 include/macros.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/macros.hpp b/include/macros.hpp
index 81ec20b..9455e6e 100644
--- a/include/macros.hpp
+++ b/include/macros.hpp
@@ -48,9 +48,9 @@
 
 #define HELPER_THROW(except,func,msg)          \
     { \
-        std::ostringstream ss; \
-        ss << #except " in " << func << ": " << msg;    \
-        throw except(ss.str()); \
+        std::ostringstream helper_throw_stream; \
+        helper_throw_stream << #except " in " << func << ": " << msg;    \
+        throw except(helper_throw_stream.str()); \
     } \
 
 #define HELPER_ASSERT(expression) \
@@ -111,8 +111,8 @@
 #ifndef NDEBUG
 #define HELPER_DEBUG_PRECONDITION(expression) \
     { \
-        bool result = static_cast<bool>(expression); \
-        if(!result) { \
+        bool assertion_result = static_cast<bool>(expression); \
+        if(!assertion_result) { \
             HELPER_THROW(std::runtime_error,__FILE__<<":"<<__LINE__<<": "<<__FUNCTION__,"Precondition `" << #expression << "' failed."); \
         } \
     } \
-- 
2.43.0


From 322d150d4057577fc9ffedb04925e1a2d1ddc1b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 14:44:02 +0000
Subject: [PATCH 22/23] fix: test macros do not capture operands named ok,
 result or error

---
 include/test.hpp | 68 ++++++++++++++++++++++++------------------------
 1 file changed, 34 insertions(+), 34 deletions(-)

diff --git a/include/test.hpp b/include/test.hpp
index 977c152..f23288c 100644
--- a/include/test.hpp
+++ b/include/test.hpp
@@ -185,8 +185,8 @@ int test_case_counter = 0;
 #define HELPER_TEST_ASSERT(expression)                                 \
     {                                                                   \
         std::cout << #expression << ": " << std::flush;                 \
-        auto result = (expression);                                     \
-        if(result) {                                                    \
+        auto helper_test_result = (expression);                         \
+        if(helper_test_result) {                                        \
             std::cout << "true\n" << std::endl;                         \
         } else {                                                        \
             ++HELPER_TEST_FAILURES;                                    \
@@ -200,8 +200,8 @@ int test_case_counter = 0;
 #define HELPER_TEST_CHECK_WARN(expression,expected)                         \
     {                                                                   \
         std::cout << #expression << ": " << std::flush; \
-        bool ok = testing_check(std::cout,expression,expected);         \
-        if(ok) {                                                        \
+        bool helper_test_ok = testing_check(std::cout,expression,expected);         \
+        if(helper_test_ok) {                                            \
             std::cout << "\n" << std::endl;                             \
         } else {                                                        \
             std::cout << "\nWARNING: expected " << #expression << " = " << #expected << " == " << (expected) << " \n" << std::endl; \
@@ -214,8 +214,8 @@ int test_case_counter = 0;
 #define HELPER_TEST_CHECK(expression,expected)                         \
     {                                                                   \
         std::cout << #expression << ": " << std::flush; \
-        bool ok = testing_check(std::cout,expression,expected);         \
-        if(ok) {                                                        \
+        bool helper_test_ok = testing_check(std::cout,expression,expected);         \
+        if(helper_test_ok) {                                            \
             std::cout << "\n" << std::endl;                             \
         } else {                                                        \
             ++HELPER_TEST_FAILURES;                                    \
@@ -229,8 +229,8 @@ int test_case_counter = 0;
 #define HELPER_TEST_SAME(expression1,expression2)                         \
     {                                                                   \
         std::cout << "same(" << #expression1 << "," << #expression2 << "): " << std::flush; \
-        bool ok = same((expression1), (expression2));                       \
-        if(ok) {                                                        \
+        bool helper_test_ok = same((expression1), (expression2));           \
+        if(helper_test_ok) {                                            \
             std::cout << "true\n" << std::endl;                         \
         } else {                                                        \
             ++HELPER_TEST_FAILURES;                                    \
@@ -244,8 +244,8 @@ int test_case_counter = 0;
 #define HELPER_TEST_SAME_AS(expression,expected)                         \
     {                                                                   \
         std::cout << #expression << " == " << #expected << ": " << std::flush; \
-        bool ok = same((expression), (expected));                       \
-        if(ok) {                                                        \
+        bool helper_test_ok = same((expression), (expected));           \
+        if(helper_test_ok) {                                            \
             std::cout << "true\n" << std::endl;                         \
         } else {                                                        \
             ++HELPER_TEST_FAILURES;                                    \
@@ -261,8 +261,8 @@ int test_case_counter = 0;
 #define HELPER_TEST_EQUAL(expression1,expression2)                         \
     {                                                                   \
         std::cout << #expression1 << " == " << #expression2 << ": " << std::flush; \
-        bool ok = (expression1) == (expression2);                       \
-        if(ok) {                                                        \
+        bool helper_test_ok = (expression1) == (expression2);           \
+        if(helper_test_ok) {                                            \
             std::cout << "true\n" << std::endl;                         \
         } else {                                                        \
             ++HELPER_TEST_FAILURES;                                    \
@@ -276,8 +276,8 @@ int test_case_counter = 0;
 #define HELPER_TEST_NOT_EQUAL(expression1,expression2)                 \
     {                                                                   \
         std::cout << #expression1 << " != " << #expression2 << ": " << std::flush; \
-        bool ok = (expression1) == (expression2);               \
-        if(ok) {                                                        \
+        bool helper_test_ok = (expression1) == (expression2);   \
+        if(helper_test_ok) {                                            \
             ++HELPER_TEST_FAILURES;                                    \
             std::cout << "\nERROR: " << #expression1 << ":\n           " << (expression1) \
                       << "\n     : " << #expression2 << ":\n           " << (expression2) << std::endl; \
@@ -291,8 +291,8 @@ int test_case_counter = 0;
 #define HELPER_TEST_EQUALS(expression,expected)                         \
     {                                                                   \
         std::cout << #expression << " == " << #expected << ": " << std::flush; \
-        bool ok = (expression) == (expected);                       \
-        if(ok) {                                                        \
+        bool helper_test_ok = (expression) == (expected);           \
+        if(helper_test_ok) {                                            \
             std::cout << "true\n" << std::endl;                         \
         } else {                                                        \
             ++HELPER_TEST_FAILURES;                                    \
@@ -308,17 +308,17 @@ int test_case_counter = 0;
     {                                                                   \
         std::cout << #expression << " ~ " << #expected << ": " << std::flush; \
         using std::abs;                                                 \
-        auto error=abs((expression)-(expected));                        \
-        bool ok = (error <= (tolerance));                               \
-        if(ok) {                                                        \
+        auto helper_test_error=abs((expression)-(expected));            \
+        bool helper_test_ok = (helper_test_error <= (tolerance));       \
+        if(helper_test_ok) {                                            \
             std::cout << "true\n" << std::endl;                         \
         } else {                                                        \
             ++HELPER_TEST_FAILURES;                                    \
             std::cout << "\nERROR: " << #expression << ":\n           " << (expression) \
                       << "\n     : " << #expected << ":\n           " << (expected) \
-                      << "\n     : error: " << (error) \
+                      << "\n     : error: " << (helper_test_error) \
                       << "\n     : tolerance " << (tolerance) << std::endl; \
-            std::cerr << "ERROR: " << __FILE__ << ":" << __LINE__ << ": " << HELPER_PRETTY_FUNCTION << ": ApproximateTag equality `" << #expression << " ~ " << #expected << "' failed; " << #expression << "=" << (expression) << "; " << #expected << "=" << (expected)<< "; error=" << (error) << "; tolerance=" << (tolerance) << std::endl; \
+            std::cerr << "ERROR: " << __FILE__ << ":" << __LINE__ << ": " << HELPER_PRETTY_FUNCTION << ": ApproximateTag equality `" << #expression << " ~ " << #expected << "' failed; " << #expression << "=" << (expression) << "; " << #expected << "=" << (expected)<< "; error=" << (helper_test_error) << "; tolerance=" << (tolerance) << std::endl; \
         }                                                               \
     }                                                                   \
                                                                    \
@@ -328,8 +328,8 @@ int test_case_counter = 0;
 #define HELPER_TEST_LESS(expression,expected)                         \
     {                                                                   \
         std::cout << #expression << " < " << #expected << ": " << std::flush; \
-        bool ok = (expression) < (expected);                       \
-        if(ok) {                                                        \
+        bool helper_test_ok = (expression) < (expected);           \
+        if(helper_test_ok) {                                            \
             std::cout << "true\n" << std::endl;                         \
         } else {                                                        \
             ++HELPER_TEST_FAILURES;                                    \
@@ -343,8 +343,8 @@ int test_case_counter = 0;
 #define HELPER_TEST_UNARY_PREDICATE(predicate,argument)    \
     {                                                                   \
         std::cout << #predicate << "(" << #argument << ") with " << #argument << "=" << (argument) << ": " << std::flush; \
-        bool ok = (predicate((argument)));                  \
-        if(ok) {                                                        \
+        bool helper_test_ok = (predicate((argument)));      \
+        if(helper_test_ok) {                                            \
             std::cout << "true\n" << std::endl;                         \
         } else {                                                        \
             ++HELPER_TEST_FAILURES;                                    \
@@ -358,8 +358,8 @@ int test_case_counter = 0;
 #define HELPER_TEST_BINARY_PREDICATE(predicate,argument1,argument2)    \
     {                                                                   \
         std::cout << #predicate << "(" << (#argument1) << "," << (#argument2) << ") with " << #argument1 << "=" << (argument1) << ", " << #argument2 << "=" << (argument2) << ": " << std::flush; \
-        bool ok = predicate((argument1),(argument2));                  \
-        if(ok) {                                                        \
+        bool helper_test_ok = predicate((argument1),(argument2));      \
+        if(helper_test_ok) {                                            \
             std::cout << "true\n" << std::endl;                         \
         } else {                                                        \
             ++HELPER_TEST_FAILURES;                                    \
@@ -373,8 +373,8 @@ int test_case_counter = 0;
 #define HELPER_TEST_COMPARE(expression,comparison,expected)           \
     {                                                                   \
         std::cout << #expression << ": " << (expression) << std::flush; \
-        bool ok = ((expression) comparison (expected));               \
-        if(ok) {                                                        \
+        bool helper_test_ok = ((expression) comparison (expected));   \
+        if(helper_test_ok) {                                            \
             std::cout << " " << #comparison << " " << (expected) << ": true\n" << std::endl; \
         } else {                                                        \
             ++HELPER_TEST_FAILURES;                                    \
@@ -387,15 +387,15 @@ int test_case_counter = 0;
 /*! \brief Evaluates \a expression, converts to \a Type, and checks if the result compares correctly with \a expected. */
 #define HELPER_TEST_RESULT_COMPARE(Type,expression,comparison,expected) \
     {                                                                   \
-        Type result=(expression);                                       \
-        std::cout << #expression << ": " << result << std::flush; \
-        bool ok = result comparison (expected);               \
-        if(ok) {                                                        \
+        Type helper_test_result=(expression);                           \
+        std::cout << #expression << ": " << helper_test_result << std::flush; \
+        bool helper_test_ok = helper_test_result comparison (expected);               \
+        if(helper_test_ok) {                                            \
             std::cout << " " << #comparison << " " << (expected) << "\n" << std::endl; \
         } else {                                                        \
             ++HELPER_TEST_FAILURES;                                    \
             std::cout << "\nERROR: expected: " << #expression << #comparison << #expected << std::endl; \
-            std::cerr << "ERROR: " << __FILE__ << ":" << __LINE__ << ": " << HELPER_PRETTY_FUNCTION << ": Comparison `" << #expression << #comparison << #expected << "' failed; " << #expression << "=" << result << "; " << #expected << "=" << (expected) << std::endl; \
+            std::cerr << "ERROR: " << __FILE__ << ":" << __LINE__ << ": " << HELPER_PRETTY_FUNCTION << ": Comparison `" << #expression << #comparison << #expected << "' failed; " << #expression << "=" << helper_test_result << "; " << #expected << "=" << (expected) << std::endl; \
         }                                                               \
     }                                                                   \
 
-- 
2.43.0


From 572f160ffd8080245dc61ad6dd816f48cd7bc22e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:28 +0000
Subject: [PATCH 23/23] fix: Array obtains aligned storage for over-aligned
 element types

---
 include/array.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/array.hpp b/include/array.hpp
index 0a9066a..a9463ca 100644
--- a/include/array.hpp
+++ b/include/array.hpp
@@ -54,8 +54,11 @@ template<class T>
 class Array {
 private:
     static T* uninitialized_new(size_t n) { if(n>static_cast<size_t>(-1)/sizeof(T)) { throw std::bad_array_new_length(); }
-        return static_cast<T*>(::operator new(n*sizeof(T))); }
-    static void uninitialized_delete(T* p) { ::operator delete(p); }
+        if constexpr (alignof(T)>__STDCPP_DEFAULT_NEW_ALIGNMENT__) { return static_cast<T*>(::operator new(n*sizeof(T),std::align_val_t(alignof(T)))); }
+        else { return static_cast<T*>(::operator new(n*sizeof(T))); } }
+    static void uninitialized_delete(T* p) {
+        if constexpr (alignof(T)>__STDCPP_DEFAULT_NEW_ALIGNMENT__) { ::operator delete(p,std::align_val_t(alignof(T))); }
+        else { ::operator delete(p); } }
 public:
     typedef T ValueType;
     typedef size_t IndexType;
-- 
2.43.0

