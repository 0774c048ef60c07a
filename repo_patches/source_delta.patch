From b33e2038c141bd49c46e8a42a26910c78a252e45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:54:11 +0000
Subject: [PATCH 01/16] fix: reset a segment's cached sentinel when one of its
 operations throws

---
 .../boost/poly_collection/detail/segment.hpp  | 93 ++++++++++++++-----
 1 file changed, 72 insertions(+), 21 deletions(-)

diff --git a/include/boost/poly_collection/detail/segment.hpp b/include/boost/poly_collection/detail/segment.hpp
index a080839..f1cf443 100644
--- a/include/boost/poly_collection/detail/segment.hpp
+++ b/include/boost/poly_collection/detail/segment.hpp
@@ -115,33 +115,43 @@ public:
   template<typename U>
   std::size_t          max_size()const noexcept
                          {return impl<U>().nv_max_size();}
-  void                 reserve(std::size_t n){filter(impl().reserve(n));}
+  void                 reserve(std::size_t n)
+                         {sentinel_guard g{*this};g(impl().reserve(n));}
   template<typename U>
-  void                 reserve(std::size_t n){filter(impl<U>().nv_reserve(n));}
+  void                 reserve(std::size_t n)
+                         {sentinel_guard g{*this};g(impl<U>().nv_reserve(n));}
   std::size_t          capacity()const noexcept{return impl().capacity();}
   template<typename U>
   std::size_t          capacity()const noexcept
                          {return impl<U>().nv_capacity();}
-  void                 shrink_to_fit(){filter(impl().shrink_to_fit());}
+  void                 shrink_to_fit()
+                         {sentinel_guard g{*this};g(impl().shrink_to_fit());}
   template<typename U>
-  void                 shrink_to_fit(){filter(impl<U>().nv_shrink_to_fit());}
+  void                 shrink_to_fit()
+                         {
+                           sentinel_guard g{*this};
+                           g(impl<U>().nv_shrink_to_fit());
+                         }
 
   template<typename U,typename Iterator,typename... Args>
   base_iterator emplace(Iterator it,Args&&... args)
   {
-    return filter(impl<U>().nv_emplace(it,std::forward<Args>(args)...));
+    sentinel_guard g{*this};
+    return g(impl<U>().nv_emplace(it,std::forward<Args>(args)...));
   }
 
   template<typename U,typename... Args>
   base_iterator emplace_back(Args&&... args)
   {
-    return filter(impl<U>().nv_emplace_back(std::forward<Args>(args)...));
+    sentinel_guard g{*this};
+    return g(impl<U>().nv_emplace_back(std::forward<Args>(args)...));
   }
 
   template<typename T>
   base_iterator push_back(const T& x)
   {
-    return filter(impl().push_back(subaddress(x)));
+    sentinel_guard g{*this};
+    return g(impl().push_back(subaddress(x)));
   }
 
   template<
@@ -152,26 +162,30 @@ public:
   >
   base_iterator push_back(T&& x)
   {
-    return filter(impl().push_back_move(subaddress(x)));
+    sentinel_guard g{*this};
+    return g(impl().push_back_move(subaddress(x)));
   }
 
   template<typename U>
   base_iterator push_back_terminal(U&& x)
   {
-    return filter(
+    sentinel_guard g{*this};
+    return g(
       impl<typename std::decay<U>::type>().nv_push_back(std::forward<U>(x)));
   }
 
   template<typename T>
   base_iterator insert(const_base_iterator it,const T& x)
   {
-    return filter(impl().insert(it,subaddress(x)));
+    sentinel_guard g{*this};
+    return g(impl().insert(it,subaddress(x)));
   }
 
   template<typename U,typename T>
   base_iterator insert(const_iterator<U> it,const T& x)
   {
-    return filter(
+    sentinel_guard g{*this};
+    return g(
       impl<U>().nv_insert(it,*static_cast<const U*>(subaddress(x))));
   }
 
@@ -183,7 +197,8 @@ public:
   >
   base_iterator insert(const_base_iterator it,T&& x)
   {
-    return filter(impl().insert_move(it,subaddress(x)));
+    sentinel_guard g{*this};
+    return g(impl().insert_move(it,subaddress(x)));
   }
 
   template<
@@ -194,14 +209,16 @@ public:
   >
   base_iterator insert(const_iterator<U> it,T&& x)
   {
-    return filter(
+    sentinel_guard g{*this};
+    return g(
       impl<U>().nv_insert(it,std::move(*static_cast<U*>(subaddress(x)))));
   }
 
   template<typename InputIterator>
   base_iterator insert(InputIterator first,InputIterator last)
   {
-    return filter(
+    sentinel_guard g{*this};
+    return g(
       impl<typename std::iterator_traits<InputIterator>::value_type>().
         nv_insert(first,last));
   }
@@ -220,41 +237,48 @@ public:
   base_iterator insert(
     const_iterator<U> it,InputIterator first,InputIterator last)
   {
-    return filter(impl<U>().nv_insert(it,first,last));
+    sentinel_guard g{*this};
+    return g(impl<U>().nv_insert(it,first,last));
   }
 
   base_iterator erase(const_base_iterator it)
   {
-    return filter(impl().erase(it));
+    sentinel_guard g{*this};
+    return g(impl().erase(it));
   }
 
   template<typename U>
   base_iterator erase(const_iterator<U> it)
   {
-    return filter(impl<U>().nv_erase(it));
+    sentinel_guard g{*this};
+    return g(impl<U>().nv_erase(it));
   }
 
   base_iterator erase(const_base_iterator f,const_base_iterator l)
   {
-    return filter(impl().erase(f,l));
+    sentinel_guard g{*this};
+    return g(impl().erase(f,l));
   }
 
   template<typename U>
   base_iterator erase(const_iterator<U> f,const_iterator<U> l)
   {
-    return filter(impl<U>().nv_erase(f,l));
+    sentinel_guard g{*this};
+    return g(impl<U>().nv_erase(f,l));
   }
 
   template<typename Iterator>
   base_iterator erase_till_end(Iterator f)
   {
-    return filter(impl().erase_till_end(f));
+    sentinel_guard g{*this};
+    return g(impl().erase_till_end(f));
   }
 
   template<typename Iterator>
   base_iterator erase_from_begin(Iterator l)
   {
-    return filter(impl().erase_from_begin(l));
+    sentinel_guard g{*this};
+    return g(impl().erase_from_begin(l));
   }
   
   void                 clear()noexcept{filter(impl().clear());}
@@ -303,6 +327,33 @@ private:
   void          filter(base_sentinel x){snt=x;}
   base_iterator filter(const range& x){snt=x.second;return x.first;}
 
+  /* Some of the operations of the backend, if they throw, may have changed
+   * its size or reallocated: sentinel_guard resets snt in that case.
+   */
+
+  struct sentinel_guard
+  {
+    explicit sentinel_guard(segment& seg)noexcept:pseg{&seg}{}
+    sentinel_guard(const sentinel_guard&)=delete;
+    sentinel_guard& operator=(const sentinel_guard&)=delete;
+    ~sentinel_guard(){if(pseg)pseg->set_sentinel();}
+
+    void operator()(base_sentinel x)
+    {
+      pseg->filter(x);
+      pseg=nullptr;
+    }
+
+    base_iterator operator()(const range& x)
+    {
+      auto p=pseg;
+      pseg=nullptr;
+      return p->filter(x);
+    }
+
+    segment* pseg;
+  };
+
   segment_backend_unique_ptr pimpl;
   base_sentinel              snt;
 };
-- 
2.43.0


From 481ffb43a27227ba83a0db26a28ef9136b13a76c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:55:47 +0000
Subject: [PATCH 02/16] fix: keep split_segment's index capacity in sync with
 the store's from construction

---
 include/boost/poly_collection/detail/split_segment.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/boost/poly_collection/detail/split_segment.hpp b/include/boost/poly_collection/detail/split_segment.hpp
index 4c18788..93352d6 100644
--- a/include/boost/poly_collection/detail/split_segment.hpp
+++ b/include/boost/poly_collection/detail/split_segment.hpp
@@ -314,6 +314,7 @@ private:
     i{{},typename index::allocator_type{al}}
   {
     s.reserve(1); /* --> s.data()!=nullptr */
+    i.reserve(s.capacity()+1);
     build_index();
   }
 
@@ -321,6 +322,7 @@ private:
     s{std::move(s_)},i{{},typename index::allocator_type{s.get_allocator()}}
   {
     s.reserve(1); /* --> s.data()!=nullptr */
+    i.reserve(s.capacity()+1);
     build_index();
   }
 
-- 
2.43.0


From be3c5ebd444775c3c44f156eed70e4bb6f308940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:55:47 +0000
Subject: [PATCH 03/16] fix: keep split_segment's index in sync with the store
 when insertion or erasure throws

---
 .../poly_collection/detail/split_segment.hpp  | 40 ++++++++++++-------
 1 file changed, 26 insertions(+), 14 deletions(-)

diff --git a/include/boost/poly_collection/detail/split_segment.hpp b/include/boost/poly_collection/detail/split_segment.hpp
index 93352d6..1c62627 100644
--- a/include/boost/poly_collection/detail/split_segment.hpp
+++ b/include/boost/poly_collection/detail/split_segment.hpp
@@ -165,10 +165,10 @@ public:
   range nv_emplace(Iterator p,Args&&... args)
   {
     auto q=prereserve(p);
+    index_guard g{*this};
     auto it=s.emplace(
       iterator_from(q),
       value_holder_emplacing_ctor,std::forward<Args>(args)...);
-    push_index_entry();
     return range_from(it);
   }
 
@@ -209,8 +209,8 @@ public:
   range nv_insert(const_iterator p,const Concrete& x)
   {
     p=prereserve(p);
+    index_guard g{*this};
     auto it=s.emplace(iterator_from(p),x);
-    push_index_entry();
     return range_from(it);
   }
 
@@ -220,8 +220,8 @@ public:
   range nv_insert(const_iterator p,Concrete&& x)
   {
     p=prereserve(p);
+    index_guard g{*this};
     auto it=s.emplace(iterator_from(p),std::move(x));
-    push_index_entry();
     return range_from(it);
   }
 
@@ -245,8 +245,9 @@ public:
 
   range nv_erase(const_iterator p)
   {
+    auto it=s.erase(iterator_from(p));
     pop_index_entry();
-    return range_from(s.erase(iterator_from(p)));
+    return range_from(it);
   }
     
   virtual range erase(const_base_iterator first,const_base_iterator last)
@@ -402,6 +403,24 @@ private:
     while(n--)i.pop_back();
   }
 
+  /* Resyncs index with store on exit: insertion in the middle of the store
+   * may have changed its size even if it throws.
+   */
+
+  struct index_guard
+  {
+    explicit index_guard(split_segment& x)noexcept:x(x){}
+    index_guard(const index_guard&)=delete;
+    index_guard& operator=(const index_guard&)=delete;
+    ~index_guard()
+    {
+      if(x.i.size()>x.s.size()+1)x.pop_index_entry(x.i.size()-x.s.size()-1);
+      else                       x.build_index(x.i.size());
+    }
+
+    split_segment& x;
+  };
+
   static Concrete& concrete_ref(value_pointer p)noexcept
   {
     return *static_cast<Concrete*>(p);
@@ -472,8 +491,8 @@ private:
     std::size_t n=0;
     for(;first!=last;++first,++n,++p){
       p=prereserve(p);
+      index_guard g{*this};
       s.emplace(iterator_from(p),*first);
-      push_index_entry();
     }
     return range_from(iterator_from(p-n));
   }
@@ -483,18 +502,11 @@ private:
     const_iterator p,InputIterator first,InputIterator last,
     std::forward_iterator_tag)
   {
-    auto n=s.size();
     auto m=static_cast<std::size_t>(std::distance(first,last));
     if(m){
       p=prereserve(p,m);
-      try{
-        s.insert(iterator_from(p),first,last);
-      }
-      catch(...){
-        build_index(n+1);
-        throw;
-      }
-      build_index(n+1);
+      index_guard g{*this};
+      s.insert(iterator_from(p),first,last);
     }
     return range_from(iterator_from(p));
   }
-- 
2.43.0


From 3532f4ec04ab56d78cd36ea4b45d8c5b5f11731f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:57:42 +0000
Subject: [PATCH 04/16] fix: support insertion of a collection's own elements
 in full split_segments

---
 .../poly_collection/detail/split_segment.hpp  | 44 ++++++++++++++-----
 1 file changed, 33 insertions(+), 11 deletions(-)

diff --git a/include/boost/poly_collection/detail/split_segment.hpp b/include/boost/poly_collection/detail/split_segment.hpp
index 1c62627..ac975a8 100644
--- a/include/boost/poly_collection/detail/split_segment.hpp
+++ b/include/boost/poly_collection/detail/split_segment.hpp
@@ -164,10 +164,13 @@ public:
   template<typename Iterator,typename... Args>
   range nv_emplace(Iterator p,Args&&... args)
   {
-    auto q=prereserve(p);
+    if(full()){
+      return expand_emplace(
+        p,value_holder_emplacing_ctor,std::forward<Args>(args)...);
+    }
     index_guard g{*this};
     auto it=s.emplace(
-      iterator_from(q),
+      iterator_from(p),
       value_holder_emplacing_ctor,std::forward<Args>(args)...);
     return range_from(it);
   }
@@ -175,7 +178,10 @@ public:
   template<typename... Args>
   range nv_emplace_back(Args&&... args)
   {
-    prereserve();
+    if(full()){
+      return expand_emplace(
+        nv_cend(),value_holder_emplacing_ctor,std::forward<Args>(args)...);
+    }
     s.emplace_back(value_holder_emplacing_ctor,std::forward<Args>(args)...);
     push_index_entry();
     return range_from(s.size()-1);
@@ -186,7 +192,7 @@ public:
 
   range nv_push_back(const Concrete& x)
   {
-    prereserve();
+    if(full())return expand_emplace(nv_cend(),x);
     s.emplace_back(x);
     push_index_entry();
     return range_from(s.size()-1);
@@ -197,7 +203,7 @@ public:
 
   range nv_push_back(Concrete&& x)
   {
-    prereserve();
+    if(full())return expand_emplace(nv_cend(),std::move(x));
     s.emplace_back(std::move(x));
     push_index_entry();
     return range_from(s.size()-1);
@@ -208,7 +214,7 @@ public:
 
   range nv_insert(const_iterator p,const Concrete& x)
   {
-    p=prereserve(p);
+    if(full())return expand_emplace(p,x);
     index_guard g{*this};
     auto it=s.emplace(iterator_from(p),x);
     return range_from(it);
@@ -219,7 +225,7 @@ public:
 
   range nv_insert(const_iterator p,Concrete&& x)
   {
-    p=prereserve(p);
+    if(full())return expand_emplace(p,std::move(x));
     index_guard g{*this};
     auto it=s.emplace(iterator_from(p),std::move(x));
     return range_from(it);
@@ -327,10 +333,10 @@ private:
     build_index();
   }
 
-  void prereserve()
-  {
-    if(s.size()==s.capacity())expand();
-  }
+  bool full()const noexcept{return s.size()==s.capacity();}
+
+  const_iterator nv_cend()const noexcept
+    {return const_concrete_ptr(s.data()+s.size());}
 
   const_base_iterator prereserve(const_base_iterator p)
   {
@@ -362,6 +368,22 @@ private:
     else return p;
   }
 
+  /* args may refer to elements of the store, so the new element is to be
+   * constructed before expanding.
+   */
+
+  template<typename Iterator,typename... Args>
+  range expand_emplace(Iterator p,Args&&... args)
+  {
+    store ss{s.get_allocator()};
+    ss.reserve(1);
+    ss.emplace_back(std::forward<Args>(args)...);
+    auto q=prereserve(p);
+    index_guard g{*this};
+    auto it=s.emplace(iterator_from(q),std::move(ss.front()));
+    return range_from(it);
+  }
+
   void expand()
   {
     std::size_t c=
-- 
2.43.0


From 9c685bf4e1520171df62218d96476f1d23f2849c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:59:22 +0000
Subject: [PATCH 05/16] fix: throw std::length_error on excessive reserve in
 split_segment, account for index in max_size

---
 include/boost/poly_collection/detail/split_segment.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/boost/poly_collection/detail/split_segment.hpp b/include/boost/poly_collection/detail/split_segment.hpp
index ac975a8..81e15b5 100644
--- a/include/boost/poly_collection/detail/split_segment.hpp
+++ b/include/boost/poly_collection/detail/split_segment.hpp
@@ -13,11 +13,13 @@
 #pragma once
 #endif
 
+#include <algorithm>
 #include <boost/poly_collection/detail/segment_backend.hpp>
 #include <boost/poly_collection/detail/value_holder.hpp>
 #include <iterator>
 #include <memory>
 #include <new>
+#include <stdexcept>
 #include <utility>
 #include <vector>
 
@@ -120,7 +122,8 @@ public:
   virtual std::size_t   size()const noexcept{return nv_size();}
   std::size_t           nv_size()const noexcept{return s.size();}
   virtual std::size_t   max_size()const noexcept{return nv_max_size();}
-  std::size_t           nv_max_size()const noexcept{return s.max_size()-1;}
+  std::size_t           nv_max_size()const noexcept
+                         {return (std::min)(s.max_size(),i.max_size())-1;}
   virtual std::size_t   capacity()const noexcept{return nv_capacity();}
   std::size_t           nv_capacity()const noexcept{return s.capacity();}
 
@@ -128,6 +131,9 @@ public:
 
   base_sentinel nv_reserve(std::size_t n)
   {
+    if(n>nv_max_size()){
+      throw std::length_error{"boost::poly_collection reserve exceeds max_size"};
+    }
     bool rebuild=n>s.capacity();
     i.reserve(n+1);
     s.reserve(n);
-- 
2.43.0


From 6b20d22485d7c49eded9c81457f9749f1018bfa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:59:22 +0000
Subject: [PATCH 06/16] fix: restitute type of element preceding segment
 boundary in adjacent_find and unique_copy

---
 include/boost/poly_collection/algorithm.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/poly_collection/algorithm.hpp b/include/boost/poly_collection/algorithm.hpp
index 67c4fc3..ab737b7 100644
--- a/include/boost/poly_collection/algorithm.hpp
+++ b/include/boost/poly_collection/algorithm.hpp
@@ -244,7 +244,7 @@ struct adjacent_find_alg
   >
   LocalBaseIterator operator()(
     LocalIterator first,LocalIterator last,BinaryPredicate pred,
-    bool& carry,const std::type_info* prev_info, /* note the &s */
+    bool& carry,const std::type_info*& prev_info, /* note the &s */
     LocalBaseIterator& prev)const
   {
     if(first==last)return LocalBaseIterator{last};
@@ -955,7 +955,7 @@ struct unique_copy_alg
   OutputIterator operator()(
     LocalIterator first,LocalIterator last,
     OutputIterator res, BinaryPredicate pred,
-    bool& carry,const std::type_info* prev_info, /* note the &s */
+    bool& carry,const std::type_info*& prev_info, /* note the &s */
     LocalBaseIterator& prev)const
   {
     if(carry){
-- 
2.43.0


From 1ccef40c90bdf16d5d7661314698e374b92d0543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:00:13 +0000
Subject: [PATCH 07/16] fix: don't compare iterators from different segments in
 adjacent_find

---
 include/boost/poly_collection/algorithm.hpp | 28 ++++++++++++++++-----
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/include/boost/poly_collection/algorithm.hpp b/include/boost/poly_collection/algorithm.hpp
index ab737b7..8edb3da 100644
--- a/include/boost/poly_collection/algorithm.hpp
+++ b/include/boost/poly_collection/algorithm.hpp
@@ -244,13 +244,16 @@ struct adjacent_find_alg
   >
   LocalBaseIterator operator()(
     LocalIterator first,LocalIterator last,BinaryPredicate pred,
-    bool& carry,const std::type_info*& prev_info, /* note the &s */
+    bool& found,bool& carry,const std::type_info*& prev_info, /* note the &s */
     LocalBaseIterator& prev)const
   {
     if(first==last)return LocalBaseIterator{last};
     if(carry){
       auto p=restitute_iterator<Ts...>(deref_to(pred));
-      if(p(*prev_info,prev,first))return prev;
+      if(p(*prev_info,prev,first)){
+        found=true;
+        return prev;
+      }
     }
     auto res=std::adjacent_find(first,last,pred);
     if(res==last){
@@ -259,7 +262,7 @@ struct adjacent_find_alg
         typename std::iterator_traits<LocalIterator>::value_type);
       prev=LocalBaseIterator{last-1};
     }
-    else carry=false;
+    else found=true;
     return LocalBaseIterator{res};
   }
 };
@@ -274,11 +277,24 @@ Iterator adjacent_find(
   using traits=iterator_traits<Iterator>;
   using local_base_iterator=typename traits::local_base_iterator;
 
-  bool                  carry=false;
+  /* generic_find not used as prev can't be compared with iterators from a
+   * segment other than its own.
+   */
+
+  bool                  found=false,carry=false;
   const std::type_info* prev_info{&typeid(void)};
   local_base_iterator   prev;
-  return generic_find<adjacent_find_alg<Ts...>,Ts...>(
-    first,last,pred,carry,prev_info,prev);  
+  auto                  alg=restitute_range<Ts...>(
+                          cast_return<local_base_iterator>(
+                            adjacent_find_alg<Ts...>{}),
+                          pred,found,carry,prev_info,prev);
+  for(auto i:detail::segment_split(first,last)){
+    auto it=alg(i);
+    if(found)
+      return traits::iterator_from(
+        it,traits::end_base_segment_info_iterator_from(last));
+  }
+  return last;
 }
 
 template<
-- 
2.43.0


From b965c9bf139b7437d6c092a7d2a37dc862508fe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:01:55 +0000
Subject: [PATCH 08/16] fix: make copy_n accept Size types other than
 std::ptrdiff_t

---
 include/boost/poly_collection/algorithm.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/boost/poly_collection/algorithm.hpp b/include/boost/poly_collection/algorithm.hpp
index 8edb3da..a6d38e3 100644
--- a/include/boost/poly_collection/algorithm.hpp
+++ b/include/boost/poly_collection/algorithm.hpp
@@ -794,10 +794,12 @@ OutputIterator copy_n(const Iterator& first,Size count,OutputIterator res)
   auto lbit=traits::local_base_iterator_from(first);
   auto sit=traits::base_segment_info_iterator_from(first);
   for(;;){
-    auto n=(std::min)(count,sit->end()-lbit);
+    auto n=(std::min)(
+      static_cast<std::ptrdiff_t>(count),
+      static_cast<std::ptrdiff_t>(sit->end()-lbit));
     auto alg=restitute_iterator<Ts...>(std_copy_n{},n,res);
     res=alg(sit->type_info(),lbit);
-    if((count-=n)==0)break;
+    if((count-=static_cast<Size>(n))==0)break;
     ++sit;
     lbit=sit->begin();
   }
-- 
2.43.0


From 7d2f7820693d40f9b4373c27ba23901bd192360a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:01:55 +0000
Subject: [PATCH 09/16] fix: propagate the allocator of type_info_map's cache
 as that of its map on copy assignment

---
 include/boost/poly_collection/detail/type_info_map.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/poly_collection/detail/type_info_map.hpp b/include/boost/poly_collection/detail/type_info_map.hpp
index f983b82..7a3171c 100644
--- a/include/boost/poly_collection/detail/type_info_map.hpp
+++ b/include/boost/poly_collection/detail/type_info_map.hpp
@@ -100,8 +100,8 @@ public:
   {
     if(this!=&x)try{
       map=x.map;
-      cache=make<cache_type>(map.get_allocator());
-      build_cache(x.cache);
+      cache=x.cache; /* same allocator propagation as with map */
+      rebuild_cache();
     }
     catch(...){
       map.clear();
-- 
2.43.0


From a13067e916fea6583a66e16ab34420765e8e5013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:23:32 +0000
Subject: [PATCH 10/16] fix: allow for insertion of pointer-to-const ranges of
 terminal types

---
 include/boost/poly_collection/detail/poly_collection.hpp | 4 ++--
 include/boost/poly_collection/detail/segment.hpp         | 6 +++++-
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/boost/poly_collection/detail/poly_collection.hpp b/include/boost/poly_collection/detail/poly_collection.hpp
index 491ce2d..500dae1 100644
--- a/include/boost/poly_collection/detail/poly_collection.hpp
+++ b/include/boost/poly_collection/detail/poly_collection.hpp
@@ -738,7 +738,7 @@ public:
     /* same segment for all (type is terminal) */
 
     auto& seg=segment(get_map_iterator_for(*first)); 
-    seg.insert(first,last);
+    seg.append(first,last);
   }
 
   template<bool Const>
@@ -794,7 +794,7 @@ public:
     auto it=get_map_iterator_for(*first);
     auto& seg=segment(it); 
     if(hint.mapit==it)seg.insert(hint.segpos,first,last); /* hint in segment */
-    else seg.insert(first,last);
+    else seg.append(first,last);
   }
 
   template<bool Const>
diff --git a/include/boost/poly_collection/detail/segment.hpp b/include/boost/poly_collection/detail/segment.hpp
index f1cf443..2cbfb37 100644
--- a/include/boost/poly_collection/detail/segment.hpp
+++ b/include/boost/poly_collection/detail/segment.hpp
@@ -214,8 +214,12 @@ public:
       impl<U>().nv_insert(it,std::move(*static_cast<U*>(subaddress(x)))));
   }
 
+  /* not named insert so as not to clash with insert(const_iterator<U>,const T&)
+   * when InputIterator is a pointer to const.
+   */
+
   template<typename InputIterator>
-  base_iterator insert(InputIterator first,InputIterator last)
+  base_iterator append(InputIterator first,InputIterator last)
   {
     sentinel_guard g{*this};
     return g(
-- 
2.43.0


From 742030cb0623fe15f4c5ff05c5ad345fd6b6f4b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:57:08 +0000
Subject: [PATCH 11/16] fix: clear the source of a throwing allocator-extended
 move construction

If moving the segments one by one fails midway, the source is left with
segments whose elements are gone but whose cached sentinels are not up to
date: clear it, as move assignment does.
---
 include/boost/poly_collection/detail/type_info_map.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/boost/poly_collection/detail/type_info_map.hpp b/include/boost/poly_collection/detail/type_info_map.hpp
index 7a3171c..ad78313 100644
--- a/include/boost/poly_collection/detail/type_info_map.hpp
+++ b/include/boost/poly_collection/detail/type_info_map.hpp
@@ -81,7 +81,7 @@ public:
   type_info_map(const type_info_map& x,const allocator_type& al):
     map{make(x.map,al)},cache{make<cache_type>(al)}
     {build_cache(x.cache);}
-  type_info_map(type_info_map&& x,const allocator_type& al):
+  type_info_map(type_info_map&& x,const allocator_type& al)try:
     map{make(std::move(x.map),al)},
     cache{
       al==allocator_type{x.map.get_allocator()}&&x.map.empty()?
@@ -95,6 +95,11 @@ public:
     x.map.clear();
     x.cache.clear();
   }
+  catch(...){
+    x.map.clear();
+    x.cache.clear();
+    throw;
+  }
 
   type_info_map& operator=(const type_info_map& x)
   {
-- 
2.43.0


From a13b4b6c2f6a1e1112afe2199bad456cd18228a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:04:04 +0000
Subject: [PATCH 12/16] fix: let sample take ranges longer than its Distance
 type can represent

---
 include/boost/poly_collection/algorithm.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/boost/poly_collection/algorithm.hpp b/include/boost/poly_collection/algorithm.hpp
index a6d38e3..35eb1d4 100644
--- a/include/boost/poly_collection/algorithm.hpp
+++ b/include/boost/poly_collection/algorithm.hpp
@@ -1062,13 +1062,14 @@ OutputIterator sample(
   const Iterator& first,const Iterator& last,
   OutputIterator res,Distance n,UniformRandomBitGenerator&& g)
 {
-  Distance m=algorithm::fast_distance(first,last);
-  n=(std::min)(n,m);
+  /* Distance may not be able to represent the length of the range */
+  std::ptrdiff_t m=algorithm::fast_distance(first,last);
+  std::ptrdiff_t k=(std::min)(static_cast<std::ptrdiff_t>(n),m);
 
   for(auto i:detail::segment_split(first,last)){
-    auto alg=restitute_range<Ts...>(sample_alg{},res,n,m,g);
+    auto alg=restitute_range<Ts...>(sample_alg{},res,k,m,g);
     res=alg(i);
-    if(n==0)return res;
+    if(k==0)return res;
   }
   return res; /* never reached */
 }
-- 
2.43.0


From 2975bfd53fc6ccd8f57eac39bf562131513726e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:40:01 +0000
Subject: [PATCH 13/16] fix: allow const_local_iterator<T> for callables
 without a const function call operator

---
 .../boost/poly_collection/detail/callable_wrapper_iterator.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/boost/poly_collection/detail/callable_wrapper_iterator.hpp b/include/boost/poly_collection/detail/callable_wrapper_iterator.hpp
index fb3ca23..46c3aca 100644
--- a/include/boost/poly_collection/detail/callable_wrapper_iterator.hpp
+++ b/include/boost/poly_collection/detail/callable_wrapper_iterator.hpp
@@ -69,7 +69,8 @@ public:
   template<
     typename Callable,
     typename std::enable_if<
-      std::is_constructible<CWrapper,Callable&>::value&&
+      std::is_constructible<
+        CWrapper,typename std::remove_const<Callable>::type&>::value&&
       (!std::is_const<CWrapper>::value||std::is_const<Callable>::value)
     >::type* =nullptr
   >
-- 
2.43.0


From d9d160ee2a553677bb75ca03d643939ee08e9d01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:40:01 +0000
Subject: [PATCH 14/16] fix: support signatures returning references in
 callable_wrapper

---
 include/boost/poly_collection/detail/callable_wrapper.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/poly_collection/detail/callable_wrapper.hpp b/include/boost/poly_collection/detail/callable_wrapper.hpp
index 9b339db..442dcb1 100644
--- a/include/boost/poly_collection/detail/callable_wrapper.hpp
+++ b/include/boost/poly_collection/detail/callable_wrapper.hpp
@@ -78,7 +78,7 @@ private:
   static table* info(Callable&)noexcept
   {
     static table t={
-      [](void* p,Args... args){
+      [](void* p,Args... args)->R{
         auto r=std::ref(*static_cast<Callable*>(p));
         return static_cast<R>(r(std::forward<Args>(args)...));
       },
-- 
2.43.0


From aa9f9acd15438dc511e65685a76a557d8adb7663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:50:03 +0000
Subject: [PATCH 15/16] fix: grow split_segments geometrically on range
 insertion

---
 include/boost/poly_collection/detail/split_segment.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/boost/poly_collection/detail/split_segment.hpp b/include/boost/poly_collection/detail/split_segment.hpp
index 81e15b5..2113d6a 100644
--- a/include/boost/poly_collection/detail/split_segment.hpp
+++ b/include/boost/poly_collection/detail/split_segment.hpp
@@ -403,8 +403,14 @@ private:
 
   void expand(std::size_t m)
   {
-    i.reserve(s.size()+m+1);
-    s.reserve(s.size()+m);
+    /* grow geometrically if m is small */
+
+    std::size_t c=
+      s.size()/2<=m||(s.max_size()-1-s.size())/2<s.size()?
+        s.size()+m:
+        s.size()+s.size()/2;
+    i.reserve(c+1);
+    s.reserve(c);
     rebuild_index();
   }
 
-- 
2.43.0


From 7f34fd6617fa5be84b285a97640ba07629253609 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:12:51 +0000
Subject: [PATCH 16/16] fix: store the actual address of callables overloading
 unary operator&

---
 include/boost/poly_collection/detail/callable_wrapper.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/boost/poly_collection/detail/callable_wrapper.hpp b/include/boost/poly_collection/detail/callable_wrapper.hpp
index 442dcb1..af7c9d2 100644
--- a/include/boost/poly_collection/detail/callable_wrapper.hpp
+++ b/include/boost/poly_collection/detail/callable_wrapper.hpp
@@ -13,6 +13,7 @@
 #pragma once
 #endif
 
+#include <boost/core/addressof.hpp>
 #include <boost/poly_collection/detail/is_invocable.hpp>
 #include <functional>
 #include <type_traits>
@@ -41,7 +42,8 @@ public:
       is_invocable_r<R,Callable,Args...>::value
     >::type* =nullptr
   >
-  explicit callable_wrapper(Callable& x)noexcept:pt{info(x)},px{&x}{}
+  explicit callable_wrapper(Callable& x)noexcept:
+    pt{info(x)},px{boost::addressof(x)}{}
   callable_wrapper(const callable_wrapper&)=default;
   callable_wrapper& operator=(const callable_wrapper&)=default;
 
-- 
2.43.0

