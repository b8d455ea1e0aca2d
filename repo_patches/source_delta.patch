From 3bec81389570272e05977bbd2916f582157b7253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:46 +0000
Subject: [PATCH 01/72] fix: pack_t::cmp returns -1, 0 or 1, as documented and
 as operator< and operator> rely on

---
 pack_base.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pack_base.h b/pack_base.h
index 40b735a..aa481ce 100644
--- a/pack_base.h
+++ b/pack_base.h
@@ -292,7 +292,10 @@ namespace classdesc
     /// greater than \a x
     virtual int cmp(const pack_t& x) const {
       if (m_size==x.m_size)
-        return memcmp(m_data,x.m_data,m_size);
+        {
+          int r=memcmp(m_data,x.m_data,m_size);
+          return r<0? -1: r>0;
+        }
       else
         return m_size<x.m_size? -1: 1;
     }
-- 
2.43.0


From a3530f2c72e7b61c9adc5aa92b9f1cc33d2640f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:46 +0000
Subject: [PATCH 02/72] fix: reading more than the buffered data is detected
 even when the end position wraps around

---
 pack_base.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pack_base.h b/pack_base.h
index aa481ce..b638a87 100644
--- a/pack_base.h
+++ b/pack_base.h
@@ -203,7 +203,7 @@ namespace classdesc
     virtual void popoff(basic_type& x)
     {
       if (mode==buf)
-        if (m_pos+x.size>m_size)
+        if (m_pos>m_size || x.size>m_size-m_pos)
           throw pack_error("unexpected end of data");
         else
           memcpy(x.val,m_data+m_pos,x.size);
@@ -270,7 +270,7 @@ namespace classdesc
     {
       if (mode==buf)
         {
-          if (s+m_pos>m_size)
+          if (m_pos>m_size || s>m_size-m_pos)
             throw pack_error("premature end of buffered data");
           memcpy(x,m_data+m_pos,s);
         }
-- 
2.43.0


From af998728327c4f5441b43ccaaaaa7bfbb5dc2a56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:46 +0000
Subject: [PATCH 03/72] fix: xdr_pack::swap exchanges the output streams

---
 pack_base.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pack_base.h b/pack_base.h
index b638a87..b6d57aa 100644
--- a/pack_base.h
+++ b/pack_base.h
@@ -356,7 +356,7 @@ namespace classdesc
       swap_base(other);
       std::swap(asize,xdr_other->asize);
       std::swap(input,xdr_other->input);
-      std::swap(input,xdr_other->output);
+      std::swap(output,xdr_other->output);
     }
   };
   template <> inline string typeName<xdr_pack>() {return "classdesc::xdr_pack";}
-- 
2.43.0


From d6644131f6b175f48fb02a69defda5ff0aced93a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:46 +0000
Subject: [PATCH 04/72] fix: unpackSequence no longer increments an iterator
 that push_back has invalidated

---
 pack_stl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pack_stl.h b/pack_stl.h
index 09fca3d..a08ab2a 100644
--- a/pack_stl.h
+++ b/pack_stl.h
@@ -121,7 +121,7 @@ namespace classdesc
     uint64 sz=0, i=0;
     b >> sz;
     resize(a,0);
-    for (typename T::iterator j=a.begin(); i<sz; ++i, ++j)
+    for (; i<sz; ++i)
       {
         typename T::value_type x;
         b >> x;
-- 
2.43.0


From 837b46ab5d5c864ee5386b25d4d50e4f86dbdaec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:08 +0000
Subject: [PATCH 05/72] fix: wide strings can be unpacked

---
 pack_stl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pack_stl.h b/pack_stl.h
index a08ab2a..0ed385e 100644
--- a/pack_stl.h
+++ b/pack_stl.h
@@ -262,7 +262,7 @@ namespace classdesc_access
     {
       classdesc::uint64 size=0; targ>>size;
       std::vector<cT> buf(size+1); //ensure buf[0] exists
-      targ.unpackraw(buf.data(),sizeof(cT)*size);
+      targ.unpackraw((char*)buf.data(),sizeof(cT)*size);
       asg(arg, buf);
     }
   };
-- 
2.43.0


From 3232868ba9066bb0d7edc4306237a4931c15c40d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:43 +0000
Subject: [PATCH 06/72] fix: MultiArray constructed from a dimension array has
 the right stride

---
 multiArray.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/multiArray.h b/multiArray.h
index 0feacac..cc42062 100644
--- a/multiArray.h
+++ b/multiArray.h
@@ -76,6 +76,7 @@ namespace classdesc
     MultiArray(T* data, const size_t a_dim[]): m_data(data)
     {
       memcpy(dim, a_dim, sizeof(dim));
+      for (int i=0; i<Rank-1; ++i) m_stride*=dim[i];
     }
     
     size_t size() const {return dim[Rank-1];}
-- 
2.43.0


From b3e0a792b2229227b84226b18ba0c34654529c04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:43 +0000
Subject: [PATCH 07/72] fix: MultiArray with a last dimension of 0 divided by
 zero

---
 multiArray.h | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/multiArray.h b/multiArray.h
index cc42062..47549b1 100644
--- a/multiArray.h
+++ b/multiArray.h
@@ -32,16 +32,15 @@ namespace classdesc
 #if defined(__cplusplus) && __cplusplus>=201703L
     void constructDim(size_t& d, size_t dd)
     {
+      // the stride is the product of all but the last dimension
+      if (d<Rank-1) m_stride*=dd;
       dim[d++]=dd;
-      m_stride*=dd;
     }
     template <class... Args>
     void constructDims(size_t d, Args... args)
     {
       m_stride=1;
       (constructDim(d,args),...);
-      // fold expression multiplies m_stride by one too many dimensions
-      if (d>0) m_stride/=dim[d-1];
     }
 #else
 
-- 
2.43.0


From 30860e5cd06b96a518b5789c92cfae44e98e72ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:07 +0000
Subject: [PATCH 08/72] fix: MultiArray of rank 3 or more can be subscripted
 when not const

---
 multiArray.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/multiArray.h b/multiArray.h
index 47549b1..6e94de3 100644
--- a/multiArray.h
+++ b/multiArray.h
@@ -77,6 +77,9 @@ namespace classdesc
       memcpy(dim, a_dim, sizeof(dim));
       for (int i=0; i<Rank-1; ++i) m_stride*=dim[i];
     }
+    // otherwise a non-const array of dimensions selects the variadic constructor
+    MultiArray(T* data, size_t a_dim[]):
+      MultiArray(data, static_cast<const size_t*>(a_dim)) {}
     
     size_t size() const {return dim[Rank-1];}
     size_t stride() const {return m_stride;}
-- 
2.43.0


From a5cbf3c7449076c5a4e6e97ab2dcd09ccc52801c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:44 +0000
Subject: [PATCH 09/72] fix: assigning to a ref something its current payload
 owns no longer uses freed memory

---
 ref.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ref.h b/ref.h
index 662b1b3..804a94e 100644
--- a/ref.h
+++ b/ref.h
@@ -48,8 +48,9 @@ namespace classdesc
     ref(): item(NULL) {}  /* unitialised refs don't consume space */
     ref(const ref& x) {asg(x);}
     ref(const T& x) {newitem(x);}
-    ref& operator=(const ref& x)  { if (x.item!=item) {refdec(); asg(x);} return *this;}
-    ref& operator=(const T& x) {refdec(); newitem(x); return *this;}  
+    // x may be owned by the current payload, so take the new payload before releasing it
+    ref& operator=(const ref& x)  {ref tmp(x); swap(tmp); return *this;}
+    ref& operator=(const T& x) {ref tmp(x); swap(tmp); return *this;}
     ~ref() {refdec();}
     /// dereference - creates default object if null
     T* operator->() {if (!item) newitem(); return (T*)item;}
-- 
2.43.0


From 0754ac68bcc48f08460d9325a32b001482441b98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:44 +0000
Subject: [PATCH 10/72] fix: comparing a null ref with a value no longer
 dereferences null

---
 ref.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ref.h b/ref.h
index 804a94e..799a567 100644
--- a/ref.h
+++ b/ref.h
@@ -78,7 +78,7 @@ namespace classdesc
     int refCount() const {if (item) {return item->count;} else return 0;}
     bool operator==(const ref& x) const {return x.item==item;}
     bool operator==(const T* x) const {return x==item;} 
-    bool operator==(const T& x) const {return x==*item;} 
+    bool operator==(const T& x) const {return item && x==*item;} 
     template <class U>
     bool operator!=(const U& x) const {return !operator==(x);}
     /* used for maps and sets - needed for unpack */
-- 
2.43.0


From d92d23a771ce3f57985875c7024f9111bc28a267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:29 +0000
Subject: [PATCH 11/72] fix: EnumKeys::has compiles for scoped enums

---
 classdesc.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/classdesc.h b/classdesc.h
index f465f7c..0011d7d 100644
--- a/classdesc.h
+++ b/classdesc.h
@@ -796,7 +796,7 @@ namespace classdesc
     }
     std::string operator()(T val) const {return operator()(int(val));}
 
-    bool has(T val) const {return v2s.count(val);}
+    bool has(T val) const {return v2s.count(int(val));}
     bool has(const std::string& s) const {return s2v.count(s);}
     
     // use these to iterate of the enum's keys
-- 
2.43.0


From 5921150925a21aff84c8a4bde750f7f6e55653de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:17 +0000
Subject: [PATCH 12/72] fix: noexcept functions and methods are recognised as
 such in C++17

---
 function.h | 33 +++++++++++++++++++++++++++++++++
 1 file changed, 33 insertions(+)

diff --git a/function.h b/function.h
index ca65ee2..64b9c29 100644
--- a/function.h
+++ b/function.h
@@ -325,6 +325,39 @@ namespace classdesc
       static const bool value=true;
     };
 
+#if defined(__cplusplus) && __cplusplus>=201703L
+    // noexcept is part of the function type
+    template <class C, class R, class... Args> 
+    struct is_member_function_ptr<R (C::*)(Args...) noexcept>
+    {
+      static const bool value=true;
+    };
+
+    template <class C, class R, class... Args> 
+    struct is_member_function_ptr<R (C::*)(Args...) const noexcept>
+    {
+      static const bool value=true;
+    };
+
+    template <class C, class R, class... Args> 
+    struct is_const_method<R (C::*)(Args...) const noexcept>
+    {
+      static const bool value=true;
+    };
+
+    template <class R, class... Args> 
+    struct is_nonmember_function_ptr<R (*)(Args...) noexcept>
+    {
+      static const bool value=true;
+    };
+
+    template <class C, class R, class... Args> 
+    struct is_nonmember_function_ptr<R (*C::*)(Args...) noexcept>
+    {
+      static const bool value=true;
+    };
+#endif
+
     // true if C is non const, or M is a const member function or static
     template <class C, class M>
     struct ConstCorrect: public
-- 
2.43.0


From 360c962a595eeaec1373bad2455105eab1cd0dfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:47 +0000
Subject: [PATCH 13/72] fix: unpacking a null treenode pointer sets the pointer
 to null

---
 pack_graph.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pack_graph.h b/pack_graph.h
index 0e07f8a..0561251 100644
--- a/pack_graph.h
+++ b/pack_graph.h
@@ -53,6 +53,8 @@ namespace classdesc
         arg=static_cast<T*>(targ.alloced.back().data());
         unpack(targ,desc,*arg);
       }
+    else
+      arg=NULL;
   }
 
   /*
-- 
2.43.0


From a950320301dbbb54b01f6b5db49549180d74a79a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:47 +0000
Subject: [PATCH 14/72] fix: assigning a PtrStoreRef releases the object it
 referred to

---
 pack_base.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pack_base.h b/pack_base.h
index b6d57aa..8406bb4 100644
--- a/pack_base.h
+++ b/pack_base.h
@@ -127,7 +127,7 @@ namespace classdesc
     void* data() {return d->data();}
     PtrStoreRef(PtrStoreBase *d=NULL): d(d) {}
     PtrStoreRef(const PtrStoreRef& x): d(x.d) {d && d->cnt++;}
-    PtrStoreRef& operator=(const PtrStoreRef& x) {d=x.d; d && d->cnt++; return *this;}
+    PtrStoreRef& operator=(const PtrStoreRef& x) {PtrStoreRef tmp(x); std::swap(d,tmp.d); return *this;}
     ~PtrStoreRef() {if (d && d->cnt-- == 0) delete d;}
   };
 
-- 
2.43.0


From 33fbde7519339197073b02defd1aba575d18b617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:49 +0000
Subject: [PATCH 15/72] fix: a graph traversal that ends in an exception no
 longer spoils the next one

---
 pack_graph.h | 85 +++++++++++++++++++++++++++++++++-------------------
 1 file changed, 54 insertions(+), 31 deletions(-)

diff --git a/pack_graph.h b/pack_graph.h
index 0561251..00439f6 100644
--- a/pack_graph.h
+++ b/pack_graph.h
@@ -90,24 +90,35 @@ namespace classdesc
     static unsigned recur_level=0;
     int nought=0;
 
-    if (recur_level==0)
-      pack(buf,string(),buf.recur_max);
     recur_level++;
-
-    if (recur_level==buf.recur_max)
-      restart.push_back(&arg); //save ref for restart
-    else if (!arg)   //reference is invalid 
-      pack(buf,string(),nought);
-    else if (graph_map.count(arg)==0)
-      {  
-        int ID=graph_map.size()+1;
-        graph_map[arg]=ID;
-        pack(buf,string(),ID);
-        pack(buf,string(),*arg);
+    try
+      {
+        if (recur_level==1)
+          pack(buf,string(),buf.recur_max);
+
+        if (recur_level==buf.recur_max)
+          restart.push_back(&arg); //save ref for restart
+        else if (!arg)   //reference is invalid 
+          pack(buf,string(),nought);
+        else if (graph_map.count(arg)==0)
+          {  
+            int ID=graph_map.size()+1;
+            graph_map[arg]=ID;
+            pack(buf,string(),ID);
+            pack(buf,string(),*arg);
+          }
+        else
+          pack(buf,string(),graph_map[arg]);
+      }
+    catch (...)
+      {
+        if (--recur_level==0) //abandon the whole graph
+          {
+            restart.clear();
+            graph_map.clear();
+          }
+        throw;
       }
-    else
-      pack(buf,string(),graph_map[arg]);
-    
     recur_level--;
     if (recur_level==0)   //process restarts
       {
@@ -130,26 +141,38 @@ namespace classdesc
     int myid;
     Alloc<T> alloc;
     
-    if (recur_level==0)
-      unpack(buf,string(),buf.recur_max);
     recur_level++;
-
-    if (recur_level==buf.recur_max)
-      restart.push_back(&arg); //save ref for restart
-    else
+    try
       {
-        unpack(buf,string(),myid);
-        if (myid==0) 
-          arg=T();                //reset arg to invalid state
-        else if (graph_map.count(myid))
-          arg=graph_map[myid];
+        if (recur_level==1)
+          unpack(buf,string(),buf.recur_max);
+
+        if (recur_level==buf.recur_max)
+          restart.push_back(&arg); //save ref for restart
         else
           {
-            alloc(buf,arg);
-            graph_map[myid]=arg;
-            unpack(buf,string(),*arg);
-          }
+            unpack(buf,string(),myid);
+            if (myid==0) 
+              arg=T();                //reset arg to invalid state
+            else if (graph_map.count(myid))
+              arg=graph_map[myid];
+            else
+              {
+                alloc(buf,arg);
+                graph_map[myid]=arg;
+                unpack(buf,string(),*arg);
+              }
 
+          }
+      }
+    catch (...)
+      {
+        if (--recur_level==0) //abandon the whole graph
+          {
+            restart.clear();
+            graph_map.clear();
+          }
+        throw;
       }
     recur_level--;
     if (recur_level==0)   //process restarts
-- 
2.43.0


From 1650580fe9da84d488b219bf2cae3f8c5702bc21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:42 +0000
Subject: [PATCH 16/72] fix: packing a graph with a recursion limit of 1
 terminates

---
 pack_graph.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pack_graph.h b/pack_graph.h
index 00439f6..1cfa344 100644
--- a/pack_graph.h
+++ b/pack_graph.h
@@ -96,7 +96,8 @@ namespace classdesc
         if (recur_level==1)
           pack(buf,string(),buf.recur_max);
 
-        if (recur_level==buf.recur_max)
+        // with a limit of 1 the root itself would be restarted, for ever
+        if (recur_level==(buf.recur_max==1? 2: buf.recur_max))
           restart.push_back(&arg); //save ref for restart
         else if (!arg)   //reference is invalid 
           pack(buf,string(),nought);
@@ -147,7 +148,8 @@ namespace classdesc
         if (recur_level==1)
           unpack(buf,string(),buf.recur_max);
 
-        if (recur_level==buf.recur_max)
+        // with a limit of 1 the root itself would be restarted, for ever
+        if (recur_level==(buf.recur_max==1? 2: buf.recur_max))
           restart.push_back(&arg); //save ref for restart
         else
           {
-- 
2.43.0


From 22b3967ff2c5033538f38d85c84d362e7ca4d54a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:56 +0000
Subject: [PATCH 17/72] fix: the graph traversal code is restored, with a guard
 object that abandons it on exceptions

---
 pack_graph.h | 109 +++++++++++++++++++++++++--------------------------
 1 file changed, 53 insertions(+), 56 deletions(-)

diff --git a/pack_graph.h b/pack_graph.h
index 1cfa344..0b48c91 100644
--- a/pack_graph.h
+++ b/pack_graph.h
@@ -82,6 +82,22 @@ namespace classdesc
     }
   };
 
+  /// abandons the whole graph if a traversal is ended by an exception
+  template <class Map, class Restart>
+  struct GraphAbandon
+  {
+    unsigned& level; Map& map; Restart& restart; bool active;
+    GraphAbandon(unsigned& level, Map& map, Restart& restart): 
+      level(level), map(map), restart(restart), active(true) {}
+    ~GraphAbandon() {
+      if (active && --level==0)
+        {
+          restart.clear();
+          map.clear();
+        }
+    }
+  };
+
   template <class T>
   inline void pack_graph(pack_t& buf, T& arg)
   {
@@ -91,35 +107,26 @@ namespace classdesc
     int nought=0;
 
     recur_level++;
-    try
-      {
-        if (recur_level==1)
-          pack(buf,string(),buf.recur_max);
-
-        // with a limit of 1 the root itself would be restarted, for ever
-        if (recur_level==(buf.recur_max==1? 2: buf.recur_max))
-          restart.push_back(&arg); //save ref for restart
-        else if (!arg)   //reference is invalid 
-          pack(buf,string(),nought);
-        else if (graph_map.count(arg)==0)
-          {  
-            int ID=graph_map.size()+1;
-            graph_map[arg]=ID;
-            pack(buf,string(),ID);
-            pack(buf,string(),*arg);
-          }
-        else
-          pack(buf,string(),graph_map[arg]);
-      }
-    catch (...)
-      {
-        if (--recur_level==0) //abandon the whole graph
-          {
-            restart.clear();
-            graph_map.clear();
-          }
-        throw;
+    GraphAbandon<std::map<T,int>,std::vector<T*> > abandon(recur_level,graph_map,restart);
+    if (recur_level==1)
+      pack(buf,string(),buf.recur_max);
+
+    // with a limit of 1 the root itself would be restarted, for ever
+    if (recur_level==(buf.recur_max==1? 2: buf.recur_max))
+      restart.push_back(&arg); //save ref for restart
+    else if (!arg)   //reference is invalid 
+      pack(buf,string(),nought);
+    else if (graph_map.count(arg)==0)
+      {  
+        int ID=graph_map.size()+1;
+        graph_map[arg]=ID;
+        pack(buf,string(),ID);
+        pack(buf,string(),*arg);
       }
+    else
+      pack(buf,string(),graph_map[arg]);
+    
+    abandon.active=false;
     recur_level--;
     if (recur_level==0)   //process restarts
       {
@@ -143,39 +150,29 @@ namespace classdesc
     Alloc<T> alloc;
     
     recur_level++;
-    try
-      {
-        if (recur_level==1)
-          unpack(buf,string(),buf.recur_max);
-
-        // with a limit of 1 the root itself would be restarted, for ever
-        if (recur_level==(buf.recur_max==1? 2: buf.recur_max))
-          restart.push_back(&arg); //save ref for restart
-        else
-          {
-            unpack(buf,string(),myid);
-            if (myid==0) 
-              arg=T();                //reset arg to invalid state
-            else if (graph_map.count(myid))
-              arg=graph_map[myid];
-            else
-              {
-                alloc(buf,arg);
-                graph_map[myid]=arg;
-                unpack(buf,string(),*arg);
-              }
+    GraphAbandon<std::map<int,T>,std::vector<T*> > abandon(recur_level,graph_map,restart);
+    if (recur_level==1)
+      unpack(buf,string(),buf.recur_max);
 
-          }
-      }
-    catch (...)
+    // with a limit of 1 the root itself would be restarted, for ever
+    if (recur_level==(buf.recur_max==1? 2: buf.recur_max))
+      restart.push_back(&arg); //save ref for restart
+    else
       {
-        if (--recur_level==0) //abandon the whole graph
+        unpack(buf,string(),myid);
+        if (myid==0) 
+          arg=T();                //reset arg to invalid state
+        else if (graph_map.count(myid))
+          arg=graph_map[myid];
+        else
           {
-            restart.clear();
-            graph_map.clear();
+            alloc(buf,arg);
+            graph_map[myid]=arg;
+            unpack(buf,string(),*arg);
           }
-        throw;
+
       }
+    abandon.active=false;
     recur_level--;
     if (recur_level==0)   //process restarts
       {
-- 
2.43.0


From 8655bfa28f79b96050c9b3b49315f73703b0015b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:41 +0000
Subject: [PATCH 18/72] fix: -overload: own type named several times in a
 signature of a template class member

---
 classdesc.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/classdesc.cc b/classdesc.cc
index 95c6d9d..9b1fb88 100644
--- a/classdesc.cc
+++ b/classdesc.cc
@@ -298,7 +298,7 @@ string replaceShornTypes(const string& input, const string& shornType, const str
   string r;
   for (size_t i=0, j=input.find(shornType); i!=string::npos; i=j, j=input.find(shornType,i))
     {
-      r+=input.substr(i,j);
+      r+=input.substr(i,j==string::npos? j: j-i);
       if (j!=string::npos)
         {
           j+=shornType.size();
-- 
2.43.0


From 53650e03ba5d7d09f0c1a04e5d9efee375fb16d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:41 +0000
Subject: [PATCH 19/72] fix: a const member or operator no longer turns later
 static members into static constants

---
 classdesc.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/classdesc.cc b/classdesc.cc
index 9b1fb88..8de4bb9 100644
--- a/classdesc.cc
+++ b/classdesc.cc
@@ -341,7 +341,7 @@ public:
         else
           actionlist.push_back(act_pair("."+name,action,memberName,is_static));
       }
-    is_static=false;
+    is_static=is_const=false;
   }
 };
 
@@ -634,7 +634,7 @@ actionlist_t parse_class(tokeninput& input, bool is_class, string prefix="::", s
 	    gobble_delimited(input,"(",")");
 	  /* skip to end of statement */
 	  while (!strchr("{;",input.token[0])) input.nexttok();
-	  reg.is_static=false;
+	  reg.is_static=reg.is_const=false;
 	}
 
       // alignas declarations need to be discarded
-- 
2.43.0


From b0905b2361bc182c127067d1b5682e5c2af1f0bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:52 +0000
Subject: [PATCH 20/72] fix: template arguments nested twice and closed by >>
 no longer end the enclosing list

---
 tokeninput.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tokeninput.h b/tokeninput.h
index 784daaa..02806f4 100644
--- a/tokeninput.h
+++ b/tokeninput.h
@@ -288,7 +288,7 @@ string gobble_delimited(tokeninput& input, const char *left,
       if (input.token==">>" && string(left)=="<") 
         {
           delim_count-=2;
-          if (delim_count<=0) break;
+          if (delim_count<0) break;
         }
     }
    return argList;
-- 
2.43.0


From 4faa22378334a4c48d98b75f18978627711bd685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:52 +0000
Subject: [PATCH 21/72] fix: a comma inside a member's initialiser no longer
 ends the class

---
 classdesc.cc | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/classdesc.cc b/classdesc.cc
index 8de4bb9..b26cabf 100644
--- a/classdesc.cc
+++ b/classdesc.cc
@@ -616,10 +616,15 @@ actionlist_t parse_class(tokeninput& input, bool is_class, string prefix="::", s
                 reg.register_class(input.lasttoken,"",
                                    varname+"." + input.lasttoken );
             }
-          if (input.token[0]=='{')
-            gobble_delimited(input,"{","}");
 	  /* skip over field specifier or initializer */
-	  while (!strchr(";,",input.token[0])) input.nexttok();
+	  while (!strchr(";,",input.token[0]))
+            {
+              if (input.token[0]=='{')
+                gobble_delimited(input,"{","}");
+              else if (input.token[0]=='(')
+                gobble_delimited(input,"(",")");
+              input.nexttok();
+            }
 	}
 
       /* operator members - discard these */
-- 
2.43.0


From 834222cf22d42e4a846003b8e8bf802c6a622287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:52 +0000
Subject: [PATCH 22/72] fix: braces in a constructor's initialiser list are not
 taken for its body

---
 classdesc.cc | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/classdesc.cc b/classdesc.cc
index b26cabf..a5e30ee 100644
--- a/classdesc.cc
+++ b/classdesc.cc
@@ -693,6 +693,17 @@ actionlist_t parse_class(tokeninput& input, bool is_class, string prefix="::", s
               input.nexttok();
               if (input.token=="const") is_const=true;
               if (input.token=="delete") deleted=true;
+              if (input.token==":") /* constructor's initialiser list */
+                do
+                  {
+                    while (!strchr("({",input.token[0])) input.nexttok();
+                    if (input.token[0]=='{')
+                      gobble_delimited(input,"{","}");
+                    else
+                      gobble_delimited(input,"(",")");
+                    input.nexttok();
+                  }
+                while (input.token==",");
             }
 
 	  /* member functions require object passed as well*/
-- 
2.43.0


From d1238e82d8f80daeb074980f2c49f91f0378c7a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:52 +0000
Subject: [PATCH 23/72] fix: a friend function defined in a class no longer
 ends the class

---
 classdesc.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/classdesc.cc b/classdesc.cc
index a5e30ee..74ac3f5 100644
--- a/classdesc.cc
+++ b/classdesc.cc
@@ -650,8 +650,13 @@ actionlist_t parse_class(tokeninput& input, bool is_class, string prefix="::", s
       if (input.token=="static") reg.is_static=true;
       if (input.token=="const") reg.is_const=true;
       if (input.token=="friend")  /* skip friend statement */
-        while (input.token!=";")
-          input.nexttok();
+        {
+          while (!strchr("{;",input.token[0]))
+            input.nexttok();
+          if (input.token[0]=='{') /* friend function defined in the class */
+            gobble_delimited(input,"{","}");
+          is_template=false;
+        }
 
       if (input.token[0]=='(') /* member functions, or function pointers */
 	{
-- 
2.43.0


From c22795d414d2dac8d6e9ef9d136860b5ed3bac0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:52 +0000
Subject: [PATCH 24/72] fix: member templates no longer hide the member
 function that follows them

---
 classdesc.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/classdesc.cc b/classdesc.cc
index 74ac3f5..2efbf63 100644
--- a/classdesc.cc
+++ b/classdesc.cc
@@ -538,6 +538,7 @@ actionlist_t parse_class(tokeninput& input, bool is_class, string prefix="::", s
               input.nexttok();     
             }  
           usingNames.insert('.'+lastToken);
+          is_template=false;
 
           continue;
         }
@@ -573,6 +574,7 @@ actionlist_t parse_class(tokeninput& input, bool is_class, string prefix="::", s
 #endif
 	    }
 	  targs1.erase();
+	  is_template=false;
 	  continue;
 	}
       if (input.token=="enum")
-- 
2.43.0


From 604e96a4e7689b80c3b2c2d4543d1b9501f93108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:07 +0000
Subject: [PATCH 25/72] fix: xml_pack: pass bytes of multibyte characters
 through instead of writing negative character references

---
 xml_pack_base.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/xml_pack_base.h b/xml_pack_base.h
index eeb7828..d2f423f 100644
--- a/xml_pack_base.h
+++ b/xml_pack_base.h
@@ -37,7 +37,8 @@ namespace classdesc
       case '\'': return "&apos;";
       case '"': return "&quot;";
       }
-    if (!isgraph(c))
+    // bytes outside the ASCII range are parts of multibyte characters, and are passed through
+    if (static_cast<unsigned char>(c)<0x80 && !isgraph(c))
       {
         std::ostringstream s;
         s<<"&#"<<std::setfill('0')<<std::setw(4)<<int(c)<<";";
-- 
2.43.0


From 59f15c36a5ea425229450151d65810f821e512dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:25 +0000
Subject: [PATCH 26/72] fix: xml: quote signed/unsigned char, and restore white
 space characters

---
 xml_pack_base.h   | 6 ++++++
 xml_unpack_base.h | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/xml_pack_base.h b/xml_pack_base.h
index d2f423f..74ebe2c 100644
--- a/xml_pack_base.h
+++ b/xml_pack_base.h
@@ -178,6 +178,12 @@ namespace classdesc
   template <> inline void xml_packp(xml_pack_t& x,const string& d, char& a)
   {x.pack(d,classdesc::xml_quote(a));}
 
+  template <> inline void xml_packp(xml_pack_t& x,const string& d, signed char& a)
+  {x.pack(d,classdesc::xml_quote(static_cast<char>(a)));}
+
+  template <> inline void xml_packp(xml_pack_t& x,const string& d, unsigned char& a)
+  {x.pack(d,classdesc::xml_quote(static_cast<char>(a)));}
+
   /**
      handle enums
   */
diff --git a/xml_unpack_base.h b/xml_unpack_base.h
index e0fe1c1..aaa42b1 100644
--- a/xml_unpack_base.h
+++ b/xml_unpack_base.h
@@ -403,6 +403,12 @@ namespace classdesc
       try {x=std::stold(s);}
       catch(...){istoT(s,x);}    
 #endif
+    // a single character is taken as is, even if it is white space
+    template <class T> void stoChar(const std::string& s, T& x)
+    {if (s.size()==1) x=static_cast<T>(s[0]); else istoT(s,x);}
+    void stoT(const std::string& s, char& x) {stoChar(s,x);}
+    void stoT(const std::string& s, signed char& x) {stoChar(s,x);}
+    void stoT(const std::string& s, unsigned char& x) {stoChar(s,x);}
     template <class T> void stoT(const std::string& s, T& x)
     {istoT(s,x);}
     
-- 
2.43.0


From fd1a2ecaa8a97e37a92df855c8c5b86a36895d55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:43 +0000
Subject: [PATCH 27/72] fix: xml: array elements of template type are named
 without template arguments

---
 xml_pack_base.h   | 1 +
 xml_unpack_base.h | 1 +
 2 files changed, 2 insertions(+)

diff --git a/xml_pack_base.h b/xml_pack_base.h
index 74ebe2c..9c70d05 100644
--- a/xml_pack_base.h
+++ b/xml_pack_base.h
@@ -223,6 +223,7 @@ namespace classdesc
 
     // element name is given by the type name
     string eName=typeName<T>().c_str();
+    eName=eName.substr(0,eName.find('<')); //trim off any template args
     // strip leading namespace and qualifiers
     const char *e=eName.c_str()+eName.length();
     while (e!=eName.c_str() && *(e-1)!=' ' && *(e-1)!=':') e--;
diff --git a/xml_unpack_base.h b/xml_unpack_base.h
index aaa42b1..59d0b0e 100644
--- a/xml_unpack_base.h
+++ b/xml_unpack_base.h
@@ -544,6 +544,7 @@ namespace classdesc
     va_end(ap);
 
     classdesc::string eName=classdesc::typeName<T>().c_str();
+    eName=eName.substr(0,eName.find('<')); //trim off any template args
     // strip leading namespace and qualifiers
     const char *e=eName.c_str()+eName.length();
     while (e!=eName.c_str() && *(e-1)!=' ' && *(e-1)!=':') e--;
-- 
2.43.0


From d8e160fd287a210d817f808b03247b28421b6f2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:02 +0000
Subject: [PATCH 28/72] fix: xml: CDATA sections containing or ending in ]

---
 xml_pack_base.h   |  8 +++++++-
 xml_unpack_base.h | 18 +++---------------
 2 files changed, 10 insertions(+), 16 deletions(-)

diff --git a/xml_pack_base.h b/xml_pack_base.h
index 9c70d05..8c538af 100644
--- a/xml_pack_base.h
+++ b/xml_pack_base.h
@@ -48,7 +48,13 @@ namespace classdesc
   }
 
   inline std::ostream& operator<<(std::ostream& o, const CDATA& x)
-  {return o<<"<![CDATA["<<static_cast<const std::string&>(x)<<"]]>";}
+  {
+    // "]]>" cannot occur within a CDATA section, so split it over two sections
+    std::string s(x);
+    for (std::string::size_type i=s.find("]]>"); i!=std::string::npos; i=s.find("]]>",i+15))
+      s.replace(i,3,"]]]]><![CDATA[>");
+    return o<<"<![CDATA["<<s<<"]]>";
+  }
   
   /**
      XML serialisation object
diff --git a/xml_unpack_base.h b/xml_unpack_base.h
index 59d0b0e..3644d7c 100644
--- a/xml_unpack_base.h
+++ b/xml_unpack_base.h
@@ -213,21 +213,9 @@ namespace classdesc
     if (leadin=="[CDATA[")
       { // CDATA processing, add CDATA contents verbatim
         leadin.clear();
-        while ((c=getNoEOF()))
-          {
-            if (c==']')
-              if (leadin=="]")
-                leadin+=c;
-              else
-                leadin=c;
-            else if (c=='>' && leadin=="]]")
-              return tok;
-            else
-              {
-                tok+=leadin+c;
-                leadin.clear();
-              }
-          }
+        while (leadin.size()<3 || leadin.compare(leadin.size()-3,3,"]]>")!=0)
+          leadin+=getNoEOF();
+        tok.append(leadin,0,leadin.size()-3);
       }
     else if (c!='>')
       gobble_comment();
-- 
2.43.0


From 6444a6fa62359deba5ba038becfdd66af8b74c94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:24 +0000
Subject: [PATCH 29/72] fix: xml_unpack: comments and processing instructions
 may contain < > and quotes, and do not swallow white space

---
 xml_unpack_base.h | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/xml_unpack_base.h b/xml_unpack_base.h
index 3644d7c..1928a62 100644
--- a/xml_unpack_base.h
+++ b/xml_unpack_base.h
@@ -101,6 +101,11 @@ namespace classdesc
     }
     
     void gobble_comment();
+    /// skip characters until \a term has been read. \a read is what has been read so far
+    void gobbleUntil(std::string read, const std::string& term) {
+      while (read.size()<term.size() || read.compare(read.size()-term.size(),term.size(),term)!=0)
+        read+=getNoEOF();
+    }
     void gobble_whitespace() {
       char c;
       bool notEof=get(c); 
@@ -217,6 +222,11 @@ namespace classdesc
           leadin+=getNoEOF();
         tok.append(leadin,0,leadin.size()-3);
       }
+    else if (leadin.compare(0,2,"--")==0)
+      {
+        if (c=='>') leadin+=c;
+        gobbleUntil(leadin.substr(2),"-->");
+      }
     else if (c!='>')
       gobble_comment();
     return "";
@@ -229,8 +239,8 @@ namespace classdesc
     switch (c)
       {
       case '!': return processBang(tok,c);
-      case '?': //we have a comment or XML declaration, which we ignore, except for CDATA
-        gobble_comment(); return "";
+      case '?': //we have a processing instruction or XML declaration, which we ignore
+        gobbleUntil("","?>"); return "";
       case '/': //we have begin end tag token
         return  retval('/',tok);
       default:
-- 
2.43.0


From 55c325e852c89079426fffd0a965bc226b81ac28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:46 +0000
Subject: [PATCH 30/72] fix: xml_unpack: an end tag must match its start tag
 completely

---
 xml_unpack_base.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/xml_unpack_base.h b/xml_unpack_base.h
index 1928a62..a427da2 100644
--- a/xml_unpack_base.h
+++ b/xml_unpack_base.h
@@ -507,7 +507,10 @@ namespace classdesc
 
     // finish parsing end tag
     tok=stream.tokenNoEOF();
-    if (scope.length()-scope.rfind(tok)!=tok.length()) //tok matches last part of scope
+    // tok must match the last component of scope
+    if (tok.length()>scope.length() ||
+        scope.compare(scope.length()-tok.length(),tok.length(),tok)!=0 ||
+        (tok.length()<scope.length() && scope[scope.length()-tok.length()-1]!='.'))
       throw xml_pack_error("unexpected end tag");
     for (; tok!=">"; tok=stream.tokenNoEOF()); //skip rest of end tag
   }
-- 
2.43.0


From 3795c79ae1663b8bdaa6f9e8613c439952f3f51d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:08 +0000
Subject: [PATCH 31/72] fix: xml_unpack: an empty element is an empty string

---
 xml_unpack_base.h | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/xml_unpack_base.h b/xml_unpack_base.h
index a427da2..b2f087f 100644
--- a/xml_unpack_base.h
+++ b/xml_unpack_base.h
@@ -322,7 +322,7 @@ namespace classdesc
 
     void checkKey(const std::string& key)
     {
-      if (missingException && !contentMap.count(key)) 
+      if (missingException && !contentMap.count(key) && !present(key)) 
         throw xml_pack_error(key+" is missing in XML data stream");
     }
 
@@ -436,12 +436,21 @@ namespace classdesc
       std::map<std::string,std::string>::const_iterator it=contentMap.find(key);
       if (it != contentMap.end())
         var=it->second; 
+      else if (present(key))
+        var.clear();  // element is there, but has no content
     }
     void unpack(std::string key, CDATA& a)
     {unpack(key,static_cast<std::string&>(a));}
     
     /// checks for existence of token unpacked from XML stream
     bool exists(const std::string& key) {return count(key)>0;}
+    /// checks for existence of the very element \a key refers to, even if it has no content
+    bool present(std::string key) {
+      key=addHashNoughts(key);
+      std::string::size_type hash=key.rfind('#');
+      std::map<std::string,unsigned>::const_iterator it=tokenCount.find(key.substr(0,hash));
+      return it!=tokenCount.end() && std::strtoul(key.c_str()+hash+1,NULL,10)<it->second;
+    }
     /// returns number of array elements with prefix key
     size_t count(std::string key) {
       key=addHashNoughts(key);
-- 
2.43.0


From c613c72c7fc631473a032997dcc8effcba29d9fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:05 +0000
Subject: [PATCH 32/72] fix: xml_unpack: do not mistake text for markup, nor
 quotes in content for literals

---
 xml_unpack_base.h | 88 +++++++++++++++++++++++++++++------------------
 1 file changed, 55 insertions(+), 33 deletions(-)

diff --git a/xml_unpack_base.h b/xml_unpack_base.h
index b2f087f..9819d3d 100644
--- a/xml_unpack_base.h
+++ b/xml_unpack_base.h
@@ -37,19 +37,6 @@ namespace classdesc_access
 namespace classdesc
 {
 
-  namespace 
-  {
-    /// return true if s is a string of whitespaces
-    inline bool isspace(std::string s)
-    {
-      if (s.empty()) return false;
-      for (size_t i=0; i<s.size(); i++)
-        if (!std::isspace(s[i]))
-          return false;
-      return true;
-    }
-  }
-
   // for remove() below
   inline bool Isspace(char c) {return std::isspace(c)!=0;}
 
@@ -84,11 +71,19 @@ namespace classdesc
   inline void unget(std::istream& i, char c)  {i.putback(c);}
   inline void unget(FILE*& i, char c) {ungetc(c,i);}
 
+  /// What a token is: the characters alone do not tell, as text may
+  /// look like markup or be empty
+  struct XMLtokenBase
+  {
+    enum Kind {eof, space, markup, text};
+  };
+
   template <class Stream>
-  class XMLtoken
+  class XMLtoken: public XMLtokenBase
   {
     Stream& i;
     char nexttok;
+    bool inTag; ///< true between the < and the > of a tag
 
     // basic I/O operations
     bool get(char& c) {return classdesc::get(i,c);}
@@ -115,11 +110,20 @@ namespace classdesc
     char parse_entity();
     std::string retval(char c, const std::string& tok);
   public:
-    XMLtoken(Stream& i): i(i), nexttok('\0') {}
+    Kind kind; ///< what the last token read is
+    XMLtoken(Stream& i): i(i), nexttok('\0'), inTag(false), kind(eof) {}
+    /// true if \a tok, the last token read, is the markup \a m
+    bool is(const std::string& tok, const char* m) const {return kind==markup && tok==m;}
     std::string token();
+    /// the name following a <
+    std::string name() {
+      std::string tok=tokenNoEOF();
+      if (kind!=text) throw xml_pack_error("element name expected");
+      return tok;
+    }
     std::string tokenNoEOF() {
       std::string tok=token();
-      if (tok.empty()) throw xml_pack_error("XML token expected");
+      if (kind==eof) throw xml_pack_error("XML token expected");
       else return tok;
     }
     /// handle tags starting with ! - comments and CDATAs
@@ -191,10 +195,13 @@ namespace classdesc
     if (tok.empty())
       {
         nexttok='\0';
+        kind=std::isspace(c)? space: markup;
         switch (c)
           {
-          case '/': return "</";
-          case '\\': return "/>";
+          case '/': inTag=true; return "</";
+          case '\\': inTag=false; return "/>";
+          case '<': inTag=true; return "<";
+          case '>': inTag=false; return ">";
           default: return std::string(1,c);
           }
       }
@@ -254,6 +261,7 @@ namespace classdesc
   {
     std::string tok;
     char c;
+    kind=text;
 
     // handle any tokens left over from previous parsing
     if (nexttok)
@@ -264,6 +272,13 @@ namespace classdesc
         // return white space as a separate token
         if (std::isspace(c)) return retval(c,tok);
 
+        // elsewhere, these have no special meaning
+        if (!inTag && c!='&' && c!='<')
+          {
+            tok+=c;
+            continue;
+          }
+
         switch (c)
           {
           case '&':
@@ -303,7 +318,10 @@ namespace classdesc
           }
       }
     if (tok.empty())
-      return tok;  //empty token returned on end of file
+      {
+        kind=eof;
+        return tok;  //empty token returned on end of file
+      }
     else
       throw xml_pack_error("XML file truncated?");
   }
@@ -467,9 +485,10 @@ namespace classdesc
   void xml_unpack_t::process_attribute(XMLtoken<Stream>& stream, const std::string& scope)
   {
     std::string tok; 
-    while (isspace(tok=stream.tokenNoEOF()));
-    if (tok!="=") throw xml_pack_error("ill-formed attribute");
-    while (isspace(tok=stream.tokenNoEOF()));
+    do tok=stream.tokenNoEOF(); while (stream.kind==XMLtokenBase::space);
+    if (!stream.is(tok,"=")) throw xml_pack_error("ill-formed attribute");
+    do tok=stream.tokenNoEOF(); while (stream.kind==XMLtokenBase::space);
+    if (stream.kind!=XMLtokenBase::text) throw xml_pack_error("ill-formed attribute");
     contentMap[scope]=tok;
   }
 
@@ -482,10 +501,10 @@ namespace classdesc
   {
     XMLtoken<Stream> stream(i);
     std::string tok;    
-    while (isspace(tok=stream.token()));
-    if (tok.empty()) return;
-    if (tok=="<") 
-      parse(stream,stream.tokenNoEOF());
+    do tok=stream.token(); while (stream.kind==XMLtokenBase::space);
+    if (stream.kind==XMLtokenBase::eof) return;
+    if (stream.is(tok,"<"))
+      parse(stream,stream.name());
     else
       throw xml_pack_error("no root element found");
   }
@@ -498,16 +517,19 @@ namespace classdesc
 
     std::string tok;
     //parse attributes
-    for (tok=stream.tokenNoEOF(); tok!=">" && tok!="/>"; tok=stream.tokenNoEOF())
-      if (!isspace(tok)) process_attribute(stream, scope_idx+"."+tok);
+    for (tok=stream.tokenNoEOF(); !stream.is(tok,">") && !stream.is(tok,"/>"); tok=stream.tokenNoEOF())
+      if (stream.kind==XMLtokenBase::text)
+        process_attribute(stream, scope_idx+"."+tok);
+      else if (stream.kind!=XMLtokenBase::space)
+        throw xml_pack_error("ill-formed tag");
     
-    if (tok=="/>") return;
+    if (stream.is(tok,"/>")) return;
 
     //parse content. We assume element is either just content, or just has child elements
     std::string content;
-    for (tok=stream.tokenNoEOF(); tok!="</"; tok=stream.tokenNoEOF())
-      if (tok=="<")
-        parse(stream,scope_idx+"."+stream.tokenNoEOF()); //parse child element
+    for (tok=stream.tokenNoEOF(); !stream.is(tok,"</"); tok=stream.tokenNoEOF())
+      if (stream.is(tok,"<"))
+        parse(stream,scope_idx+"."+stream.name()); //parse child element
       else 
         content+=tok;
 
@@ -521,7 +543,7 @@ namespace classdesc
         scope.compare(scope.length()-tok.length(),tok.length(),tok)!=0 ||
         (tok.length()<scope.length() && scope[scope.length()-tok.length()-1]!='.'))
       throw xml_pack_error("unexpected end tag");
-    for (; tok!=">"; tok=stream.tokenNoEOF()); //skip rest of end tag
+    for (; !stream.is(tok,">"); tok=stream.tokenNoEOF()); //skip rest of end tag
   }
 
 
-- 
2.43.0


From 6015a189a4d7d11fc0c9504b6672595152283343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:28 +0000
Subject: [PATCH 33/72] fix: xml_unpack: enums and containers missing from the
 stream are left alone

---
 xml_unpack_base.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/xml_unpack_base.h b/xml_unpack_base.h
index 9819d3d..30f0b3a 100644
--- a/xml_unpack_base.h
+++ b/xml_unpack_base.h
@@ -590,6 +590,7 @@ namespace classdesc
 {
   std::string tmp;
   xml_unpack(x,d,tmp);
+  if (!x.present(d)) return; // not in the stream, so leave it as it is
   // remove extraneous white space
   int (*isspace)(int)=std::isspace;
   std::string::iterator end=std::remove_if(tmp.begin(),tmp.end(),isspace);
@@ -601,6 +602,7 @@ namespace classdesc
   enable_if<is_sequence<T>, void>::T
   xml_unpackp(xml_unpack_t& x, const string& d, T& arg, dummy<1> dum=0)
   {
+    if (!d.empty() && !x.present(d)) return; // not in the stream, so leave it as it is
     string eName=typeName<typename T::value_type>().c_str();
     eName=eName.substr(0,eName.find('<')); //trim off any template args
     // strip leading namespace and qualifiers
@@ -619,6 +621,7 @@ namespace classdesc
   enable_if<is_associative_container<T>, void>::T
   xml_unpackp(xml_unpack_t& x, const string& d, T& arg, dummy<2> dum=0)
   {
+    if (!d.empty() && !x.present(d)) return; // not in the stream, so leave it as it is
     string eName=typeName<typename T::value_type>().c_str();
     eName=eName.substr(0,eName.find('<')); //trim off any template args
     // strip leading namespace and qualifiers
-- 
2.43.0


From 1fd93a516e39fced04ad5644a7013e55ad154e5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:50 +0000
Subject: [PATCH 34/72] fix: xml: tuples of elements of differing types

---
 xml_pack_epilogue.h | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/xml_pack_epilogue.h b/xml_pack_epilogue.h
index d79a02b..e993b96 100644
--- a/xml_pack_epilogue.h
+++ b/xml_pack_epilogue.h
@@ -44,7 +44,7 @@ namespace classdesc_access
           // strip leading namespace and qualifiers
           const char *e=eName.c_str()+eName.length();
           while (e!=eName.c_str() && *(e-1)!=' ' && *(e-1)!=':') e--;
-          ::xml_pack(o,e,std::get<0>(a));
+          ::xml_pack(o,d+"."+e,std::get<0>(a));
           auto tail=classdesc::tupleTail(a);
           xml_pack_tuple_element(o,d,tail);
         }
@@ -83,13 +83,22 @@ namespace classdesc_access
   struct access_xml_unpack<std::tuple<A...>>
   {
     template <class T>
-    void xml_unpack_tuple_element(classdesc::xml_unpack_t& o, const cd::string& d, T& a, int i)
+    void xml_unpack_tuple_element(classdesc::xml_unpack_t& o, const cd::string& d, T& a,
+                                  std::map<std::string,size_t>& count)
     {
       if constexpr (std::tuple_size<T>::value>0)
         {
-          ::xml_unpack(o,classdesc::idx(d,i),std::get<0>(a));
+          // element name is given by the type name
+          std::string eName=classdesc::typeName<typename std::tuple_element<0,T>::type>();
+          eName=eName.substr(0,eName.find('<')); //trim off any template args
+          // strip leading namespace and qualifiers
+          const char *e=eName.c_str()+eName.length();
+          while (e!=eName.c_str() && *(e-1)!=' ' && *(e-1)!=':') e--;
+
+          // elements of the same name are numbered
+          ::xml_unpack(o,classdesc::idx(d+"."+e,count[e]++),std::get<0>(a));
           auto tail=classdesc::tupleTail(a);
-          xml_unpack_tuple_element(o,d,tail,i+1);
+          xml_unpack_tuple_element(o,d,tail,count);
           a=std::tuple_cat(std::make_tuple(std::get<0>(a)), tail);
         }
     }
@@ -97,13 +106,8 @@ namespace classdesc_access
     template <class U>
     void operator()(classdesc::xml_unpack_t& o, const cd::string& d, U& a)
     {
-      // element name is given by the type name
-      std::string eName=classdesc::typeName<typename std::tuple_element<0,std::tuple<A...>>::type>();
-      eName=eName.substr(0,eName.find('<')); //trim off any template args
-      // strip leading namespace and qualifiers
-      const char *e=eName.c_str()+eName.length();
-      while (e!=eName.c_str() && *(e-1)!=' ' && *(e-1)!=':') e--;
-      xml_unpack_tuple_element(o,d+"."+e,a,0);
+      std::map<std::string,size_t> count;
+      xml_unpack_tuple_element(o,d,a,count);
     }
   };
 #endif
-- 
2.43.0


From 3e5c13d95ca993beefadb754b6519bf2ef73504e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:17 +0000
Subject: [PATCH 35/72] fix: xml_pack: no layout within CDATA elements

---
 xml_pack_base.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/xml_pack_base.h b/xml_pack_base.h
index 8c538af..a0493ca 100644
--- a/xml_pack_base.h
+++ b/xml_pack_base.h
@@ -190,6 +190,10 @@ namespace classdesc
   template <> inline void xml_packp(xml_pack_t& x,const string& d, unsigned char& a)
   {x.pack(d,classdesc::xml_quote(static_cast<char>(a)));}
 
+  /// the content of a CDATA element is written without any layout, which would become part of it
+  inline void xml_packp(xml_pack_t& x,const string& d, CDATA& a)
+  {x.pack(d,a);}
+
   /**
      handle enums
   */
-- 
2.43.0


From db9ebdbd93793879faed7a7bed110e8d0754d806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:52 +0000
Subject: [PATCH 36/72] fix: xml_pack: ending a tag restores the nesting level
 before it

---
 xml_pack_base.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/xml_pack_base.h b/xml_pack_base.h
index a0493ca..502e085 100644
--- a/xml_pack_base.h
+++ b/xml_pack_base.h
@@ -96,7 +96,6 @@ namespace classdesc
     }
     /** emit end tag */
     void endtag(const string& d) {
-      taglevel--;
       pretty(d);
       *o<<"</"<<tail(d)<<">";
       endpretty();
@@ -115,11 +114,12 @@ namespace classdesc
 
     class Tag  ///<utility structure for handling tag/endtag
     {
+      int outer; ///< nesting level outside of the tag
       xml_pack_t* t;
       string d;
     public:
-      Tag(xml_pack_t& t, const string& d): t(t.tag(d)? &t: 0), d(d) {}
-      ~Tag() {if (t) t->endtag(d);}
+      Tag(xml_pack_t& t, const string& d): outer(t.taglevel), t(t.tag(d)? &t: 0), d(d) {}
+      ~Tag() {if (t) {t->endtag(d); t->taglevel=outer;}}
     };
 
     // handle peculiar case sensitivity of floating point special values in XML
-- 
2.43.0


From 9fbad5efbe3821c4991950f7deb405c35c838d4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:40 +0000
Subject: [PATCH 37/72] fix: pack: char arrays of const objects are packed the
 way they are unpacked

---
 pack_base.h | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/pack_base.h b/pack_base.h
index 8406bb4..33a793f 100644
--- a/pack_base.h
+++ b/pack_base.h
@@ -690,6 +690,17 @@ namespace classdesc
     targ.packraw(&arg,ncopies);
   }
 
+  inline void pack(pack_t& targ, const string&, is_array, 
+                   const char &arg,int dims,size_t ncopies,...)
+  {
+    int i;
+    va_list ap;
+    va_start(ap,ncopies);
+    for (i=1; i<dims; i++) ncopies*=va_arg(ap,int);
+    va_end(ap);
+    targ.packraw(&arg,ncopies);
+  }
+
   inline void unpack(unpack_t& targ, const string&, is_array, 
                      char &arg,int dims,size_t ncopies,...)
   {
-- 
2.43.0


From d91be1f1424eb535c40befceff532bb9b774705b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:40 +0000
Subject: [PATCH 38/72] fix: xdr_pack: buffers of any size can be read back,
 truncation and values beyond XDR's range are reported

---
 pack_base.h |  14 ++--
 xdr_pack.cc | 180 ++++++++++++++++++++++++++++------------------------
 2 files changed, 103 insertions(+), 91 deletions(-)

diff --git a/pack_base.h b/pack_base.h
index 33a793f..6ef5a6c 100644
--- a/pack_base.h
+++ b/pack_base.h
@@ -331,8 +331,9 @@ namespace classdesc
   */
   class xdr_pack: public pack_t
   {
-    size_t asize;
-    XDR *input, *output;
+    XDR *input, *output; // only used for files
+    template <class F> void encode(const F&);
+    template <class F> void decode(const F&);
   public:
     xdr_pack(size_t sz=BUFCHUNK);
     xdr_pack(const char *, const char* rw);
@@ -344,17 +345,16 @@ namespace classdesc
 
     virtual void append(const basic_type& x); 
     virtual void popoff(basic_type& x);
-    virtual xdr_pack& reseti();
-    virtual xdr_pack& reseto();
-    virtual xdr_pack& seeki(long offs);
-    virtual xdr_pack& seeko(long offs);
+    virtual xdr_pack& reseti() {pack_t::reseti(); return *this;}
+    virtual xdr_pack& reseto() {pack_t::reseto(); return *this;}
+    virtual xdr_pack& seeki(long offs) {pack_t::seeki(offs); return *this;}
+    virtual xdr_pack& seeko(long offs) {pack_t::seeko(offs); return *this;}
     virtual void packraw(const char *x, size_t sz);
     virtual void unpackraw(char *x, size_t sz);
     virtual void swap(pack_t& other) {
       xdr_pack* xdr_other=dynamic_cast<xdr_pack*>(&other);
       if (!xdr_other) throw pack_error("cannot swap differing types");
       swap_base(other);
-      std::swap(asize,xdr_other->asize);
       std::swap(input,xdr_other->input);
       std::swap(output,xdr_other->output);
     }
diff --git a/xdr_pack.cc b/xdr_pack.cc
index ddd87cc..6d8f8f2 100644
--- a/xdr_pack.cc
+++ b/xdr_pack.cc
@@ -109,13 +109,37 @@ namespace classdesc
   xdr_filter XDR_filter(const unsigned short int& x) 
   {return (xdr_filter) xdr_u_short;}
 
+  // XDR's long is a 32 bit quantity. xdr_long() and xdr_u_long() of
+  // some libraries drop the upper bits of larger values, and do not
+  // restore the sign
+  namespace
+  {
+    bool_t xdr_checked_long(::XDR *xdrs, long *x)
+    {
+      int v=int(*x);
+      if (xdrs->x_op==XDR_ENCODE && v!=*x) return FALSE;
+      if (!xdr_int(xdrs,&v)) return FALSE;
+      *x=v;
+      return TRUE;
+    }
+
+    bool_t xdr_checked_u_long(::XDR *xdrs, unsigned long *x)
+    {
+      unsigned v=unsigned(*x);
+      if (xdrs->x_op==XDR_ENCODE && v!=*x) return FALSE;
+      if (!xdr_u_int(xdrs,&v)) return FALSE;
+      *x=v;
+      return TRUE;
+    }
+  }
+
   template <>
   xdr_filter XDR_filter(const long int& x)           
-  {return (xdr_filter) xdr_long;}
+  {return (xdr_filter) xdr_checked_long;}
 
   template <>
   xdr_filter XDR_filter(const unsigned long int& x)  
-  {return (xdr_filter) xdr_u_long;}
+  {return (xdr_filter) xdr_checked_u_long;}
 
     /* long long is an extension to ANSI C++ that describes a 64 bit
        integer on all our supported compilers. XDR's terminolgy for
@@ -147,24 +171,17 @@ namespace classdesc
   xdr_filter XDR_filter(const long double& x)        
   {return NULL;}    
 
-  xdr_pack::xdr_pack(size_t sz): pack_t(sz), asize(0)
-  {
-    input=new XDR; output=new XDR;
-    xdrmem_create(input,(const caddr_t)data(),sz,XDR_ENCODE);
-    xdrmem_create(output,(const caddr_t)data(),sz,XDR_DECODE);    
-  }
+  xdr_pack::xdr_pack(size_t sz): pack_t(sz), input(NULL), output(NULL) {m_size=0;}
 
-  xdr_pack::xdr_pack(const char *fname, const char *rw):  pack_t(fname,rw), asize(0)
+  xdr_pack::xdr_pack(const char *fname, const char *rw):  pack_t(fname,rw), input(NULL), output(NULL)
   {
     if (mode==writef)
       {
         input=new XDR; 
-        output=NULL;
         xdrstdio_create(input,f,XDR_ENCODE);
       }
     else
       {
-        input=NULL;
         output=new XDR;
         xdrstdio_create(output,f,XDR_DECODE);    
       }
@@ -172,104 +189,99 @@ namespace classdesc
 
   xdr_pack::~xdr_pack() 
   {
-    if (output && (mode==buf || mode==readf))
+    if (output)
       {
         xdr_destroy(output); 
         delete output;
       }
-    if (input && (mode==buf || mode==writef))
+    if (input)
       {
         xdr_destroy(input); 
         delete input;  
       }
   }
 
-  void  xdr_pack::append(const basic_type& x) 
+  namespace
+  {
+    /// XDR stream over part of a buffer
+    struct MemXDR: public XDR
     {
-      if (mode==buf && BUFCHUNK-xdr_getpos(input)<8)
-	{
-	  asize += xdr_getpos(input);
-	  realloc(asize+BUFCHUNK);
-	  if (m_data==NULL) throw pack_error("Out of memory encoding XDR stream");
-	  xdr_destroy(input); xdr_destroy(output);
-	  xdrmem_create(input,(const caddr_t)data()+asize,BUFCHUNK,XDR_ENCODE);
-	  xdrmem_create(output,(const caddr_t)data(),BUFCHUNK,XDR_DECODE);
-	}
-      if(!x.filter || !x.filter(input,x.val)) 
-	throw pack_error("Error encoding XDR stream");
-      m_size=asize+xdr_getpos(input);
-    }
-  
-  void xdr_pack::popoff(basic_type& x)
-  { 
-    if (!x.filter || !x.filter(output,x.val)) 
-      throw pack_error("Error encoding XDR stream");
-    m_pos=xdr_getpos(output);
-  }
-
-  xdr_pack& xdr_pack::reseti() { 
-    if (asize==0) 
-      xdr_setpos(input,0);
-    else
+      MemXDR(char* data, size_t size, xdr_op op) 
       {
-	m_size=0; asize=0; xdr_destroy(input); 
-	xdrmem_create(input,(const caddr_t)data(),BUFCHUNK,XDR_ENCODE);
+        const size_t maxSize=~3U; // XDR streams count bytes by unsigned ints
+        xdrmem_create(this,data,u_int(size<maxSize? size: maxSize),op);
       }
-    return *this;
-  }
+      ~MemXDR() {xdr_destroy(this);}
+    };
 
-  xdr_pack& xdr_pack::reseto() 
-  { 
-    xdr_setpos(output,0); 
-    return *this; 
+    /// packs any basic type
+    struct Filter
+    {
+      const basic_type& x;
+      Filter(const basic_type& x): x(x) {}
+      size_t maxSize() const {return 8;}
+      bool operator()(XDR& s) const {return x.filter && x.filter(&s,x.val);}
+    };
+
+    /// packs uninterpreted bytes, padded to a multiple of 4
+    struct Opaque
+    {
+      char* x; size_t sz;
+      Opaque(char* x, size_t sz): x(x), sz(sz) {}
+      size_t maxSize() const {return sz+3;}
+      bool operator()(XDR& s) const {return sz<=~3U && xdr_opaque(&s,x,u_int(sz));}
+    };
   }
 
-  // assume that sizeof(size_t)==sizeof(long): true for most things
-  xdr_pack& xdr_pack::seeki(long offs)
-  { 
-    assert(offs<=0);
-    long seekpos=xdr_getpos(input)+offs;
-    if (mode==buf && seekpos<0) 
+  template <class F> void xdr_pack::encode(const F& x)
+  {
+    bool ok;
+    size_t written;
+    if (mode==buf)
       {
-	seekpos+=asize;  /* work in absolute stream units, not relative to 
-			    current segment */
-	asize=seekpos/BUFCHUNK; seekpos%=BUFCHUNK;
-	xdr_destroy(input);
-	xdrmem_create(input,(const caddr_t)data()+asize,BUFCHUNK,XDR_ENCODE);
+        realloc(m_size+x.maxSize());
+        if (!m_data) throw pack_error("Out of memory encoding XDR stream");
+        MemXDR s(m_data+m_size,x.maxSize(),XDR_ENCODE);
+        ok=x(s);
+        written=xdr_getpos(&s);
       }
-    xdr_setpos(input,seekpos);
-    m_size=asize+seekpos;
-    return *this;
-  }  
-
-  xdr_pack& xdr_pack::seeko(long offs) 
-  {
-    xdr_setpos(output,xdr_getpos(output)+offs);
-    return *this;
+    else
+      {
+        if (!input) throw pack_error("not open for writing");
+        u_int start=xdr_getpos(input);
+        ok=x(*input);
+        written=u_int(xdr_getpos(input)-start);
+      }
+    if (!ok) throw pack_error("Error encoding XDR stream");
+    m_size+=written;
   }
 
-  void xdr_pack::packraw(const char *x, size_t sz) 
+  template <class F> void xdr_pack::decode(const F& x)
   {
-    if (mode==buf && BUFCHUNK-xdr_getpos(input)<sz)
+    bool ok;
+    size_t read;
+    if (mode==buf)
       {
-	asize += xdr_getpos(input);
-	realloc(asize+BUFCHUNK);
-	if (data()==NULL) throw pack_error("Error encoding XDR stream");
-	xdr_destroy(input); xdr_destroy(output);
-	xdrmem_create(input,(const caddr_t)data()+asize,BUFCHUNK,XDR_ENCODE);
-	xdrmem_create(output,(const caddr_t)data(),BUFCHUNK,XDR_DECODE);
+        size_t pos=m_pos<m_size? m_pos: m_size;
+        MemXDR s(m_data+pos,m_size-pos,XDR_DECODE);
+        ok=x(s);
+        read=xdr_getpos(&s);
       }
-    if (!xdr_opaque(input,const_cast<char*>(x),sz)) 
-      throw pack_error("Error encoding XDR stream");
-    m_size=asize+xdr_getpos(input);
+    else
+      {
+        if (!output) throw pack_error("not open for reading");
+        u_int start=xdr_getpos(output);
+        ok=x(*output);
+        read=u_int(xdr_getpos(output)-start);
+      }
+    if (!ok) throw pack_error("Error decoding XDR stream");
+    m_pos+=read;
   }
 
-  void xdr_pack::unpackraw(char *x, size_t sz) 
-  {
-    if (!xdr_opaque(output,x,sz)) 
-      throw pack_error("Error encoding XDR stream");
-    m_pos=xdr_getpos(output);
-  }
+  void xdr_pack::append(const basic_type& x) {encode(Filter(x));}
+  void xdr_pack::popoff(basic_type& x) {decode(Filter(x));}
+  void xdr_pack::packraw(const char *x, size_t sz) {encode(Opaque(const_cast<char*>(x),sz));}
+  void xdr_pack::unpackraw(char *x, size_t sz) {decode(Opaque(x,sz));}
 
 }
 #endif // #ifdef XDR_PACK
-- 
2.43.0


From 804541df1d81acadbd2a51d8f7e9cec112461192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:02 +0000
Subject: [PATCH 39/72] fix: unpacking a null weak_ptr onto a live one
 dereferenced the null

---
 polyAccessPack.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/polyAccessPack.h b/polyAccessPack.h
index 7b860ef..57437d5 100644
--- a/polyAccessPack.h
+++ b/polyAccessPack.h
@@ -119,7 +119,8 @@ namespace classdesc_access
       // cannot deserialise to a weak reference, but need to process stream
       cd::shared_ptr<T> tmp;
       unpack_smart_ptr(x,d,tmp);
-      if (cd::shared_ptr<T> target=a.lock())
+      cd::shared_ptr<T> target=a.lock();
+      if (target && tmp)
         *target=*tmp;   // best effort, polymorphism not supported
     }
   };
-- 
2.43.0


From 326450ea31382470d71ce77659cb85f9708539b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:02 +0000
Subject: [PATCH 40/72] fix: xml_pack: unique_ptr and auto_ptr are written as
 shared_ptr is, without a second level of tags

---
 xml_pack_base.h | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/xml_pack_base.h b/xml_pack_base.h
index 502e085..32c0320 100644
--- a/xml_pack_base.h
+++ b/xml_pack_base.h
@@ -274,6 +274,23 @@ namespace classdesc
   template<class T>
   void xml_pack(xml_pack_t& x, const string& d, shared_ptr<T>& a);
 
+#if defined(__cplusplus) && __cplusplus<=201402
+#if defined(__GNUC__) && !defined(__ICC) && !defined(__clang__)
+#pragma GCC diagnostic push
+#pragma GCC diagnostic ignored "-Wdeprecated-declarations"
+#endif
+  template<class T>
+  void xml_pack(xml_pack_t& x, const string& d, std::auto_ptr<T>& a);
+#if defined(__GNUC__) && !defined(__ICC) && !defined(__clang__)
+#pragma GCC diagnostic pop
+#endif
+#endif
+
+#if defined(__cplusplus) && __cplusplus >= 201103L
+  template<class T, class D>
+  void xml_pack(xml_pack_t& x, const string& d, std::unique_ptr<T,D>& a);
+#endif
+
   template<class T>
   void xml_pack(xml_pack_t& targ, const string& desc, is_graphnode, T&)
   {
-- 
2.43.0


From 03a405fae0256bf8bacefa8770b8d238c640d087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:02 +0000
Subject: [PATCH 41/72] fix: unpacking shared_ptr<object>: null resets the
 pointer, unknown or wrong types throw

---
 object.h | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/object.h b/object.h
index 53ef9aa..5e3cc90 100644
--- a/object.h
+++ b/object.h
@@ -47,7 +47,8 @@ namespace classdesc
   // it would be nice for this to be a static method of object, but it
   // appears static methods cannot be inlined
   inline object* object::create(object::TypeID t) {// factory
-    assert(t<object::TypeID(factory().size()) && t>=0);
+    if (t<0 || t>=object::TypeID(factory().size()) || !factory()[t])
+      throw pack_error("unknown object type");
     return factory()[t]->clone();
   }
 
@@ -121,16 +122,17 @@ unpack(classdesc::unpack_t& b, const classdesc::string& d, classdesc::shared_ptr
 {
   classdesc::object::TypeID t;
   b>>t;
+  if (t<0) throw classdesc::pack_error("unknown object type");
   if (t)
     {
       classdesc::shared_ptr<classdesc::object> tmp(classdesc::object::create(t-1));
-#if defined(__cplusplus) && __cplusplus>=201103L
-      a=classdesc::dynamic_pointer_cast<T>(std::move(tmp));
-#else
-      a=classdesc::dynamic_pointer_cast<T>(tmp);
-#endif
+      classdesc::shared_ptr<T> o=classdesc::dynamic_pointer_cast<T>(tmp);
+      if (!o) throw classdesc::pack_error("object type does not match pointer type");
+      a=o;
       a->unpack(b);
     }
+  else
+    a.reset();
 }
 
 template <class T> typename
@@ -139,6 +141,7 @@ unpack(classdesc::unpack_t& b, const classdesc::string& d, const classdesc::shar
 {
   classdesc::object::TypeID t;
   b>>t;
+  if (t<0) throw classdesc::pack_error("unknown object type");
   if (t)
     {
 #if defined(__cplusplus) && __cplusplus>=201103L
-- 
2.43.0


From 1ad8d226b8da952ea990bce9adee8969be9253d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:02 +0000
Subject: [PATCH 42/72] fix: poly: assignment from oneself, unpacking of null
 and of unregistered types, polyref::operator==

---
 poly.h | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/poly.h b/poly.h
index 39f34ad..43c75da 100644
--- a/poly.h
+++ b/poly.h
@@ -27,7 +27,10 @@ namespace classdesc
   {
     static std::vector<T*> data;
   public:
-    T& operator[](std::size_t i) {return *data[i];}
+    T& operator[](std::size_t i) {
+      if (i>=data.size() || !data[i]) throw exception("type not registered");
+      return *data[i];
+    }
     void register_type(const T* t) {
       if (t->type()+1>int(data.size()))
         data.resize(t->type()+1);
@@ -54,9 +57,9 @@ namespace classdesc
     poly(): item(NULL) {}
     poly(const poly& x) {asg(x);}
     poly(const T& x) {item=dynamic_cast<T*>(x.clone()); }
-    poly& operator=(const poly& x)  {delete item; asg(x); return *this;}
-    poly& operator=(const T& x) {
-      delete item; item=dynamic_cast<T*>(x.clone()); return *this;}  
+    // x may be, or refer to, what this object currently holds
+    poly& operator=(const poly& x)  {poly tmp(x); swap(tmp); return *this;}
+    poly& operator=(const T& x) {poly tmp(x); swap(tmp); return *this;}
     ~poly() {delete item;}
 
     //@{ 
@@ -66,13 +69,13 @@ namespace classdesc
         construction for arbitrary initialisaton.
      */
     template <class U> poly addObject() {
-      delete item; item=new U; TypeTable.register_type(item); 
+      T* tmp=new U; delete item; item=tmp; TypeTable.register_type(item); 
       return *this;}
     template <class U, class A> poly addObject(A x) {
-      delete item; item=new U(x); TypeTable.register_type(item); 
+      T* tmp=new U(x); delete item; item=tmp; TypeTable.register_type(item); 
       return *this;}
     template <class U, class A1, class A2> poly addObject(A1 x1, A2 x2) {
-      delete item; item=new U(x1,x2); TypeTable.register_type(item); 
+      T* tmp=new U(x1,x2); delete item; item=tmp; TypeTable.register_type(item); 
       return *this;}
     //@}
     T* operator->() {assert(item); return item;}
@@ -123,8 +126,8 @@ namespace classdesc
     const T* operator->() const {return &*polyObj();}
     const T& operator*() const {return *polyObj();}
     
-    bool operator==(const polyref& x) {
-      return super::operator==(static_cast<super&>(x));
+    bool operator==(const polyref& x) const {
+      return super::operator==(static_cast<const super&>(x));
     }
     template <class U>
     bool operator!=(const U& x) const {return !operator==(x);}
@@ -185,6 +188,8 @@ namespace classdesc_access
             a=a.TypeTable[type];
           a->unpack(t);
         }
+      else
+        a=classdesc::poly<T,TT>();
     }
   };
 
-- 
2.43.0


From 5bb6cc3622b77c0f731cd9a2ee14ee41f4496f89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:35 +0000
Subject: [PATCH 43/72] fix: BinStream: reading a container other than a vector
 appended to what the target held

---
 pack_base.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pack_base.h b/pack_base.h
index 6ef5a6c..cec4993 100644
--- a/pack_base.h
+++ b/pack_base.h
@@ -407,6 +407,7 @@ namespace classdesc
     {
       size_t s;
       (*this)>>s;
+      o.clear();
       typename T::value_type v;
       for (size_t i=0; i<s; ++i)
         {
@@ -422,6 +423,7 @@ namespace classdesc
     {
       size_t s;
       (*this)>>s;
+      o.clear();
       typename T::value_type v;
       for (size_t i=0; i<s; ++i)
         {
-- 
2.43.0


From e29bcb5fa03fb69168650787ba304553288f6c88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:06 +0000
Subject: [PATCH 44/72] fix: XML: smart pointers to simple types in containers
 were written inside two tags, and so could not be read back

---
 polyAccessXMLPack.h | 19 +++++++++++++++++++
 xml_pack_base.h     |  4 ++++
 2 files changed, 23 insertions(+)

diff --git a/polyAccessXMLPack.h b/polyAccessXMLPack.h
index e3c68f8..ebd442e 100644
--- a/polyAccessXMLPack.h
+++ b/polyAccessXMLPack.h
@@ -47,6 +47,16 @@ namespace classdesc
   void xml_pack(xml_pack_t& x, const string& d, shared_ptr<T>& a)
   {xml_pack_smart_ptr(x,d,a);}
 
+  // elements of containers are const. Null elements need a tag to keep their place
+  template<class T>
+  void xml_pack(xml_pack_t& x, const string& d, const shared_ptr<T>& a)
+  {
+    if (a.get())
+      xml_pack_smart_ptr(x,d,a);
+    else
+      xml_pack_t::Tag tag(x,d);
+  }
+
 #if defined(__cplusplus) && __cplusplus<=201402
 #if defined(__GNUC__) && !defined(__ICC) && !defined(__clang__)
 #pragma GCC diagnostic push
@@ -64,6 +74,15 @@ namespace classdesc
   template<class T, class D>
   void xml_pack(xml_pack_t& x, const string& d, std::unique_ptr<T,D>& a)
   {xml_pack_smart_ptr(x,d,a);}
+
+  template<class T, class D>
+  void xml_pack(xml_pack_t& x, const string& d, const std::unique_ptr<T,D>& a)
+  {
+    if (a.get())
+      xml_pack_smart_ptr(x,d,a);
+    else
+      xml_pack_t::Tag tag(x,d);
+  }
 #endif
 
 #endif
diff --git a/xml_pack_base.h b/xml_pack_base.h
index 32c0320..ff51d11 100644
--- a/xml_pack_base.h
+++ b/xml_pack_base.h
@@ -273,6 +273,8 @@ namespace classdesc
   // special handling of shared pointers to avoid a double wrapping problem
   template<class T>
   void xml_pack(xml_pack_t& x, const string& d, shared_ptr<T>& a);
+  template<class T>
+  void xml_pack(xml_pack_t& x, const string& d, const shared_ptr<T>& a);
 
 #if defined(__cplusplus) && __cplusplus<=201402
 #if defined(__GNUC__) && !defined(__ICC) && !defined(__clang__)
@@ -289,6 +291,8 @@ namespace classdesc
 #if defined(__cplusplus) && __cplusplus >= 201103L
   template<class T, class D>
   void xml_pack(xml_pack_t& x, const string& d, std::unique_ptr<T,D>& a);
+  template<class T, class D>
+  void xml_pack(xml_pack_t& x, const string& d, const std::unique_ptr<T,D>& a);
 #endif
 
   template<class T>
-- 
2.43.0


From 14bb6ba03dcd3f158837a47dda0f3babc5918b1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:59 +0000
Subject: [PATCH 45/72] fix: variadic class templates could not be named
 (varTn)

---
 classdesc.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/classdesc.h b/classdesc.h
index 0011d7d..ff00701 100644
--- a/classdesc.h
+++ b/classdesc.h
@@ -581,8 +581,8 @@ namespace classdesc
 
 #if defined(__cplusplus) && __cplusplus>=201103L
   // handle variadic arguments
-  template <class T, class... A> std::string varTn() {return typeName<T>()+","+varTn<A...>();}
   template <class T> std::string varTn() {return typeName<T>();}
+  template <class T, class U, class... A> std::string varTn() {return typeName<T>()+","+varTn<U,A...>();}
 #endif
   
   ///@{ a string representation of the type
-- 
2.43.0


From 4f69ff4d4bc4ad7b919715a997b3d85f7972341a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:59 +0000
Subject: [PATCH 46/72] fix: type name of std::auto_ptr lacked its namespace

---
 classdesc.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/classdesc.h b/classdesc.h
index ff00701..313bd79 100644
--- a/classdesc.h
+++ b/classdesc.h
@@ -660,7 +660,7 @@ namespace classdesc
   template <class T> struct tn<std::auto_ptr<T> >
   {
     static std::string name()
-    {return "auto_ptr<"+typeName<T>()+">";}
+    {return "std::auto_ptr<"+typeName<T>()+">";}
   };
 #if defined(__GNUC__) && !defined(__ICC) && !defined(__clang__)
 #pragma GCC diagnostic pop
-- 
2.43.0


From 9ed66facbb31d510d373242fcc6e2dd29a28a78d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:59 +0000
Subject: [PATCH 47/72] fix: type names of multidimensional arrays had their
 dimensions reversed

---
 classdesc.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/classdesc.h b/classdesc.h
index 313bd79..6f35531 100644
--- a/classdesc.h
+++ b/classdesc.h
@@ -915,8 +915,12 @@ namespace classdesc
     static std::string name()
     {
       std::ostringstream os;
-      os << typeName<T>()<<"["<<n<<"]";
-      return os.str();
+      os<<"["<<n<<"]";
+      // the leftmost dimension is the outermost one
+      std::string r=typeName<T>();
+      std::string::size_type p=r.length();
+      while (p>0 && r[p-1]==']') p=r.rfind('[',p-1);
+      return r.insert(p,os.str());
     }
   };
 
-- 
2.43.0


From d22e50a694a8e8c357699ed1a21120df049e5508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:59 +0000
Subject: [PATCH 48/72] fix: type names of const pointers named a pointer to
 const

---
 typeName_epilogue.h | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/typeName_epilogue.h b/typeName_epilogue.h
index d5768a9..ec56657 100644
--- a/typeName_epilogue.h
+++ b/typeName_epilogue.h
@@ -43,9 +43,22 @@ namespace classdesc
       >,std::string>::T
   typeNamep() {return tn<T>::name();}
 
+  // const qualified version of T
+  template <class T> struct constName
+  {
+    static std::string name() {return "const "+typeName<T>();}
+  };
+  // "const T*" is a pointer to const
+  template <class T> struct constName<T*>
+  {
+    static std::string name() {return typeName<T*>()+" const";}
+  };
+  // elements of a const array are const
+  template <class T, int n> struct constName<T [n]>: public tn<const T [n]> {};
+
   template <class T> typename
   enable_if<is_const<T>,std::string>::T
-  typeNamep() {return "const "+typeName<typename remove_const<T>::type>();}
+  typeNamep() {return constName<typename remove_const<T>::type>::name();}
 
   template <class T>
   typename enable_if<And<Not<is_function<T> >,Not<is_member_function_pointer<T> > >,  std::string>::T
-- 
2.43.0


From 2a672c59a9b46de33cf43b5296b3b035f97ad55c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:59 +0000
Subject: [PATCH 49/72] fix: classdesc emitted <:: for bases in the global
 namespace, a digraph in C++98

---
 classdesc.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/classdesc.cc b/classdesc.cc
index 2efbf63..c3489b0 100644
--- a/classdesc.cc
+++ b/classdesc.cc
@@ -444,8 +444,8 @@ actionlist_t parse_class(tokeninput& input, bool is_class, string prefix="::", s
             actionlist.push_back
               (act_pair("", 
                         "classdesc::base_cast<"+
-                        // look for member qualification in a template context
-                        string(typename_needed? "typename ": "")+
+                        // look for member qualification in a template context, and avoid the digraph <:
+                        string(typename_needed? "typename ": baseclass[0]==':'? " ": "")+
                         baseclass+" >::cast("+varname+")",
                         onBase? baseclass:"",false,/*!static*/
                         onBase
-- 
2.43.0


From 5c4d9e34f96aa66c90d14e3170295651571b6bb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:59 +0000
Subject: [PATCH 50/72] fix: random_init's default generator could return 1

---
 random_init_base.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/random_init_base.h b/random_init_base.h
index e7830e9..f67da99 100644
--- a/random_init_base.h
+++ b/random_init_base.h
@@ -21,7 +21,7 @@ namespace classdesc
   {
   public:
     /// return a uniform random number in [0..1)
-    virtual double rand() {return double(std::rand())/RAND_MAX;}
+    virtual double rand() {return std::rand()/(RAND_MAX+1.0);}
     virtual ~random_init_t() {}
   };
 
-- 
2.43.0


From a6ab5567fd4a216c7d42573c6577d1d2438bd3cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:59 +0000
Subject: [PATCH 51/72] fix: random_init left arrays uninitialised

---
 random_init_base.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/random_init_base.h b/random_init_base.h
index f67da99..4d10ac5 100644
--- a/random_init_base.h
+++ b/random_init_base.h
@@ -84,13 +84,13 @@ namespace classdesc
 
   // array handling
   template <class T>
-  void random_init(random_init_t& r, const string& d, is_array ia, const T& a, 
+  void random_init(random_init_t& r, const string& d, is_array ia, T& a, 
             int ndims,size_t ncopies,...)
   {
     std::va_list ap;
     va_start(ap,ncopies);
     size_t cnt=ncopies;
-    for (int i=ndims-2; i>=0; --i) cnt*=va_arg(ap,size_t);
+    for (int i=ndims-2; i>=0; --i) cnt*=va_arg(ap,int);
     va_end(ap);
     for (size_t i=0; i<cnt; ++i)
       random_init(r,d,(&a)[i]);
-- 
2.43.0


From 6a8f60b099f2e745c24e291eb075249e994ac287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:59 +0000
Subject: [PATCH 52/72] fix: random_init never initialised the keys of maps

---
 random_init_base.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/random_init_base.h b/random_init_base.h
index 4d10ac5..46438fa 100644
--- a/random_init_base.h
+++ b/random_init_base.h
@@ -135,7 +135,7 @@ namespace classdesc
     int numElem=int(10*r.rand());
     for (int i=0; i<numElem; ++i)
       {
-        typename T::value_type v;
+        typename NonConstKeyValueType<typename T::value_type>::T v;
         random_init(r,d,v);
         a.insert(v);
       }
-- 
2.43.0


From fbb5e0221283386c776d79349106e6fde9543cd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:59 +0000
Subject: [PATCH 53/72] fix: random_init of unique_ptr called a JSON function

---
 random_init_epilogue.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/random_init_epilogue.h b/random_init_epilogue.h
index b70691c..c405c4e 100644
--- a/random_init_epilogue.h
+++ b/random_init_epilogue.h
@@ -71,7 +71,7 @@ namespace classdesc_access
   {
     void operator()(cd::random_init_t& x, const cd::string& d, 
                     std::unique_ptr<T,D>& a)
-    {json_pack_smart_ptr(x,d,a);}
+    {random_init_smart_ptr(x,d,a);}
   };
 
 #endif
-- 
2.43.0


From d08f3b691abb1161df3ec80028d5bbd6eebb80cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:07 +0000
Subject: [PATCH 54/72] fix: schema of an array named its elements by the
 qualified type name

---
 xsd_generate_base.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/xsd_generate_base.h b/xsd_generate_base.h
index d6eba88..93beb05 100644
--- a/xsd_generate_base.h
+++ b/xsd_generate_base.h
@@ -335,11 +335,18 @@ namespace classdesc
       }
     va_end(ap);
     
+    // element name is given by the type name
+    string eName=typeName<T>();
+    eName=eName.substr(0,eName.find('<')); //trim off any template args
+    // strip leading namespace and qualifiers
+    const char *el=eName.c_str()+eName.length();
+    while (el!=eName.c_str() && *(el-1)!=' ' && *(el-1)!=':') el--;
+
     std::ostringstream os;
     os<<"  <xs:complexType name=\""+type.str()+"\">\n";
     os<<"    <xs:sequence minOccurs=\""<<ncopies<<
       "\" maxOccurs=\""<<ncopies<<"\">\n";
-    os<<"      <xs:element name=\""<<typeName<T>()<<"\" type=\""<<
+    os<<"      <xs:element name=\""<<el<<"\" type=\""<<
       xsd_typeName<T>()<<"\"/>\n";
     os<<"    </xs:sequence>\n";
     os<<"  </xs:complexType>\n";
-- 
2.43.0


From 3c2aa6f18a5ea7d4a949a0a9a0eb9eded0acf37a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:07 +0000
Subject: [PATCH 55/72] fix: schema of a class without members was not a valid
 schema

---
 xsd_generate_base.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/xsd_generate_base.h b/xsd_generate_base.h
index 93beb05..ed9a576 100644
--- a/xsd_generate_base.h
+++ b/xsd_generate_base.h
@@ -150,10 +150,15 @@ namespace classdesc
           // reasons, or for future extensibility
           // namespace attribute to solve Unique Particle Attribution (UPA) rule in XSD 1.0
           if (typeBeingAddedTo.back().baseClass.empty())
-            xsdDefs[typeBeingAddedTo.back().name]+=
+            {
+              if (!typeBeingAddedTo.back().sequenceAdded)
+                xsdDefs[typeBeingAddedTo.back().name]+="    <xs:sequence>\n";
+              typeBeingAddedTo.back().sequenceAdded=true;
+              xsdDefs[typeBeingAddedTo.back().name]+=
               "      <xs:any minOccurs=\"0\" "
               "namespace=\"##other\" "
               "maxOccurs=\"unbounded\" processContents=\"lax\"/>\n";
+            }
           if (typeBeingAddedTo.back().sequenceAdded)
             xsdDefs[typeBeingAddedTo.back().name]+="    </xs:sequence>\n";
           if (!typeBeingAddedTo.back().baseClass.empty())
-- 
2.43.0


From 5f580a08c8f414fc73d96892f7212ea29bd700d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:07 +0000
Subject: [PATCH 56/72] fix: schema of a class that refers to itself never
 ended

---
 xsd_generate_base.h | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/xsd_generate_base.h b/xsd_generate_base.h
index ed9a576..61d1e5a 100644
--- a/xsd_generate_base.h
+++ b/xsd_generate_base.h
@@ -169,6 +169,15 @@ namespace classdesc
       typeBeingAddedTo.pop_back();
     }
 
+    /// true if the definition of \a type is being collected - \a type
+    /// refers to itself if it is met again then
+    bool isOpen(const string& type) const
+    {
+      for (size_t i=0; i<typeBeingAddedTo.size(); ++i)
+        if (typeBeingAddedTo[i].name==type) return true;
+      return false;
+    }
+
     string currentDescription() const 
     {
       if (!typeBeingAddedTo.empty())
@@ -267,7 +276,9 @@ namespace classdesc
     else
       g.addMember(tail(d),xsd_typeName<T>());
 
-    g.openType(transformTypeName(typeName<T>()), d);
+    const string type=transformTypeName(typeName<T>());
+    if (g.isOpen(type)) return;
+    g.openType(type, d);
     classdesc_access::access_xsd_generate<T>()(g,d,const_cast<T&>(a));
     g.closeType();
   }
@@ -511,7 +522,9 @@ namespace classdesc
   typename enable_if<EverythingElse<T>, void>::T
   processExtraClass(xsd_generate_t& g, const string& d, const T& a)
   {
-    g.openType(transformTypeName(typeName<T>()), d);
+    const string type=transformTypeName(typeName<T>());
+    if (g.isOpen(type)) return;
+    g.openType(type, d);
     classdesc_access::access_xsd_generate<T>()(g,d,const_cast<T&>(a));
     g.closeType();
   }
-- 
2.43.0


From fcd477bed8bef12175c294c82a4de09455815b1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:07 +0000
Subject: [PATCH 57/72] fix: schema made the members of an optional object
 optional too

---
 xsd_generate_base.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/xsd_generate_base.h b/xsd_generate_base.h
index 61d1e5a..146ffbd 100644
--- a/xsd_generate_base.h
+++ b/xsd_generate_base.h
@@ -278,6 +278,7 @@ namespace classdesc
 
     const string type=transformTypeName(typeName<T>());
     if (g.isOpen(type)) return;
+    xsd_generate_t::Optional o(g,false); // whether d is optional says nothing about its members
     g.openType(type, d);
     classdesc_access::access_xsd_generate<T>()(g,d,const_cast<T&>(a));
     g.closeType();
@@ -524,6 +525,7 @@ namespace classdesc
   {
     const string type=transformTypeName(typeName<T>());
     if (g.isOpen(type)) return;
+    xsd_generate_t::Optional o(g,false);
     g.openType(type, d);
     classdesc_access::access_xsd_generate<T>()(g,d,const_cast<T&>(a));
     g.closeType();
-- 
2.43.0


From c44e0f906b109369cf6b8920accd5ecf76ef5381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:24 +0000
Subject: [PATCH 58/72] fix: schema of an array left the type of its elements
 undefined

---
 xsd_generate_base.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/xsd_generate_base.h b/xsd_generate_base.h
index 146ffbd..5544f32 100644
--- a/xsd_generate_base.h
+++ b/xsd_generate_base.h
@@ -371,6 +371,8 @@ namespace classdesc
     g.defineType(type.str(), os.str());
     g.addMember(tail(d), "tns:"+type.str());
     g.addDependency(type.str(), xsd_typeName<T>());
+    // ensure that the element type has a definition also
+    processExtraClass(g, d+transformTypeName(typeName<T>()), a);
   }
 
   /// enum handling
-- 
2.43.0


From 6a92561b59ede5cc80c2e53ce9447b3bd815da53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:54 +0000
Subject: [PATCH 59/72] fix: schema gave a derived toplevel object the type of
 its base class

---
 xsd_generate_base.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/xsd_generate_base.h b/xsd_generate_base.h
index 5544f32..ad17d38 100644
--- a/xsd_generate_base.h
+++ b/xsd_generate_base.h
@@ -265,7 +265,8 @@ namespace classdesc
   xsd_generate(xsd_generate_t& g, const string& d, const T& a)
   {
     // if this is a toplevel name, record it as the root element
-    if (!d.empty() && d.find('.')==string::npos)
+    // (a base class of the toplevel object has the same name)
+    if (!d.empty() && d.find('.')==string::npos && g.currentDescription()!=d)
       {
         g.rootName=d;
         g.rootType=xsd_typeName<T>();
-- 
2.43.0


From ca7b5cde69ca4a78d0cdc5c6290babedef49d37a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:59 +0000
Subject: [PATCH 60/72] fix: all tuples had the same type name

typeName of any std::tuple was the text std::tuple<...>, so that two
tuples of different types shared one (wrong) definition in an XML schema.
---
 classdesc.h | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/classdesc.h b/classdesc.h
index 6f35531..56b441f 100644
--- a/classdesc.h
+++ b/classdesc.h
@@ -1175,10 +1175,23 @@ namespace classdesc
 
   // tuple support
 #if defined(__cplusplus) && __cplusplus>=201103L
+  /// comma separated list of the names of types \a A
+  template <class... A> struct typeNames
+  {
+    static string name() {return "";}
+  };
+  template <class A> struct typeNames<A>
+  {
+    static string name() {return typeName<A>();}
+  };
+  template <class A, class B, class... C> struct typeNames<A,B,C...>
+  {
+    static string name() {return typeName<A>()+","+typeNames<B,C...>::name();}
+  };
+
   template <class... A> struct tn<std::tuple<A...>>
   {
-    // TODO unpack argpack to explicitly name template parameters
-    static string name() {return "std::tuple<...>";}
+    static string name() {return "std::tuple<"+typeNames<A...>::name()+">";}
   };
 #endif
   
-- 
2.43.0


From 565975a967c8a8f986fc2890434adaef409e0919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:59 +0000
Subject: [PATCH 61/72] fix: schema of a tuple named its elements by the
 qualified type name

xml_pack writes the name without namespace and template arguments.
---
 xsd_generate_base.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/xsd_generate_base.h b/xsd_generate_base.h
index ad17d38..fb8148d 100644
--- a/xsd_generate_base.h
+++ b/xsd_generate_base.h
@@ -462,8 +462,13 @@ namespace classdesc
   {
     if constexpr (std::tuple_size<std::tuple<A...>>::value>0)
       {
-        xsd_generate(g,d+"."+transformTypeName(typeName<typename std::tuple_element<0,std::tuple<A...>>::type>()),
-                     std::get<0>(e));
+        // element name is given by the type name
+        string eName=typeName<typename std::tuple_element<0,std::tuple<A...>>::type>();
+        eName=eName.substr(0,eName.find('<')); //trim off any template args
+        // strip leading namespace and qualifiers
+        const char *el=eName.c_str()+eName.length();
+        while (el!=eName.c_str() && *(el-1)!=' ' && *(el-1)!=':') el--;
+        xsd_generate(g,d+"."+el,std::get<0>(e));
         tuple_element_generate(g,d,classdesc::tupleTail(e));
       }
   }
-- 
2.43.0


From cea4e2f350ff09ff420669d4e3c5370392d41e10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:59 +0000
Subject: [PATCH 62/72] fix: schema made the elements of an optional pair or
 tuple optional too

---
 xsd_generate_base.h | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/xsd_generate_base.h b/xsd_generate_base.h
index fb8148d..e67d578 100644
--- a/xsd_generate_base.h
+++ b/xsd_generate_base.h
@@ -475,9 +475,12 @@ namespace classdesc
   template <class... A>
   void xsd_generate(xsd_generate_t& g, const string& d, const std::tuple<A...>& e)
   {
-    g.openType(transformTypeName(typeName<std::tuple<A...>>()),d);
-    tuple_element_generate(g,d,e);
-    g.closeType();
+    {
+      xsd_generate_t::Optional o(g,false); // whether d is optional says nothing about its elements
+      g.openType(transformTypeName(typeName<std::tuple<A...>>()),d);
+      tuple_element_generate(g,d,e);
+      g.closeType();
+    }
     g.addMember(tail(d), xsd_typeName<std::tuple<A...>>());
   }
 #endif
@@ -486,10 +489,13 @@ namespace classdesc
   template <class T, class U>
   void xsd_generate(xsd_generate_t& g, const string& d, const std::pair<T,U>& a)
   {
-    g.openType(transformTypeName(typeName<std::pair<T,U> >()), d);
-    xsd_generate(g,d+".first",a.first);
-    xsd_generate(g,d+".second",a.second);
-    g.closeType();
+    {
+      xsd_generate_t::Optional o(g,false); // whether d is optional says nothing about its elements
+      g.openType(transformTypeName(typeName<std::pair<T,U> >()), d);
+      xsd_generate(g,d+".first",a.first);
+      xsd_generate(g,d+".second",a.second);
+      g.closeType();
+    }
     g.addMember(tail(d), xsd_typeName<std::pair<T,U> >());
   }
 
-- 
2.43.0


From 0140b08e9fdd0805f997f2a722df834100fb2230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:30 +0000
Subject: [PATCH 63/72] fix: name a tuple's types by the existing varTn

---
 classdesc.h | 18 ++++--------------
 1 file changed, 4 insertions(+), 14 deletions(-)

diff --git a/classdesc.h b/classdesc.h
index 56b441f..2664e9a 100644
--- a/classdesc.h
+++ b/classdesc.h
@@ -1175,23 +1175,13 @@ namespace classdesc
 
   // tuple support
 #if defined(__cplusplus) && __cplusplus>=201103L
-  /// comma separated list of the names of types \a A
-  template <class... A> struct typeNames
-  {
-    static string name() {return "";}
-  };
-  template <class A> struct typeNames<A>
-  {
-    static string name() {return typeName<A>();}
-  };
-  template <class A, class B, class... C> struct typeNames<A,B,C...>
+  template <class... A> struct tn<std::tuple<A...>>
   {
-    static string name() {return typeName<A>()+","+typeNames<B,C...>::name();}
+    static string name() {return "std::tuple<"+varTn<A...>()+">";}
   };
-
-  template <class... A> struct tn<std::tuple<A...>>
+  template <> struct tn<std::tuple<>>
   {
-    static string name() {return "std::tuple<"+typeNames<A...>::name()+">";}
+    static string name() {return "std::tuple<>";}
   };
 #endif
   
-- 
2.43.0


From ae1ad5414dab01caa7d8a2b9f3d2eb6f960e559b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:25 +0000
Subject: [PATCH 64/72] fix: MPIslave << value recursed without end

<< of anything but a method called itself for ever instead of packing the
value.
---
 classdescMP.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/classdescMP.h b/classdescMP.h
index 0d9d930..13fb0db 100644
--- a/classdescMP.h
+++ b/classdescMP.h
@@ -414,7 +414,7 @@ namespace classdesc
       return *this;
     }
     template <class T> MPIbuf& operator<<(const T& x)
-    {reseti(); return (*this) << x;}
+    {reseti(); return MPIbuf::operator<<(x);}
     /// send a request to the next available slave
     void exec(MPIbuf& x) {x.send(idle.back(),0); idle.pop_back();}
     /// process a return value
-- 
2.43.0


From f6815b6f6e753e9ff1c6900f84e7d0343c0baa1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:25 +0000
Subject: [PATCH 65/72] fix: scatter could be used only once on a buffer

The marks of a scatter stayed (so that those of the next one went beyond the
end of the array of offsets), and the read position was not reset, unlike in
the other collective operations.
---
 classdescMP.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/classdescMP.h b/classdescMP.h
index 13fb0db..5c7c057 100644
--- a/classdescMP.h
+++ b/classdescMP.h
@@ -148,7 +148,7 @@ namespace classdesc
     /// scatter \a root's data (that has been marked with \c mark)
     MPIbuf& scatter(unsigned root); 
     /// reset the buffer to send or receive a new message
-    MPIbuf& reset() {reseti(); reseto(); tag=1; return *this;}
+    MPIbuf& reset() {reseti(); reseto(); offsctr=1; tag=1; return *this;}
     /// is there a message waiting to be received into the buffe
     bool msg_waiting(int source=MPI_ANY_SOURCE, int tag=MPI_ANY_TAG);
 
@@ -383,6 +383,8 @@ namespace classdesc
         free(rootdata); delete [] sizes;
         for (int i=0; i<np; offsets[i++]=0);
       }
+    offsctr=1;
+    reseto();
     return *this;
   }
 
-- 
2.43.0


From 8bcf6dd4155542a478714d67c01571b23fbb80b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:25 +0000
Subject: [PATCH 66/72] fix: assigning an MPIbuf appended to the target's
 contents

The contents were not replaced, a pending send was forgotten,
self-assignment read deleted memory, and const_buffer, proc and tag of a copy
were not set.
---
 classdescMP.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/classdescMP.h b/classdescMP.h
index 5c7c057..09defce 100644
--- a/classdescMP.h
+++ b/classdescMP.h
@@ -102,10 +102,10 @@ namespace classdesc
     MPIbuf()
     {
       request=MPI_REQUEST_NULL;
-      Communicator=MPI_COMM_WORLD; const_buffer=0;
+      Communicator=MPI_COMM_WORLD; const_buffer=0; proc=tag=0;
       offsets=new int[nprocs()+1]; offsctr=1; offsets[0]=0;
     }
-    MPIbuf(const MPIbuf& x): offsets(NULL) {*this=x;}
+    MPIbuf(const MPIbuf& x): offsets(NULL), request(MPI_REQUEST_NULL) {*this=x;}
     ~MPIbuf() 
     {
       if (request!=MPI_REQUEST_NULL) wait(); //MPI_Request_free(&request);
@@ -113,12 +113,16 @@ namespace classdesc
     }
     const MPIbuf& operator=(const MPIbuf& x)
     { 
+      if (this==&x) return *this;
+      if (request!=MPI_REQUEST_NULL) wait();
       Communicator=x.Communicator;
+      const_buffer=x.const_buffer; proc=x.proc; tag=x.tag;
       delete [] offsets;
       offsets=new int[nprocs()+1];
       offsctr=x.offsctr;
       for (unsigned i=0; i<offsctr; i++) offsets[i]=x.offsets[i];
       request=MPI_REQUEST_NULL;
+      reseti(); reseto();
       packraw(x.data(),x.size());
       return *this;
     }
-- 
2.43.0


From 2afa8f8a6e3fbb50cea79d1e00e3003ad2574afb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:25 +0000
Subject: [PATCH 67/72] fix: send_recv looked for the wrong message

It probed for the tag it sends with rather than the one it receives, could
receive another message than the one it had probed, and set proc and tag from
the status of the send.
---
 classdescMP.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/classdescMP.h b/classdescMP.h
index 09defce..dc08214 100644
--- a/classdescMP.h
+++ b/classdescMP.h
@@ -293,16 +293,16 @@ namespace classdesc
     MPI_Request r1;
 
     MPI_Isend(data(), size(), MPI_CHAR, dest, sendtag, Communicator, &r1);
-    MPI_Probe(source, sendtag, Communicator, &status);
+    MPI_Probe(source, recvtag, Communicator, &status);
     MPI_Get_count(&status, MPI_CHAR, &tempsize);
+    proc=status.MPI_SOURCE;
+    tag=status.MPI_TAG;
     
     char *tempdata=realloc(NULL, tempsize);
-    MPI_Recv(tempdata,tempsize, MPI_CHAR,source,recvtag,Communicator,&status);
+    MPI_Recv(tempdata,tempsize, MPI_CHAR,proc,tag,Communicator,&status);
     
     MPI_Wait(&r1,&status); // ensure data is actually sent before deleting storage
     realloc(0); m_data=tempdata; m_size=tempsize;
-    proc=status.MPI_SOURCE;
-    tag=status.MPI_TAG;
     reseto();
   }
 
-- 
2.43.0


From 95a966b933bc155a5fb7a27155ae59b387092f22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:25 +0000
Subject: [PATCH 68/72] fix: MPIslave::bcast sent the wrong buffer

It sent the contents of the MPIslave instead of those of its argument.
---
 classdescMP.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/classdescMP.h b/classdescMP.h
index dc08214..eda8603 100644
--- a/classdescMP.h
+++ b/classdescMP.h
@@ -476,7 +476,7 @@ namespace classdesc
   inline void MPIslave<S>::bcast(MPIbuf& c)
   {
     for (unsigned i=1; i<nprocs(); i++) 
-    {MPI_Send(data(),size(),MPI_CHAR,i,0,c.Communicator);}
+    {MPI_Send(c.data(),c.size(),MPI_CHAR,i,0,c.Communicator);}
     c.reseti();
   }
 
-- 
2.43.0


From 4011a01b24139674682d33e95c22c6582ea3f75c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:25 +0000
Subject: [PATCH 69/72] fix: completed requests of an MPIbuf_array stayed in
 its buffers

The buffers kept (and waited for) requests that no longer exist; and
testsome and waitsome without any active request built a vector of size
MPI_UNDEFINED.
---
 classdescMP.h | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/classdescMP.h b/classdescMP.h
index eda8603..6c01fd8 100644
--- a/classdescMP.h
+++ b/classdescMP.h
@@ -179,6 +179,8 @@ namespace classdesc
   {
     std::vector<MPIbuf> bufs;
     std::vector<MPI_Request> requests;
+    /// note which of the buffers' requests have completed
+    void update() {for (size_t i=0; i<bufs.size(); i++) bufs[i].request=requests[i];}
   public:
     
     MPIbuf_array(unsigned n): bufs(n), requests(n) {}
@@ -191,6 +193,7 @@ namespace classdesc
       int flag;
       for (size_t i=0; i<bufs.size(); i++) requests[i]=bufs[i].request;
       MPI_Testall(bufs.size(),requests.data(),&flag,MPI_STATUSES_IGNORE);
+      update();
       return flag;
     }
     /// return the index of any request that has completed, or MPI_UNDEFINED if none  
@@ -199,6 +202,7 @@ namespace classdesc
       int flag,index;
       for (size_t i=0; i<bufs.size(); i++) requests[i]=bufs[i].request;
       MPI_Testany(bufs.size(),requests.data(),&index,&flag,MPI_STATUS_IGNORE);
+      update();
       return index;
     }
     /// return the index of the requests that have completed
@@ -208,6 +212,8 @@ namespace classdesc
       std::vector<int> index(bufs.size());
       for (size_t i=0; i<bufs.size(); i++) requests[i]=bufs[i].request;
       MPI_Testsome(bufs.size(),requests.data(),&count,index.data(),MPI_STATUSES_IGNORE);
+      update();
+      if (count==MPI_UNDEFINED) count=0;
       return std::vector<int>(index.begin(),index.begin()+count);
     }
     /// wait for all outstanding requests to complete
@@ -215,6 +221,7 @@ namespace classdesc
     {
       for (size_t i=0; i<bufs.size(); i++) requests[i]=bufs[i].request;
       MPI_Waitall(bufs.size(),requests.data(),MPI_STATUSES_IGNORE);
+      update();
     }
     /// wait for any outstanding request to complete, returning index of completed request
     int waitany()
@@ -222,6 +229,7 @@ namespace classdesc
       int index;
       for (size_t i=0; i<bufs.size(); i++) requests[i]=bufs[i].request;
       MPI_Waitany(bufs.size(),requests.data(),&index,MPI_STATUSES_IGNORE);
+      update();
       return index;
     }
     /// wait for some outstanding requests to complete, returning an array of request indices
@@ -230,7 +238,9 @@ namespace classdesc
       int count;
       std::vector<int> index(bufs.size());
       for (size_t i=0; i<bufs.size(); i++) requests[i]=bufs[i].request;
-      MPI_Waitsome(bufs.size(),requests.data(),&count,index.data(),MPI_STATUS_IGNORE);
+      MPI_Waitsome(bufs.size(),requests.data(),&count,index.data(),MPI_STATUSES_IGNORE);
+      update();
+      if (count==MPI_UNDEFINED) count=0;
       return std::vector<int>(index.begin(),index.begin()+count);
     }
   };
-- 
2.43.0


From e566ca17d1ff5138b4c2679cab0a9809779f2411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:25 +0000
Subject: [PATCH 70/72] fix: gather of constant size buffers dropped all but
 one

With const_buffer set the root's buffer held everything, but its size was
that of one contribution.
---
 classdescMP.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/classdescMP.h b/classdescMP.h
index 6c01fd8..ef26ca6 100644
--- a/classdescMP.h
+++ b/classdescMP.h
@@ -361,8 +361,8 @@ namespace classdesc
     }
     else
       {
-        rootsz=size();
-        if (myid()==root) rootdata=realloc(NULL,size()*nprocs());
+        rootsz=size()*nprocs();
+        if (myid()==root) rootdata=realloc(NULL,rootsz);
         MPI_Gather(data(),size(),MPI_CHAR,rootdata,size(),
                    MPI_CHAR,root,Communicator);
       }
-- 
2.43.0


From cbdeb7da5c11f3471566119ec9fe3a7eeacb76f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:22:47 +0000
Subject: [PATCH 71/72] fix: pack_t move constructor leaves mode, size,
 position and recursion limit indeterminate

A buffer constructed by move kept an uninitialised recursion limit, and the
moved-from buffer received an uninitialised mode, size and position, so it
crashed when cleared and used again.
---
 pack_base.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pack_base.h b/pack_base.h
index cec4993..4e8353a 100644
--- a/pack_base.h
+++ b/pack_base.h
@@ -230,7 +230,8 @@ namespace classdesc
     virtual ~pack_t() {realloc(0); if (f) fclose(f);}
 
 #if __cplusplus >= 201103L
-    pack_t(pack_t&& x): f(nullptr), m_data(nullptr) {swap_base(x);}
+    pack_t(pack_t&& x): f(nullptr), mode(buf), m_data(nullptr), m_size(0), m_pos(0),
+                        ptr_flag(DEFAULT), recur_max(x.recur_max) {swap_base(x);}
     pack_t& operator=(pack_t&& x) {swap_base(x); return *this;}
 #endif
 
-- 
2.43.0


From b08da47a7acc157686fce40376aa3fc1fc373ddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:32:41 +0000
Subject: [PATCH 72/72] fix: a byte 0xff pushed back while parsing XML from a
 FILE* was lost

ungetc was given the char as a negative int, which for 0xff is EOF.
---
 xml_unpack_base.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xml_unpack_base.h b/xml_unpack_base.h
index 30f0b3a..f77cf5c 100644
--- a/xml_unpack_base.h
+++ b/xml_unpack_base.h
@@ -69,7 +69,7 @@ namespace classdesc
   inline bool get(FILE*& i, char& c)  
   {int cc=fgetc(i); c=char(cc); return cc!=EOF;}
   inline void unget(std::istream& i, char c)  {i.putback(c);}
-  inline void unget(FILE*& i, char c) {ungetc(c,i);}
+  inline void unget(FILE*& i, char c) {ungetc(static_cast<unsigned char>(c),i);}
 
   /// What a token is: the characters alone do not tell, as text may
   /// look like markup or be empty
-- 
2.43.0

