From 11e61880b3167471d44fcbd0e7aa6b5c0417de46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:43:15 +0000
Subject: [PATCH 01/59] fix: cpp-scheme atomic operations return the result of
 their own update

The result was read back from the variable after the native fetch_* call,
so an update by another thread in between was returned as one's own.
---
 ristra/atomics/src/atomics-macro-class.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/ristra/atomics/src/atomics-macro-class.h b/ristra/atomics/src/atomics-macro-class.h
index 1a7394f..99c6a0b 100644
--- a/ristra/atomics/src/atomics-macro-class.h
+++ b/ristra/atomics/src/atomics-macro-class.h
@@ -33,9 +33,11 @@ public:
       // std::atomic<>'s fetch_add() etc. return the contained value BEFORE
       // the call, which is inconsistent with what we expect from "+=" etc.,
       // and with what we get from our other atomicity schemes (below). So,
-      // we split the call and the return.
-      atom.atomics_cpp(val,sync); // e.g. atom.fetch_add(val,sync)
-      return T(atom);
+      // we redo the operation on a local copy of the value returned. (Reading
+      // atom again would not do: by then, another thread may have changed it.)
+      std::atomic<T> neu(atom.atomics_cpp(val,sync)); // e.g. fetch_add(val,sync)
+      neu.atomics_cpp(val,std::memory_order_relaxed);
+      return neu.load(std::memory_order_relaxed);
    }
    #endif
 
-- 
2.43.0


From 2cd2a3618402a5993763c50f3680a78965f98377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:44:11 +0000
Subject: [PATCH 02/59] fix: fixed_vector::insert shifts elements without
 overwriting them

The elements behind the insertion point were moved to the right front to
back, so that overlapping elements of a non-trivially-copyable type were
overwritten before they were moved (and a value referring to an element of
the vector itself was read after the shift).
---
 ristra/utils/fixed_vector.h | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/ristra/utils/fixed_vector.h b/ristra/utils/fixed_vector.h
index 7e3af50..63a0a8e 100644
--- a/ristra/utils/fixed_vector.h
+++ b/ristra/utils/fixed_vector.h
@@ -180,10 +180,10 @@ public:
     // convert to a non-const iterator
     auto d_first = _validate_iterator( pos );
     // shift data to the right
-    auto d_last = std::next(d_first);
-    std::copy(d_first, end(), d_last );
+    const T tmp( value ); // value may refer to one of the shifted elements
+    std::copy_backward(d_first, end(), std::next(end()) );
     // assign value
-    *d_first = value;
+    *d_first = tmp;
     // increment counter
     length_++;
     // return an iterator to the inserted value
@@ -196,8 +196,7 @@ public:
     // convert to a non-const iterator
     auto d_first = _validate_iterator( pos );
     // shift data to the right
-    auto d_last = std::next(d_first);
-    std::move(d_first, end(), d_last );
+    std::move_backward(d_first, end(), std::next(end()) );
     // assign value
     *d_first = std::move( value );
     // increment counter
@@ -214,10 +213,10 @@ public:
     // if zero size is inserted, return pos
     if ( count == 0 ) return d_first;
     // otherwise, shift data to the right
-    auto d_last = std::next(d_first, count);
-    std::copy(d_first, end(), d_last );
+    const T tmp( value ); // value may refer to one of the shifted elements
+    std::copy_backward(d_first, end(), std::next(end(), count) );
     // assign value
-    std::fill_n( d_first, count, value );
+    std::fill_n( d_first, count, tmp );
     // increment counter
     length_ += count;
     // return an iterator to the inserted value
@@ -238,8 +237,7 @@ public:
     // if zero size is inserted, return pos
     if ( count == 0 ) return d_first;
     // otherwise, shift data to the right
-    auto d_last = std::next(d_first, count);
-    std::move(d_first, end(), d_last );
+    std::move_backward(d_first, end(), std::next(end(), count) );
     // assign values
     std::copy( first, last, d_first );
     // increment counter
@@ -258,8 +256,7 @@ public:
     // if zero size is inserted, return pos
     if ( count == 0 ) return start;
     // otherwise, shift data to the right
-    auto next = std::next(start, count);
-    std::move(start, end(), next );
+    std::move_backward(start, end(), std::next(end(), count) );
     // assign values
     std::copy( ilist.begin(), ilist.end(), start );
     // increment counter
-- 
2.43.0


From 0e6ca06e76e07b52b43ea4ddcad7145889347b42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:44:11 +0000
Subject: [PATCH 03/59] fix: fixed_vector::erase of an empty range returns its
 end

It returned begin(), so a loop continuing from the returned position would
start over.
---
 ristra/utils/fixed_vector.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ristra/utils/fixed_vector.h b/ristra/utils/fixed_vector.h
index 63a0a8e..73d665e 100644
--- a/ristra/utils/fixed_vector.h
+++ b/ristra/utils/fixed_vector.h
@@ -289,7 +289,7 @@ public:
     // if empty, nothing to do    
     if ( empty() ) return end();
     // if first == last, nothring to do
-    if ( first == last ) return begin();
+    if ( first == last ) return _validate_iterator( last );
     // get the number of deleted elements
     auto count = std::distance( first, last );
     // convert to a non-const iterator
-- 
2.43.0


From da922d83e17711afbf85182d11288da3428d4693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:44:11 +0000
Subject: [PATCH 04/59] fix: fixed_vectors of different size are not equal

The comparison ignored the size of the right-hand side.
---
 ristra/utils/fixed_vector.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ristra/utils/fixed_vector.h b/ristra/utils/fixed_vector.h
index 73d665e..5031e8f 100644
--- a/ristra/utils/fixed_vector.h
+++ b/ristra/utils/fixed_vector.h
@@ -380,7 +380,7 @@ template< class T, std::size_t N >
 bool operator==( const fixed_vector<T,N>& lhs,
                  const fixed_vector<T,N>& rhs )
 {
-  return std::equal( lhs.begin(), lhs.end(), rhs.begin() );
+  return std::equal( lhs.begin(), lhs.end(), rhs.begin(), rhs.end() );
 }
     
 } // namespace utils
-- 
2.43.0


From abb404b3e955d6ed8c8d3ab8cbd55203bf8118b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:44:11 +0000
Subject: [PATCH 05/59] fix: make fixed_vector::data and reverse iteration
 compile

They were ill-formed as soon as they were used.
---
 ristra/utils/fixed_vector.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ristra/utils/fixed_vector.h b/ristra/utils/fixed_vector.h
index 5031e8f..65b3175 100644
--- a/ristra/utils/fixed_vector.h
+++ b/ristra/utils/fixed_vector.h
@@ -134,8 +134,8 @@ public:
   constexpr reference front() { return data_[0]; }
   constexpr reference back()  { return data_[size()-1]; }
         
-  constexpr const_pointer data() const { return data_; }
-  constexpr pointer data() { return data_; }
+  constexpr const_pointer data() const { return data_.data(); }
+  constexpr pointer data() { return data_.data(); }
         
 
   //============================================================================
@@ -148,10 +148,10 @@ public:
   constexpr const_iterator end() const { return std::next(data_.begin(), length_); }
   constexpr const_iterator cbegin() const { return begin(); }
   constexpr const_iterator cend() const { return end(); }
-  reverse_iterator rbegin() const {
+  const_reverse_iterator rbegin() const {
     return const_reverse_iterator(end());
   }
-  reverse_iterator rend() const {
+  const_reverse_iterator rend() const {
     return const_reverse_iterator(begin());
   }
   const_reverse_iterator crbegin() const { return rbegin(); }
-- 
2.43.0


From f0057f2771c150fb36b93e7cd0da056e14e5bb6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:36:05 +0000
Subject: [PATCH 06/59] fix: hard_coded_source_t::get_value must not move the
 value out of the source

---
 ristra/initialization/input_source.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ristra/initialization/input_source.h b/ristra/initialization/input_source.h
index e4be871..f905a37 100644
--- a/ristra/initialization/input_source.h
+++ b/ristra/initialization/input_source.h
@@ -105,7 +105,7 @@ class hard_coded_source_t : public input_source<hard_coded_source_t>
     auto it = reg.find(k);
     bool found(false);
     if (reg.end() != it) {
-      t = std::move(it->second);
+      t = it->second;
       found = true;
     }
     return found;
-- 
2.43.0


From fb419047d5ee5b660c75a4184c88ee110d02f89c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:36:05 +0000
Subject: [PATCH 07/59] fix: resolving a function target again replaces the
 earlier function

---
 ristra/initialization/input_engine.h | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/ristra/initialization/input_engine.h b/ristra/initialization/input_engine.h
index 938e6d0..bfae8f8 100644
--- a/ristra/initialization/input_engine.h
+++ b/ristra/initialization/input_engine.h
@@ -504,12 +504,7 @@ class input_engine_t
           func_t f;
           found_target = hard_coded_source->get_value(target, f);
           if (found_target) {
-            // auto ins_pr =
-            hc_registry.insert(std::make_pair(target, f));
-            // bool inserted = ins_pr.second;
-            // Could have some error checking on whether the thing was
-            // inserted: if it weren't, that might mean this key is already
-            // inhabited, and that would be unexpected.
+            hc_registry[target] = f;
             continue;
           }
         }
@@ -594,7 +589,7 @@ class input_engine_t
         func_t f;
         found_target = hard_coded_source->get_value(target, f);
         if (found_target) {
-          hc_registry.insert(std::make_pair(target, f));
+          hc_registry[target] = f;
         }
       }
       return found_target;
-- 
2.43.0


From fe00d91075babc110cd30641062430a4b35e79b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:36:05 +0000
Subject: [PATCH 08/59] fix: failures and values of an earlier resolution do
 not outlive the next one

---
 ristra/initialization/input_engine.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ristra/initialization/input_engine.h b/ristra/initialization/input_engine.h
index bfae8f8..410ebf2 100644
--- a/ristra/initialization/input_engine.h
+++ b/ristra/initialization/input_engine.h
@@ -430,6 +430,7 @@ class input_engine_t
       registry<T> & the_registry(inp.get_registry<T>());
       failed_set_t & failures(inp.get_failed_target_set<T>());
       bool missed_any(false);
+      failures.clear();
       for (auto target : targets) {
         bool found_target(false);
         T tval = T();
@@ -451,6 +452,7 @@ class input_engine_t
         }
         missed_any = true;
         failures.insert(target);
+        the_registry.erase(target);
       } // for(target : targets)
       bool found_all = !missed_any;
       if (found_all) {
@@ -485,6 +487,7 @@ class input_engine_t
       registry<func_t> & hc_registry(inp.get_registry<func_t>());
       failed_set_t & failures(inp.get_failed_target_set<func_t>());
       bool missed_any(false);
+      failures.clear();
       for (auto target : targets) {
         bool found_target(false);
 #ifdef RISTRA_ENABLE_LUA
@@ -510,6 +513,7 @@ class input_engine_t
         }
         missed_any = true;
         failures.insert(target);
+        hc_registry.erase(target);
       } // for target in targets
       bool found_all = !missed_any;
       if (found_all) {
-- 
2.43.0


From 73f5213d9f00c85db197da252592a68d6b1df5fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:36:05 +0000
Subject: [PATCH 09/59] fix: clearing the input registry also forgets that it
 was resolved

---
 ristra/initialization/input_engine.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ristra/initialization/input_engine.h b/ristra/initialization/input_engine.h
index 410ebf2..9db995b 100644
--- a/ristra/initialization/input_engine.h
+++ b/ristra/initialization/input_engine.h
@@ -113,6 +113,8 @@ class input_engine_t
       m_reg.clear();
       m_targets.clear();
       m_failures.clear();
+      m_resolve_called = false;
+      m_all_resolved = false;
     }
 
     // singleton for each type
-- 
2.43.0


From d540ac6a281ec37e566209a78222e70664b3aa8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:37:14 +0000
Subject: [PATCH 10/59] fix: init_value_t queries agree with get(), on every
 call and for function types

---
 ristra/initialization/init_value.h | 27 ++++++++++-----------------
 1 file changed, 10 insertions(+), 17 deletions(-)

diff --git a/ristra/initialization/init_value.h b/ristra/initialization/init_value.h
index c6b95fd..17221b3 100644
--- a/ristra/initialization/init_value.h
+++ b/ristra/initialization/init_value.h
@@ -62,15 +62,13 @@ class init_value_t
     // e.g. if(m_status == status_t::valid) return ie.get_value<T>(fname); etc.
     input_engine ie;
     string_t fname(full_name());
-    if (status_t::registered == m_status) {
-      // still just at registered: check if it was resolved
-      bool resolved = ie.template resolved<T>(fname);
-      m_status = resolved ? status_t::initialized : status_t::resolve_failed;
-      if (status_t::resolve_failed == m_status) {
-        Insist(false,
-          "Failed to resolve init_value " + m_name + " in namespace " +
-            m_namespace);
-      }
+    // check if it was resolved (again: the registry may have changed)
+    bool resolved = ie.template resolved<T>(fname);
+    if (!resolved) {
+      m_status = status_t::resolve_failed;
+      Insist(false,
+        "Failed to resolve init_value " + m_name + " in namespace " +
+          m_namespace);
     }
     get_return_t t(ie.template get_value<T>(fname));
     bool valid(m_valid(t));
@@ -91,7 +89,8 @@ class init_value_t
     Require(m_status > status_t::unregistered, "");
     input_engine ie;
     bool resolved = ie.template resolved<T>(full_name());
-    if (resolved) {
+    // do not forget an earlier verdict on the value's validity
+    if (resolved && m_status < status_t::initialized) {
       m_status = status_t::initialized;
     }
     return resolved;
@@ -100,18 +99,12 @@ class init_value_t
   /**\brief Was a valid */
   bool valid() 
   {
-    if (status_t::valid == m_status) {
-      return true;
-    }
-    if (status_t::invalid == m_status) {
-      return false;
-    }
     bool reslvd = resolved();
     if (!reslvd) {
       return false;
     }
     input_engine ie;
-    T & t(ie.template get_value<T>(full_name()));
+    get_return_t t(ie.template get_value<T>(full_name()));
     bool valid = m_valid(t);
     m_status = valid ? status_t::valid : status_t::invalid;
     return valid;
-- 
2.43.0


From bde1cc0b30121dbd2bcb6b9816b6a3fd963095c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:54 +0000
Subject: [PATCH 11/59] fix: re-registering a Lua input value without Lua key
 drops the former one

---
 ristra/initialization/input_source.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ristra/initialization/input_source.h b/ristra/initialization/input_source.h
index f905a37..d3c5d28 100644
--- a/ristra/initialization/input_source.h
+++ b/ristra/initialization/input_source.h
@@ -218,6 +218,8 @@ class lua_source_t : public input_source<lua_source_t>
     m_table_map[key] = t_name;
     if (!lua_key.empty()) {
       m_lua_key[key] = lua_key;
+    } else {
+      m_lua_key.erase(key);
     }
     return will_replace;
   }
-- 
2.43.0


From 0f396929e062576c122d18953c38932f613a9704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:54 +0000
Subject: [PATCH 12/59] fix: Lua input tables are loaded by their Lua key and
 replace former ones

---
 ristra/initialization/input_source.h | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/ristra/initialization/input_source.h b/ristra/initialization/input_source.h
index d3c5d28..bd49aac 100644
--- a/ristra/initialization/input_source.h
+++ b/ristra/initialization/input_source.h
@@ -346,11 +346,18 @@ class lua_source_t : public input_source<lua_source_t>
   void load_table(str_cr_t load_name)
   {
     str_cr_t from_name = m_table_map[load_name];
+    str_cr_t l_key(
+      1 == m_lua_key.count(load_name) ? m_lua_key[load_name] : load_name);
+    // a former definition is replaced
     if ("base_state" == from_name) {
-      m_tables.emplace(load_name, lua_try_access(m_lua_state, load_name));
+      embedded::lua_result_t table = lua_try_access(m_lua_state, l_key);
+      m_tables.erase(load_name);
+      m_tables.emplace(load_name, table);
     } else {
       embedded::lua_result_t & from_state = m_tables.at(from_name);
-      m_tables.emplace(load_name, lua_try_access(from_state, load_name));
+      embedded::lua_result_t table = lua_try_access(from_state, l_key);
+      m_tables.erase(load_name);
+      m_tables.emplace(load_name, table);
     }
     // printf("%s:%i Loaded table
     // '%s'\n",__FUNCTION__,__LINE__,load_name.c_str());
-- 
2.43.0


From 8da496a9e1fbd28d331db06dda436f045e771cdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:49:09 +0000
Subject: [PATCH 13/59] fix: failed input lookups throw as documented, whatever
 the DBC action

---
 ristra/initialization/init_value.h   |  5 ++---
 ristra/initialization/input_engine.h | 12 ++++++++----
 2 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/ristra/initialization/init_value.h b/ristra/initialization/init_value.h
index 17221b3..0894f51 100644
--- a/ristra/initialization/init_value.h
+++ b/ristra/initialization/init_value.h
@@ -66,9 +66,8 @@ class init_value_t
     bool resolved = ie.template resolved<T>(fname);
     if (!resolved) {
       m_status = status_t::resolve_failed;
-      Insist(false,
-        "Failed to resolve init_value " + m_name + " in namespace " +
-          m_namespace);
+      THROW_RUNTIME_ERROR("Failed to resolve init_value " + m_name +
+        " in namespace " + m_namespace);
     }
     get_return_t t(ie.template get_value<T>(fname));
     bool valid(m_valid(t));
diff --git a/ristra/initialization/input_engine.h b/ristra/initialization/input_engine.h
index 9db995b..aa71854 100644
--- a/ristra/initialization/input_engine.h
+++ b/ristra/initialization/input_engine.h
@@ -22,6 +22,7 @@
 #include <numeric> // accumulate
 #include <set>
 #include <sstream>
+#include <stdexcept>
 #include <string>
 #include <typeinfo>
 #include "unistd.h"
@@ -219,7 +220,9 @@ class input_engine_t
    *
    * Throws exception if no Lua source registered.*/
   lua_source_t &get_lua_source() const {
-    Require( has_lua_source(),"Cannot get reference to non-existent source!");
+    if (!has_lua_source()) {
+      throw std::runtime_error("Cannot get reference to non-existent source!");
+    }
     return *m_lua_source;
   }
 
@@ -227,8 +230,9 @@ class input_engine_t
    *
    * Throws exception if no hard-coded source registered.*/
   hard_coded_source_t &get_hard_coded_source() const {
-    Require(
-      has_hard_coded_source(), "Cannot get reference to non-existent source!");
+    if (!has_hard_coded_source()) {
+      throw std::runtime_error("Cannot get reference to non-existent source!");
+    }
     return *m_hard_coded_source;
   }
 
@@ -315,7 +319,7 @@ class input_engine_t
     if(!resolved){
       string_t err = "get_instant_value: Could not resolve key '" +
         target_name + "' using type '" + typeid(T).name() + "'";
-      Insist(false,err);
+      throw std::runtime_error(err);
     }
     return get_value<T>(target_name);
   } // get_instant_value
-- 
2.43.0


From d40cec038818e09e8f329ae7bc5e4693afafe37b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:57:28 +0000
Subject: [PATCH 14/59] fix: every Lua operation leaves the stack as it found
 it, also when it fails

---
 ristra/embedded/embed_lua.h | 31 +++++++++++++++++++++++++++----
 1 file changed, 27 insertions(+), 4 deletions(-)

diff --git a/ristra/embedded/embed_lua.h b/ristra/embedded/embed_lua.h
index fc15b0b..0dc359c 100644
--- a/ristra/embedded/embed_lua.h
+++ b/ristra/embedded/embed_lua.h
@@ -485,6 +485,24 @@ public:
   }
 };
 
+////////////////////////////////////////////////////////////////////////////////
+/// \brief Restore the height of the lua stack at the end of a scope, also when
+///        it is left by an exception.
+////////////////////////////////////////////////////////////////////////////////
+class lua_stack_guard_t {
+
+  lua_State * state_;
+  int top_;
+
+public:
+
+  explicit lua_stack_guard_t(lua_State * s) : state_(s), top_(lua_gettop(s)) {}
+  ~lua_stack_guard_t() { lua_settop(state_, top_); }
+
+  lua_stack_guard_t(const lua_stack_guard_t &) = delete;
+  lua_stack_guard_t & operator=(const lua_stack_guard_t &) = delete;
+};
+
 ////////////////////////////////////////////////////////////////////////////////
 /// \brief A class to keep track of a lua reference.
 ////////////////////////////////////////////////////////////////////////////////
@@ -747,6 +765,7 @@ public:
   explicit operator T() const {
     if ( refs_.size() != 1 )
       THROW_RUNTIME_ERROR( "Expecting 1 result, stack has " << refs_.size() );
+    lua_stack_guard_t guard(state());
     push_last();
     return lua_value<T>::get(state());
   }
@@ -762,6 +781,7 @@ public:
       THROW_RUNTIME_ERROR( 
         "Expecting "<<N<<" results, stack has " << refs_.size() 
       );
+    lua_stack_guard_t guard(state());
     push_all();
     Tup tup;
     get_results<Tup,0,Args...>(tup);
@@ -802,6 +822,7 @@ public:
     // get the current stack position ( the function and arguments will get
     // deleted from the stack after the function call )
     auto pos0 = lua_gettop(s);
+    lua_stack_guard_t guard(s);
     // push the function onto the stack
     check_stack(1);
     push_last();
@@ -849,6 +870,7 @@ public:
     auto s = state();
     auto new_name = name_+".[\""+key+"\"]";
     // push the table onto the stack
+    lua_stack_guard_t guard(s);
     push_last();
     // make sure we are accessing a table
     check_table(name_);
@@ -859,9 +881,8 @@ public:
     lua_rawget(s, -2);
     // get the size of the object
     auto len = lua_rawlen(s, -1);
-    // get a reference to the result, and pop the table from the stack
+    // get a reference to the result (the guard pops the table)
     auto ref = make_lua_ref(state_);
-    lua_pop(s, -1);
     // return the global object with a pointer to a location in the stack
     return { state_, new_name, std::move(ref), len };
   }
@@ -875,6 +896,7 @@ public:
     auto s = state();
     auto new_name = name_+"["+std::to_string(n)+"]";
     // push the table onto the stack
+    lua_stack_guard_t guard(s);
     push_last();
     // make sure we are accessing a table
     check_table(name_);
@@ -882,9 +904,8 @@ public:
     lua_rawgeti(s, -1, n);
     // get the size of the object
     auto len = lua_rawlen(s, -1);
-    // get a reference to the result, and pop the table from the stack
+    // get a reference to the result (the guard pops the table)
     auto ref = make_lua_ref(state_);
-    lua_pop(s, -1);
     // return the global object with a pointer to a location in the stack
     return { state_, new_name, std::move(ref), len };
   }
@@ -979,6 +1000,7 @@ public:
   /// \return The lua error code.
   bool run_string( const std::string & script )
   {
+    lua_stack_guard_t guard(state());
     auto ret = luaL_dostring(state(),script.c_str());
     if ( ret ) {
       print_last_row();
@@ -991,6 +1013,7 @@ public:
   /// \param [in] file  The file to load.
   void loadfile( const std::string & file )
   {
+    lua_stack_guard_t guard(state());
     auto ret = luaL_dofile(state(),file.c_str());
     if ( ret ) {
       print_last_row();
-- 
2.43.0


From e1fac9c8c6364470a8d8e37d46a9278e27ee8d18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:57:28 +0000
Subject: [PATCH 15/59] fix: Lua strings keep embedded zeros

---
 ristra/embedded/embed_lua.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ristra/embedded/embed_lua.h b/ristra/embedded/embed_lua.h
index 0dc359c..4b1fe3b 100644
--- a/ristra/embedded/embed_lua.h
+++ b/ristra/embedded/embed_lua.h
@@ -154,7 +154,9 @@ struct lua_value<std::string>
      THROW_RUNTIME_ERROR( "Invalid conversion of type \"" <<
       lua_typename(s, lua_type(s, index)) << "\" to string."
     );
-    auto str = lua_tostring(s, index);
+    std::size_t len = 0;
+    auto data = lua_tolstring(s, index, &len);
+    std::string str(data, len);
     lua_remove(s, index);
     return str;
   }
-- 
2.43.0


From 8a044fdc77c195717c6814e8e0e6de51ac044420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:57:28 +0000
Subject: [PATCH 16/59] fix: Lua numbers that do not fit the requested integer
 type are errors

---
 ristra/embedded/embed_lua.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/ristra/embedded/embed_lua.h b/ristra/embedded/embed_lua.h
index 4b1fe3b..ad6bedd 100644
--- a/ristra/embedded/embed_lua.h
+++ b/ristra/embedded/embed_lua.h
@@ -90,9 +90,14 @@ struct lua_value< T, std::enable_if_t< std::is_integral<T>::value > >
      THROW_RUNTIME_ERROR( "Invalid conversion of type \"" <<
       lua_typename(s, lua_type(s, index)) << "\" to int."
     );
-    auto i = lua_tointeger(s, index);
+    int is_integer = 0;
+    auto i = lua_tointegerx(s, index, &is_integer);
+    if ( !is_integer || static_cast<lua_Integer>(static_cast<T>(i)) != i )
+     THROW_RUNTIME_ERROR( "Number \"" << lua_tonumber(s, index) <<
+      "\" is not representable in the requested integer type."
+    );
     lua_remove(s,index);
-    return i;
+    return static_cast<T>(i);
   }
 };
 
-- 
2.43.0


From 921061045e17c1b0edb8be8c81fe84da4505cd6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:57:28 +0000
Subject: [PATCH 17/59] fix: rows of a Lua matrix must be tables of the right
 length

---
 ristra/embedded/embed_lua.h | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/ristra/embedded/embed_lua.h b/ristra/embedded/embed_lua.h
index ad6bedd..3dbbdb9 100644
--- a/ristra/embedded/embed_lua.h
+++ b/ristra/embedded/embed_lua.h
@@ -279,6 +279,15 @@ struct lua_value< Matrix<T,M,N> >
     Matrix<T,M,N> res;
     for ( int i=1; i<=M; ++i ) {
       lua_rawgeti(s, -1, i);  // push t[i]
+      if ( !lua_istable(s, -1) )
+       THROW_RUNTIME_ERROR( "Invalid conversion of type \"" <<
+        lua_typename(s, lua_type(s, -1)) << "\" to multiarray row."
+      );
+      if ( lua_rawlen(s, -1) != N )
+        THROW_RUNTIME_ERROR(
+          "Expecting row of size "<<N<<", stack array is size " <<
+          lua_rawlen(s, -1)
+        );
       for (int j=1; j<=N; ++j) {
         lua_rawgeti(s, -1, j); // push t[j]
         res(i-1,j-1) = lua_value<T>::get(s);
-- 
2.43.0


From f63ee0bc7176beef734930ba40ea88f7805d640c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:57:28 +0000
Subject: [PATCH 18/59] fix: Lua_Func_Wrapper refers to its own copy of the
 function

---
 ristra/embedded/embed_lua.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ristra/embedded/embed_lua.h b/ristra/embedded/embed_lua.h
index 3dbbdb9..4a05b00 100644
--- a/ristra/embedded/embed_lua.h
+++ b/ristra/embedded/embed_lua.h
@@ -979,7 +979,7 @@ struct Lua_Func_Wrapper<std::function<Ret(Args...)>> {
 
   /**\brief Construct from reference to lua_result_t */
   explicit Lua_Func_Wrapper(lua_result_t & lf)
-    : plua_func_(std::make_shared<lua_result_t>(lf)), lua_func_(lf)
+    : plua_func_(std::make_shared<lua_result_t>(lf)), lua_func_(*plua_func_)
   {
   }
 
-- 
2.43.0


From b1a462ce4339bc867c1863010ae0789a5c6e5a1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:57:28 +0000
Subject: [PATCH 19/59] fix: using the result of a Lua function that returned
 nothing is an error

---
 ristra/embedded/embed_lua.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ristra/embedded/embed_lua.h b/ristra/embedded/embed_lua.h
index 4a05b00..cce7f92 100644
--- a/ristra/embedded/embed_lua.h
+++ b/ristra/embedded/embed_lua.h
@@ -709,6 +709,8 @@ class lua_result_t : public lua_base_t {
   /// \remark The stack references are collected in reverse order.
   void push_last() const
   {
+    if ( refs_.empty() )
+      THROW_RUNTIME_ERROR("\"" << name_ << "\" has no value.");
     check_stack(1);
     refs_.back().push();
   }
-- 
2.43.0


From 3a9d598d5d14a3e4eb4c2c455b42e64c8594c9c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:27:26 +0000
Subject: [PATCH 20/59] fix: zip checks the sizes of all its containers

The first container was never compared, and zipping a single container read
past the end of the list of sizes.
---
 ristra/utils/zip.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ristra/utils/zip.h b/ristra/utils/zip.h
index 0731ff3..6b9a62c 100644
--- a/ristra/utils/zip.h
+++ b/ristra/utils/zip.h
@@ -76,9 +76,9 @@ decltype(auto) zip(T&&... containers)
 
   // check all the sizes
   size_t sizes[] = { containers.size()... };
-  auto first_size = sizes[1];
+  auto first_size = sizes[0];
 #ifndef NDEBUG
-  for ( int i=2; i<n; i++ )
+  for ( int i=1; i<n; i++ )
     assert( first_size == sizes[i] && " size mismatch" ); 
 #endif
 
@@ -131,8 +131,8 @@ decltype(auto) zip(Types&&... args)
 
   // check all the sizes
   size_t sizes[] = { args.size()... };
-  auto first_size = sizes[1];
-  for ( int i=2; i<n; i++ )
+  auto first_size = sizes[0];
+  for ( int i=1; i<n; i++ )
     assert( first_size == sizes[i] && " size mismatch" ); 
 
   return zipper<special_decay_t<Types>...>(std::forward<Types>(args)...);
-- 
2.43.0


From 337dfec5be4045bb6753193f90056ef70a3a2d6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:27:26 +0000
Subject: [PATCH 21/59] fix: split uses the given delimiters only

Strings were also split at every white space character, whatever the
delimiters, and a delimiter with negative char value wrote outside the
character table.
---
 ristra/utils/string_utils.h | 36 ++++++++----------------------------
 1 file changed, 8 insertions(+), 28 deletions(-)

diff --git a/ristra/utils/string_utils.h b/ristra/utils/string_utils.h
index 9ea2e6f..4eb9d4c 100644
--- a/ristra/utils/string_utils.h
+++ b/ristra/utils/string_utils.h
@@ -148,34 +148,14 @@ std::vector<std::string> split(
   std::vector<char> delim = {' '}
 ) {
 
-  if (str.empty()) return {};
-
-  struct tokens_t : std::ctype<char>
-  {
-    using ctype_base = std::ctype_base;
-    using cctype = std::ctype<char>;
-    using ccmask = cctype::mask;
-    
-    tokens_t(const std::vector<char> & delims) 
-      : cctype(get_table(delims)) {}
-
-    static ctype_base::mask const * get_table(
-      const std::vector<char> & delims
-    ) {
-      static const ccmask * const_rc = cctype::classic_table();
-      static ccmask rc[cctype::table_size];
-      std::memcpy(rc, const_rc, cctype::table_size*sizeof(ccmask));
-      for (const auto & d : delims) 
-        rc[d] = ctype_base::space;
-      return &rc[0];
-    }
-  };
-
-  std::stringstream ss(str);
-  ss.imbue(std::locale(std::locale(), new tokens_t(delim)));
-  std::istream_iterator<std::string> begin(ss);
-  std::istream_iterator<std::string> end;
-  std::vector<std::string> vstrings(begin, end);
+  const std::string delims( delim.begin(), delim.end() );
+  std::vector<std::string> vstrings;
+  auto begin = str.find_first_not_of( delims );
+  while ( begin != std::string::npos ) {
+    auto end = str.find_first_of( delims, begin );
+    vstrings.emplace_back( str, begin, end - begin );
+    begin = str.find_first_not_of( delims, end );
+  }
   return vstrings;
 }
 
-- 
2.43.0


From d785d1d1c68d0cdedb54b09f53abe6ca2837505a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:27:26 +0000
Subject: [PATCH 22/59] fix: dots in directory names do not start a file
 extension

remove_extension and split_extension cut paths like "run.1/mesh" in the
directory, in disagreement with file_extension.
---
 ristra/utils/string_utils.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/ristra/utils/string_utils.h b/ristra/utils/string_utils.h
index 4eb9d4c..d9cb13c 100644
--- a/ristra/utils/string_utils.h
+++ b/ristra/utils/string_utils.h
@@ -115,9 +115,9 @@ std::string file_extension(const std::string & str)
 ////////////////////////////////////////////////////////////////////////////////
 inline
 std::string remove_extension(const std::string & str) {
-    auto lastdot = str.find_last_of(".");
+    auto lastdot = basename(str).find_last_of(".");
     if (lastdot == std::string::npos) return str;
-    return str.substr(0, lastdot); 
+    return str.substr(0, str.length() - basename(str).length() + lastdot); 
 }
 
 ////////////////////////////////////////////////////////////////////////////////
@@ -128,11 +128,11 @@ std::string remove_extension(const std::string & str) {
 inline
 std::pair<std::string, std::string>
 split_extension(const std::string & str) {
-  auto lastdot = str.find_last_of(".");
+  auto lastdot = basename(str).find_last_of(".");
   if (lastdot == std::string::npos)
     return std::make_pair( str, "");
-  else
-    return std::make_pair( str.substr(0, lastdot), str.substr(lastdot+1) ); 
+  lastdot += str.length() - basename(str).length();
+  return std::make_pair( str.substr(0, lastdot), str.substr(lastdot+1) ); 
 }
 
 
-- 
2.43.0


From 392c7ff959e095714546e5be9cce4c150db28935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:27:26 +0000
Subject: [PATCH 23/59] fix: replace_all of an empty pattern terminates

---
 ristra/utils/string_utils.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ristra/utils/string_utils.h b/ristra/utils/string_utils.h
index d9cb13c..20427c0 100644
--- a/ristra/utils/string_utils.h
+++ b/ristra/utils/string_utils.h
@@ -33,6 +33,7 @@ namespace utils {
 ////////////////////////////////////////////////////////////////////////////////
 inline
 auto replace_all(std::string str, const std::string & from, const std::string & to) {
+  if ( from.empty() ) return str;
   size_t start_pos = 0;
   while((start_pos = str.find(from, start_pos)) != std::string::npos) {
     str.replace(start_pos, from.length(), to);
-- 
2.43.0


From 4da542cba9e4ded1ce6dda7cb47da2992b350fb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:27:37 +0000
Subject: [PATCH 24/59] fix: filter_iterator dereferences and visits the
 elements that satisfy its predicate

It returned the iterator itself, did not skip to the first matching element
and never moved past an element that matched.
---
 ristra/utils/filter_iterator.h | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/ristra/utils/filter_iterator.h b/ristra/utils/filter_iterator.h
index 984e5ce..94145bd 100644
--- a/ristra/utils/filter_iterator.h
+++ b/ristra/utils/filter_iterator.h
@@ -8,7 +8,11 @@
 ////////////////////////////////////////////////////////////////////////////////    
 #pragma once
 
-// user includes
+// system includes
+#include <cstddef>
+#include <iterator>
+#include <type_traits>
+#include <utility>
 
 namespace ristra {
 namespace utils {
@@ -52,7 +56,7 @@ public:
   //!        no default constructor either
   constexpr filter_iterator( 
     Predicate pred, Iterator first, Iterator last = Iterator() ) noexcept
-    : pred_( pred ), iter_(first), end_(last) {}
+    : pred_( pred ), iter_(first), end_(last) { satisfy(); }
 
   template<
     class OtherIterator,
@@ -61,7 +65,7 @@ public:
   >
   filter_iterator( 
     filter_iterator<Predicate, OtherIterator> const& other ) noexcept
-    : pred_( other.predicate() ), iter_( *other ), end_( end() )
+    : pred_( other.predicate() ), iter_( other.begin() ), end_( other.end() )
   {}
 
   //! \brief default copy constructor
@@ -98,18 +102,16 @@ public:
   //============================================================================
   
   //! \brief return the current value
-  constexpr reference operator*() const noexcept { return iter_; }
+  constexpr reference operator*() const noexcept { return *iter_; }
 
   //! \brief return a pointer to the current value
-  constexpr pointer operator->() const noexcept { return &iter_; }
+  constexpr pointer operator->() const noexcept { return &*iter_; }
 
   //! \brief prefix increment opeator
   constexpr filter_iterator& operator++() noexcept
   {
-    for (; iter_ != end_ ; ++iter_) {
-      if ( pred_(*iter_) )
-        return *this;
-    }
+    ++iter_;
+    satisfy();
     return *this;
   }
 
@@ -153,6 +155,12 @@ public:
 
 private:
 
+  //! \brief move on to the next element that satisfies the predicate
+  constexpr void satisfy() noexcept
+  {
+    while ( iter_ != end_ && !pred_(*iter_) ) ++iter_;
+  }
+
   //============================================================================
   /// \name private data
   //============================================================================
-- 
2.43.0


From 4fad803bbec8eb9dd7d0674cf69cac5694af551b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:05 +0000
Subject: [PATCH 25/59] fix: bounds iterators are random access for every rank

Advancing by more than one did not compile for ranks above one and did
not reach end(), < compared the indices in no order at all, and the
iterators could not be assigned.
---
 ristra/utils/array_view.h | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/ristra/utils/array_view.h b/ristra/utils/array_view.h
index d56c5b3..555a5c0 100644
--- a/ristra/utils/array_view.h
+++ b/ristra/utils/array_view.h
@@ -1433,11 +1433,16 @@ public:
   constexpr bounds_iterator& operator+=(difference_type n) noexcept
   {
     auto linear_idx = linearize(current_) + n;
-    std::remove_const_t<value_type> stride = 0;
+    std::remove_const_t<value_type> stride;
     stride[rank - 1] = 1;
     for (int i = rank - 1; i-- > 0;) {
       stride[i] = stride[i + 1] * bounds_[i + 1];
     }
+    // one past the last index is the end
+    if ( linear_idx == linearize(bounds_) ) {
+      current_ = bounds_;
+      return *this;
+    }
     for (int i = 0; i < rank; ++i) {
       current_[i] = linear_idx / stride[i];
       linear_idx = linear_idx % stride[i];
@@ -1492,7 +1497,7 @@ public:
   //! \brief test less-than
   //! \param [in] rhs the object on the right hand side of the operator
   constexpr bool operator<(const bounds_iterator& rhs) const noexcept
-  { return (current_ < rhs.current_); }
+  { return linearize(current_) < linearize(rhs.current_); }
 
   //! \brief test <=
   //! \param [in] rhs the object on the right hand side of the operator
@@ -1558,7 +1563,7 @@ private:
   /// @{
 
   //! \brief storage for the bounds
-  value_type bounds_;
+  std::remove_const_t<value_type> bounds_;
   //! \brief storage for the current index
   std::remove_const_t<value_type> current_;
 
-- 
2.43.0


From 8e5f7b86398b95b254f146827cb9c4df9c21b2fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:05 +0000
Subject: [PATCH 26/59] fix: iterating empty bounds visits nothing

---
 ristra/utils/array_view.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/ristra/utils/array_view.h b/ristra/utils/array_view.h
index 555a5c0..5d7b7e4 100644
--- a/ristra/utils/array_view.h
+++ b/ristra/utils/array_view.h
@@ -691,6 +691,7 @@ public:
   //! \brief the total volume of the contiguous chunk
   constexpr auto total_size() const noexcept
   { 
+    if ( size() == 0 ) return size_type(0);
     size_type ret = 1;
     for (int i = 0; i < rank; ++i) 
       ret += (bounds_[i] - 1) * strides_[i];
@@ -738,7 +739,7 @@ public:
   //! \brief return the begining iterator {0} 
   //! \return an iterator to the first index
   constexpr auto begin() const noexcept 
-  { return const_iterator( *this, index_type{} ); };
+  { return const_iterator( *this, size() > 0 ? index_type{} : index_type(as_index()) ); };
 
   //! \brief return the end iterator which is just past the bounds
   //! \return an iterator past the bounds
@@ -995,7 +996,7 @@ public:
   //! \brief return the begining iterator {0} 
   //! \return an iterator to the first index
   constexpr auto begin() const noexcept 
-  { return const_iterator( *this, index_type{} ); };
+  { return const_iterator( *this, size() > 0 ? index_type{} : index_type(as_index()) ); };
 
   //! \brief return the end iterator which is just past the bounds
   //! \return an iterator past the bounds
@@ -1221,7 +1222,7 @@ public:
   //! \brief return the begining iterator {0} 
   //! \return an iterator to the first index
   constexpr auto begin() const noexcept 
-  { return const_iterator( *this, index_type{} ); };
+  { return const_iterator( *this, size() > 0 ? index_type{} : index_type(as_index()) ); };
 
   //! \brief return the end iterator which is just past the bounds
   //! \return an iterator past the bounds
-- 
2.43.0


From 634e69db889bcb1614264871513fc7c4a3c2283f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:05 +0000
Subject: [PATCH 27/59] fix: strides of contiguous bounds made from an array

---
 ristra/utils/array_view.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ristra/utils/array_view.h b/ristra/utils/array_view.h
index 5d7b7e4..6fc7430 100644
--- a/ristra/utils/array_view.h
+++ b/ristra/utils/array_view.h
@@ -1041,7 +1041,7 @@ protected:
   constexpr contiguous_bounds( 
     ArrayType &, std::index_sequence<I...> ) noexcept : 
     bounds_( std::extent<ArrayType, I>::value... ),
-    strides_( std::extent<ArrayType, I>::value... )
+    strides_( detail::make_strides<index_type>{}( std::extent<ArrayType, I>::value... ) )
   { };  
 
   /// @}
-- 
2.43.0


From 5055d5520d7a210961dd073dc125a5cdfed48767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:05 +0000
Subject: [PATCH 28/59] fix: at() of the array views throws instead of
 terminating

---
 ristra/utils/array_view.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ristra/utils/array_view.h b/ristra/utils/array_view.h
index 6fc7430..faedbe5 100644
--- a/ristra/utils/array_view.h
+++ b/ristra/utils/array_view.h
@@ -2277,7 +2277,7 @@ public:
   //! \remark this version has bounds checking
   //! \param [in] idx the index
   //! \return a reference to the indexed location
-  constexpr reference at(const index_type &idx) const noexcept 
+  constexpr reference at(const index_type &idx) const 
   {
     // This makes at() constexpr as long as the argument is within the
     // bounds of the strided_array_view.    
@@ -2786,7 +2786,7 @@ public:
   //! \remark this version has bounds checking
   //! \param [in] idx the index
   //! \return a reference to the indexed location
-  constexpr reference at(const index_type &idx) const noexcept 
+  constexpr reference at(const index_type &idx) const 
   {
     // This makes at() constexpr as long as the argument is within the
     // bounds of the array_view.    
@@ -3295,7 +3295,7 @@ public:
   //! \remark this version has bounds checking
   //! \param [in] idx the index
   //! \return a reference to the indexed location
-  constexpr reference at(const index_type &idx) const noexcept 
+  constexpr reference at(const index_type &idx) const 
   {
     // This makes at() constexpr as long as the argument is within the
     // bounds of the array_view.    
-- 
2.43.0


From b4c1dae00aebed1f5868a8e220517082e4d71f87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:05 +0000
Subject: [PATCH 29/59] fix: empty() of the array views is true for empty views
 only

---
 ristra/utils/array_view.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ristra/utils/array_view.h b/ristra/utils/array_view.h
index faedbe5..df9a599 100644
--- a/ristra/utils/array_view.h
+++ b/ristra/utils/array_view.h
@@ -2224,7 +2224,7 @@ public:
   constexpr size_type size() const { return bounds().size(); }
 
   //! \brief return true if empty
-  constexpr bool empty() const { return data_ != nullptr; }
+  constexpr bool empty() const { return data_ == nullptr || size() == 0; }
 
   //! \brief return the bounds of the array
   constexpr const auto & bounds() const noexcept
@@ -2734,7 +2734,7 @@ public:
   constexpr size_type size() const { return bounds().size(); }
 
   //! \brief return true if empty
-  constexpr bool empty() const { return data_ != nullptr; }
+  constexpr bool empty() const { return data_ == nullptr || size() == 0; }
 
   //! \brief return the bounds of the array
   constexpr const auto & bounds() const noexcept
@@ -3242,7 +3242,7 @@ public:
   constexpr size_type size() const { return bounds().size(); }
 
   //! \brief return true if empty
-  constexpr bool empty() const { return data_ != nullptr; }
+  constexpr bool empty() const { return data_ == nullptr || size() == 0; }
 
   //! \brief return the bounds of the array
   constexpr const auto & bounds() const noexcept
-- 
2.43.0


From 8d65843a423695ddfaafc53ac609fa2913ef2ae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:05 +0000
Subject: [PATCH 30/59] fix: strided views of the same data compare by their
 elements

---
 ristra/utils/array_view.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ristra/utils/array_view.h b/ristra/utils/array_view.h
index df9a599..b910c21 100644
--- a/ristra/utils/array_view.h
+++ b/ristra/utils/array_view.h
@@ -2427,7 +2427,7 @@ public:
   constexpr bool operator==(const strided_array_view<OtherValueType, OtherRank>& other) const noexcept
   {
     return bounds_.size() == other.bounds_.size() &&
-      (data_ == other.data_ || std::equal(this->begin(), this->end(), other.begin()));
+      std::equal(this->begin(), this->end(), other.begin());
   }
 
   template <
-- 
2.43.0


From 1fa35eb7cf2f1ea36032e3c8cabdd9c94221b4f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:05 +0000
Subject: [PATCH 31/59] fix: slices, sections and constant iteration of static
 array views compile

---
 ristra/utils/array_view.h | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/ristra/utils/array_view.h b/ristra/utils/array_view.h
index b910c21..c4dd4fe 100644
--- a/ristra/utils/array_view.h
+++ b/ristra/utils/array_view.h
@@ -3110,7 +3110,7 @@ public:
   using reference = std::add_lvalue_reference_t<value_type>;
 
   //! \brief a constant version of the same view
-  using const_static_array_view = static_array_view<const_value_type, Rank>;
+  using const_static_array_view = static_array_view<const_value_type, FirstDim, RestDims...>;
 
   //! \brief a strided version of the same view
   using strided_view = strided_array_view<value_type, Rank>;
@@ -3125,7 +3125,7 @@ public:
 
 
   //! a sliced type
-  using sliced_type = slice_chooser< (Rank == 1),  value_type, RestDims... >;
+  using sliced_type = typename slice_chooser< (Rank == 1),  value_type, RestDims... >::type;
 
   /// @}
         
@@ -3182,6 +3182,7 @@ public:
   operator=(const static_array_view<ViewValueType, FirstDim, RestDims...>& rhs) noexcept
   {
     data_ = rhs.data();
+    return *this;
   }
 
   //! \brief single parameter container
@@ -3249,10 +3250,10 @@ public:
   { return bounds_; }
 
   //! \brief return the stride of the array
-  constexpr const auto & strides() const noexcept
+  constexpr auto strides() const noexcept
   { return bounds_.strides(); }
  
-  constexpr const auto & stride() const noexcept
+  constexpr auto stride() const noexcept
   { return bounds_.stride(); }
 
 
@@ -3328,14 +3329,18 @@ public:
   constexpr Ret operator[]( size_type idx ) const noexcept
   { 
     const auto ridx = idx * bounds_.stride();
-    return { bounds_.slice(), data_+ridx };
+    return { data_+ridx };
   }
 
   //! \brief slice an array, i.e. fix the most significant dimension
   //! \remark this version has bounds checking
   //! \param [in] slice the index
   //! \return a reference to the indexed location
-  constexpr auto slice( size_type idx ) const noexcept
+  template< 
+    bool Enabled = (Rank > 1), 
+    typename Ret = std::enable_if_t<Enabled, sliced_type> 
+  >
+  constexpr Ret slice( size_type idx ) const
   { 
     // This makes at() constexpr as long as the argument is within the
     // bounds of the array_view.    
@@ -3357,7 +3362,7 @@ public:
   { 
     assert( bounds().contains(origin) );
     auto bnds = bounds_.as_index() - origin;
-    return strided_view( bnds, bounds_.strides(), &this->operator[](origin) );
+    return strided_view( &this->operator[](origin), bnds, bounds_.strides() );
   }
 
   constexpr strided_view section( 
@@ -3366,21 +3371,21 @@ public:
   { 
     assert( bounds_.contains(origin) );
     assert( origin + bnds <= bounds_.as_index() );    
-    return strided_view( bnds, bounds_.strides(), &this->operator[](origin) );
+    return strided_view( &this->operator[](origin), bnds, bounds_.strides() );
   }
 
   //! \brief conversion operator
   //! \return a strided version of the same view
   explicit operator strided_view() const 
   {
-    return strided_view( bounds_.as_index(), bounds_.strides(), data() );
+    return strided_view( data(), bounds_.as_index(), bounds_.strides() );
   }
 
   //! \brief conversion operator
   //! \return a strided version of the same view
   explicit operator dynamic_view() const 
   {
-    return dynamic_view( bounds_.as_index(), data() );
+    return dynamic_view( data(), typename dynamic_view::bounds_type( bounds_.as_index() ) );
   }
   
   /// @}
-- 
2.43.0


From 06161908bb1434fb53a9a4846d08b1021f882c79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:41:12 +0000
Subject: [PATCH 32/59] fix: contiguous views convert to strided ones, as
 section() needs

---
 ristra/utils/array_view.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ristra/utils/array_view.h b/ristra/utils/array_view.h
index c4dd4fe..6d08011 100644
--- a/ristra/utils/array_view.h
+++ b/ristra/utils/array_view.h
@@ -2086,7 +2086,7 @@ public:
   //! \param [in] rhs  the array_vew to set the new view to
   template<
     typename ViewValueType, 
-    int ViewRank,
+    std::ptrdiff_t ViewRank,
     bool Enabled1 = std::is_convertible< std::add_pointer_t<ViewValueType>, pointer>::value,
     bool Enabled2 = (ViewRank == Rank),
     std::enable_if_t< Enabled1 && Enabled2 >* = nullptr
-- 
2.43.0


From c1df237e9489f0b49fdff48bb75fbfd618c30388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:47:23 +0000
Subject: [PATCH 33/59] fix: dividing an array by a scalar divides its elements

Multiplying with the reciprocal gave zero for arrays of integers.
---
 ristra/math/array.h       | 6 ++----
 ristra/math/multi_array.h | 6 ++----
 2 files changed, 4 insertions(+), 8 deletions(-)

diff --git a/ristra/math/array.h b/ristra/math/array.h
index 55277ef..850603a 100644
--- a/ristra/math/array.h
+++ b/ristra/math/array.h
@@ -422,9 +422,8 @@ public:
   //! \return A reference to the current object.
   template <typename T2>
   auto & operator/=(const T2 & val) {
-    auto inv = static_cast<T>(1) / val;
     for ( counter_type i=0; i<length_as_counter; i++ )
-      elems_[i] *= inv;
+      elems_[i] /= val;
     return *this;
   }
 
@@ -687,11 +686,10 @@ operator/( const array<T,N>& lhs,
            const U& rhs )
 {
   array<T,N> tmp;
-  auto inv = static_cast<T>(1) / rhs;
   using counter_type = typename array<T,N>::counter_type;
   constexpr auto len = static_cast<counter_type>(N);
   for ( counter_type i=0; i<len; i++ )
-    tmp[i] = lhs[i] * inv;
+    tmp[i] = lhs[i] / rhs;
   return tmp;
 }
 
diff --git a/ristra/math/multi_array.h b/ristra/math/multi_array.h
index b75828d..a885ad8 100644
--- a/ristra/math/multi_array.h
+++ b/ristra/math/multi_array.h
@@ -532,8 +532,7 @@ public:
   //! \return A reference to the current object.
   template <typename T2>
   auto & operator/=(const T2 & val) {
-    auto inv = static_cast<T>(1) / val;
-    for ( counter_type i=0; i<elements; i++ ) elems_[i] *= inv;
+    for ( counter_type i=0; i<elements; i++ ) elems_[i] /= val;
     return *this;
   }
 
@@ -875,10 +874,9 @@ operator/( const multi_array<T,N...>& lhs,
            const U& rhs )
 {
   multi_array<T,N...> tmp;
-  auto inv = static_cast<T>(1) / rhs;
   using counter_type = typename multi_array<T,N...>::counter_type;
   for ( counter_type i=0; i<multi_array<T,N...>::elements; i++ ) 
-    tmp[i] = lhs[i] * inv;    
+    tmp[i] = lhs[i] / rhs;    
   return tmp;
 }
 
-- 
2.43.0


From e3cb34166950b21938e1b6639af496247f5628c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:47:23 +0000
Subject: [PATCH 34/59] fix: scaling an array by one of its own elements uses
 one value throughout

---
 ristra/math/array.h       | 8 ++++----
 ristra/math/multi_array.h | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/ristra/math/array.h b/ristra/math/array.h
index 850603a..b6bdefc 100644
--- a/ristra/math/array.h
+++ b/ristra/math/array.h
@@ -360,7 +360,7 @@ public:
   //! \param[in] val The constant on the right hand side of the operator.
   //! \return A reference to the current object.
   template <typename T2>
-  auto & operator+=(const T2 & val) {
+  auto & operator+=(const T2 val) {
     for ( counter_type i=0; i<length_as_counter; i++ )
       elems_[i] += val;    
     return *this;
@@ -380,7 +380,7 @@ public:
   //! \param[in] val The constant on the right hand side of the operator.
   //! \return A reference to the current object.
   template <typename T2>
-  auto & operator-=(const T2 & val) {
+  auto & operator-=(const T2 val) {
     for ( counter_type i=0; i<length_as_counter; i++ )
       elems_[i] -= val;    
     return *this;
@@ -401,7 +401,7 @@ public:
   //! \param[in] val The constant on the right hand side of the operator.
   //! \return A reference to the current object.
   template <typename T2>
-  auto & operator*=(const T2 & val) {
+  auto & operator*=(const T2 val) {
     for ( counter_type i=0; i<length_as_counter; i++ )
       elems_[i] *= val;    
     return *this;
@@ -421,7 +421,7 @@ public:
   //! \param[in] val The constant on the right hand side of the operator.
   //! \return A reference to the current object.
   template <typename T2>
-  auto & operator/=(const T2 & val) {
+  auto & operator/=(const T2 val) {
     for ( counter_type i=0; i<length_as_counter; i++ )
       elems_[i] /= val;
     return *this;
diff --git a/ristra/math/multi_array.h b/ristra/math/multi_array.h
index a885ad8..befb2d5 100644
--- a/ristra/math/multi_array.h
+++ b/ristra/math/multi_array.h
@@ -476,7 +476,7 @@ public:
   //! \param[in] val The constant on the right hand side of the operator.
   //! \return A reference to the current object.
   template <typename T2>
-  auto & operator+=(const T2 & val) {
+  auto & operator+=(const T2 val) {
     for ( counter_type i=0; i<elements; i++ ) elems_[i] += val;    
     return *this;
   }
@@ -494,7 +494,7 @@ public:
   //! \param[in] val The constant on the right hand side of the operator.
   //! \return A reference to the current object.
   template <typename T2>
-  auto & operator-=(const T2 & val) {
+  auto & operator-=(const T2 val) {
     for ( counter_type i=0; i<elements; i++ ) elems_[i] -= val;    
     return *this;
   }
@@ -513,7 +513,7 @@ public:
   //! \param[in] val The constant on the right hand side of the operator.
   //! \return A reference to the current object.
   template <typename T2>
-  auto & operator*=(const T2 & val) {
+  auto & operator*=(const T2 val) {
     for ( counter_type i=0; i<elements; i++ ) elems_[i] *= val;    
     return *this;
   }
@@ -531,7 +531,7 @@ public:
   //! \param[in] val The constant on the right hand side of the operator.
   //! \return A reference to the current object.
   template <typename T2>
-  auto & operator/=(const T2 & val) {
+  auto & operator/=(const T2 val) {
     for ( counter_type i=0; i<elements; i++ ) elems_[i] /= val;
     return *this;
   }
-- 
2.43.0


From a8b32734e09e0faa5b8af85c28c2c4185f5b0330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:47:23 +0000
Subject: [PATCH 35/59] fix: arrays of different element types combine, as the
 operators intend

---
 ristra/math/array.h       | 12 ++++++------
 ristra/math/multi_array.h | 11 +++++------
 2 files changed, 11 insertions(+), 12 deletions(-)

diff --git a/ristra/math/array.h b/ristra/math/array.h
index b6bdefc..f56cd50 100644
--- a/ristra/math/array.h
+++ b/ristra/math/array.h
@@ -99,7 +99,7 @@ public:
   constexpr array(const array<T2,N> &rhs) noexcept
   {
     for ( counter_type i=0; i<length_as_counter; i++ )
-      elems_[i] = rhs.elems_[i]; 
+      elems_[i] = rhs[i]; 
   }
 
   //! \brief Constructor with variadic arguments.
@@ -332,7 +332,7 @@ public:
   template <typename T2>
   auto & operator= (const array<T2,N>& rhs) {
     for ( counter_type i=0; i<length_as_counter; i++ )
-      elems_[i] = rhs.elems_[i];    
+      elems_[i] = rhs[i];    
     return *this;
   }
 
@@ -352,7 +352,7 @@ public:
   template <typename T2>
   auto & operator+=(const array<T2,N> & rhs) {
     for ( counter_type i=0; i<length_as_counter; i++ )
-      elems_[i] += rhs.elems_[i];    
+      elems_[i] += rhs[i];    
     return *this;
   }
 
@@ -372,7 +372,7 @@ public:
   template <typename T2>
   auto & operator-=(const array<T2,N> & rhs) {
     for ( counter_type i=0; i<length_as_counter; i++ )
-      elems_[i] -= rhs.elems_[i];    
+      elems_[i] -= rhs[i];    
     return *this;
   }
 
@@ -393,7 +393,7 @@ public:
   template <typename T2> 
   auto & operator*=(const array<T2,N> & rhs) {
     for ( counter_type i=0; i<length_as_counter; i++ )
-      elems_[i] *= rhs.elems_[i];    
+      elems_[i] *= rhs[i];    
     return *this;
   }
 
@@ -413,7 +413,7 @@ public:
   template <typename T2>
   auto & operator/=(const array<T2,N> & rhs) {
     for ( counter_type i=0; i<length_as_counter; i++ )
-      elems_[i] /= rhs.elems_[i];    
+      elems_[i] /= rhs[i];    
     return *this;
   }
 
diff --git a/ristra/math/multi_array.h b/ristra/math/multi_array.h
index befb2d5..869828c 100644
--- a/ristra/math/multi_array.h
+++ b/ristra/math/multi_array.h
@@ -449,8 +449,7 @@ public:
   //!\brief  assignment with type conversion
   template <typename T2>
   auto & operator= (const multi_array<T2,N...>& rhs) {
-    if ( this != &rhs )
-      for ( counter_type i=0; i<elements; i++ ) elems_[i] = rhs.elems_[i];    
+    for ( counter_type i=0; i<elements; i++ ) elems_[i] = rhs[i];    
     return *this;
   }
 
@@ -468,7 +467,7 @@ public:
   //! \return A reference to the current object.
   template <typename T2>
   auto & operator+=(const multi_array<T2,N...> & rhs) {
-    for ( counter_type i=0; i<elements; i++ ) elems_[i] += rhs.elems_[i];    
+    for ( counter_type i=0; i<elements; i++ ) elems_[i] += rhs[i];    
     return *this;
   }
 
@@ -486,7 +485,7 @@ public:
   //! \return A reference to the current object.
   template <typename T2>
   auto & operator-=(const multi_array<T2,N...> & rhs) {
-    for ( counter_type i=0; i<elements; i++ ) elems_[i] -= rhs.elems_[i];    
+    for ( counter_type i=0; i<elements; i++ ) elems_[i] -= rhs[i];    
     return *this;
   }
 
@@ -505,7 +504,7 @@ public:
   //! \return A reference to the current object.
   template <typename T2> 
   auto & operator*=(const multi_array<T2,N...> & rhs) {
-    for ( counter_type i=0; i<elements; i++ ) elems_[i] *= rhs.elems_[i];    
+    for ( counter_type i=0; i<elements; i++ ) elems_[i] *= rhs[i];    
     return *this;
   }
 
@@ -523,7 +522,7 @@ public:
   //! \return A reference to the current object.
   template <typename T2>
   auto & operator/=(const multi_array<T2,N...> & rhs) {
-    for ( counter_type i=0; i<elements; i++ ) elems_[i] /= rhs.elems_[i];    
+    for ( counter_type i=0; i<elements; i++ ) elems_[i] /= rhs[i];    
     return *this;
   }
 
-- 
2.43.0


From f953ffb8c4090c1c459ec373b3867eb9388c941c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:47:23 +0000
Subject: [PATCH 36/59] fix: average of negative integers

---
 ristra/math/general.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ristra/math/general.h b/ristra/math/general.h
index bf50433..2eb83e2 100644
--- a/ristra/math/general.h
+++ b/ristra/math/general.h
@@ -19,6 +19,7 @@
 // system includes
 #include <algorithm> 
 #include <cassert>
+#include <cstddef>
 #include <numeric>
 #include <cmath>
 
@@ -42,7 +43,7 @@ average( T && t, Types&&... args )
 { 
   auto res( t ); // first one
   detail::average(res, std::forward<Types>(args)...); // sum the rest
-  res /=  ( sizeof...(args) + 1 ); // divide by number
+  res /= static_cast<std::ptrdiff_t>( sizeof...(args) + 1 ); // divide by number
   return res;
 }
 
@@ -83,7 +84,7 @@ auto average( const V<T, Args...> & vals )
   assert( vals.size() > 0 && "not enough values" );
   T avg(0);
   for ( const auto & x : vals ) avg += x;
-  avg /= vals.size();
+  avg /= static_cast<std::ptrdiff_t>( vals.size() );
   return avg;
 }
 
-- 
2.43.0


From 884bfa6f506d2834fde391e0e8dfa62a42470157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:47:23 +0000
Subject: [PATCH 37/59] fix: element-wise min and max of vectors do not write
 outside the result

---
 ristra/math/general.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ristra/math/general.h b/ristra/math/general.h
index 2eb83e2..84d0c0f 100644
--- a/ristra/math/general.h
+++ b/ristra/math/general.h
@@ -287,7 +287,7 @@ auto min(const A<T, N...> &a, const A<T, N...> &b)
 template< template<typename...> class C, typename T, typename...Args >
 auto min(const C<T,Args...> &a, const C<T,Args...> &b) 
 {
-  C<T,Args...> tmp;
+  C<T,Args...> tmp( a );
   for ( std::size_t i=0; i<a.size(); i++ )
     tmp[i] = std::min( a[i], b[i] );
   return tmp;
@@ -316,7 +316,7 @@ auto max(const A<T, N...> &a, const A<T, N...> &b)
 template< template<typename...> class C, typename T, typename...Args >
 auto max(const C<T,Args...> &a, const C<T,Args...> &b) 
 {
-  C<T,Args...> tmp;
+  C<T,Args...> tmp( a );
   for ( std::size_t i=0; i<a.size(); i++ )
     tmp[i] = std::max( a[i], b[i] );
   return tmp;
-- 
2.43.0


From 8771eb1b089350fe8a58485a477b1791b47f97e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:47:23 +0000
Subject: [PATCH 38/59] fix: matrix_vector scales the former result once

---
 ristra/math/matrix.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ristra/math/matrix.h b/ristra/math/matrix.h
index 3c7739b..f3306e8 100644
--- a/ristra/math/matrix.h
+++ b/ristra/math/matrix.h
@@ -304,8 +304,10 @@ void matrix_vector(
   C<T,D1> & y )
 {
   for ( utils::select_counter_t<D1> i = 0; i<D1; i++ ) {
+    T sum = 0;
     for ( utils::select_counter_t<D2>  j = 0; j<D2; j++ )
-      y[i] = alpha * A(i,j) * x[j] + beta * y[i];
+      sum += A(i,j) * x[j];
+    y[i] = alpha * sum + beta * y[i];
   }
 }
 //! @}
-- 
2.43.0


From ddc943ad9c13aff0c1def02d0d9a69cb95b08b5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:47:23 +0000
Subject: [PATCH 39/59] fix: compound operators of dimensioned arrays also act
 when both sides are the same object

---
 ristra/utils/dimensioned_array.h | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/ristra/utils/dimensioned_array.h b/ristra/utils/dimensioned_array.h
index c21656c..8e1d36a 100644
--- a/ristra/utils/dimensioned_array.h
+++ b/ristra/utils/dimensioned_array.h
@@ -204,11 +204,9 @@ public:
       dimensioned_array__ const & rhs                                          \
     )                                                                          \
     {                                                                          \
-      if(this != &rhs) {                                                       \
-        for(size_t i{0}; i<DIMENSION; i++) {                                   \
-          data_[i] op rhs[i];                                                  \
-        } /* for */                                                            \
-      } /* if */                                                               \
+      for(size_t i{0}; i<DIMENSION; i++) {                                     \
+        data_[i] op rhs[i];                                                    \
+      } /* for */                                                              \
                                                                                \
       return *this;                                                            \
     }
-- 
2.43.0


From 69236ba21f83473e4a1774fda797f7426563875c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:47:23 +0000
Subject: [PATCH 40/59] fix: dimensioned_array.h includes what it uses, and
 constants can be divided

---
 ristra/utils/dimensioned_array.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ristra/utils/dimensioned_array.h b/ristra/utils/dimensioned_array.h
index 8e1d36a..fab656c 100644
--- a/ristra/utils/dimensioned_array.h
+++ b/ristra/utils/dimensioned_array.h
@@ -20,7 +20,9 @@
 //! \date Initial file creation: Sep 23, 2015
 //----------------------------------------------------------------------------//
 
+#include <algorithm>
 #include <array>
+#include <cassert>
 #include <cmath>
 #include <ostream>
 
@@ -283,6 +285,7 @@ public:
   operator / (
     TYPE val
   )
+  const
   {
     dimensioned_array__ tmp(*this);
     tmp /= val;
-- 
2.43.0


From 46c92b753a36ecb8ba5b274c0c77557f8be73999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:13:36 +0000
Subject: [PATCH 41/59] fix: scaling a tuple by one of its own elements uses
 one value throughout

---
 ristra/math/tuple.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ristra/math/tuple.h b/ristra/math/tuple.h
index 7d37c31..571f2f8 100644
--- a/ristra/math/tuple.h
+++ b/ristra/math/tuple.h
@@ -63,7 +63,7 @@ template <typename... Types, typename U>
 void plus_equal( tuple<Types...>& lhs, const U & rhs )
 {
   utils::tuple_for_each( lhs,
-                         [&](auto & tup) { 
+                         [rhs](auto & tup) { 
                            tup = tup + rhs;
                          } );                        
 }
@@ -131,7 +131,7 @@ template <typename... Types, typename U>
 void minus_equal( tuple<Types...>& lhs, const U & rhs )
 {
   utils::tuple_for_each( lhs,
-                         [&](auto & tup) { 
+                         [rhs](auto & tup) { 
                            tup = tup - rhs;
                          } );                        
 }
@@ -197,7 +197,7 @@ template <typename... Types, typename U>
 void multiplies_equal( tuple<Types...>& lhs, const U & rhs )
 {
   utils::tuple_for_each( lhs,
-                         [&](auto & tup) { 
+                         [rhs](auto & tup) { 
                            tup = tup * rhs;
                          } );                        
 }
@@ -266,7 +266,7 @@ template <typename... Types, typename U>
 void divides_equal( tuple<Types...>& lhs, const U & rhs )
 {
   utils::tuple_for_each( lhs,
-                         [&](auto & tup) { 
+                         [rhs](auto & tup) { 
                            tup = tup / rhs;
                          } );                        
 }
-- 
2.43.0


From 6bd0c81068c588d22411184ac647a917bd1c986f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:59:05 +0000
Subject: [PATCH 42/59] fix: volume of a hexahedron with warped faces

---
 ristra/geometry/shapes/hexahedron.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ristra/geometry/shapes/hexahedron.h b/ristra/geometry/shapes/hexahedron.h
index 79d4e46..59da907 100644
--- a/ristra/geometry/shapes/hexahedron.h
+++ b/ristra/geometry/shapes/hexahedron.h
@@ -165,10 +165,10 @@ public:
     T d63_d50{ d63[0]+d50[0], d63[1]+d50[1], d63[2]+d50[2] };
     T d64_d20{ d64[0]+d20[0], d64[1]+d20[1], d64[2]+d20[2] };
     auto det = 
-      std::abs( triple_product( d61_d70, d63, d20 ) ) +
-      std::abs( triple_product( d70, d63_d50, d64 ) ) +
-      std::abs( triple_product( d61, d50, d64_d20 ) );
-    return det / 12;
+      triple_product( d61_d70, d63, d20 ) +
+      triple_product( d70, d63_d50, d64 ) +
+      triple_product( d61, d50, d64_d20 );
+    return std::abs( det ) / 12;
   }
      
 };
-- 
2.43.0


From b50063c411a648fe4352f2bc739076983ca10412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:59:05 +0000
Subject: [PATCH 43/59] fix: three-dimensional polygons given as containers may
 have three vertices

---
 ristra/geometry/shapes/polygon.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ristra/geometry/shapes/polygon.h b/ristra/geometry/shapes/polygon.h
index 2bf3e55..d8ba120 100644
--- a/ristra/geometry/shapes/polygon.h
+++ b/ristra/geometry/shapes/polygon.h
@@ -532,7 +532,7 @@ public:
   { 
     // get the number of points
     auto num_points = std::distance( first, last );
-    assert( num_points > 3 && "not enough points for 3d" );
+    assert( num_points > 2 && "not enough points for 3d" );
 
     // determine the vector and coordinate type
     using point_type = std::decay_t< decltype(*first) >;
@@ -615,7 +615,7 @@ public:
 
     // get the number of points
     auto num_points = std::distance( first, last );
-    assert( num_points > 3 && "not enough points for 3d" );
+    assert( num_points > 2 && "not enough points for 3d" );
 
     // determine the vector and coordinate type
     using coord_type = std::decay_t< decltype( (*first)[0] ) >;
@@ -689,7 +689,7 @@ public:
 
     // get the number of points
     auto num_points = std::distance( first, last );
-    assert( num_points > 3 && "not enough points for 3d" );
+    assert( num_points > 2 && "not enough points for 3d" );
 
     // determine the vector and coordinate type
     using point_type = std::decay_t< decltype(*first) >;
-- 
2.43.0


From 1e554ec6e322d630b170e785ec58fe1fc0a4621a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:59:05 +0000
Subject: [PATCH 44/59] fix: the mean of integer points with negative
 coordinates is computed in the coordinate type

---
 ristra/geometry/point.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ristra/geometry/point.h b/ristra/geometry/point.h
index 98a77cb..0e990bb 100644
--- a/ristra/geometry/point.h
+++ b/ristra/geometry/point.h
@@ -68,7 +68,7 @@ auto centroid(const LIST<point<T, D>> & vert_list)
   point<T, D> tmp(0.0);
   for (auto v : vert_list)
     tmp += v;
-  tmp /= vert_list.size();
+  tmp /= static_cast<T>(vert_list.size());
   return tmp;
 } // centroid
 
@@ -79,7 +79,7 @@ auto centroid(std::initializer_list<point<T, D>> vert_list)
   point<T, D> tmp(0.0);
   for (auto v : vert_list)
     tmp += v;
-  tmp /= vert_list.size();
+  tmp /= static_cast<T>(vert_list.size());
   return tmp;
 } // centroid
 
-- 
2.43.0


From 65d4576f9baeb45a30f3a3aed873353bcdefed23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:59:05 +0000
Subject: [PATCH 45/59] fix: area.h includes what it uses

---
 ristra/geometry/area.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ristra/geometry/area.h b/ristra/geometry/area.h
index 2a5b7fd..d4b3d6c 100644
--- a/ristra/geometry/area.h
+++ b/ristra/geometry/area.h
@@ -12,6 +12,10 @@
 #include "ristra/utils/type_traits.h"
 #include "area_impl.h"
 
+// system includes
+#include <cassert>
+#include <cmath>
+
 namespace ristra {
 namespace geometry {
 
-- 
2.43.0


From 59042515dae6890b75c7e6f0fc307a9efd1a20d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:59:05 +0000
Subject: [PATCH 46/59] fix: assert_true is a single statement

---
 ristra/assertions/errors.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ristra/assertions/errors.h b/ristra/assertions/errors.h
index e1ce61d..eac1eb9 100644
--- a/ristra/assertions/errors.h
+++ b/ristra/assertions/errors.h
@@ -79,8 +79,10 @@
 //! \param[in] msg  the message to display
 ////////////////////////////////////////////////////////////////////////////////
 #define assert_true(cond, msg)                                          \
-  if ( ! (cond) )                                                       \
-    THROW_RUNTIME_ERROR("Assertion falied: " << msg)
+  do {                                                                  \
+    if ( ! (cond) )                                                     \
+      THROW_RUNTIME_ERROR("Assertion falied: " << msg);                 \
+  } while(0)
 
 ////////////////////////////////////////////////////////////////////////////////
 //! \brief Display a warning.
-- 
2.43.0


From 459ed6079cc594e71d0ca1354415a5bc8a84e563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:59:05 +0000
Subject: [PATCH 47/59] fix: the determinant of a two-dimensional Jacobian does
 not read a third row

---
 ristra/elements/elements.cc | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/ristra/elements/elements.cc b/ristra/elements/elements.cc
index 1b18817..ca4d61f 100644
--- a/ristra/elements/elements.cc
+++ b/ristra/elements/elements.cc
@@ -553,12 +553,18 @@ void jacobian(
     
 
    //calcualate the determinant of the jacobian for 2D/3D matrices
-   det_J =  J_matrix[0][0] *(J_matrix[1][1] * (J_matrix[2][2] - (J_matrix[2][2] - 1)*abs(dim-3)) 
-         - (J_matrix[2][1] * J_matrix[1][2])*abs(dim-2))  //group 1
-         -  J_matrix[0][1] *(J_matrix[1][0] * (J_matrix[2][2] - (J_matrix[2][2] - 1)*abs(dim-3)) 
-         - (J_matrix[2][0] * J_matrix[1][2])*abs(dim-2))  // group 2
-         +  J_matrix[0][2] *(J_matrix[1][0] *  J_matrix[2][1] 
-         -  J_matrix[2][0] * J_matrix[1][1])*(abs(dim-2)); // group 3 
+   if (dim == 2) {
+      det_J = J_matrix[0][0] * J_matrix[1][1] 
+            - J_matrix[0][1] * J_matrix[1][0];
+   }
+   else {
+      det_J = J_matrix[0][0] *(J_matrix[1][1] * J_matrix[2][2] 
+            - J_matrix[2][1] * J_matrix[1][2])  //group 1
+            - J_matrix[0][1] *(J_matrix[1][0] * J_matrix[2][2] 
+            - J_matrix[2][0] * J_matrix[1][2])  // group 2
+            + J_matrix[0][2] *(J_matrix[1][0] * J_matrix[2][1] 
+            - J_matrix[2][0] * J_matrix[1][1]); // group 3 
+   }
    } // end of jacobian function
 
 //defining the jacobian for 4D elements
-- 
2.43.0


From 4c372a20c6d1f40ef8736238872353534c6b6ca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:59:05 +0000
Subject: [PATCH 48/59] fix: inverse of a three-dimensional Jacobian

---
 ristra/elements/elements.cc | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/ristra/elements/elements.cc b/ristra/elements/elements.cc
index ca4d61f..1e0eb91 100644
--- a/ristra/elements/elements.cc
+++ b/ristra/elements/elements.cc
@@ -665,16 +665,16 @@ void jacobian_inverse_3d(
    real_t A_32 = jacobian[0][2]*jacobian[1][0] 
                  - jacobian[1][2]*jacobian[0][0];
 
-   real_t A_13 = jacobian[1][0]*jacobian[1][1] 
+   real_t A_13 = jacobian[1][0]*jacobian[2][1] 
                  - jacobian[2][0]*jacobian[1][1];
  
-   real_t  det = jacobian[0][0]*A_11 + jacobian[0][1]*A_21 
-                + jacobian[0][2]*A_31;
+   real_t  det = jacobian[0][0]*A_11 + jacobian[0][1]*A_12 
+                + jacobian[0][2]*A_13;
 
    J_inverse_matrix = {
-                      {A_11/det, A_12/det, A_13/det},
-                      {A_21/det, A_22/det, A_23/det},
-                      {A_31/det, A_32/det, A_33/det},
+                      {A_11/det, A_21/det, A_31/det},
+                      {A_12/det, A_22/det, A_32/det},
+                      {A_13/det, A_23/det, A_33/det},
                       };
 
     } // end of inverse jacobian 
-- 
2.43.0


From 3c5f9d59b8a12187d4e3e69f175a55cda9026baa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:59:05 +0000
Subject: [PATCH 49/59] fix: inverse of a four-dimensional Jacobian

---
 ristra/elements/elements.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ristra/elements/elements.cc b/ristra/elements/elements.cc
index 1e0eb91..ec85cea 100644
--- a/ristra/elements/elements.cc
+++ b/ristra/elements/elements.cc
@@ -780,7 +780,7 @@ void jacobian_inverse_4d(
            - m[4]  * m[1] * m[15] 
            + m[4]  * m[3] * m[13] 
            + m[12] * m[1] * m[7] 
-           - m[12] * m[3] * m[6];
+           - m[12] * m[3] * m[5];
 
    inv[14] =-m[0]  * m[5] * m[14] 
            + m[0]  * m[6] * m[13] 
-- 
2.43.0


From e24c7fed1874cba1ca783678a808877de09a1943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:59:05 +0000
Subject: [PATCH 50/59] fix: basis functions of the 12-node quadrilateral

---
 ristra/elements/elements.cc | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/ristra/elements/elements.cc b/ristra/elements/elements.cc
index ec85cea..6378e51 100644
--- a/ristra/elements/elements.cc
+++ b/ristra/elements/elements.cc
@@ -1257,26 +1257,28 @@ void Quad_12_2D::basis(
 
    // calculate the shape functions for node 0,1,2,3(xi,eta)
    for( int this_vert = 0; this_vert < 4; this_vert++ ){
-      basis[this_vert] = 1.0/4.0
+      basis[this_vert] = 1.0/32.0
          * (1.0 + xi_2D_point[0]*ref_vert[this_vert][0])
          * (1.0 + xi_2D_point[1]*ref_vert[this_vert][1])
-         * (xi_2D_point[0]*ref_vert[this_vert][0] 
-         +  xi_2D_point[1]*ref_vert[this_vert][1] -1);
+         * (9.0 * (xi_2D_point[0]*xi_2D_point[0] 
+         +  xi_2D_point[1]*xi_2D_point[1]) - 10.0);
    } // end for this_vert
 
 
-   // calculate the shape functions for node 4,6(xi,eta)
-   for( int this_vert = 4; this_vert <= 6; this_vert += 2 ){
-      basis[this_vert] = 1.0/2.0
+   // calculate the shape functions for node 4-7(xi,eta)
+   for( int this_vert = 4; this_vert <= 7; this_vert++ ){
+      basis[this_vert] = 9.0/32.0
          * (1.0 - xi_2D_point[0]*xi_2D_point[0])
-         * (1.0 + xi_2D_point[1]*ref_vert[this_vert][1]);
+         * (1.0 + xi_2D_point[1]*ref_vert[this_vert][1])
+         * (1.0 + 9.0 * xi_2D_point[0]*ref_vert[this_vert][0]);
    } // end for this_vert
 
-   // calculate the shape functions for node 5,7 (xi,eta)
-   for( int this_vert = 5; this_vert <= 7; this_vert += 2 ){
-      basis[this_vert] = 1.0/2.0
+   // calculate the shape functions for node 8-11 (xi,eta)
+   for( int this_vert = 8; this_vert <= 11; this_vert++ ){
+      basis[this_vert] = 9.0/32.0
          * (1.0 + xi_2D_point[0]*ref_vert[this_vert][0])
-         * (1.0 - xi_2D_point[1]*xi_2D_point[1]);
+         * (1.0 - xi_2D_point[1]*xi_2D_point[1])
+         * (1.0 + 9.0 * xi_2D_point[1]*ref_vert[this_vert][1]);
    } // end for this_vert
 }// end of quad12 basis functions
 
-- 
2.43.0


From dd50b9eb1e8673c126365530fc45fa62e6d13100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:59:05 +0000
Subject: [PATCH 51/59] fix: positions in arbitrary-order elements have all
 their coordinates

---
 ristra/elements/elements.cc | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/ristra/elements/elements.cc b/ristra/elements/elements.cc
index 6378e51..5bc3143 100644
--- a/ristra/elements/elements.cc
+++ b/ristra/elements/elements.cc
@@ -2290,8 +2290,11 @@ void QuadN::physical_position (
    int nodes = orderN + 1;
    int numnodes_2d = nodes * nodes;
 
+   for (int dim = 0; dim < 2; dim++)
+      x_point[dim] = 0.0;
+
    for (int this_vert = 0; this_vert < numnodes_2d; this_vert++ ){
-      for (int dim = 0; dim < 1; dim++){
+      for (int dim = 0; dim < 2; dim++){
          x_point[dim] += lag_nodes_2d[this_vert][dim]*lag_basis_2d[this_vert];
       } // end for dim
    } // end for this_vert
@@ -2572,8 +2575,11 @@ void HexN::physical_position (
    int nodes = orderN + 1;
    int numnodes_3d = nodes * nodes * nodes;
 
+   for (int dim = 0; dim < 3; dim++)
+      x_point[dim] = 0.0;
+
    for (int this_vert = 0; this_vert < numnodes_3d; this_vert++ ){
-      for (int dim = 0; dim < 2; dim++){
+      for (int dim = 0; dim < 3; dim++){
          x_point[dim] += lag_nodes[this_vert][dim]*lag_basis_3d[this_vert];
       } // end for dim
    } // end for this_vert
-- 
2.43.0


From 426d08917ec951bd92600d66689472874427591e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:59:05 +0000
Subject: [PATCH 52/59] fix: the tesseract element uses its reference vertices

---
 ristra/elements/elements.cc | 4 ++--
 ristra/elements/elements.h  | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/ristra/elements/elements.cc b/ristra/elements/elements.cc
index 5bc3143..b3940be 100644
--- a/ristra/elements/elements.cc
+++ b/ristra/elements/elements.cc
@@ -2763,9 +2763,9 @@ void HexN::basis_partials (
  */
 
 
-int  num_nodes = 16;
+int  Tess16::num_nodes = 16;
 
-real_t ref_vert[16][4] = // listed as {Xi, Eta, Mu, Tau}
+real_t Tess16::ref_vert[16][4] = // listed as {Xi, Eta, Mu, Tau}
    {
    // Interior cube bottom
    {-1.0, -1.0, -1.0, -1.0},//0
diff --git a/ristra/elements/elements.h b/ristra/elements/elements.h
index 85739d0..66d52a8 100644
--- a/ristra/elements/elements.h
+++ b/ristra/elements/elements.h
@@ -742,9 +742,9 @@ class HexN{
 
 class Tess16: public Element4D {
    protected:
-      int  num_nodes;
+      static int  num_nodes;
 
-      real_t ref_vert[16][4];  // listed as {Xi, Eta, Mu, Tau}
+      static real_t ref_vert[16][4];  // listed as {Xi, Eta, Mu, Tau}
 
 
 
-- 
2.43.0


From 16f6092892a9ec4b1b95e2a3b05e4aac38b996b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:06:32 +0000
Subject: [PATCH 53/59] fix: python functions can be called without arguments

---
 ristra/embedded/embed_python.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ristra/embedded/embed_python.h b/ristra/embedded/embed_python.h
index 258cc43..1eec978 100644
--- a/ristra/embedded/embed_python.h
+++ b/ristra/embedded/embed_python.h
@@ -234,6 +234,10 @@ void python_set_tuple_element( PyObject * py_tup, std::size_t i, Arg && arg )
 
 namespace detail {
 
+// no arguments to set
+inline void python_build_args( PyObject *, std::size_t )
+{}
+
 template< typename Arg >
 void python_build_args( PyObject * py_args, std::size_t i, Arg&& arg )
 {
-- 
2.43.0


From f0ba2a3b573d7f8535449d907c98819b496f2090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:06:32 +0000
Subject: [PATCH 54/59] fix: values python cannot convert are reported instead
 of returned as -1

---
 ristra/embedded/embed_python.h | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/ristra/embedded/embed_python.h b/ristra/embedded/embed_python.h
index 1eec978..776ab07 100644
--- a/ristra/embedded/embed_python.h
+++ b/ristra/embedded/embed_python.h
@@ -165,12 +165,31 @@ auto python_get_attribute( PyObject * py_module, std::string attribute )
 
 inline auto python_as_long( PyObject * py_value )
 {
-  return PyLong_AsLong( py_value );
+  long value;
+  // newer python versions do not convert floating point numbers implicitly
+  if (PyFloat_Check(py_value)) {
+    auto pvalue = PyLong_FromDouble( PyFloat_AS_DOUBLE(py_value) );
+    value = pvalue ? PyLong_AsLong( pvalue ) : -1;
+    Py_XDECREF(pvalue);
+  }
+  else {
+    value = PyLong_AsLong( py_value );
+  }
+  if (value == -1 && PyErr_Occurred()) {
+    python_check();
+    THROW_RUNTIME_ERROR("Cannot convert value to an integer.");
+  }
+  return value;
 }
 
 inline auto python_as_double( PyObject * py_value )
 {
-  return PyFloat_AsDouble( py_value );
+  auto value = PyFloat_AsDouble( py_value );
+  if (value == -1. && PyErr_Occurred()) {
+    python_check();
+    THROW_RUNTIME_ERROR("Cannot convert value to a floating point number.");
+  }
+  return value;
 }
 
 auto python_get_value( long arg )
-- 
2.43.0


From 42bc79598e08cbd6a6018057956afe837f86e9fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:06:32 +0000
Subject: [PATCH 55/59] fix: failing python code is reported

---
 ristra/embedded/embed_python.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ristra/embedded/embed_python.h b/ristra/embedded/embed_python.h
index 776ab07..fa76d1e 100644
--- a/ristra/embedded/embed_python.h
+++ b/ristra/embedded/embed_python.h
@@ -102,7 +102,8 @@ void python_finalize( void )
 
 void python_run_string( std::string exec )
 {
-  PyRun_SimpleString( exec.c_str() );
+  if (PyRun_SimpleString( exec.c_str() ))
+    THROW_RUNTIME_ERROR("Problem running python code.");
 } 
 
 auto python_import( std::string name ) 
-- 
2.43.0


From 37406dbce59bac8ed311f5de33d7d35295af3a59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:06:32 +0000
Subject: [PATCH 56/59] fix: the python path returned to the caller is owned by
 it

---
 ristra/embedded/embed_python.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ristra/embedded/embed_python.h b/ristra/embedded/embed_python.h
index fa76d1e..f637fe7 100644
--- a/ristra/embedded/embed_python.h
+++ b/ristra/embedded/embed_python.h
@@ -151,6 +151,8 @@ auto python_add_to_path( std::string path )
     THROW_RUNTIME_ERROR("Cannot set new path.");
   }
   Py_DECREF(pname);
+  // PySys_GetObject returns a borrowed reference, the caller frees the result
+  Py_INCREF(syspath);
   return syspath; 
 } 
 
-- 
2.43.0


From 3dd51d9d8fb8313b3d12c8f8e5465ae3a035bf36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:06:32 +0000
Subject: [PATCH 57/59] fix: failing python imports and calls do not leak their
 arguments

---
 ristra/embedded/embed_python.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ristra/embedded/embed_python.h b/ristra/embedded/embed_python.h
index f637fe7..322e0fa 100644
--- a/ristra/embedded/embed_python.h
+++ b/ristra/embedded/embed_python.h
@@ -118,11 +118,11 @@ auto python_import( std::string name )
     THROW_RUNTIME_ERROR("Cannot decode module name \"" << name << "\"");
   }
   auto pmodule = PyImport_Import(pname);
+  Py_DECREF(pname);
   if (!pmodule) {
     python_check();
     THROW_RUNTIME_ERROR("Cannot import module \"" << name << "\"");
   }
-  Py_DECREF(pname);
   return pmodule;
 }
 
@@ -304,11 +304,11 @@ auto python_call_function( PyObject * py_func, Args&&... args )
     THROW_RUNTIME_ERROR("Cannot initialize arguments.");
   }
   auto pval = PyObject_CallObject(py_func, pargs);
+  Py_DECREF(pargs);
   if (!pval) {
     python_check();
     THROW_RUNTIME_ERROR("Problem calling function.");
   }
-  Py_DECREF(pargs);
   return pval;
 }
 
-- 
2.43.0


From 14a8b11a352b571ed87dc08bf826277e6ab38a6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:19:54 +0000
Subject: [PATCH 58/59] fix: copying a strided view of rank one keeps its
 stride

A non-const strided_array_view of rank one was flattened by the container
constructor instead of being copied, so that the copy had stride one.
---
 ristra/utils/array_view.h | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/ristra/utils/array_view.h b/ristra/utils/array_view.h
index 6d08011..59b14b0 100644
--- a/ristra/utils/array_view.h
+++ b/ristra/utils/array_view.h
@@ -1992,6 +1992,21 @@ template <
 >
 class static_array_view;
 
+template < typename ValueType, std::ptrdiff_t Rank >
+class strided_array_view;
+
+namespace detail {
+
+//! \brief true if T is a strided_array_view of the given rank
+template < typename T, std::ptrdiff_t Rank >
+struct is_strided_view : std::false_type {};
+
+template < typename ValueType, std::ptrdiff_t Rank >
+struct is_strided_view< strided_array_view<ValueType, Rank>, Rank > : 
+  std::true_type {};
+
+} // namespace detail
+
 ////////////////////////////////////////////////////////////////////////////////    
 /// \brief represent multidimensional views onto regular collections of 
 /// objects of a uniform type.
@@ -2144,6 +2159,8 @@ public:
     typename Container,
     typename = typename std::enable_if_t< 
       is_minimal_container_v<Container> && (Rank == 1)
+      // rank 1 views keep their stride, they are copied and not flattened
+      && !detail::is_strided_view< std::remove_cv_t<Container>, Rank >::value
     >
   >
   constexpr explicit strided_array_view(Container & cont) noexcept :
-- 
2.43.0


From 432c8e6b193cc929a7a11a2b008d60b179207774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:27:35 +0000
Subject: [PATCH 59/59] fix: containers are read from the lua stack position
 asked for

lua_value<vector|array|matrix>::get(state, index) checked the type of the value
at the given index but read the elements from the top of the stack.
---
 ristra/embedded/embed_lua.h | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/ristra/embedded/embed_lua.h b/ristra/embedded/embed_lua.h
index cce7f92..6e40c5f 100644
--- a/ristra/embedded/embed_lua.h
+++ b/ristra/embedded/embed_lua.h
@@ -188,13 +188,14 @@ struct lua_value< Vector<T,Allocator> >
      THROW_RUNTIME_ERROR( "Invalid conversion of type \"" <<
       lua_typename(s, lua_type(s, index)) << "\" to vector."
     );
+    index = lua_absindex(s, index);
     // get the size of the table
-    auto n = lua_rawlen(s, -1);
+    auto n = lua_rawlen(s, index);
     // extract the results
     Vector<T,Allocator> res;
     res.reserve(n);
     for ( int i=1; i<=n; ++i ) {
-      lua_rawgeti(s, -1, i);  // push t[i]
+      lua_rawgeti(s, index, i);  // push t[i]
       res.emplace_back( lua_value<T>::get(s) );
     }
     // remove it from the stack
@@ -225,8 +226,9 @@ struct lua_value< Array<T,N> >
      THROW_RUNTIME_ERROR( "Invalid conversion of type \"" <<
       lua_typename(s, lua_type(s, index)) << "\" to vector."
     );
+    index = lua_absindex(s, index);
     // get the size of the table
-    auto n = lua_rawlen(s, -1);
+    auto n = lua_rawlen(s, index);
     if ( n != N )
       THROW_RUNTIME_ERROR( 
         "Expecting array of size"<<N<<", stack array is size " << n
@@ -234,7 +236,7 @@ struct lua_value< Array<T,N> >
     // extract the results
     Array<T,N> res;
     for ( int i=1; i<=std::min(n,N); ++i ) {
-      lua_rawgeti(s, -1, i);  // push t[i]
+      lua_rawgeti(s, index, i);  // push t[i]
       res[i-1] = lua_value<T>::get(s);
     }
     // remove it from the stack
@@ -269,8 +271,9 @@ struct lua_value< Matrix<T,M,N> >
      THROW_RUNTIME_ERROR( "Invalid conversion of type \"" <<
       lua_typename(s, lua_type(s, index)) << "\" to multiarray."
     );
+    index = lua_absindex(s, index);
     // get the size of the table
-    auto n = lua_rawlen(s, -1);
+    auto n = lua_rawlen(s, index);
     if ( n != M )
       THROW_RUNTIME_ERROR( 
         "Expecting array of size"<<M<<", stack array is size " << n
@@ -278,7 +281,7 @@ struct lua_value< Matrix<T,M,N> >
     // extract the results
     Matrix<T,M,N> res;
     for ( int i=1; i<=M; ++i ) {
-      lua_rawgeti(s, -1, i);  // push t[i]
+      lua_rawgeti(s, index, i);  // push t[i]
       if ( !lua_istable(s, -1) )
        THROW_RUNTIME_ERROR( "Invalid conversion of type \"" <<
         lua_typename(s, lua_type(s, -1)) << "\" to multiarray row."
-- 
2.43.0

