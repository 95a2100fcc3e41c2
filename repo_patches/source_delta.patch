From f1f7758886ec7b8025b82f7d6bd8e2c7fb94932b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:19 +0000
Subject: [PATCH 1/8] fix: keys() of an empty unit-key map yielded a key

SingletonMapStorage::keys ignored whether the single slot is occupied.
---
 src/map/storage/singleton.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/map/storage/singleton.rs b/src/map/storage/singleton.rs
index e01c930..22721e4 100644
--- a/src/map/storage/singleton.rs
+++ b/src/map/storage/singleton.rs
@@ -120,7 +120,7 @@ where
 
     #[inline]
     fn keys(&self) -> Self::Keys<'_> {
-        Some(K::default()).into_iter()
+        self.inner.is_some().then(K::default).into_iter()
     }
 
     #[inline]
-- 
2.43.0


From f77a07f1f3db7aee4511ae348271224fde8289f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:19 +0000
Subject: [PATCH 2/8] fix: Set::insert on bool keys returned the inverted
 result

Set::insert returns true when the value was newly inserted.
---
 src/set/storage/boolean.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/set/storage/boolean.rs b/src/set/storage/boolean.rs
index 3737358..b83fe87 100644
--- a/src/set/storage/boolean.rs
+++ b/src/set/storage/boolean.rs
@@ -138,7 +138,7 @@ impl SetStorage<bool> for BooleanSetStorage {
     #[inline]
     fn insert(&mut self, value: bool) -> bool {
         let update = self.bits | to_bits(value);
-        test(mem::replace(&mut self.bits, update), value)
+        !test(mem::replace(&mut self.bits, update), value)
     }
 
     #[inline]
-- 
2.43.0


From 98d3a3e91a95e66c2d1427a4665ac856329bfb07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:19 +0000
Subject: [PATCH 3/8] fix: Set::remove on bool keys reported the other value

The result was true whenever the set was non-empty, instead of only when
the removed value was present.
---
 src/set/storage/boolean.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/set/storage/boolean.rs b/src/set/storage/boolean.rs
index b83fe87..af747c9 100644
--- a/src/set/storage/boolean.rs
+++ b/src/set/storage/boolean.rs
@@ -148,9 +148,8 @@ impl SetStorage<bool> for BooleanSetStorage {
 
     #[inline]
     fn remove(&mut self, value: bool) -> bool {
-        let value = to_bits(value);
-        let update = self.bits & !value;
-        mem::replace(&mut self.bits, update) != 0
+        let update = self.bits & !to_bits(value);
+        test(mem::replace(&mut self.bits, update), value)
     }
 
     #[inline]
-- 
2.43.0


From cfd5e014df6c3629176b3d46c750a089b2ce6673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:19 +0000
Subject: [PATCH 4/8] fix: Set::insert(None) returned the inverted result

Set::insert returns true when the value was newly inserted.
---
 src/set/storage/option.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/set/storage/option.rs b/src/set/storage/option.rs
index 5fe0fbb..02f2832 100644
--- a/src/set/storage/option.rs
+++ b/src/set/storage/option.rs
@@ -125,7 +125,7 @@ where
     fn insert(&mut self, value: Option<T>) -> bool {
         match value {
             Some(value) => self.some.insert(value),
-            None => mem::replace(&mut self.none, true),
+            None => !mem::replace(&mut self.none, true),
         }
     }
 
-- 
2.43.0


From 8dee5bc36c465f8a72c5517b2397d2442c187421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:19 +0000
Subject: [PATCH 5/8] fix: Set::is_empty on Option keys was inverted for None

An empty set reported being non-empty, a set of only None reported being
empty.
---
 src/set/storage/option.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/set/storage/option.rs b/src/set/storage/option.rs
index 02f2832..fef1e51 100644
--- a/src/set/storage/option.rs
+++ b/src/set/storage/option.rs
@@ -118,7 +118,7 @@ where
 
     #[inline]
     fn is_empty(&self) -> bool {
-        self.some.is_empty() && self.none
+        self.some.is_empty() && !self.none
     }
 
     #[inline]
-- 
2.43.0


From 0bd41644c65eb457e1fd726bd48a2d2d19bf0471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:19 +0000
Subject: [PATCH 6/8] fix: Set::retain on an empty unit-key set inserted the
 value

The predicate was called for the absent value and its result stored.
---
 src/set/storage/singleton.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/set/storage/singleton.rs b/src/set/storage/singleton.rs
index f52cb4e..6e92c05 100644
--- a/src/set/storage/singleton.rs
+++ b/src/set/storage/singleton.rs
@@ -51,7 +51,9 @@ where
     where
         F: FnMut(T) -> bool,
     {
-        self.is_set = func(T::default());
+        if self.is_set {
+            self.is_set = func(T::default());
+        }
     }
 
     #[inline]
-- 
2.43.0


From 9a2c9669debbab7622dae9a59f35793af72e6b08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:47 +0000
Subject: [PATCH 7/8] fix: Set::from_raw kept bits that belong to no variant

Such bits were counted by len, is_empty and equality, but not visited by
iteration nor visible to contains.
---
 fixed-map-derive/src/unit_variants.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/fixed-map-derive/src/unit_variants.rs b/fixed-map-derive/src/unit_variants.rs
index 20c3558..006d81f 100644
--- a/fixed-map-derive/src/unit_variants.rs
+++ b/fixed-map-derive/src/unit_variants.rs
@@ -410,6 +410,13 @@ fn impl_bitset(cx: &Ctxt<'_>, en: &DataEnum, set_storage: &Ident) -> Result<Toke
         .map(|(n, v)| LitInt::new(&format!("{}", 1u128 << n), v.span()))
         .collect::<Vec<_>>();
 
+    // Bits which correspond to a variant.
+    let mask = match count {
+        128.. => u128::MAX,
+        count => (1u128 << count) - 1,
+    };
+    let mask = LitInt::new(&format!("{mask}"), Span::call_site());
+
     Ok(quote! {
         #[inline]
         const fn to_bits(value: #ident) -> #ty {
@@ -524,7 +531,8 @@ fn impl_bitset(cx: &Ctxt<'_>, en: &DataEnum, set_storage: &Ident) -> Result<Toke
 
             #[inline]
             fn from_raw(data: #ty) -> #set_storage {
-                #set_storage { data }
+                // NB: Bits which do not correspond to any variant are ignored.
+                #set_storage { data: data & #mask }
             }
         }
     })
-- 
2.43.0


From d7e2e0c70e304a86212f9292621a47c5e8b15975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:47 +0000
Subject: [PATCH 8/8] fix: order of bitset sets did not follow declaration
 order

Bitset storage compared the raw integers, so {First, Third} was greater
than {Second}. Sets without the bitset option, and the documentation of
Key, order containers by their elements in declaration order.
---
 fixed-map-derive/src/unit_variants.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/fixed-map-derive/src/unit_variants.rs b/fixed-map-derive/src/unit_variants.rs
index 006d81f..f0a30f8 100644
--- a/fixed-map-derive/src/unit_variants.rs
+++ b/fixed-map-derive/src/unit_variants.rs
@@ -391,6 +391,7 @@ fn impl_bitset(cx: &Ctxt<'_>, en: &DataEnum, set_storage: &Ident) -> Result<Toke
     let copy_t = cx.toks.copy_t();
     let eq_t = cx.toks.eq_t();
     let hash_t = cx.toks.hash_t();
+    let iterator_cmp_bool = cx.toks.iterator_cmp_bool();
     let iterator_flatten = cx.toks.iterator_flatten();
     let mem = cx.toks.mem();
     let option = cx.toks.option();
@@ -431,11 +432,18 @@ fn impl_bitset(cx: &Ctxt<'_>, en: &DataEnum, set_storage: &Ident) -> Result<Toke
             data: #ty,
         }
 
+        impl #set_storage {
+            #[inline]
+            const fn flags(&self) -> [bool; #count] {
+                [#(self.data & #numbers != 0),*]
+            }
+        }
+
         #[automatically_derived]
         impl #partial_ord_t for #set_storage {
             #[inline]
             fn partial_cmp(&self, other: &Self) -> Option<#ordering> {
-                #partial_ord_t::partial_cmp(&self.data, &other.data)
+                #option::Some(#ord_t::cmp(self, other))
             }
         }
 
@@ -443,7 +451,7 @@ fn impl_bitset(cx: &Ctxt<'_>, en: &DataEnum, set_storage: &Ident) -> Result<Toke
         impl #ord_t for #set_storage {
             #[inline]
             fn cmp(&self, other: &Self) -> #ordering {
-                #ord_t::cmp(&self.data, &other.data)
+                #iterator_cmp_bool(&self.flags(), &other.flags())
             }
         }
 
-- 
2.43.0

