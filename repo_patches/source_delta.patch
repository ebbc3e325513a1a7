From 2a56fc3ac066e2a27fc46bd25607b61a05c15473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:10:51 +0000
Subject: [PATCH 01/16] fix: leave the slice untouched when parsing a BER or
 DER fails

---
 bsn1/src/ber_ref.rs | 4 +++-
 bsn1/src/der_ref.rs | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/bsn1/src/ber_ref.rs b/bsn1/src/ber_ref.rs
index 6dce192..e2c9179 100644
--- a/bsn1/src/ber_ref.rs
+++ b/bsn1/src/ber_ref.rs
@@ -87,13 +87,15 @@ impl BerRef {
     /// ```
     pub fn parse<'a>(bytes: &mut &'a [u8]) -> Result<&'a Self, Error> {
         let init_bytes = *bytes;
+        let mut readable = init_bytes;
         let mut stack_depth: isize = 0;
 
         while {
-            stack_depth += Self::do_parse(bytes)? as isize;
+            stack_depth += Self::do_parse(&mut readable)? as isize;
             stack_depth > 0
         } {}
 
+        *bytes = readable;
         let total_len = init_bytes.len() - bytes.len();
         unsafe { Ok(Self::from_bytes_unchecked(&init_bytes[..total_len])) }
     }
diff --git a/bsn1/src/der_ref.rs b/bsn1/src/der_ref.rs
index 35fdacd..f636d4e 100644
--- a/bsn1/src/der_ref.rs
+++ b/bsn1/src/der_ref.rs
@@ -92,8 +92,10 @@ impl DerRef {
     /// ```
     pub fn parse<'a>(bytes: &mut &'a [u8]) -> Result<&'a Self, Error> {
         let init_bytes = *bytes;
-        Self::do_parse(bytes)?;
+        let mut readable = init_bytes;
+        Self::do_parse(&mut readable)?;
 
+        *bytes = readable;
         let total_len = init_bytes.len() - bytes.len();
         let read = &init_bytes[..total_len];
         unsafe { Ok(Self::from_bytes_unchecked(read)) }
-- 
2.43.0


From 3e398c06dc2f1b2c652028782c122ae5edc216e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:34:02 +0000
Subject: [PATCH 02/16] fix: find the root cause of an error below its context

---
 bsn1/src/lib.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/bsn1/src/lib.rs b/bsn1/src/lib.rs
index 6385569..fda884c 100644
--- a/bsn1/src/lib.rs
+++ b/bsn1/src/lib.rs
@@ -176,9 +176,7 @@ impl Error {
                 let mut ret = self;
                 for cause in err.chain() {
                     if let Some(e) = cause.downcast_ref::<Self>() {
-                        ret = e;
-                    } else {
-                        break;
+                        ret = e.root_cause();
                     }
                 }
                 return ret;
-- 
2.43.0


From 436a123c35cf083c45bdb39c48c38fc44d8b8680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:35:22 +0000
Subject: [PATCH 03/16] fix: read DER contents over several reads and grow as
 they arrive

---
 bsn1/src/der.rs  | 19 ++-----------------
 bsn1/src/misc.rs | 34 +++++++++++++++++++++++++++++++++-
 2 files changed, 35 insertions(+), 18 deletions(-)

diff --git a/bsn1/src/der.rs b/bsn1/src/der.rs
index 584cebb..4962f92 100644
--- a/bsn1/src/der.rs
+++ b/bsn1/src/der.rs
@@ -178,23 +178,8 @@ impl Der {
                 Length::Definite(length) => length,
             };
 
-        let id_length_len = writeable.len();
-        let total_length = id_length_len + contents_length;
-
-        writeable.reserve(contents_length);
-        unsafe { writeable.set_len(total_length) };
-
-        let buffer = &mut writeable.as_mut_slice()[id_length_len..];
-        match readable.read(buffer) {
-            Err(e) => Err(e.into()),
-            Ok(read) => {
-                if read < contents_length {
-                    Err(Error::UnterminatedBytes)
-                } else {
-                    Ok(Self { buffer: writeable })
-                }
-            }
-        }
+        crate::misc::read_contents(readable, &mut writeable, contents_length)?;
+        Ok(Self { buffer: writeable })
     }
 
     /// Builds a new instance holding `bytes` without any check.
diff --git a/bsn1/src/misc.rs b/bsn1/src/misc.rs
index 1e5f817..d85fc25 100644
--- a/bsn1/src/misc.rs
+++ b/bsn1/src/misc.rs
@@ -14,7 +14,7 @@
 // You should have received a copy of the GNU General Public License along with this program. If
 // not, see <https://www.gnu.org/licenses/>.
 
-use crate::{Error, Length};
+use crate::{Buffer, Error, Length};
 use std::io::{Read, Write};
 
 /// Tries to read one byte from `readable`.
@@ -64,3 +64,35 @@ where
     let _ = crate::identifier_ref::parse_id(readable, writeable)?;
     crate::length::parse_length(readable, writeable)
 }
+
+/// Reads `length` bytes from `readable` and appends them to `writeable`.
+///
+/// `length` may come from untrusted input; `writeable` grows only as the bytes arrive.
+pub fn read_contents<R>(
+    readable: &mut R,
+    writeable: &mut Buffer,
+    length: usize,
+) -> Result<(), Error>
+where
+    R: ?Sized + Read,
+{
+    let mut chunk = [0; 512];
+    let mut rest = length;
+
+    while rest > 0 {
+        let max = rest.min(chunk.len());
+        match readable.read(&mut chunk[..max]) {
+            Ok(0) => return Err(Error::UnterminatedBytes),
+            Ok(read) => {
+                let bytes = &chunk[..read];
+                writeable.reserve(rest.min(read.max(writeable.len())));
+                unsafe { writeable.extend_from_slice(bytes) };
+                rest -= read;
+            }
+            Err(e) if e.kind() == std::io::ErrorKind::Interrupted => (),
+            Err(e) => return Err(e.into()),
+        }
+    }
+
+    Ok(())
+}
-- 
2.43.0


From 946daadac6d474bb85ccc2369bf9324c160008e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:35:41 +0000
Subject: [PATCH 04/16] fix: grow a BER as its contents arrive, not as
 announced

---
 bsn1/src/ber.rs | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/bsn1/src/ber.rs b/bsn1/src/ber.rs
index f0c7194..2d80fda 100644
--- a/bsn1/src/ber.rs
+++ b/bsn1/src/ber.rs
@@ -323,12 +323,7 @@ impl Ber {
 
         match unsafe { crate::misc::parse_id_length(readable, writeable)? } {
             Length::Definite(length) => {
-                writeable.reserve(length);
-                let current_len = writeable.len();
-                unsafe { writeable.set_len(current_len + length) };
-
-                let buffer = &mut writeable.as_mut_slice()[current_len..];
-                readable.read_exact(buffer).map_err(Error::from)?;
+                crate::misc::read_contents(readable, writeable, length)?;
 
                 let read = &(writeable.as_slice()[init_len..]);
                 if read == BerRef::eoc().as_ref() {
-- 
2.43.0


From 88685a071f2518d74d82baecd42e37f8d26f0add Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:36:15 +0000
Subject: [PATCH 05/16] fix: derive the mutable parts of an element from its
 mutable octets

---
 bsn1/src/ber_ref.rs | 10 +++++-----
 bsn1/src/der_ref.rs | 10 +++++-----
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/bsn1/src/ber_ref.rs b/bsn1/src/ber_ref.rs
index e2c9179..43e6efd 100644
--- a/bsn1/src/ber_ref.rs
+++ b/bsn1/src/ber_ref.rs
@@ -384,13 +384,13 @@ impl BerRef {
     /// ```
     pub fn disassemble_mut(&mut self) -> (&mut IdRef, Length, &mut ContentsRef) {
         let (id, length, contents) = self.disassemble();
+        let id_len = id.len();
+        let header_len = self.bytes.len() - contents.len();
 
-        let id_ptr = id as *const IdRef;
-        let id_ptr = id_ptr as *mut IdRef;
-        let contents_ptr = contents as *const ContentsRef;
-        let contents_ptr = contents_ptr as *mut ContentsRef;
+        let (header, contents) = self.bytes.split_at_mut(header_len);
+        let id = unsafe { IdRef::from_mut_bytes_unchecked(&mut header[..id_len]) };
 
-        unsafe { (&mut *id_ptr, length, &mut *contents_ptr) }
+        (id, length, contents.into())
     }
 }
 
diff --git a/bsn1/src/der_ref.rs b/bsn1/src/der_ref.rs
index f636d4e..8b91834 100644
--- a/bsn1/src/der_ref.rs
+++ b/bsn1/src/der_ref.rs
@@ -383,13 +383,13 @@ impl DerRef {
     /// ```
     pub fn disassemble_mut(&mut self) -> (&mut IdRef, Length, &mut ContentsRef) {
         let (id, length, contents) = self.disassemble();
+        let id_len = id.len();
+        let header_len = self.bytes.len() - contents.len();
 
-        let id_ptr = id as *const IdRef;
-        let id_ptr = id_ptr as *mut IdRef;
-        let contents_ptr = contents as *const ContentsRef;
-        let contents_ptr = contents_ptr as *mut ContentsRef;
+        let (header, contents) = self.bytes.split_at_mut(header_len);
+        let id = unsafe { IdRef::from_mut_bytes_unchecked(&mut header[..id_len]) };
 
-        unsafe { (&mut *id_ptr, length, &mut *contents_ptr) }
+        (id, length, contents.into())
     }
 }
 
-- 
2.43.0


From 8d30d864d6bdc8e47ed3edaf4c7a2843a237eb25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:36:35 +0000
Subject: [PATCH 06/16] fix: refuse an iterator whose parts change after they
 were counted

---
 bsn1/src/ber.rs | 7 ++++++-
 bsn1/src/der.rs | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/bsn1/src/ber.rs b/bsn1/src/ber.rs
index 2d80fda..c8b860a 100644
--- a/bsn1/src/ber.rs
+++ b/bsn1/src/ber.rs
@@ -477,8 +477,13 @@ impl Ber {
         unsafe {
             buffer.extend_from_slice(id.as_ref());
             buffer.extend_from_slice(&length_bytes);
-            contents.for_each(|c| buffer.extend_from_slice(c.as_ref()));
+            contents.for_each(|c| {
+                let bytes = c.as_ref();
+                assert!(bytes.len() <= total_len - buffer.len());
+                buffer.extend_from_slice(bytes);
+            });
         }
+        assert_eq!(buffer.len(), total_len);
 
         Self { buffer }
     }
diff --git a/bsn1/src/der.rs b/bsn1/src/der.rs
index 4962f92..d40c1a2 100644
--- a/bsn1/src/der.rs
+++ b/bsn1/src/der.rs
@@ -288,8 +288,13 @@ impl Der {
         unsafe {
             buffer.extend_from_slice(id.as_ref());
             buffer.extend_from_slice(&length_bytes);
-            contents.for_each(|c| buffer.extend_from_slice(c.as_ref()));
+            contents.for_each(|c| {
+                let bytes = c.as_ref();
+                assert!(bytes.len() <= total_len - buffer.len());
+                buffer.extend_from_slice(bytes);
+            });
         }
+        assert_eq!(buffer.len(), total_len);
 
         Self { buffer }
     }
-- 
2.43.0


From 0ca0d58cdeaa013da6dde02b7e856536dc7db7bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:36:56 +0000
Subject: [PATCH 07/16] fix: clear the contents of an element made with a
 length only

---
 bsn1/src/der.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bsn1/src/der.rs b/bsn1/src/der.rs
index d40c1a2..289e664 100644
--- a/bsn1/src/der.rs
+++ b/bsn1/src/der.rs
@@ -112,6 +112,9 @@ impl Der {
             let dst = dst.add(id.len());
             dst.copy_from_nonoverlapping(length_.as_ptr(), length_.len());
 
+            let dst = dst.add(length_.len());
+            dst.write_bytes(0, length);
+
             buffer.set_len(total_len);
         }
 
-- 
2.43.0


From 7808d2cabe3af6273cbbb8d91b8ba8c06056a712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:53:52 +0000
Subject: [PATCH 08/16] fix: refuse primitive types with indefinite length

---
 bsn1_serde/src/de/mod.rs | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/bsn1_serde/src/de/mod.rs b/bsn1_serde/src/de/mod.rs
index fbca7bd..53dae5f 100644
--- a/bsn1_serde/src/de/mod.rs
+++ b/bsn1_serde/src/de/mod.rs
@@ -41,7 +41,7 @@ impl Deserialize for bool {
     unsafe fn from_ber(id: &IdRef, length: Length, contents: &ContentsRef) -> Result<Self, Error> {
         if id != IdRef::boolean() {
             Err(Error::UnmatchedId)
-        } else if length == Length::Indefinite {
+        } else if length.is_indefinite() {
             Err(Error::IndefiniteLength)
         } else {
             debug_assert_eq!(length.definite(), Some(contents.len()));
@@ -60,7 +60,7 @@ impl Deserialize for bool {
 
 impl Deserialize for i8 {
     unsafe fn from_ber(id: &IdRef, length: Length, contents: &ContentsRef) -> Result<Self, Error> {
-        if length == Length::Indefinite {
+        if length.is_indefinite() {
             Err(Error::IndefiniteLength)
         } else {
             debug_assert_eq!(length.definite(), Some(contents.len()));
@@ -79,7 +79,7 @@ impl Deserialize for i8 {
 
 impl Deserialize for u8 {
     unsafe fn from_ber(id: &IdRef, length: Length, contents: &ContentsRef) -> Result<Self, Error> {
-        if length == Length::Indefinite {
+        if length.is_indefinite() {
             Err(Error::IndefiniteLength)
         } else {
             debug_assert_eq!(length.definite(), Some(contents.len()));
@@ -98,7 +98,7 @@ impl Deserialize for u8 {
 
 impl Deserialize for i16 {
     unsafe fn from_ber(id: &IdRef, length: Length, contents: &ContentsRef) -> Result<Self, Error> {
-        if length == Length::Indefinite {
+        if length.is_indefinite() {
             Err(Error::IndefiniteLength)
         } else {
             debug_assert_eq!(length.definite(), Some(contents.len()));
@@ -117,7 +117,7 @@ impl Deserialize for i16 {
 
 impl Deserialize for u16 {
     unsafe fn from_ber(id: &IdRef, length: Length, contents: &ContentsRef) -> Result<Self, Error> {
-        if length == Length::Indefinite {
+        if length.is_indefinite() {
             Err(Error::IndefiniteLength)
         } else {
             debug_assert_eq!(length.definite(), Some(contents.len()));
@@ -136,7 +136,7 @@ impl Deserialize for u16 {
 
 impl Deserialize for i32 {
     unsafe fn from_ber(id: &IdRef, length: Length, contents: &ContentsRef) -> Result<Self, Error> {
-        if length == Length::Indefinite {
+        if length.is_indefinite() {
             Err(Error::IndefiniteLength)
         } else {
             debug_assert_eq!(length.definite(), Some(contents.len()));
@@ -155,7 +155,7 @@ impl Deserialize for i32 {
 
 impl Deserialize for u32 {
     unsafe fn from_ber(id: &IdRef, length: Length, contents: &ContentsRef) -> Result<Self, Error> {
-        if length == Length::Indefinite {
+        if length.is_indefinite() {
             Err(Error::IndefiniteLength)
         } else {
             debug_assert_eq!(length.definite(), Some(contents.len()));
@@ -174,7 +174,7 @@ impl Deserialize for u32 {
 
 impl Deserialize for i64 {
     unsafe fn from_ber(id: &IdRef, length: Length, contents: &ContentsRef) -> Result<Self, Error> {
-        if length == Length::Indefinite {
+        if length.is_indefinite() {
             Err(Error::IndefiniteLength)
         } else {
             debug_assert_eq!(length.definite(), Some(contents.len()));
@@ -193,7 +193,7 @@ impl Deserialize for i64 {
 
 impl Deserialize for u64 {
     unsafe fn from_ber(id: &IdRef, length: Length, contents: &ContentsRef) -> Result<Self, Error> {
-        if length == Length::Indefinite {
+        if length.is_indefinite() {
             Err(Error::IndefiniteLength)
         } else {
             debug_assert_eq!(length.definite(), Some(contents.len()));
@@ -212,7 +212,7 @@ impl Deserialize for u64 {
 
 impl Deserialize for i128 {
     unsafe fn from_ber(id: &IdRef, length: Length, contents: &ContentsRef) -> Result<Self, Error> {
-        if length == Length::Indefinite {
+        if length.is_indefinite() {
             Err(Error::IndefiniteLength)
         } else {
             debug_assert_eq!(length.definite(), Some(contents.len()));
@@ -231,7 +231,7 @@ impl Deserialize for i128 {
 
 impl Deserialize for u128 {
     unsafe fn from_ber(id: &IdRef, length: Length, contents: &ContentsRef) -> Result<Self, Error> {
-        if length == Length::Indefinite {
+        if length.is_indefinite() {
             Err(Error::IndefiniteLength)
         } else {
             debug_assert_eq!(length.definite(), Some(contents.len()));
@@ -250,7 +250,7 @@ impl Deserialize for u128 {
 
 impl Deserialize for isize {
     unsafe fn from_ber(id: &IdRef, length: Length, contents: &ContentsRef) -> Result<Self, Error> {
-        if length == Length::Indefinite {
+        if length.is_indefinite() {
             Err(Error::IndefiniteLength)
         } else {
             debug_assert_eq!(length.definite(), Some(contents.len()));
@@ -269,7 +269,7 @@ impl Deserialize for isize {
 
 impl Deserialize for usize {
     unsafe fn from_ber(id: &IdRef, length: Length, contents: &ContentsRef) -> Result<Self, Error> {
-        if length == Length::Indefinite {
+        if length.is_indefinite() {
             Err(Error::IndefiniteLength)
         } else {
             debug_assert_eq!(length.definite(), Some(contents.len()));
@@ -290,7 +290,7 @@ impl Deserialize for String {
     unsafe fn from_ber(id: &IdRef, length: Length, contents: &ContentsRef) -> Result<Self, Error> {
         if id != IdRef::utf8_string() && id != IdRef::utf8_string_constructed() {
             Err(Error::UnmatchedId)
-        } else if length == Length::Indefinite {
+        } else if length.is_indefinite() {
             Err(Error::IndefiniteLength)
         } else {
             debug_assert_eq!(length.definite(), Some(contents.len()));
-- 
2.43.0


From 41a3d71767cb1b913f6da20d2cdeb6b59ae8a09f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:53:52 +0000
Subject: [PATCH 09/16] fix: announce no size for a hash map when a key
 announces none

---
 bsn1_serde/src/ser/mod.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bsn1_serde/src/ser/mod.rs b/bsn1_serde/src/ser/mod.rs
index b0e1d74..660007f 100644
--- a/bsn1_serde/src/ser/mod.rs
+++ b/bsn1_serde/src/ser/mod.rs
@@ -654,6 +654,8 @@ where
                 } else {
                     return Ok(None);
                 }
+            } else {
+                return Ok(None);
             }
         }
         Ok(Some(ret))
-- 
2.43.0


From a844315b422da0ad4fcd4a920ed984d567d65c4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:53:52 +0000
Subject: [PATCH 10/16] fix: leave the end-of-contents out of an
 indefinite-length key-value pair

---
 bsn1_serde/src/de/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bsn1_serde/src/de/mod.rs b/bsn1_serde/src/de/mod.rs
index 53dae5f..39c3d9d 100644
--- a/bsn1_serde/src/de/mod.rs
+++ b/bsn1_serde/src/de/mod.rs
@@ -734,7 +734,7 @@ impl DeserializeHelper<'_> {
                 )));
             }
 
-            let mut pair_contents: &[u8] = pair.contents().as_ref();
+            let mut pair_contents: &[u8] = exclude_eoc(pair.length(), pair.contents())?.as_ref();
             let key = BerRef::parse(&mut pair_contents).map_err(|err| {
                 err.context(format!(
                     "Failed to parse BER of the key at index {}",
-- 
2.43.0


From 79b9bcf978de75a166c2ace40db25a2e12fa3675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:42:38 +0000
Subject: [PATCH 11/16] fix: accept field names which are keywords in derived
 variants

The match arms of a derived enum name their bindings after the fields.
A raw identifier made the macro panic.  Number the bindings instead.
---
 bsn1_serde_macros/src/data_container.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/bsn1_serde_macros/src/data_container.rs b/bsn1_serde_macros/src/data_container.rs
index 2bd7293..f7d291a 100644
--- a/bsn1_serde_macros/src/data_container.rs
+++ b/bsn1_serde_macros/src/data_container.rs
@@ -737,9 +737,8 @@ impl DataContainer {
                 static PREFIX: &str = "bsn1_macro_field_1701146321";
                 self.field_idents()
                     .into_iter()
-                    .map(|ident| {
-                        format_ident!("{}_{}", PREFIX, ident.to_string()).to_token_stream()
-                    })
+                    .enumerate()
+                    .map(|(i, _)| format_ident!("{}_{}", PREFIX, i).to_token_stream())
                     .collect()
             }
             Self::DataStruct { .. } => self
-- 
2.43.0


From c6476c6e25700525b485167b404071fd9cac58f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:48:03 +0000
Subject: [PATCH 12/16] fix: refuse bsn1_serde attributes in the form of a name
 and a value

`#[bsn1_serde = "..."]` was ignored silently.
---
 bsn1_serde_macros/src/attribute.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bsn1_serde_macros/src/attribute.rs b/bsn1_serde_macros/src/attribute.rs
index 9e81c52..014d54d 100644
--- a/bsn1_serde_macros/src/attribute.rs
+++ b/bsn1_serde_macros/src/attribute.rs
@@ -81,6 +81,9 @@ impl Attribute {
             syn::Meta::List(meta) if meta.path.is_ident("bsn1_serde") => {
                 meta.tokens.clone().into_iter()
             }
+            syn::Meta::NameValue(meta) if meta.path.is_ident("bsn1_serde") => {
+                return Err(syn::Error::new_spanned(attr, "Unexpected token."))
+            }
             _ => return Ok(None),
         };
 
-- 
2.43.0


From 9cd9c801872a2dede9bc3a75a6da8c06c5debbd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:48:03 +0000
Subject: [PATCH 13/16] fix: require a comma between the arguments of an
 attribute

---
 bsn1_serde_macros/src/attribute.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/bsn1_serde_macros/src/attribute.rs b/bsn1_serde_macros/src/attribute.rs
index 014d54d..c01910f 100644
--- a/bsn1_serde_macros/src/attribute.rs
+++ b/bsn1_serde_macros/src/attribute.rs
@@ -208,6 +208,12 @@ impl Attribute {
                 TokenTree::Punct(punct) if punct.as_char() == ',' => continue,
                 _ => error(tt, "Unexpected token.")?,
             }
+
+            match it.next() {
+                None => break,
+                Some(TokenTree::Punct(punct)) if punct.as_char() == ',' => (),
+                Some(tt) => error(tt, "Expected `,`.")?,
+            }
         }
 
         Ok(Some(ret))
-- 
2.43.0


From 11479f32ac9320654e8140243e55ea8dbb285a79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:48:35 +0000
Subject: [PATCH 14/16] fix: check the attributes inside of a converted type

The variants and fields of a type with a conversion were not looked at,
so that any argument was accepted there.
---
 bsn1_serde_macros/src/data_container.rs | 21 +++++++++++++++++++++
 bsn1_serde_macros/src/de/mod.rs         |  2 ++
 bsn1_serde_macros/src/ser/mod.rs        |  2 ++
 3 files changed, 25 insertions(+)

diff --git a/bsn1_serde_macros/src/data_container.rs b/bsn1_serde_macros/src/data_container.rs
index f7d291a..93ac2bd 100644
--- a/bsn1_serde_macros/src/data_container.rs
+++ b/bsn1_serde_macros/src/data_container.rs
@@ -83,6 +83,27 @@ impl TryFrom<(Ident, syn::Variant)> for DataContainer {
 }
 
 impl DataContainer {
+    /// Makes sure that the attributes of the variants and of the fields are allowed.
+    pub fn sanitize(data: &syn::Data) -> syn::Result<()> {
+        let mut fields = Vec::new();
+
+        match data {
+            syn::Data::Struct(data) => fields.extend(&data.fields),
+            syn::Data::Enum(data) => {
+                for variant in &data.variants {
+                    Attribute::try_from(&variant.attrs[..])?.sanitize_as_variant()?;
+                    fields.extend(&variant.fields);
+                }
+            }
+            syn::Data::Union(_) => (),
+        }
+
+        for field in fields {
+            Attribute::try_from(&field.attrs[..])?.sanitize_as_field()?;
+        }
+        Ok(())
+    }
+
     /// # Safety
     ///
     /// This method supports only `DataContainer::Variant`.
diff --git a/bsn1_serde_macros/src/de/mod.rs b/bsn1_serde_macros/src/de/mod.rs
index 5a66e33..07be919 100644
--- a/bsn1_serde_macros/src/de/mod.rs
+++ b/bsn1_serde_macros/src/de/mod.rs
@@ -32,8 +32,10 @@ pub fn do_deserialize(ast: syn::DeriveInput) -> syn::Result<TokenStream> {
     let where_clause = generics.where_clause();
 
     let methods = if let Some(ty) = attribute.from_type() {
+        DataContainer::sanitize(&ast.data)?;
         do_from_deserialize(ty)?
     } else if let Some(ty) = attribute.try_from_type() {
+        DataContainer::sanitize(&ast.data)?;
         do_try_from_deserialize(ty)?
     } else {
         match ast.data {
diff --git a/bsn1_serde_macros/src/ser/mod.rs b/bsn1_serde_macros/src/ser/mod.rs
index 2ada25d..130646a 100644
--- a/bsn1_serde_macros/src/ser/mod.rs
+++ b/bsn1_serde_macros/src/ser/mod.rs
@@ -32,8 +32,10 @@ pub fn do_serialize(ast: syn::DeriveInput) -> syn::Result<TokenStream> {
     let where_clause = generics.where_clause();
 
     let methods = if let Some(ty) = attribute.into_type() {
+        DataContainer::sanitize(&ast.data)?;
         do_into_serialize(&ty)?
     } else if let Some(to_fn) = attribute.to_path() {
+        DataContainer::sanitize(&ast.data)?;
         do_to_serialize(&to_fn)?
     } else {
         match ast.data {
-- 
2.43.0


From 205047e8934d13cbfe59a69bae76d4afee142659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:07:23 +0000
Subject: [PATCH 15/16] fix: check the octets written by a type before
 returning an element

A type implementing Serialize can write anything. to_der returned it as
an element, though the accessors of an element rely on valid octets.
---
 bsn1_serde/src/lib.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/bsn1_serde/src/lib.rs b/bsn1_serde/src/lib.rs
index db547b3..efda9ae 100644
--- a/bsn1_serde/src/lib.rs
+++ b/bsn1_serde/src/lib.rs
@@ -59,7 +59,15 @@ where
         value.write_der_contents(&mut buffer)?;
     }
 
-    Ok(buffer.into())
+    // `value` can be of a type written by a user.
+    let mut rest = buffer.as_slice();
+    DerRef::parse(&mut rest)?;
+    if !rest.is_empty() {
+        return Err(Error::ExtraContentsOctet);
+    }
+
+    // Safety: checked just above.
+    Ok(unsafe { Der::from_vec_unchecked(buffer.into_vec()) })
 }
 
 /// Serializes `value` into ASN.1 BER format.
-- 
2.43.0


From d83315d5cd016b03929c1cd496a8188a1b9b6f0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:07:23 +0000
Subject: [PATCH 16/16] fix: remove the conversions from Buffer into elements
 and identifiers

They accepted any octets in safe code.
---
 bsn1/src/ber.rs        | 7 -------
 bsn1/src/der.rs        | 7 -------
 bsn1/src/identifier.rs | 7 -------
 3 files changed, 21 deletions(-)

diff --git a/bsn1/src/ber.rs b/bsn1/src/ber.rs
index c8b860a..349f7af 100644
--- a/bsn1/src/ber.rs
+++ b/bsn1/src/ber.rs
@@ -684,13 +684,6 @@ impl Ber {
     }
 }
 
-#[doc(hidden)]
-impl From<Buffer> for Ber {
-    fn from(buffer: Buffer) -> Self {
-        Self { buffer }
-    }
-}
-
 impl From<&DerRef> for Ber {
     fn from(der: &DerRef) -> Self {
         <&BerRef>::from(der).to_owned()
diff --git a/bsn1/src/der.rs b/bsn1/src/der.rs
index 289e664..d0289e9 100644
--- a/bsn1/src/der.rs
+++ b/bsn1/src/der.rs
@@ -485,13 +485,6 @@ impl Der {
     }
 }
 
-#[doc(hidden)]
-impl From<Buffer> for Der {
-    fn from(buffer: Buffer) -> Self {
-        Self { buffer }
-    }
-}
-
 impl From<&DerRef> for Der {
     fn from(der_ref: &DerRef) -> Self {
         der_ref.to_owned()
diff --git a/bsn1/src/identifier.rs b/bsn1/src/identifier.rs
index 3351995..6dfe0d4 100644
--- a/bsn1/src/identifier.rs
+++ b/bsn1/src/identifier.rs
@@ -225,13 +225,6 @@ impl From<&'_ IdRef> for Id {
     }
 }
 
-#[doc(hidden)]
-impl From<Buffer> for Id {
-    fn from(buffer: Buffer) -> Self {
-        Self { buffer }
-    }
-}
-
 impl AsRef<[u8]> for Id {
     fn as_ref(&self) -> &[u8] {
         self.buffer.as_slice()
-- 
2.43.0

