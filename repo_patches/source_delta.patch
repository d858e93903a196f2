From b56009db92975fca800b1a24d4243e72c65d7c9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:07 +0000
Subject: [PATCH 01/34] fix: roll back extensions of existing messages by
 extension index

When adding files fails, extensions registered on messages that were already
in the pool were filtered by comparing the extension index to the message
offset, so the message could keep dangling extensions (panicking on access)
or lose extensions added earlier.
---
 prost-reflect/src/descriptor/build/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/prost-reflect/src/descriptor/build/mod.rs b/prost-reflect/src/descriptor/build/mod.rs
index ea94ca0..ae26778 100644
--- a/prost-reflect/src/descriptor/build/mod.rs
+++ b/prost-reflect/src/descriptor/build/mod.rs
@@ -95,7 +95,9 @@ impl DescriptorPoolOffsets {
         });
         pool.file_names.retain(|_, &mut file| file < self.file);
         for message in &mut pool.messages {
-            message.extensions.retain(|&message| message < self.message);
+            message
+                .extensions
+                .retain(|&extension| extension < self.extension);
         }
     }
 }
-- 
2.43.0


From 3311f82a09dff406906b3fcb737e8cd8aa6a54bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:07 +0000
Subject: [PATCH 02/34] fix: follow chains of public imports

The check for already visited files was inverted: public imports were only
followed one level deep, and files which publicly import themselves (directly
or through a cycle) overflowed the stack.
---
 prost-reflect/src/descriptor/build/resolve.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prost-reflect/src/descriptor/build/resolve.rs b/prost-reflect/src/descriptor/build/resolve.rs
index 5a80342..7f888b6 100644
--- a/prost-reflect/src/descriptor/build/resolve.rs
+++ b/prost-reflect/src/descriptor/build/resolve.rs
@@ -421,7 +421,7 @@ impl ResolveVisitor<'_> {
         for (i, dependency) in file.raw.dependency.iter().enumerate() {
             if let Some(&dependency_index) = self.pool.file_names.get(dependency.as_str()) {
                 if file.raw.public_dependency.contains(&(i as i32))
-                    && !dependencies.insert(dependency_index)
+                    && dependencies.insert(dependency_index)
                 {
                     self.resolve_public_dependencies(dependencies, dependency_index);
                 }
-- 
2.43.0


From 240c206f6ce6b59956fae07fda9d61778b56de75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:49 +0000
Subject: [PATCH 03/34] fix: report unknown syntax instead of panicking

The error label was created before the file had been added to the pool, so
looking the file up panicked with an out of bounds index.
---
 prost-reflect/src/descriptor/build/names.rs | 31 +++++++++++----------
 1 file changed, 16 insertions(+), 15 deletions(-)

diff --git a/prost-reflect/src/descriptor/build/names.rs b/prost-reflect/src/descriptor/build/names.rs
index 2332a36..f29650b 100644
--- a/prost-reflect/src/descriptor/build/names.rs
+++ b/prost-reflect/src/descriptor/build/names.rs
@@ -52,20 +52,9 @@ impl Visitor for NameVisitor<'_> {
         debug_assert_eq!(to_index(self.pool.files.len()), index);
 
         let syntax = match file.syntax.as_deref() {
-            None | Some("proto2") => Syntax::Proto2,
-            Some("proto3") => Syntax::Proto3,
-            Some(syntax) => {
-                self.errors.push(DescriptorErrorKind::UnknownSyntax {
-                    syntax: syntax.to_owned(),
-                    found: Label::new(
-                        &self.pool.files,
-                        "found here",
-                        index,
-                        join_path(path, &[tag::file::SYNTAX]),
-                    ),
-                });
-                return;
-            }
+            None | Some("proto2") => Some(Syntax::Proto2),
+            Some("proto3") => Some(Syntax::Proto3),
+            Some(_) => None,
         };
 
         if self
@@ -79,13 +68,25 @@ impl Visitor for NameVisitor<'_> {
             });
         }
         self.pool.files.push(FileDescriptorInner {
-            syntax,
+            syntax: syntax.unwrap_or(Syntax::Proto2),
             raw: file.clone(),
             prost: Default::default(), // the prost descriptor is initialized from the internal descriptor once resolution is complete, to avoid needing to duplicate all modifications
             dependencies: Vec::with_capacity(file.dependency.len()),
             transitive_dependencies: HashSet::default(),
         });
 
+        if syntax.is_none() {
+            self.errors.push(DescriptorErrorKind::UnknownSyntax {
+                syntax: file.syntax.clone().unwrap_or_default(),
+                found: Label::new(
+                    &self.pool.files,
+                    "found here",
+                    index,
+                    join_path(path, &[tag::file::SYNTAX]),
+                ),
+            });
+        }
+
         if !file.package().is_empty() {
             for (i, _) in file.package().match_indices('.') {
                 self.add_name(
-- 
2.43.0


From ca7a48a30fbebb6c19c25bc6d9411a3c4078e856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:50 +0000
Subject: [PATCH 04/34] fix: reject out of range escapes in bytes default
 values

Octal escapes above \377 overflowed and hex escapes followed by multi-byte
characters sliced the string inside a character; both panicked.
---
 prost-reflect/src/descriptor/build/resolve.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/prost-reflect/src/descriptor/build/resolve.rs b/prost-reflect/src/descriptor/build/resolve.rs
index 7f888b6..a733e60 100644
--- a/prost-reflect/src/descriptor/build/resolve.rs
+++ b/prost-reflect/src/descriptor/build/resolve.rs
@@ -855,23 +855,26 @@ fn unescape_c_escape_string(s: &str) -> Result<Bytes, &'static str> {
                     p += 1;
                 }
                 b'0'..=b'7' => {
-                    let mut octal = 0;
+                    let mut octal = 0u32;
                     for _ in 0..3 {
                         if p < len && src[p] >= b'0' && src[p] <= b'7' {
-                            octal = octal * 8 + (src[p] - b'0');
+                            octal = octal * 8 + u32::from(src[p] - b'0');
                             p += 1;
                         } else {
                             break;
                         }
                     }
-                    dst.push(octal);
+                    match u8::try_from(octal) {
+                        Ok(b) => dst.push(b),
+                        Err(_) => return Err("octal escape out of range"),
+                    }
                 }
                 b'x' | b'X' => {
                     if p + 3 > len {
                         return Err("hex escape must contain two characters");
                     }
-                    match u8::from_str_radix(&s[p + 1..p + 3], 16) {
-                        Ok(b) => dst.push(b),
+                    match s.get(p + 1..p + 3).map(|hex| u8::from_str_radix(hex, 16)) {
+                        Some(Ok(b)) => dst.push(b),
                         _ => return Err("invalid hex escape"),
                     }
                     p += 3;
-- 
2.43.0


From 7e1a79a65ee942564470b47b8f8de5b2e12f76d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:21 +0000
Subject: [PATCH 05/34] Add guarded simulation hooks around the global
 descriptor pool

---
 prost-reflect/src/descriptor/global.rs |   3 +
 prost-reflect/src/lib.rs               |   4 +
 prost-reflect/src/sim.rs               | 210 +++++++++++++++++++++++++
 3 files changed, 217 insertions(+)
 create mode 100644 prost-reflect/src/sim.rs

diff --git a/prost-reflect/src/descriptor/global.rs b/prost-reflect/src/descriptor/global.rs
index 0d09136..be270e4 100644
--- a/prost-reflect/src/descriptor/global.rs
+++ b/prost-reflect/src/descriptor/global.rs
@@ -1,3 +1,6 @@
+#[cfg(prost_reflect_sim)]
+use crate::sim::{Mutex, MutexGuard, OnceLock};
+#[cfg(not(prost_reflect_sim))]
 use std::sync::{Mutex, MutexGuard, OnceLock};
 
 use prost::bytes::Buf;
diff --git a/prost-reflect/src/lib.rs b/prost-reflect/src/lib.rs
index b5d7e72..45fa443 100644
--- a/prost-reflect/src/lib.rs
+++ b/prost-reflect/src/lib.rs
@@ -8,10 +8,14 @@
 #![cfg_attr(docsrs, feature(doc_cfg))]
 #![warn(missing_debug_implementations, missing_docs)]
 #![deny(unsafe_code)]
+#![allow(unexpected_cfgs)] // `prost_reflect_sim` is only set by simulation harnesses
 
 mod descriptor;
 mod dynamic;
 mod reflect;
+#[cfg(prost_reflect_sim)]
+#[doc(hidden)]
+pub mod sim;
 
 pub use {prost, prost::bytes, prost_types};
 
diff --git a/prost-reflect/src/sim.rs b/prost-reflect/src/sim.rs
new file mode 100644
index 0000000..22a2be0
--- /dev/null
+++ b/prost-reflect/src/sim.rs
@@ -0,0 +1,210 @@
+//! Synchronisation primitives whose blocking points are visible to a simulator.
+//!
+//! Only compiled with `--cfg prost_reflect_sim`. The types have the same interface as the parts
+//! of [`std::sync`] used by this crate, and call a registered function at every point where the
+//! order of threads matters. Without a registered function they behave like the originals.
+#![allow(missing_docs, missing_debug_implementations)]
+
+use std::{
+    fmt,
+    ops::{Deref, DerefMut},
+    sync::{
+        atomic::{AtomicBool, Ordering},
+        LockResult, PoisonError, TryLockError, TryLockResult,
+    },
+};
+
+/// A point at which the order of threads matters.
+#[derive(Debug, Clone, Copy, PartialEq, Eq)]
+pub enum Event {
+    /// The thread is about to use the given primitive.
+    Before(usize),
+    /// The thread cannot proceed until the given primitive is released.
+    Blocked(usize),
+    /// The thread released the given primitive.
+    Released(usize),
+}
+
+static HOOK: std::sync::OnceLock<fn(Event)> = std::sync::OnceLock::new();
+
+/// Registers the function called at every [`Event`]. Can only be called once.
+pub fn set_hook(hook: fn(Event)) {
+    let _ = HOOK.set(hook);
+}
+
+fn hook(event: Event) {
+    if let Some(hook) = HOOK.get() {
+        hook(event)
+    }
+}
+
+pub struct Mutex<T> {
+    inner: std::sync::Mutex<T>,
+}
+
+pub struct MutexGuard<'a, T> {
+    inner: Option<std::sync::MutexGuard<'a, T>>,
+    addr: usize,
+}
+
+pub struct OnceLock<T> {
+    inner: std::sync::OnceLock<T>,
+    busy: AtomicBool,
+}
+
+impl<T> Mutex<T> {
+    pub const fn new(value: T) -> Self {
+        Mutex {
+            inner: std::sync::Mutex::new(value),
+        }
+    }
+
+    fn addr(&self) -> usize {
+        self as *const Self as usize
+    }
+
+    pub fn lock(&self) -> LockResult<MutexGuard<'_, T>> {
+        let addr = self.addr();
+        let guard = |inner| MutexGuard {
+            inner: Some(inner),
+            addr,
+        };
+        if HOOK.get().is_none() {
+            return self
+                .inner
+                .lock()
+                .map(guard)
+                .map_err(|err| PoisonError::new(guard(err.into_inner())));
+        }
+
+        hook(Event::Before(addr));
+        loop {
+            match self.inner.try_lock() {
+                Ok(inner) => return Ok(guard(inner)),
+                Err(TryLockError::Poisoned(err)) => {
+                    return Err(PoisonError::new(guard(err.into_inner())))
+                }
+                Err(TryLockError::WouldBlock) => hook(Event::Blocked(addr)),
+            }
+        }
+    }
+}
+
+impl<T> Mutex<T> {
+    pub fn try_lock(&self) -> TryLockResult<MutexGuard<'_, T>> {
+        let addr = self.addr();
+        let guard = |inner| MutexGuard {
+            inner: Some(inner),
+            addr,
+        };
+        hook(Event::Before(addr));
+        match self.inner.try_lock() {
+            Ok(inner) => Ok(guard(inner)),
+            Err(TryLockError::Poisoned(err)) => Err(TryLockError::Poisoned(PoisonError::new(
+                guard(err.into_inner()),
+            ))),
+            Err(TryLockError::WouldBlock) => Err(TryLockError::WouldBlock),
+        }
+    }
+
+    pub fn is_poisoned(&self) -> bool {
+        self.inner.is_poisoned()
+    }
+
+    pub fn clear_poison(&self) {
+        self.inner.clear_poison()
+    }
+
+    pub fn get_mut(&mut self) -> LockResult<&mut T> {
+        self.inner.get_mut()
+    }
+
+    pub fn into_inner(self) -> LockResult<T> {
+        self.inner.into_inner()
+    }
+}
+
+impl<T> Deref for MutexGuard<'_, T> {
+    type Target = T;
+
+    fn deref(&self) -> &T {
+        self.inner.as_deref().expect("guard already released")
+    }
+}
+
+impl<T> DerefMut for MutexGuard<'_, T> {
+    fn deref_mut(&mut self) -> &mut T {
+        self.inner.as_deref_mut().expect("guard already released")
+    }
+}
+
+impl<T> Drop for MutexGuard<'_, T> {
+    fn drop(&mut self) {
+        drop(self.inner.take());
+        hook(Event::Released(self.addr));
+    }
+}
+
+impl<T> fmt::Debug for MutexGuard<'_, T> {
+    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
+        f.debug_struct("MutexGuard").finish_non_exhaustive()
+    }
+}
+
+impl<T> OnceLock<T> {
+    pub const fn new() -> Self {
+        OnceLock {
+            inner: std::sync::OnceLock::new(),
+            busy: AtomicBool::new(false),
+        }
+    }
+
+    pub fn get(&self) -> Option<&T> {
+        hook(Event::Before(self as *const Self as usize));
+        self.inner.get()
+    }
+
+    pub fn get_mut(&mut self) -> Option<&mut T> {
+        self.inner.get_mut()
+    }
+
+    pub fn set(&self, value: T) -> Result<(), T> {
+        hook(Event::Before(self as *const Self as usize));
+        self.inner.set(value)
+    }
+
+    pub fn into_inner(self) -> Option<T> {
+        self.inner.into_inner()
+    }
+
+    pub fn get_or_init<F>(&self, init: F) -> &T
+    where
+        F: FnOnce() -> T,
+    {
+        if HOOK.get().is_none() {
+            return self.inner.get_or_init(init);
+        }
+
+        struct Busy<'a>(&'a AtomicBool, usize);
+
+        impl Drop for Busy<'_> {
+            fn drop(&mut self) {
+                self.0.store(false, Ordering::SeqCst);
+                hook(Event::Released(self.1));
+            }
+        }
+
+        let addr = self as *const Self as usize;
+        hook(Event::Before(addr));
+        loop {
+            if let Some(value) = self.inner.get() {
+                return value;
+            }
+            if !self.busy.swap(true, Ordering::SeqCst) {
+                let _busy = Busy(&self.busy, addr);
+                return self.inner.get_or_init(init);
+            }
+            hook(Event::Blocked(addr));
+        }
+    }
+}
-- 
2.43.0


From cf817feedfd09bab419dbecffaf43f42d9f663f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:38 +0000
Subject: [PATCH 06/34] fix: read the caller's buffer before locking the global
 pool

A buffer that panicked while being decoded poisoned the global pool for the
rest of the process, and one that used the global pool deadlocked.
---
 prost-reflect/src/descriptor/global.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/prost-reflect/src/descriptor/global.rs b/prost-reflect/src/descriptor/global.rs
index be270e4..8c2ab38 100644
--- a/prost-reflect/src/descriptor/global.rs
+++ b/prost-reflect/src/descriptor/global.rs
@@ -3,10 +3,13 @@ use crate::sim::{Mutex, MutexGuard, OnceLock};
 #[cfg(not(prost_reflect_sim))]
 use std::sync::{Mutex, MutexGuard, OnceLock};
 
-use prost::bytes::Buf;
+use prost::{bytes::Buf, Message};
 use prost_types::FileDescriptorProto;
 
-use crate::{DescriptorError, DescriptorPool};
+use crate::{
+    descriptor::{error::DescriptorErrorKind, types::FileDescriptorSet},
+    DescriptorError, DescriptorPool,
+};
 
 static INSTANCE: OnceLock<Mutex<DescriptorPool>> = OnceLock::new();
 
@@ -36,8 +39,13 @@ impl DescriptorPool {
     where
         B: Buf,
     {
-        instance().decode_file_descriptor_set(bytes)?;
-        Ok(())
+        // Read the caller's buffer before taking the lock, so that it can neither poison nor
+        // re-enter it.
+        let file_descriptor_set = FileDescriptorSet::decode(bytes).map_err(|err| {
+            DescriptorError::new(vec![DescriptorErrorKind::DecodeFileDescriptorSet { err }])
+        })?;
+
+        instance().build_files(file_descriptor_set.file)
     }
 
     /// Adds a single file descriptor to the global pool.
-- 
2.43.0


From d368b471307336920d0b79e56c8149b4d468d26b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:59 +0000
Subject: [PATCH 07/34] fix: keep the default packing of repeated fields with
 other options

A repeated proto3 scalar with any option set was treated as unpacked unless
packed was set too, and a packed option that was still uninterpreted was
ignored until the pool was dumped and reloaded.
---
 prost-reflect/src/descriptor/build/resolve.rs | 27 ++++++++++++-------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/prost-reflect/src/descriptor/build/resolve.rs b/prost-reflect/src/descriptor/build/resolve.rs
index a733e60..cdda381 100644
--- a/prost-reflect/src/descriptor/build/resolve.rs
+++ b/prost-reflect/src/descriptor/build/resolve.rs
@@ -5,7 +5,9 @@ use prost::bytes::Bytes;
 use crate::{
     descriptor::{
         build::{
-            join_path, resolve_name, to_json_name,
+            join_path,
+            options::option_to_bool,
+            resolve_name, to_json_name,
             visit::{visit, Visitor},
             DescriptorPoolOffsets, ResolveNameFilter,
         },
@@ -120,10 +122,7 @@ impl Visitor for ResolveVisitor<'_> {
 
         let is_packed = cardinality == Cardinality::Repeated
             && kind.is_some_and(|k| k.is_packable())
-            && (field
-                .options
-                .as_ref()
-                .map_or(syntax == Syntax::Proto3, |o| o.value.packed()));
+            && packed_option(field).unwrap_or(syntax == Syntax::Proto3);
 
         let supports_presence = field.proto3_optional()
             || field.oneof_index.is_some()
@@ -391,10 +390,7 @@ impl Visitor for ResolveVisitor<'_> {
 
         let is_packed = cardinality == Cardinality::Repeated
             && kind.is_some_and(|k| k.is_packable())
-            && (extension
-                .options
-                .as_ref()
-                .map_or(syntax == Syntax::Proto3, |o| o.value.packed()));
+            && packed_option(extension).unwrap_or(syntax == Syntax::Proto3);
 
         let default = kind.and_then(|kind| {
             self.parse_field_default_value(kind, extension.default_value.as_deref(), file, path)
@@ -766,6 +762,19 @@ impl ResolveVisitor<'_> {
     }
 }
 
+fn packed_option(field: &FieldDescriptorProto) -> Option<bool> {
+    let options = &field.options.as_ref()?.value;
+    options.packed.or_else(|| {
+        options
+            .uninterpreted_option
+            .iter()
+            .filter(|u| {
+                u.name.len() == 1 && u.name[0].name_part == "packed" && !u.name[0].is_extension
+            })
+            .find_map(|u| option_to_bool(u).ok())
+    })
+}
+
 fn parse_simple_value(
     kind: KindIndex,
     value: &str,
-- 
2.43.0


From e45878cce361a3dff4bb48f35a1b14bae6e17d3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:48 +0000
Subject: [PATCH 08/34] fix: do not let files that are not imported shadow
 relative names

---
 prost-reflect/src/descriptor/build/mod.rs     | 29 +++++++++++++++++--
 prost-reflect/src/descriptor/build/options.rs |  1 +
 prost-reflect/src/descriptor/build/resolve.rs |  1 +
 3 files changed, 29 insertions(+), 2 deletions(-)

diff --git a/prost-reflect/src/descriptor/build/mod.rs b/prost-reflect/src/descriptor/build/mod.rs
index ae26778..dad31e6 100644
--- a/prost-reflect/src/descriptor/build/mod.rs
+++ b/prost-reflect/src/descriptor/build/mod.rs
@@ -317,6 +317,7 @@ fn to_json_name(name: &str) -> String {
 
 fn resolve_name<'a, 'b>(
     dependencies: &HashSet<FileIndex>,
+    files: &[FileDescriptorInner],
     names: &'a HashMap<Box<str>, Definition>,
     scope: &str,
     name: &'b str,
@@ -325,12 +326,13 @@ fn resolve_name<'a, 'b>(
     match name.strip_prefix('.') {
         Some(full_name) => ResolveNameResult::new(dependencies, names, full_name, filter),
         None if scope.is_empty() => ResolveNameResult::new(dependencies, names, name, filter),
-        None => resolve_relative_name(dependencies, names, scope, name, filter),
+        None => resolve_relative_name(dependencies, files, names, scope, name, filter),
     }
 }
 
 fn resolve_relative_name<'a, 'b>(
     dependencies: &HashSet<FileIndex>,
+    files: &[FileDescriptorInner],
     names: &'a HashMap<Box<str>, Definition>,
     scope: &str,
     relative_name: &'b str,
@@ -364,7 +366,12 @@ fn resolve_relative_name<'a, 'b>(
 
                     let res =
                         ResolveNameResult::new(dependencies, names, candidate_full.clone(), filter);
-                    if matches!(res, ResolveNameResult::NotFound) {
+                    if !is_visible(dependencies, files, candidate.as_ref(), def) {
+                        // Definitions from files which aren't imported don't shadow outer scopes.
+                        if matches!(err, ResolveNameResult::NotFound) {
+                            err = res.into_owned();
+                        }
+                    } else if matches!(res, ResolveNameResult::NotFound) {
                         return ResolveNameResult::Shadowed {
                             name: Cow::Borrowed(relative_name),
                             shadowed_name: candidate_full,
@@ -381,6 +388,24 @@ fn resolve_relative_name<'a, 'b>(
     err.into_owned()
 }
 
+/// Whether a name is declared by one of the given files. Any number of files can declare the same package.
+fn is_visible(
+    dependencies: &HashSet<FileIndex>,
+    files: &[FileDescriptorInner],
+    name: &str,
+    def: &Definition,
+) -> bool {
+    match def.kind {
+        DefinitionKind::Package => dependencies.iter().any(|&file| {
+            match files[file as usize].raw.package().strip_prefix(name) {
+                Some(rest) => rest.is_empty() || rest.starts_with('.'),
+                None => false,
+            }
+        }),
+        _ => dependencies.contains(&def.file),
+    }
+}
+
 fn resolve_relative_candidate_parents(scope: &str) -> impl Iterator<Item = &str> {
     iter::once(scope)
         .chain(scope.rmatch_indices('.').map(move |(i, _)| &scope[..i]))
diff --git a/prost-reflect/src/descriptor/build/options.rs b/prost-reflect/src/descriptor/build/options.rs
index 6aa38c9..9177eb9 100644
--- a/prost-reflect/src/descriptor/build/options.rs
+++ b/prost-reflect/src/descriptor/build/options.rs
@@ -522,6 +522,7 @@ impl OptionsVisitor<'_> {
     ) -> Result<ExtensionDescriptor, DescriptorErrorKind> {
         let (_, def) = resolve_name(
             &self.pool.inner.files[file as usize].transitive_dependencies,
+            &self.pool.inner.files,
             &self.pool.inner.names,
             scope,
             name,
diff --git a/prost-reflect/src/descriptor/build/resolve.rs b/prost-reflect/src/descriptor/build/resolve.rs
index cdda381..a391fa2 100644
--- a/prost-reflect/src/descriptor/build/resolve.rs
+++ b/prost-reflect/src/descriptor/build/resolve.rs
@@ -720,6 +720,7 @@ impl ResolveVisitor<'_> {
     ) -> Option<&Definition> {
         let (type_name, def) = match resolve_name(
             &self.pool.files[file as usize].transitive_dependencies,
+            &self.pool.files,
             &self.pool.names,
             scope,
             name,
-- 
2.43.0


From 72e1026db854687442f3778f18c6adf4ca7760d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:53 +0000
Subject: [PATCH 09/34] fix: check the wire type of map fields

---
 prost-reflect/src/dynamic/message.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/prost-reflect/src/dynamic/message.rs b/prost-reflect/src/dynamic/message.rs
index 239c4c5..e543811 100644
--- a/prost-reflect/src/dynamic/message.rs
+++ b/prost-reflect/src/dynamic/message.rs
@@ -351,6 +351,8 @@ impl Value {
                 }
             }
             (Value::Map(values), Kind::Message(map_entry)) if field_desc.is_map() => {
+                prost::encoding::check_wire_type(WireType::LengthDelimited, wire_type)?;
+
                 let key_desc = map_entry.get_field(MAP_ENTRY_KEY_NUMBER).unwrap();
                 let value_desc = map_entry.get_field(MAP_ENTRY_VALUE_NUMBER).unwrap();
 
-- 
2.43.0


From a55fe6171be179099e9be502ad18a6ded7977a56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:53 +0000
Subject: [PATCH 10/34] fix: do not drop negative zero as a default value

---
 prost-reflect/src/dynamic/mod.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/prost-reflect/src/dynamic/mod.rs b/prost-reflect/src/dynamic/mod.rs
index 57a9262..c966d1e 100644
--- a/prost-reflect/src/dynamic/mod.rs
+++ b/prost-reflect/src/dynamic/mod.rs
@@ -619,17 +619,26 @@ impl Value {
 
     /// Returns `true` if this is the default value for the given protobuf field.
     pub fn is_default_for_field(&self, field_desc: &FieldDescriptor) -> bool {
-        *self == Value::default_value_for_field(field_desc)
+        self.is_identical(&Value::default_value_for_field(field_desc))
     }
 
     /// Returns `true` if this is the default value for the given protobuf extension field.
     pub fn is_default_for_extension(&self, extension_desc: &ExtensionDescriptor) -> bool {
-        *self == Value::default_value_for_extension(extension_desc)
+        self.is_identical(&Value::default_value_for_extension(extension_desc))
     }
 
     /// Returns `true` if this is the default value for the given protobuf type `kind`.
     pub fn is_default(&self, kind: &Kind) -> bool {
-        *self == kind.default_value()
+        self.is_identical(&kind.default_value())
+    }
+
+    /// Like `==`, but distinguishes negative zero from zero, which is not a default value.
+    fn is_identical(&self, other: &Value) -> bool {
+        match (self, other) {
+            (Value::F32(a), Value::F32(b)) => a.to_bits() == b.to_bits(),
+            (Value::F64(a), Value::F64(b)) => a.to_bits() == b.to_bits(),
+            (a, b) => a == b,
+        }
     }
 
     /// Returns `true` if this value can be set for a given field.
-- 
2.43.0


From d5a57d9c8572eb5100ecfc62839693a1d5d6ef16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:32 +0000
Subject: [PATCH 11/34] fix: reject map fields whose entry has no usable key
 and value

---
 prost-reflect/src/descriptor/build/mod.rs     |  2 +
 prost-reflect/src/descriptor/build/resolve.rs | 79 ++++++++++++++++++-
 prost-reflect/src/descriptor/error.rs         | 17 ++++
 3 files changed, 96 insertions(+), 2 deletions(-)

diff --git a/prost-reflect/src/descriptor/build/mod.rs b/prost-reflect/src/descriptor/build/mod.rs
index dad31e6..be0faf1 100644
--- a/prost-reflect/src/descriptor/build/mod.rs
+++ b/prost-reflect/src/descriptor/build/mod.rs
@@ -137,11 +137,13 @@ impl DescriptorPool {
         inner.collect_names(offsets, deduped_files)?;
 
         inner.resolve_names(offsets, deduped_files)?;
+        inner.check_map_fields(offsets)?;
 
         self.resolve_options(offsets, deduped_files)?;
 
         debug_assert_eq!(Arc::strong_count(&self.inner), 1);
         let inner = Arc::get_mut(&mut self.inner).unwrap();
+        inner.check_map_fields(offsets)?;
         for file in &mut inner.files[offsets.file as usize..] {
             file.prost = file.raw.to_prost();
         }
diff --git a/prost-reflect/src/descriptor/build/resolve.rs b/prost-reflect/src/descriptor/build/resolve.rs
index a391fa2..bdad6d6 100644
--- a/prost-reflect/src/descriptor/build/resolve.rs
+++ b/prost-reflect/src/descriptor/build/resolve.rs
@@ -21,8 +21,8 @@ use crate::{
         Definition, DefinitionKind, DescriptorPoolInner, EnumIndex, EnumValueIndex,
         ExtensionDescriptorInner, ExtensionIndex, FieldDescriptorInner, FieldIndex, FileIndex,
         Identity, KindIndex, MessageIndex, MethodDescriptorInner, MethodIndex, OneofIndex,
-        ServiceDescriptorInner, ServiceIndex, RESERVED_MESSAGE_FIELD_NUMBERS,
-        VALID_MESSAGE_FIELD_NUMBERS,
+        ServiceDescriptorInner, ServiceIndex, MAP_ENTRY_KEY_NUMBER, MAP_ENTRY_VALUE_NUMBER,
+        RESERVED_MESSAGE_FIELD_NUMBERS, VALID_MESSAGE_FIELD_NUMBERS,
     },
     Cardinality, Syntax, Value,
 };
@@ -44,6 +44,81 @@ impl DescriptorPoolInner {
             Err(DescriptorError::new(visitor.errors))
         }
     }
+
+    pub(super) fn check_map_fields(
+        &self,
+        offsets: DescriptorPoolOffsets,
+    ) -> Result<(), DescriptorError> {
+        let fields = self.messages[offsets.message as usize..]
+            .iter()
+            .flat_map(|message| &message.fields)
+            .map(|field| (&field.id, field.cardinality, field.kind));
+        let extensions = self.extensions[offsets.extension as usize..]
+            .iter()
+            .map(|extension| (&extension.id, extension.cardinality, extension.kind));
+
+        let mut errors = vec![];
+        for (id, cardinality, kind) in fields.chain(extensions) {
+            match kind {
+                KindIndex::Message(entry)
+                    if cardinality == Cardinality::Repeated && !self.is_valid_map_entry(entry) =>
+                {
+                    errors.push(DescriptorErrorKind::InvalidMapEntry {
+                        name: self.messages[entry as usize].id.full_name().to_owned(),
+                        found: Label::new(
+                            &self.files,
+                            "found here",
+                            id.file,
+                            join_path(&id.path, &[tag::field::TYPE_NAME]),
+                        ),
+                    })
+                }
+                _ => continue,
+            }
+        }
+
+        if errors.is_empty() {
+            Ok(())
+        } else {
+            Err(DescriptorError::new(errors))
+        }
+    }
+
+    /// Returns `false` for a message marked as a map entry which doesn't have a usable key and value.
+    fn is_valid_map_entry(&self, index: MessageIndex) -> bool {
+        let message = &self.messages[index as usize];
+        let proto = find_message_proto(&self.files[message.id.file as usize].raw, &message.id.path);
+        if !proto.options.as_ref().is_some_and(|o| o.value.map_entry()) {
+            return true;
+        }
+
+        let singular_field = |number| {
+            let &index = message.field_numbers.get(&number)?;
+            let field = &message.fields[index as usize];
+            (field.cardinality != Cardinality::Repeated).then_some(field.kind)
+        };
+        let key_kind = singular_field(MAP_ENTRY_KEY_NUMBER);
+        let value_kind = singular_field(MAP_ENTRY_VALUE_NUMBER);
+
+        value_kind.is_some()
+            && matches!(
+                key_kind,
+                Some(
+                    KindIndex::Int32
+                        | KindIndex::Int64
+                        | KindIndex::Uint32
+                        | KindIndex::Uint64
+                        | KindIndex::Sint32
+                        | KindIndex::Sint64
+                        | KindIndex::Fixed32
+                        | KindIndex::Fixed64
+                        | KindIndex::Sfixed32
+                        | KindIndex::Sfixed64
+                        | KindIndex::Bool
+                        | KindIndex::String
+                )
+            )
+    }
 }
 
 struct ResolveVisitor<'a> {
diff --git a/prost-reflect/src/descriptor/error.rs b/prost-reflect/src/descriptor/error.rs
index 540ce2d..e5237eb 100644
--- a/prost-reflect/src/descriptor/error.rs
+++ b/prost-reflect/src/descriptor/error.rs
@@ -30,6 +30,10 @@ pub(super) enum DescriptorErrorKind {
     },
     InvalidImportIndex,
     InvalidOneofIndex,
+    InvalidMapEntry {
+        name: String,
+        found: Label,
+    },
     DuplicateName {
         name: String,
         first: Label,
@@ -314,6 +318,7 @@ impl DescriptorErrorKind {
             DescriptorErrorKind::FileNotFound { found, .. } => Some(found),
             DescriptorErrorKind::InvalidImportIndex => None,
             DescriptorErrorKind::InvalidOneofIndex => None,
+            DescriptorErrorKind::InvalidMapEntry { found, .. } => Some(found),
             DescriptorErrorKind::DuplicateName { second, .. } => Some(second),
             DescriptorErrorKind::DuplicateFieldNumber { second, .. } => Some(second),
             DescriptorErrorKind::DuplicateFieldJsonName { second, .. } => Some(second),
@@ -355,6 +360,9 @@ impl DescriptorErrorKind {
             }
             DescriptorErrorKind::InvalidImportIndex => {}
             DescriptorErrorKind::InvalidOneofIndex => {}
+            DescriptorErrorKind::InvalidMapEntry { found, .. } => {
+                found.resolve_span(file, source);
+            }
             DescriptorErrorKind::DuplicateName { first, second, .. } => {
                 first.resolve_span(file, source);
                 second.resolve_span(file, source);
@@ -465,6 +473,9 @@ impl fmt::Display for DescriptorErrorKind {
             DescriptorErrorKind::InvalidOneofIndex => {
                 write!(f, "invalid oneof index")
             }
+            DescriptorErrorKind::InvalidMapEntry { name, .. } => {
+                write!(f, "invalid map entry '{name}'")
+            }
             DescriptorErrorKind::DuplicateName {
                 name,
                 first,
@@ -624,6 +635,9 @@ impl miette::Diagnostic for DescriptorErrorKind {
             DescriptorErrorKind::FileNotFound { .. } => None,
             DescriptorErrorKind::InvalidImportIndex => None,
             DescriptorErrorKind::InvalidOneofIndex => None,
+            DescriptorErrorKind::InvalidMapEntry { .. } => Some(Box::new(
+                "a map entry has a key field with number 1 of an integral, bool or string type, and a value field with number 2",
+            )),
             DescriptorErrorKind::DuplicateName { .. } => None,
             DescriptorErrorKind::DuplicateFieldNumber { .. } => None,
             DescriptorErrorKind::InvalidFieldNumber { number, .. } => {
@@ -683,6 +697,9 @@ impl miette::Diagnostic for DescriptorErrorKind {
             }
             DescriptorErrorKind::InvalidImportIndex => {}
             DescriptorErrorKind::InvalidOneofIndex => {}
+            DescriptorErrorKind::InvalidMapEntry { found, .. } => {
+                spans.extend(found.to_span());
+            }
             DescriptorErrorKind::DuplicateName { first, second, .. } => {
                 spans.extend(first.to_span());
                 spans.extend(second.to_span());
-- 
2.43.0


From 103eaf8aff938b3206a3cdd7961641a918429aac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:32 +0000
Subject: [PATCH 12/34] fix: report an invalid descriptor file instead of
 panicking

---
 prost-reflect-build/src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/prost-reflect-build/src/lib.rs b/prost-reflect-build/src/lib.rs
index 0ef95f1..d460c1e 100644
--- a/prost-reflect-build/src/lib.rs
+++ b/prost-reflect-build/src/lib.rs
@@ -149,7 +149,8 @@ impl Builder {
             .compile_protos(protos, includes)?;
 
         let buf = fs::read(&self.file_descriptor_set_path)?;
-        let descriptor = DescriptorPool::decode(buf.as_ref()).expect("Invalid file descriptor");
+        let descriptor = DescriptorPool::decode(buf.as_ref())
+            .map_err(|err| io::Error::new(io::ErrorKind::InvalidData, err))?;
 
         let pool_attribute = if let Some(descriptor_pool) = &self.descriptor_pool_expr {
             format!(r#"#[prost_reflect(descriptor_pool = "{descriptor_pool}")]"#,)
-- 
2.43.0


From 7acbaebbccc23412a84059a8c79a86c3d2d4ada1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:10 +0000
Subject: [PATCH 13/34] fix: end the debug output of messages of recursive
 types

---
 prost-reflect/src/dynamic/mod.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/prost-reflect/src/dynamic/mod.rs b/prost-reflect/src/dynamic/mod.rs
index c966d1e..394f105 100644
--- a/prost-reflect/src/dynamic/mod.rs
+++ b/prost-reflect/src/dynamic/mod.rs
@@ -36,7 +36,7 @@ use crate::{
 ///
 /// It wraps a [`MessageDescriptor`] and the [`Value`] for each field of the message, and implements
 /// [`Message`][`prost::Message`].
-#[derive(Debug, Clone, PartialEq)]
+#[derive(Clone, PartialEq)]
 pub struct DynamicMessage {
     desc: MessageDescriptor,
     fields: DynamicMessageFieldSet,
@@ -107,6 +107,17 @@ pub enum SetFieldError {
     },
 }
 
+impl fmt::Debug for DynamicMessage {
+    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
+        // The descriptor's own output contains the default values of its fields, so printing it
+        // here would not end for a message type that contains itself.
+        f.debug_struct("DynamicMessage")
+            .field("desc", &format_args!("{}", self.desc.full_name()))
+            .field("fields", &self.fields)
+            .finish()
+    }
+}
+
 impl DynamicMessage {
     /// Creates a new, empty instance of [`DynamicMessage`] for the message type specified by the [`MessageDescriptor`].
     pub fn new(desc: MessageDescriptor) -> Self {
-- 
2.43.0


From 85d7595260c280b8a5515fc1742e5e960f554eee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:02 +0000
Subject: [PATCH 14/34] fix: reject definitions whose name has an empty part

---
 prost-reflect/src/descriptor/build/names.rs |  8 ++++++++
 prost-reflect/src/descriptor/error.rs       | 15 +++++++++++++++
 2 files changed, 23 insertions(+)

diff --git a/prost-reflect/src/descriptor/build/names.rs b/prost-reflect/src/descriptor/build/names.rs
index f29650b..66f3699 100644
--- a/prost-reflect/src/descriptor/build/names.rs
+++ b/prost-reflect/src/descriptor/build/names.rs
@@ -338,6 +338,14 @@ impl NameVisitor<'_> {
     ) {
         let path = join_path(path1, path2);
 
+        if name.split('.').any(str::is_empty) {
+            self.errors.push(DescriptorErrorKind::InvalidName {
+                name: name.to_owned(),
+                found: Label::new(&self.pool.files, "found here", file, path),
+            });
+            return;
+        }
+
         match self.pool.names.entry(name.into()) {
             hash_map::Entry::Vacant(entry) => {
                 entry.insert(Definition { file, kind, path });
diff --git a/prost-reflect/src/descriptor/error.rs b/prost-reflect/src/descriptor/error.rs
index e5237eb..e00a33e 100644
--- a/prost-reflect/src/descriptor/error.rs
+++ b/prost-reflect/src/descriptor/error.rs
@@ -21,6 +21,10 @@ pub(super) enum DescriptorErrorKind {
         syntax: String,
         found: Label,
     },
+    InvalidName {
+        name: String,
+        found: Label,
+    },
     DuplicateFileName {
         name: String,
     },
@@ -314,6 +318,7 @@ impl DescriptorErrorKind {
         match self {
             DescriptorErrorKind::MissingRequiredField { label } => Some(label),
             DescriptorErrorKind::UnknownSyntax { found, .. } => Some(found),
+            DescriptorErrorKind::InvalidName { found, .. } => Some(found),
             DescriptorErrorKind::DuplicateFileName { .. } => None,
             DescriptorErrorKind::FileNotFound { found, .. } => Some(found),
             DescriptorErrorKind::InvalidImportIndex => None,
@@ -354,6 +359,9 @@ impl DescriptorErrorKind {
             DescriptorErrorKind::UnknownSyntax { found, .. } => {
                 found.resolve_span(file, source);
             }
+            DescriptorErrorKind::InvalidName { found, .. } => {
+                found.resolve_span(file, source);
+            }
             DescriptorErrorKind::DuplicateFileName { .. } => {}
             DescriptorErrorKind::FileNotFound { found, .. } => {
                 found.resolve_span(file, source);
@@ -461,6 +469,9 @@ impl fmt::Display for DescriptorErrorKind {
             DescriptorErrorKind::UnknownSyntax { syntax, .. } => {
                 write!(f, "unknown syntax '{syntax}'")
             }
+            DescriptorErrorKind::InvalidName { name, .. } => {
+                write!(f, "name '{name}' is not valid")
+            }
             DescriptorErrorKind::DuplicateFileName { name, .. } => {
                 write!(f, "a different file named '{name}' has already been added")
             }
@@ -631,6 +642,7 @@ impl miette::Diagnostic for DescriptorErrorKind {
             DescriptorErrorKind::UnknownSyntax { .. } => {
                 Some(Box::new("valid values are 'proto2' and 'proto3'"))
             }
+            DescriptorErrorKind::InvalidName { .. } => None,
             DescriptorErrorKind::DuplicateFileName { .. } => None,
             DescriptorErrorKind::FileNotFound { .. } => None,
             DescriptorErrorKind::InvalidImportIndex => None,
@@ -691,6 +703,9 @@ impl miette::Diagnostic for DescriptorErrorKind {
             DescriptorErrorKind::UnknownSyntax { found: defined, .. } => {
                 spans.extend(defined.to_span());
             }
+            DescriptorErrorKind::InvalidName { found, .. } => {
+                spans.extend(found.to_span());
+            }
             DescriptorErrorKind::DuplicateFileName { .. } => {}
             DescriptorErrorKind::FileNotFound { found, .. } => {
                 spans.extend(found.to_span());
-- 
2.43.0


From 45005d3ef463886f207f7000dbeaf44bdbad5c61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:57 +0000
Subject: [PATCH 15/34] fix: check map entries used as groups

---
 prost-reflect/src/descriptor/build/resolve.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prost-reflect/src/descriptor/build/resolve.rs b/prost-reflect/src/descriptor/build/resolve.rs
index bdad6d6..30de42c 100644
--- a/prost-reflect/src/descriptor/build/resolve.rs
+++ b/prost-reflect/src/descriptor/build/resolve.rs
@@ -60,7 +60,7 @@ impl DescriptorPoolInner {
         let mut errors = vec![];
         for (id, cardinality, kind) in fields.chain(extensions) {
             match kind {
-                KindIndex::Message(entry)
+                KindIndex::Message(entry) | KindIndex::Group(entry)
                     if cardinality == Cardinality::Repeated && !self.is_valid_map_entry(entry) =>
                 {
                     errors.push(DescriptorErrorKind::InvalidMapEntry {
-- 
2.43.0


From 8208069c8f6cf8fe74afee34ba62c126b53467e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:34 +0000
Subject: [PATCH 16/34] fix: refuse a second extension with the number of an
 existing one

---
 prost-reflect/src/descriptor/build/resolve.rs | 23 +++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/prost-reflect/src/descriptor/build/resolve.rs b/prost-reflect/src/descriptor/build/resolve.rs
index 30de42c..4377e7d 100644
--- a/prost-reflect/src/descriptor/build/resolve.rs
+++ b/prost-reflect/src/descriptor/build/resolve.rs
@@ -440,6 +440,29 @@ impl Visitor for ResolveVisitor<'_> {
             tag::field::EXTENDEE,
         );
         if let Some(extendee) = extendee {
+            let existing = self.pool.messages[extendee as usize]
+                .extensions
+                .iter()
+                .map(|&existing| &self.pool.extensions[existing as usize])
+                .find(|existing| existing.number == extension.number() as u32);
+            if let Some(existing) = existing {
+                self.errors.push(DescriptorErrorKind::DuplicateFieldNumber {
+                    number: extension.number() as u32,
+                    first: Label::new(
+                        &self.pool.files,
+                        "first defined here",
+                        existing.id.file,
+                        join_path(&existing.id.path, &[tag::field::NUMBER]),
+                    ),
+                    second: Label::new(
+                        &self.pool.files,
+                        "defined again here",
+                        file,
+                        join_path(path, &[tag::field::NUMBER]),
+                    ),
+                });
+            }
+
             self.pool.messages[extendee as usize].extensions.push(index);
 
             self.check_field_number(extendee, extension, file, path);
-- 
2.43.0


From 2bd60848c72184d1352ea15c0acb7d71654e13d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:40 +0000
Subject: [PATCH 17/34] fix: do not panic on options that a later descriptor is
 incompatible with

---
 prost-reflect/src/descriptor/api.rs  |  5 +++-
 prost-reflect/src/dynamic/message.rs | 34 +++++++++++++++++++++++++++-
 2 files changed, 37 insertions(+), 2 deletions(-)

diff --git a/prost-reflect/src/descriptor/api.rs b/prost-reflect/src/descriptor/api.rs
index bb82718..e57a352 100644
--- a/prost-reflect/src/descriptor/api.rs
+++ b/prost-reflect/src/descriptor/api.rs
@@ -1962,7 +1962,10 @@ fn decode_options<T>(
         .as_ref()
         .map(|o| o.encoded.as_slice())
         .unwrap_or_default();
-    DynamicMessage::decode(message_desc, bytes).unwrap()
+    // The options may be incompatible with descriptors which were added after them.
+    DynamicMessage::decode(message_desc.clone(), bytes)
+        .or_else(|_| DynamicMessage::decode_incompatible(message_desc, bytes))
+        .unwrap()
 }
 
 fn find_message_proto_prost<'a>(
diff --git a/prost-reflect/src/dynamic/message.rs b/prost-reflect/src/dynamic/message.rs
index e543811..971a77b 100644
--- a/prost-reflect/src/dynamic/message.rs
+++ b/prost-reflect/src/dynamic/message.rs
@@ -1,3 +1,5 @@
+use std::collections::HashSet;
+
 use prost::{
     bytes::{Buf, BufMut},
     encoding::{DecodeContext, WireType},
@@ -6,7 +8,7 @@ use prost::{
 
 use crate::{
     descriptor::{FieldDescriptor, Kind, MAP_ENTRY_KEY_NUMBER, MAP_ENTRY_VALUE_NUMBER},
-    DynamicMessage, MapKey, Value,
+    DynamicMessage, MapKey, MessageDescriptor, Value,
 };
 
 use super::{
@@ -80,6 +82,36 @@ impl Message for DynamicMessage {
     }
 }
 
+impl DynamicMessage {
+    /// Decodes a message, keeping any fields which can't be decoded as their declared type as unknown fields.
+    pub(crate) fn decode_incompatible(
+        desc: MessageDescriptor,
+        mut buf: &[u8],
+    ) -> Result<Self, DecodeError> {
+        let mut fields = Vec::new();
+        let mut incompatible = HashSet::new();
+        while !buf.is_empty() {
+            let start = buf;
+            let field = UnknownField::decode(&mut buf, DecodeContext::default())?;
+            let bytes = &start[..start.len() - buf.len()];
+            if DynamicMessage::decode(desc.clone(), bytes).is_err() {
+                incompatible.insert(field.number());
+            }
+            fields.push((field, bytes));
+        }
+
+        let mut message = DynamicMessage::new(desc);
+        for (field, bytes) in fields {
+            if incompatible.contains(&field.number()) {
+                message.fields.add_unknown(field.number(), field);
+            } else {
+                message.merge(bytes)?;
+            }
+        }
+        Ok(message)
+    }
+}
+
 impl Value {
     pub(super) fn encode_field<B>(&self, field_desc: &impl FieldDescriptorLike, buf: &mut B)
     where
-- 
2.43.0


From 84f583ffbac36b3056fa9bd4f9f3a311f0a893df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:31 +0000
Subject: [PATCH 18/34] fix: check the number of a field that names an extendee

---
 prost-reflect/src/descriptor/build/resolve.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/prost-reflect/src/descriptor/build/resolve.rs b/prost-reflect/src/descriptor/build/resolve.rs
index 4377e7d..4343863 100644
--- a/prost-reflect/src/descriptor/build/resolve.rs
+++ b/prost-reflect/src/descriptor/build/resolve.rs
@@ -182,7 +182,7 @@ impl Visitor for ResolveVisitor<'_> {
 
         let syntax = self.pool.files[file as usize].syntax;
 
-        self.check_field_number(message, field, file, path);
+        self.check_field_number(message, field, false, file, path);
 
         let cardinality = match field.label() {
             field_descriptor_proto::Label::Optional => Cardinality::Optional,
@@ -465,7 +465,7 @@ impl Visitor for ResolveVisitor<'_> {
 
             self.pool.messages[extendee as usize].extensions.push(index);
 
-            self.check_field_number(extendee, extension, file, path);
+            self.check_field_number(extendee, extension, true, file, path);
         }
 
         let syntax = self.pool.files[file as usize].syntax;
@@ -527,6 +527,7 @@ impl ResolveVisitor<'_> {
         &mut self,
         message: MessageIndex,
         field: &FieldDescriptorProto,
+        is_extension: bool,
         file: FileIndex,
         path: &[i32],
     ) {
@@ -576,9 +577,9 @@ impl ResolveVisitor<'_> {
             .iter()
             .enumerate()
             .find(|(_, range)| range.start() <= field.number() && field.number() < range.end());
-        match (&field.extendee, extension_range) {
-            (None, None) | (Some(_), Some(_)) => (),
-            (None, Some((i, range))) => {
+        match (is_extension, extension_range) {
+            (false, None) | (true, Some(_)) => (),
+            (false, Some((i, range))) => {
                 self.errors
                     .push(DescriptorErrorKind::FieldNumberInExtensionRange {
                         number: field.number(),
@@ -597,7 +598,7 @@ impl ResolveVisitor<'_> {
                         ),
                     });
             }
-            (Some(_), None) => {
+            (true, None) => {
                 self.errors
                     .push(DescriptorErrorKind::ExtensionNumberOutOfRange {
                         number: field.number(),
-- 
2.43.0


From c93d5ac369eb20a69a7e692f7b361980b5355fcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:25 +0000
Subject: [PATCH 19/34] fix: accept a list of messages without a colon in the
 text format

---
 prost-reflect/src/dynamic/text_format/parse/mod.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/prost-reflect/src/dynamic/text_format/parse/mod.rs b/prost-reflect/src/dynamic/text_format/parse/mod.rs
index c15153e..2ef610a 100644
--- a/prost-reflect/src/dynamic/text_format/parse/mod.rs
+++ b/prost-reflect/src/dynamic/text_format/parse/mod.rs
@@ -69,11 +69,14 @@ impl<'a> Parser<'a> {
     fn parse_field(&mut self, message: &mut DynamicMessage) -> Result<(), ParseErrorKind> {
         let (name, span) = self.parse_field_name()?;
 
+        // The ':' may be left out before a message value or a list of message values.
+        let mut needs_colon = false;
         match self.peek()? {
             Some((Token::Colon, _)) => {
                 self.bump();
             }
             Some((Token::LeftBrace | Token::LeftAngleBracket, _)) => (),
+            Some((Token::LeftBracket, _)) => needs_colon = true,
             _ => self.unexpected_token("':' or a message value")?,
         };
 
@@ -87,6 +90,9 @@ impl<'a> Parser<'a> {
                     }
                 })?;
 
+                if needs_colon && field.kind().as_message().is_none() {
+                    self.unexpected_token("':' or a message value")?
+                }
                 self.parse_field_value(message, &field)?;
             }
             FieldName::Extension(extension_name) => {
@@ -99,6 +105,9 @@ impl<'a> Parser<'a> {
                         span,
                     })?;
 
+                if needs_colon && extension.kind().as_message().is_none() {
+                    self.unexpected_token("':' or a message value")?
+                }
                 self.parse_field_value(message, &extension)?;
             }
             FieldName::Any(domain, message_name) => {
-- 
2.43.0


From 0568a6fa7e94aa5caca76b8b16f0dafe2f25d8ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:15 +0000
Subject: [PATCH 20/34] fix: limit the nesting of messages in the text format

---
 prost-reflect/src/dynamic/text_format/parse/error.rs |  7 +++++++
 prost-reflect/src/dynamic/text_format/parse/mod.rs   | 11 +++++++++++
 2 files changed, 18 insertions(+)

diff --git a/prost-reflect/src/dynamic/text_format/parse/error.rs b/prost-reflect/src/dynamic/text_format/parse/error.rs
index dfc909c..18b6a31 100644
--- a/prost-reflect/src/dynamic/text_format/parse/error.rs
+++ b/prost-reflect/src/dynamic/text_format/parse/error.rs
@@ -112,6 +112,10 @@ pub(crate) enum ParseErrorKind {
         span: Span,
     },
     InvalidMapKey,
+    RecursionLimitReached {
+        #[cfg_attr(feature = "miette", label("found here"))]
+        span: Span,
+    },
 }
 
 impl Display for ParseErrorKind {
@@ -179,6 +183,9 @@ impl Display for ParseErrorKind {
                 "the field type must be 'google.protobuf.Any' to use Any expansion syntax"
             ),
             ParseErrorKind::InvalidMapKey => write!(f, "invalid value type for map key"),
+            ParseErrorKind::RecursionLimitReached { .. } => {
+                write!(f, "messages are nested too deeply")
+            }
         }
     }
 }
diff --git a/prost-reflect/src/dynamic/text_format/parse/mod.rs b/prost-reflect/src/dynamic/text_format/parse/mod.rs
index 2ef610a..a0577a9 100644
--- a/prost-reflect/src/dynamic/text_format/parse/mod.rs
+++ b/prost-reflect/src/dynamic/text_format/parse/mod.rs
@@ -21,8 +21,12 @@ use crate::{
 pub(in crate::dynamic::text_format) struct Parser<'a> {
     lexer: Lexer<'a, Token<'a>>,
     peek: Option<Result<(Token<'a>, Span), ParseErrorKind>>,
+    depth: u32,
 }
 
+/// The same limit applies to nested messages in the binary format.
+const RECURSION_LIMIT: u32 = 100;
+
 enum FieldName {
     Ident(String),
     Extension(String),
@@ -34,6 +38,7 @@ impl<'a> Parser<'a> {
         Parser {
             lexer: Token::lexer(input),
             peek: None,
+            depth: 0,
         }
     }
 
@@ -54,11 +59,17 @@ impl<'a> Parser<'a> {
             _ => self.unexpected_token("'{' or '<'")?,
         };
 
+        if self.depth == RECURSION_LIMIT {
+            return Err(ParseErrorKind::RecursionLimitReached { span: start });
+        }
+        self.depth += 1;
+
         loop {
             match self.peek()? {
                 Some((Token::Ident(_) | Token::LeftBracket, _)) => self.parse_field(message)?,
                 Some((tok, _)) if tok == terminator => {
                     let end = self.bump();
+                    self.depth -= 1;
                     return Ok(join_span(start, end));
                 }
                 _ => self.unexpected_token(format!("'{terminator}' or a field name"))?,
-- 
2.43.0


From f8bd0ff2a474ec6a765324160a8a9bff31eba893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:15 +0000
Subject: [PATCH 21/34] fix: only print an expanded Any when its type url can
 be parsed back

---
 .../src/dynamic/text_format/format.rs         | 21 +++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/prost-reflect/src/dynamic/text_format/format.rs b/prost-reflect/src/dynamic/text_format/format.rs
index 0f168f9..dd4f626 100644
--- a/prost-reflect/src/dynamic/text_format/format.rs
+++ b/prost-reflect/src/dynamic/text_format/format.rs
@@ -303,6 +303,9 @@ fn as_any(message: &DynamicMessage) -> Option<(String, DynamicMessage)> {
 
     let any = message.transcode_to::<prost_types::Any>().ok()?;
     let message_name = get_type_url_message_name(&any.type_url).ok()?;
+    if !is_expandable_type_url(&any.type_url) {
+        return None;
+    }
 
     let desc = message
         .desc
@@ -312,6 +315,24 @@ fn as_any(message: &DynamicMessage) -> Option<(String, DynamicMessage)> {
     Some((any.type_url, body))
 }
 
+/// Whether the parser accepts the type url within brackets, as a domain and a message name
+/// which are both made up of identifiers separated by dots.
+fn is_expandable_type_url(type_url: &str) -> bool {
+    fn is_full_ident(s: &str) -> bool {
+        s.split('.').all(|ident| {
+            ident.starts_with(|ch: char| ch.is_ascii_alphabetic() || ch == '_')
+                && ident
+                    .chars()
+                    .all(|ch| ch.is_ascii_alphanumeric() || ch == '_')
+        })
+    }
+
+    match type_url.split_once('/') {
+        Some((domain, message_name)) => is_full_ident(domain) && is_full_ident(message_name),
+        None => false,
+    }
+}
+
 #[cfg(test)]
 #[cfg(feature = "text-format")]
 mod tests {
-- 
2.43.0


From dd1110d7749bd75c95ca0e40a27bc5cf25df0aea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:13 +0000
Subject: [PATCH 22/34] fix: write non-finite FloatValue and DoubleValue as
 strings in JSON

---
 prost-reflect/src/dynamic/serde/ser/mod.rs | 55 ++++++++++++----------
 prost-reflect/src/dynamic/serde/ser/wkt.rs |  6 +--
 2 files changed, 34 insertions(+), 27 deletions(-)

diff --git a/prost-reflect/src/dynamic/serde/ser/mod.rs b/prost-reflect/src/dynamic/serde/ser/mod.rs
index 7da55a2..e52a5f0 100644
--- a/prost-reflect/src/dynamic/serde/ser/mod.rs
+++ b/prost-reflect/src/dynamic/serde/ser/mod.rs
@@ -89,6 +89,35 @@ where
     Ok(())
 }
 
+/// Serializes a finite number as is, and any other value as the name the JSON mapping gives it.
+fn serialize_f32<S>(value: f32, serializer: S) -> Result<S::Ok, S::Error>
+where
+    S: Serializer,
+{
+    if value.is_finite() {
+        serializer.serialize_f32(value)
+    } else {
+        serialize_f64(value as f64, serializer)
+    }
+}
+
+/// Serializes a finite number as is, and any other value as the name the JSON mapping gives it.
+fn serialize_f64<S>(value: f64, serializer: S) -> Result<S::Ok, S::Error>
+where
+    S: Serializer,
+{
+    if value.is_finite() {
+        serializer.serialize_f64(value)
+    } else if value == f64::INFINITY {
+        serializer.serialize_str("Infinity")
+    } else if value == f64::NEG_INFINITY {
+        serializer.serialize_str("-Infinity")
+    } else {
+        debug_assert!(value.is_nan());
+        serializer.serialize_str("NaN")
+    }
+}
+
 struct ValueAndKind<'a> {
     value: &'a Value,
     kind: &'a Kind,
@@ -117,30 +146,8 @@ impl<'a> Serialize for SerializeWrapper<'a, ValueAndKind<'a>> {
                     serializer.serialize_u64(*value)
                 }
             }
-            Value::F32(value) => {
-                if value.is_finite() {
-                    serializer.serialize_f32(*value)
-                } else if *value == f32::INFINITY {
-                    serializer.serialize_str("Infinity")
-                } else if *value == f32::NEG_INFINITY {
-                    serializer.serialize_str("-Infinity")
-                } else {
-                    debug_assert!(value.is_nan());
-                    serializer.serialize_str("NaN")
-                }
-            }
-            Value::F64(value) => {
-                if value.is_finite() {
-                    serializer.serialize_f64(*value)
-                } else if *value == f64::INFINITY {
-                    serializer.serialize_str("Infinity")
-                } else if *value == f64::NEG_INFINITY {
-                    serializer.serialize_str("-Infinity")
-                } else {
-                    debug_assert!(value.is_nan());
-                    serializer.serialize_str("NaN")
-                }
-            }
+            Value::F32(value) => serialize_f32(*value, serializer),
+            Value::F64(value) => serialize_f64(*value, serializer),
             Value::String(value) => serializer.serialize_str(value),
             Value::Bytes(value) => {
                 serializer.collect_str(&Base64Display::new(value, &BASE64_STANDARD))
diff --git a/prost-reflect/src/dynamic/serde/ser/wkt.rs b/prost-reflect/src/dynamic/serde/ser/wkt.rs
index 423ef26..64ecdd2 100644
--- a/prost-reflect/src/dynamic/serde/ser/wkt.rs
+++ b/prost-reflect/src/dynamic/serde/ser/wkt.rs
@@ -14,7 +14,7 @@ use crate::{
     ReflectMessage,
 };
 
-use super::{serialize_dynamic_message_fields, SerializeWrapper};
+use super::{serialize_dynamic_message_fields, serialize_f32, serialize_f64, SerializeWrapper};
 
 #[allow(type_alias_bounds)]
 type WellKnownTypeSerializer<S: Serializer> =
@@ -131,7 +131,7 @@ where
 {
     let raw: f32 = msg.transcode_to().map_err(decode_to_ser_err)?;
 
-    serializer.serialize_f32(raw)
+    serialize_f32(raw, serializer)
 }
 
 fn serialize_double<S>(
@@ -144,7 +144,7 @@ where
 {
     let raw: f64 = msg.transcode_to().map_err(decode_to_ser_err)?;
 
-    serializer.serialize_f64(raw)
+    serialize_f64(raw, serializer)
 }
 
 fn serialize_int32<S>(
-- 
2.43.0


From 97b50e5cb9b2a527f482f7c752fb39850e4a7c45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:13 +0000
Subject: [PATCH 23/34] fix: accept the largest float in its shortest JSON form

---
 prost-reflect/src/dynamic/serde/de/kind.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/prost-reflect/src/dynamic/serde/de/kind.rs b/prost-reflect/src/dynamic/serde/de/kind.rs
index 4fc2fb5..f5e0c64 100644
--- a/prost-reflect/src/dynamic/serde/de/kind.rs
+++ b/prost-reflect/src/dynamic/serde/de/kind.rs
@@ -213,10 +213,11 @@ impl Visitor<'_> for FloatVisitor {
     where
         E: Error,
     {
-        if v < (f32::MIN as f64) || v > (f32::MAX as f64) {
+        let value = v as f32;
+        if v.is_finite() && value.is_infinite() {
             Err(Error::custom("float value out of range"))
         } else {
-            Ok(v as f32)
+            Ok(value)
         }
     }
 
-- 
2.43.0


From 895a2ac1657e8f89dfac1bf87a31ab437b41907a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:13 +0000
Subject: [PATCH 24/34] fix: do not panic on null for a repeated Value or
 NullValue field

---
 prost-reflect/src/dynamic/serde/de/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/prost-reflect/src/dynamic/serde/de/mod.rs b/prost-reflect/src/dynamic/serde/de/mod.rs
index 3c16423..9ef97f3 100644
--- a/prost-reflect/src/dynamic/serde/de/mod.rs
+++ b/prost-reflect/src/dynamic/serde/de/mod.rs
@@ -169,6 +169,10 @@ where
     where
         E: Error,
     {
+        if self.0.is_list() {
+            return Ok(None);
+        }
+
         match self.0.kind() {
             Kind::Message(message_desc) if message_desc.full_name() == "google.protobuf.Value" => {
                 make_message(
-- 
2.43.0


From 358200d058d023ebf00507a1e569aad4d1409b6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:13 +0000
Subject: [PATCH 25/34] fix: refuse JSON numbers just beyond the 64-bit integer
 range

---
 prost-reflect/src/dynamic/serde/de/kind.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/prost-reflect/src/dynamic/serde/de/kind.rs b/prost-reflect/src/dynamic/serde/de/kind.rs
index f5e0c64..351dfe9 100644
--- a/prost-reflect/src/dynamic/serde/de/kind.rs
+++ b/prost-reflect/src/dynamic/serde/de/kind.rs
@@ -400,7 +400,8 @@ impl Visitor<'_> for Int64Visitor {
             return Err(Error::custom("expected integer value"));
         }
 
-        if v < (i64::MIN as f64) || v > (i64::MAX as f64) {
+        // i64::MAX is rounded up to 2^63 when converted to f64
+        if v < (i64::MIN as f64) || v >= (i64::MAX as f64) {
             return Err(Error::custom("float value out of range"));
         }
 
@@ -447,7 +448,8 @@ impl Visitor<'_> for Uint64Visitor {
             return Err(Error::custom("expected integer value"));
         }
 
-        if v < (u64::MIN as f64) || v > (u64::MAX as f64) {
+        // u64::MAX is rounded up to 2^64 when converted to f64
+        if v < (u64::MIN as f64) || v >= (u64::MAX as f64) {
             return Err(Error::custom("float value out of range"));
         }
 
-- 
2.43.0


From c3cbbe84aeb0a6f8d20967cced700a4af7ffa489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:13 +0000
Subject: [PATCH 26/34] fix: refuse JSON strings that are out of range for a
 float field

---
 prost-reflect/src/dynamic/serde/de/kind.rs | 30 +++++++++++++---------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/prost-reflect/src/dynamic/serde/de/kind.rs b/prost-reflect/src/dynamic/serde/de/kind.rs
index 351dfe9..9de2318 100644
--- a/prost-reflect/src/dynamic/serde/de/kind.rs
+++ b/prost-reflect/src/dynamic/serde/de/kind.rs
@@ -183,12 +183,15 @@ impl Visitor<'_> for DoubleVisitor {
     where
         E: Error,
     {
-        match f64::from_str(v) {
-            Ok(value) => Ok(value),
-            Err(_) if v == "Infinity" => Ok(f64::INFINITY),
-            Err(_) if v == "-Infinity" => Ok(f64::NEG_INFINITY),
-            Err(_) if v == "NaN" => Ok(f64::NAN),
-            Err(err) => Err(Error::custom(err)),
+        match v {
+            "Infinity" => Ok(f64::INFINITY),
+            "-Infinity" => Ok(f64::NEG_INFINITY),
+            "NaN" => Ok(f64::NAN),
+            _ => match f64::from_str(v) {
+                Ok(value) if value.is_finite() => Ok(value),
+                Ok(_) => Err(Error::custom("float value out of range")),
+                Err(err) => Err(Error::custom(err)),
+            },
         }
     }
 }
@@ -241,12 +244,15 @@ impl Visitor<'_> for FloatVisitor {
     where
         E: Error,
     {
-        match f32::from_str(v) {
-            Ok(value) => Ok(value),
-            Err(_) if v == "Infinity" => Ok(f32::INFINITY),
-            Err(_) if v == "-Infinity" => Ok(f32::NEG_INFINITY),
-            Err(_) if v == "NaN" => Ok(f32::NAN),
-            Err(err) => Err(Error::custom(err)),
+        match v {
+            "Infinity" => Ok(f32::INFINITY),
+            "-Infinity" => Ok(f32::NEG_INFINITY),
+            "NaN" => Ok(f32::NAN),
+            _ => match f32::from_str(v) {
+                Ok(value) if value.is_finite() => Ok(value),
+                Ok(_) => Err(Error::custom("float value out of range")),
+                Err(err) => Err(Error::custom(err)),
+            },
         }
     }
 }
-- 
2.43.0


From 46204c5dcddfa548f46fc97248cb33a38a087188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:13 +0000
Subject: [PATCH 27/34] fix: ignore unknown members of google.protobuf.Empty if
 told to

---
 prost-reflect/src/dynamic/serde/de/mod.rs |  2 +-
 prost-reflect/src/dynamic/serde/de/wkt.rs | 10 ++++++----
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/prost-reflect/src/dynamic/serde/de/mod.rs b/prost-reflect/src/dynamic/serde/de/mod.rs
index 9ef97f3..9c25234 100644
--- a/prost-reflect/src/dynamic/serde/de/mod.rs
+++ b/prost-reflect/src/dynamic/serde/de/mod.rs
@@ -69,7 +69,7 @@ where
             .deserialize_any(wkt::GoogleProtobufValueVisitor)
             .and_then(|value| make_message(desc, value)),
         "google.protobuf.Empty" => deserializer
-            .deserialize_map(wkt::GoogleProtobufEmptyVisitor)
+            .deserialize_map(wkt::GoogleProtobufEmptyVisitor(options))
             .and_then(|empty| make_message(desc, empty)),
         _ => deserializer.deserialize_map(kind::MessageVisitor(desc, options)),
     }
diff --git a/prost-reflect/src/dynamic/serde/de/wkt.rs b/prost-reflect/src/dynamic/serde/de/wkt.rs
index 03217a7..9344bfc 100644
--- a/prost-reflect/src/dynamic/serde/de/wkt.rs
+++ b/prost-reflect/src/dynamic/serde/de/wkt.rs
@@ -33,7 +33,7 @@ pub struct GoogleProtobufFieldMaskVisitor;
 pub struct GoogleProtobufListVisitor;
 pub struct GoogleProtobufStructVisitor;
 pub struct GoogleProtobufValueVisitor;
-pub struct GoogleProtobufEmptyVisitor;
+pub struct GoogleProtobufEmptyVisitor<'a>(pub &'a DeserializeOptions);
 
 impl<'de> Visitor<'de> for GoogleProtobufAnyVisitor<'_> {
     type Value = prost_types::Any;
@@ -347,15 +347,17 @@ impl<'de> Visitor<'de> for GoogleProtobufValueVisitor {
     }
 }
 
-impl<'de> Visitor<'de> for GoogleProtobufEmptyVisitor {
+impl<'de> Visitor<'de> for GoogleProtobufEmptyVisitor<'_> {
     type Value = ();
 
     fn visit_map<A>(self, mut map: A) -> Result<Self::Value, A::Error>
     where
         A: MapAccess<'de>,
     {
-        if map.next_entry::<IgnoredAny, IgnoredAny>()?.is_some() {
-            return Err(Error::custom("unexpected value in map"));
+        while map.next_entry::<IgnoredAny, IgnoredAny>()?.is_some() {
+            if self.0.deny_unknown_fields {
+                return Err(Error::custom("unexpected value in map"));
+            }
         }
 
         Ok(())
-- 
2.43.0


From bc359f28fc67e24b328ac606a4ef0c7881d2b309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:13 +0000
Subject: [PATCH 28/34] fix: refuse to write a duration or timestamp with
 invalid nanoseconds as JSON

---
 prost-reflect/src/dynamic/serde/mod.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/prost-reflect/src/dynamic/serde/mod.rs b/prost-reflect/src/dynamic/serde/mod.rs
index 8139977..6bad56c 100644
--- a/prost-reflect/src/dynamic/serde/mod.rs
+++ b/prost-reflect/src/dynamic/serde/mod.rs
@@ -261,6 +261,7 @@ const MAX_DURATION_NANOS: u32 = 999_999_999;
 
 const MIN_TIMESTAMP_SECONDS: i64 = -62135596800;
 const MAX_TIMESTAMP_SECONDS: i64 = 253402300799;
+const MAX_TIMESTAMP_NANOS: i32 = 999_999_999;
 
 fn is_well_known_type(full_name: &str) -> bool {
     matches!(
@@ -288,6 +289,8 @@ fn is_well_known_type(full_name: &str) -> bool {
 fn check_duration(duration: &prost_types::Duration) -> Result<(), &'static str> {
     if duration.seconds.unsigned_abs() > MAX_DURATION_SECONDS
         || duration.nanos.unsigned_abs() > MAX_DURATION_NANOS
+        || (duration.seconds < 0 && duration.nanos > 0)
+        || (duration.seconds > 0 && duration.nanos < 0)
     {
         Err("duration out of range")
     } else {
@@ -296,7 +299,11 @@ fn check_duration(duration: &prost_types::Duration) -> Result<(), &'static str>
 }
 
 fn check_timestamp(timestamp: &prost_types::Timestamp) -> Result<(), &'static str> {
-    if timestamp.seconds < MIN_TIMESTAMP_SECONDS || MAX_TIMESTAMP_SECONDS < timestamp.seconds {
+    if timestamp.seconds < MIN_TIMESTAMP_SECONDS
+        || MAX_TIMESTAMP_SECONDS < timestamp.seconds
+        || timestamp.nanos < 0
+        || MAX_TIMESTAMP_NANOS < timestamp.nanos
+    {
         Err("timestamp out of range")
     } else {
         Ok(())
-- 
2.43.0


From f1192a5368201d7e3c751e90d91492ab4d8daa81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:13 +0000
Subject: [PATCH 29/34] fix: refuse to write a field mask that JSON cannot
 carry

---
 prost-reflect/src/dynamic/serde/case.rs    | 4 ++++
 prost-reflect/src/dynamic/serde/ser/wkt.rs | 3 +++
 2 files changed, 7 insertions(+)

diff --git a/prost-reflect/src/dynamic/serde/case.rs b/prost-reflect/src/dynamic/serde/case.rs
index 03bb7f0..c97147b 100644
--- a/prost-reflect/src/dynamic/serde/case.rs
+++ b/prost-reflect/src/dynamic/serde/case.rs
@@ -22,6 +22,10 @@ pub(crate) fn snake_case_to_camel_case(dst: &mut String, src: &str) -> Result<()
         }
     }
 
+    if ucase_next {
+        return Err(());
+    }
+
     Ok(())
 }
 
diff --git a/prost-reflect/src/dynamic/serde/ser/wkt.rs b/prost-reflect/src/dynamic/serde/ser/wkt.rs
index 64ecdd2..38ec36c 100644
--- a/prost-reflect/src/dynamic/serde/ser/wkt.rs
+++ b/prost-reflect/src/dynamic/serde/ser/wkt.rs
@@ -258,6 +258,9 @@ where
 
     let mut result = String::new();
     for path in raw.paths {
+        if path.is_empty() || path.contains(',') {
+            return Err(Error::custom("cannot roundtrip field mask path"));
+        }
         if !result.is_empty() {
             result.push(',');
         }
-- 
2.43.0


From 4a0b90f13b37fe08ffa435c4548851ed1c445215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:30 +0000
Subject: [PATCH 30/34] fix: refuse singular values for repeated and map fields

Value::is_valid_for_field fell through to the check of a single element, so
try_set_field stored a scalar in a repeated field (or an entry message in a map
field). Reading it back after encoding gave a list, and merging packed data into
it failed.
---
 prost-reflect/src/dynamic/mod.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/prost-reflect/src/dynamic/mod.rs b/prost-reflect/src/dynamic/mod.rs
index 394f105..1648c80 100644
--- a/prost-reflect/src/dynamic/mod.rs
+++ b/prost-reflect/src/dynamic/mod.rs
@@ -668,7 +668,7 @@ impl Value {
                     key.is_valid(&key_desc) && value.is_valid_for_field(&value_desc)
                 })
             }
-            (value, kind) => value.is_valid(&kind),
+            (value, kind) => !field_desc.is_list() && !field_desc.is_map() && value.is_valid(&kind),
         }
     }
 
@@ -687,7 +687,9 @@ impl Value {
                     key.is_valid(&key_desc) && value.is_valid_for_field(&value_desc)
                 })
             }
-            (value, kind) => value.is_valid(&kind),
+            (value, kind) => {
+                !extension_desc.is_list() && !extension_desc.is_map() && value.is_valid(&kind)
+            }
         }
     }
 
-- 
2.43.0


From 10b04b6085873bd633e6b9d9ff7dbc5f6b0146ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:44 +0000
Subject: [PATCH 31/34] fix: keep the members before @type of an Any in order

The members of an Any that come before its @type were kept in a HashMap,
so which error was reported, and which of two members for one field won,
varied from run to run with the hash seed.
---
 prost-reflect/src/dynamic/serde/de/wkt.rs | 28 +++++++++++------------
 1 file changed, 13 insertions(+), 15 deletions(-)

diff --git a/prost-reflect/src/dynamic/serde/de/wkt.rs b/prost-reflect/src/dynamic/serde/de/wkt.rs
index 9344bfc..3240bc8 100644
--- a/prost-reflect/src/dynamic/serde/de/wkt.rs
+++ b/prost-reflect/src/dynamic/serde/de/wkt.rs
@@ -1,13 +1,8 @@
-use std::{
-    borrow::Cow,
-    collections::{BTreeMap, HashMap},
-    fmt,
-    marker::PhantomData,
-};
+use std::{borrow::Cow, collections::BTreeMap, fmt, marker::PhantomData};
 
 use prost::Message;
 use serde::de::{
-    DeserializeSeed, Deserializer, Error, IgnoredAny, IntoDeserializer, MapAccess, SeqAccess,
+    value::MapDeserializer, DeserializeSeed, Deserializer, Error, IgnoredAny, MapAccess, SeqAccess,
     Visitor,
 };
 
@@ -46,7 +41,7 @@ impl<'de> Visitor<'de> for GoogleProtobufAnyVisitor<'_> {
     where
         A: MapAccess<'de>,
     {
-        let mut buffered_entries = HashMap::new();
+        let mut buffered_entries = Vec::new();
 
         let type_url = find_field(
             &mut map,
@@ -62,8 +57,12 @@ impl<'de> Visitor<'de> for GoogleProtobufAnyVisitor<'_> {
             .ok_or_else(|| Error::custom(format!("message '{message_name}' not found")))?;
 
         let payload_message = if is_well_known_type(message_name) {
-            let payload_message = match buffered_entries.remove("value") {
-                Some(value) => {
+            let (mut values, mut buffered_entries): (Vec<_>, Vec<_>) = buffered_entries
+                .into_iter()
+                .partition(|(key, _)| key == "value");
+
+            let payload_message = match values.pop() {
+                Some((_, value)) => {
                     deserialize_message(&message_desc, value, self.1).map_err(Error::custom)?
                 }
                 None => find_field(
@@ -75,7 +74,7 @@ impl<'de> Visitor<'de> for GoogleProtobufAnyVisitor<'_> {
             };
 
             if self.1.deny_unknown_fields {
-                if let Some(key) = buffered_entries.keys().next() {
+                if let Some((key, _)) = buffered_entries.first() {
                     return Err(Error::custom(format!("unrecognized field name '{key}'")));
                 }
                 if let Some(key) = map.next_key::<Cow<str>>()? {
@@ -90,8 +89,7 @@ impl<'de> Visitor<'de> for GoogleProtobufAnyVisitor<'_> {
         } else {
             let mut payload_message = DynamicMessage::new(message_desc);
 
-            buffered_entries
-                .into_deserializer()
+            MapDeserializer::new(buffered_entries.into_iter())
                 .deserialize_map(MessageVisitorInner(&mut payload_message, self.1))
                 .map_err(Error::custom)?;
 
@@ -370,7 +368,7 @@ impl<'de> Visitor<'de> for GoogleProtobufEmptyVisitor<'_> {
 
 fn find_field<'de, A, D>(
     map: &mut A,
-    buffered_entries: &mut HashMap<Cow<str>, serde_value::Value>,
+    buffered_entries: &mut Vec<(Cow<str>, serde_value::Value)>,
     expected: &str,
     value_seed: D,
 ) -> Result<D::Value, A::Error>
@@ -382,7 +380,7 @@ where
         match map.next_key::<Cow<str>>()? {
             Some(key) if key == expected => return map.next_value_seed(value_seed),
             Some(key) => {
-                buffered_entries.insert(key, map.next_value()?);
+                buffered_entries.push((key, map.next_value()?));
             }
             None => return Err(Error::custom(format!("expected '{expected}' field"))),
         }
-- 
2.43.0


From 53764b09ec66c9ce72acb1b70ac7e08d48ddfc9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:06 +0000
Subject: [PATCH 32/34] fix: escape the pool expression in generated attributes

---
 prost-reflect-build/src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/prost-reflect-build/src/lib.rs b/prost-reflect-build/src/lib.rs
index d460c1e..60baae1 100644
--- a/prost-reflect-build/src/lib.rs
+++ b/prost-reflect-build/src/lib.rs
@@ -153,10 +153,10 @@ impl Builder {
             .map_err(|err| io::Error::new(io::ErrorKind::InvalidData, err))?;
 
         let pool_attribute = if let Some(descriptor_pool) = &self.descriptor_pool_expr {
-            format!(r#"#[prost_reflect(descriptor_pool = "{descriptor_pool}")]"#,)
+            format!(r#"#[prost_reflect(descriptor_pool = {descriptor_pool:?})]"#,)
         } else if let Some(file_descriptor_set_bytes) = &self.file_descriptor_set_bytes_expr {
             format!(
-                r#"#[prost_reflect(file_descriptor_set_bytes = "{file_descriptor_set_bytes}")]"#,
+                r#"#[prost_reflect(file_descriptor_set_bytes = {file_descriptor_set_bytes:?})]"#,
             )
         } else {
             return Err(io::Error::other(
-- 
2.43.0


From 70ed47c7f8c75b5a405deec75f0ab20c67358865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:07 +0000
Subject: [PATCH 33/34] fix: check descriptors before generating code from them

---
 prost-reflect-build/src/lib.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/prost-reflect-build/src/lib.rs b/prost-reflect-build/src/lib.rs
index 60baae1..de543ef 100644
--- a/prost-reflect-build/src/lib.rs
+++ b/prost-reflect-build/src/lib.rs
@@ -144,14 +144,18 @@ impl Builder {
         protos: &[impl AsRef<Path>],
         includes: &[impl AsRef<Path>],
     ) -> io::Result<()> {
-        config
+        let file_descriptor_set = config
             .file_descriptor_set_path(&self.file_descriptor_set_path)
-            .compile_protos(protos, includes)?;
+            .load_fds(protos, includes)?;
 
+        // `prost_build` panics if the descriptors are inconsistent, so check them before
+        // generating any code.
         let buf = fs::read(&self.file_descriptor_set_path)?;
         let descriptor = DescriptorPool::decode(buf.as_ref())
             .map_err(|err| io::Error::new(io::ErrorKind::InvalidData, err))?;
 
+        config.compile_fds(file_descriptor_set)?;
+
         let pool_attribute = if let Some(descriptor_pool) = &self.descriptor_pool_expr {
             format!(r#"#[prost_reflect(descriptor_pool = {descriptor_pool:?})]"#,)
         } else if let Some(file_descriptor_set_bytes) = &self.file_descriptor_set_bytes_expr {
-- 
2.43.0


From 08ea4992e252e2cb6ff7d9a14984a0b1638c514e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:38 +0000
Subject: [PATCH 34/34] fix: round decimal digits to a float only once

---
 prost-reflect/src/dynamic/mod.rs                 | 16 ++++++++++++++++
 prost-reflect/src/dynamic/serde/de/kind.rs       |  4 ++--
 .../src/dynamic/text_format/parse/mod.rs         |  4 ++--
 3 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/prost-reflect/src/dynamic/mod.rs b/prost-reflect/src/dynamic/mod.rs
index 1648c80..ef5f9b4 100644
--- a/prost-reflect/src/dynamic/mod.rs
+++ b/prost-reflect/src/dynamic/mod.rs
@@ -1142,6 +1142,22 @@ pub(crate) fn fmt_string(f: &mut impl fmt::Write, bytes: &[u8]) -> fmt::Result {
     f.write_char('"')
 }
 
+/// Converts a number that has been parsed from decimal digits as an `f64` to the `f32` closest to
+/// those digits.
+///
+/// If the `f64` lies exactly halfway between two `f32`s then rounding it a second time may pick
+/// the wrong one, so the digits are parsed again.
+pub(crate) fn f64_to_f32(value: f64) -> f32 {
+    let result = value as f32;
+    let above = f64::from_bits(value.to_bits().wrapping_add(1)) as f32;
+    let below = f64::from_bits(value.to_bits().wrapping_sub(1)) as f32;
+    if above == below || !value.is_normal() {
+        result
+    } else {
+        format!("{value:e}").parse().unwrap_or(result)
+    }
+}
+
 impl fmt::Display for DynamicMessage {
     /// Formats this message using the protobuf text format.
     ///
diff --git a/prost-reflect/src/dynamic/serde/de/kind.rs b/prost-reflect/src/dynamic/serde/de/kind.rs
index 9de2318..f1dd419 100644
--- a/prost-reflect/src/dynamic/serde/de/kind.rs
+++ b/prost-reflect/src/dynamic/serde/de/kind.rs
@@ -4,7 +4,7 @@ use prost::bytes::Bytes;
 use serde::de::{DeserializeSeed, Deserializer, Error, IgnoredAny, MapAccess, SeqAccess, Visitor};
 
 use crate::{
-    dynamic::{serde::DeserializeOptions, DynamicMessage, MapKey, Value},
+    dynamic::{f64_to_f32, serde::DeserializeOptions, DynamicMessage, MapKey, Value},
     EnumDescriptor, Kind, MessageDescriptor, ReflectMessage,
 };
 
@@ -216,7 +216,7 @@ impl Visitor<'_> for FloatVisitor {
     where
         E: Error,
     {
-        let value = v as f32;
+        let value = f64_to_f32(v);
         if v.is_finite() && value.is_infinite() {
             Err(Error::custom("float value out of range"))
         } else {
diff --git a/prost-reflect/src/dynamic/text_format/parse/mod.rs b/prost-reflect/src/dynamic/text_format/parse/mod.rs
index a0577a9..52c87ae 100644
--- a/prost-reflect/src/dynamic/text_format/parse/mod.rs
+++ b/prost-reflect/src/dynamic/text_format/parse/mod.rs
@@ -14,7 +14,7 @@ use self::{
 };
 use crate::{
     descriptor::{MAP_ENTRY_KEY_NUMBER, MAP_ENTRY_VALUE_NUMBER},
-    dynamic::fields::FieldDescriptorLike,
+    dynamic::{f64_to_f32, fields::FieldDescriptorLike},
     DynamicMessage, EnumDescriptor, FieldDescriptor, Kind, MapKey, MessageDescriptor, Value,
 };
 
@@ -294,7 +294,7 @@ impl<'a> Parser<'a> {
         match kind {
             Kind::Float => {
                 let (value, span) = self.parse_float()?;
-                Ok((Value::F32(value as f32), span))
+                Ok((Value::F32(f64_to_f32(value)), span))
             }
             Kind::Double => {
                 let (value, span) = self.parse_float()?;
-- 
2.43.0

