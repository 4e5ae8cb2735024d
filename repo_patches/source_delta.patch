From fd89a323aafcf2220c65f9f9e0e0086f8941b331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:29 +0000
Subject: [PATCH 1/3] fix: decide consonants without recursion

A run of 'y's made is_consonant recurse once per letter, so that stemming a
token of some ten thousand 'y's overflowed the stack.
---
 src/lang/en.rs | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/src/lang/en.rs b/src/lang/en.rs
index 388f3e4..bcb7402 100644
--- a/src/lang/en.rs
+++ b/src/lang/en.rs
@@ -116,17 +116,21 @@ impl PorterStemmer {
 
     /// stem.is_consonant(i) is true <=> stem[i] is a consonant
     #[inline]
-    fn is_consonant(&self, i: usize) -> bool {
-        match self.b[i] {
-            b'a' | b'e' | b'i' | b'o' | b'u' => false,
-            b'y' => {
-                if i == 0 {
-                    true
-                } else {
-                    !self.is_consonant(i - 1)
-                }
-            }
-            _ => true,
+    fn is_consonant(&self, mut i: usize) -> bool {
+        // A 'y' is a consonant unless the letter before it is one. This is a
+        // loop because a run of 'y's may be as long as the token.
+        let mut negate = false;
+        loop {
+            let consonant = match self.b[i] {
+                b'a' | b'e' | b'i' | b'o' | b'u' => false,
+                b'y' if i > 0 => {
+                    negate = !negate;
+                    i -= 1;
+                    continue;
+                }
+                _ => true,
+            };
+            return consonant != negate;
         }
     }
 
-- 
2.43.0


From d0acf1797e2bb62ab19e0e35e47f38e0b9d15a1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:33 +0000
Subject: [PATCH 2/3] fix: remove a document's field lengths together with the
 document

remove_doc left the document's entry in doc_info, so that its field lengths
were still serialized, and came back when the reference was added again.
---
 src/document_store.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/document_store.rs b/src/document_store.rs
index 8adc722..1794d40 100644
--- a/src/document_store.rs
+++ b/src/document_store.rs
@@ -61,6 +61,7 @@ impl DocumentStore {
         }
 
         self.docs.remove(doc_ref);
+        self.doc_info.remove(doc_ref);
     }
 
     pub fn add_field_length(&mut self, doc_ref: &str, field: &str, length: usize) {
-- 
2.43.0


From 832e3b4f8956c24f12bdb2f50e353f74edf58511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:46 +0000
Subject: [PATCH 3/3] fix: remove tokens without recursion

remove_token recursed once per character, so that removing a very long token
overflowed the stack.
---
 src/inverted_index.rs | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/src/inverted_index.rs b/src/inverted_index.rs
index 5ad4315..6e177f2 100644
--- a/src/inverted_index.rs
+++ b/src/inverted_index.rs
@@ -61,15 +61,24 @@ impl IndexItem {
     }
 
     fn remove_token(&mut self, doc_ref: &str, token: &str) {
-        let mut iter = token.char_indices();
-        if let Some((_, ch)) = iter.next() {
-            if let Some(item) = self.children.get_mut(&ch) {
-                if let Some((idx, _)) = iter.next() {
-                    item.remove_token(doc_ref, &token[idx..]);
-                } else if item.docs.contains_key(doc_ref) {
-                    item.docs.remove(doc_ref);
-                    item.doc_freq -= 1;
-                }
+        let mut iter = token.chars();
+        if let Some(character) = iter.next() {
+            let mut item = match self.children.get_mut(&character) {
+                Some(child) => child,
+                None => return,
+            };
+
+            // Not recursive, since a token may be longer than the stack is deep
+            for character in iter {
+                item = match item.children.get_mut(&character) {
+                    Some(child) => child,
+                    None => return,
+                };
+            }
+
+            if item.docs.contains_key(doc_ref) {
+                item.docs.remove(doc_ref);
+                item.doc_freq -= 1;
             }
         }
     }
-- 
2.43.0

