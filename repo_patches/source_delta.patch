From 9d26ffc590884fc0cbac2f81b70ea4373e764ae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:19 +0000
Subject: [PATCH 01/42] hooks: read-only state snapshots for runtime monitors
 (cfg ced_verif)

---
 core/src/editor/core.rs            | 64 ++++++++++++++++++++++++++++++
 core/src/editor/mod.rs             |  2 +
 core/src/editor/piece_table/mod.rs | 11 +++++
 core/src/editor/verif.rs           | 41 +++++++++++++++++++
 core/src/lib.rs                    |  2 +
 5 files changed, 120 insertions(+)
 create mode 100644 core/src/editor/verif.rs

diff --git a/core/src/editor/core.rs b/core/src/editor/core.rs
index 5879fd7..ed37a10 100644
--- a/core/src/editor/core.rs
+++ b/core/src/editor/core.rs
@@ -620,6 +620,70 @@ impl Core {
     }
 }
 
+#[cfg(ced_verif)]
+impl Core {
+    pub fn verif_snapshot(&self) -> crate::editor::verif::Snapshot {
+        use crate::editor::verif::{ClientSnapshot, SelectionSnapshot, Snapshot};
+        let state = lock!(self);
+        let lenses = |view: &View| {
+            let mut list = Vec::new();
+            for item in view.as_vec() {
+                if let crate::editor::ViewItem::Lens(lens) = item {
+                    list.push((lens.buffer.clone(), lens.focus.to_string()));
+                }
+            }
+            list
+        };
+        Snapshot {
+            buffers: state
+                .buffers
+                .iter()
+                .map(|(name, b)| (name.clone(), b.content.text()))
+                .collect(),
+            views: state
+                .views
+                .iter()
+                .map(|(key, view)| (key.clone(), lenses(&view.borrow())))
+                .collect(),
+            latest_view: state.views.latest().cloned(),
+            clients: state
+                .clients
+                .iter()
+                .map(|(&id, ctx)| {
+                    let view = ctx.view.borrow();
+                    let client = ClientSnapshot {
+                        view: view.key(),
+                        view_buffers: view.buffers().into_iter().cloned().collect(),
+                        selections: ctx
+                            .selections
+                            .iter()
+                            .map(|(key, by_buffer)| {
+                                let by_buffer = by_buffer
+                                    .iter()
+                                    .map(|(name, sels)| {
+                                        let sels = sels
+                                            .iter()
+                                            .map(|s| SelectionSnapshot {
+                                                anchor: s.anchor,
+                                                cursor: s.cursor,
+                                                target_col: s.target_col,
+                                            })
+                                            .collect();
+                                        (name.clone(), sels)
+                                    })
+                                    .collect();
+                                (key.clone(), by_buffer)
+                            })
+                            .collect(),
+                    };
+                    (id, client)
+                })
+                .collect(),
+            latest_client: state.clients.latest().cloned(),
+        }
+    }
+}
+
 unsafe impl Send for Core {}
 
 struct PositionData {
diff --git a/core/src/editor/mod.rs b/core/src/editor/mod.rs
index d8725f6..462b98e 100644
--- a/core/src/editor/mod.rs
+++ b/core/src/editor/mod.rs
@@ -6,6 +6,8 @@ pub mod menu;
 mod piece_table;
 mod range;
 mod selection;
+#[cfg(ced_verif)]
+pub mod verif;
 pub mod view;
 
 use std::collections::{HashMap, HashSet};
diff --git a/core/src/editor/piece_table/mod.rs b/core/src/editor/piece_table/mod.rs
index 18d6b52..700d14e 100644
--- a/core/src/editor/piece_table/mod.rs
+++ b/core/src/editor/piece_table/mod.rs
@@ -637,6 +637,17 @@ impl PieceTable {
     }
 }
 
+#[cfg(ced_verif)]
+impl PieceTable {
+    pub fn verif_undo(&mut self) -> bool {
+        self.undo()
+    }
+
+    pub fn verif_redo(&mut self) -> bool {
+        self.redo()
+    }
+}
+
 impl Default for PieceTable {
     fn default() -> Self {
         Self::new()
diff --git a/core/src/editor/verif.rs b/core/src/editor/verif.rs
new file mode 100644
index 0000000..8b4b252
--- /dev/null
+++ b/core/src/editor/verif.rs
@@ -0,0 +1,41 @@
+//! Read-only access to internal state for external runtime monitors.
+//! Only compiled with `--cfg ced_verif`.
+
+use std::collections::BTreeMap;
+
+pub use super::diff::{diff, Diff};
+pub use super::piece_table::{Coords, PieceTable};
+pub use super::range::OffsetRange;
+use super::Editor;
+
+#[derive(Clone, Copy, Debug, Eq, PartialEq)]
+pub struct SelectionSnapshot {
+    pub anchor: usize,
+    pub cursor: usize,
+    pub target_col: usize,
+}
+
+#[derive(Clone, Debug, Eq, PartialEq)]
+pub struct ClientSnapshot {
+    pub view: String,
+    pub view_buffers: Vec<String>,
+    /// selections by view key then by buffer name
+    pub selections: BTreeMap<String, BTreeMap<String, Vec<SelectionSnapshot>>>,
+}
+
+#[derive(Clone, Debug, Default, Eq, PartialEq)]
+pub struct Snapshot {
+    /// text by buffer name
+    pub buffers: BTreeMap<String, String>,
+    /// (buffer name, focus) of each lens by view key
+    pub views: BTreeMap<String, Vec<(String, String)>>,
+    pub latest_view: Option<String>,
+    pub clients: BTreeMap<usize, ClientSnapshot>,
+    pub latest_client: Option<usize>,
+}
+
+impl Editor {
+    pub fn verif_snapshot(&self) -> Snapshot {
+        self.core.verif_snapshot()
+    }
+}
diff --git a/core/src/lib.rs b/core/src/lib.rs
index cc016e2..7a77a0d 100644
--- a/core/src/lib.rs
+++ b/core/src/lib.rs
@@ -1,3 +1,5 @@
+#![allow(unexpected_cfgs)] // ced_verif, see editor::verif
+
 #![warn(clippy::all)]
 
 pub use remote;
-- 
2.43.0


From 22b3efa416d6bfdac8188ce80e39bf5f6227759e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:51 +0000
Subject: [PATCH 02/42] fix: shift the following pieces when deleting whole
 pieces

---
 core/src/editor/piece_table/mod.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/core/src/editor/piece_table/mod.rs b/core/src/editor/piece_table/mod.rs
index 700d14e..bfcd060 100644
--- a/core/src/editor/piece_table/mod.rs
+++ b/core/src/editor/piece_table/mod.rs
@@ -578,8 +578,14 @@ impl PieceTable {
             if let Some(ln) = last_node {
                 self.shift_offset_after(&ln, -(range.len() as i64));
             } else {
-                start_node.apply(|n| n.offset -= range.len());
-                self.shift_offset_after(&start_node, -(range.len() as i64));
+                // only whole pieces were removed, there is no node left to start from
+                for n in self.pieces.iter() {
+                    n.apply(|p| {
+                        if p.offset >= range.end() {
+                            p.offset -= range.len();
+                        }
+                    });
+                }
             }
             self.newlines = self
                 .newlines
-- 
2.43.0


From 7f10cf3323af5ade31845f0a150166cc3d886c5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:09 +0000
Subject: [PATCH 03/42] fix: do not store empty pieces for empty insertions

---
 core/src/editor/piece_table/mod.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/core/src/editor/piece_table/mod.rs b/core/src/editor/piece_table/mod.rs
index bfcd060..61ed09a 100644
--- a/core/src/editor/piece_table/mod.rs
+++ b/core/src/editor/piece_table/mod.rs
@@ -487,6 +487,10 @@ impl PieceTable {
 
     pub fn append(&mut self, text: String) {
         self.action(Action::Insert);
+        if text.is_empty() {
+            // an empty piece would hide the one starting at the same offset
+            return;
+        }
         let offset = if let Some(last) = self.pieces.last() {
             let data = last.data();
             data.offset + data.length
@@ -515,6 +519,9 @@ impl PieceTable {
 
     pub fn insert(&mut self, offset: usize, text: String) {
         self.action(Action::Insert);
+        if text.is_empty() {
+            return;
+        }
         if let Some(ref mut node) = self.pieces.get_node(&Piece::offset(offset)) {
             let added_start = self.added.len();
             self.added.extend(text.as_bytes());
-- 
2.43.0


From 784c24d7456173a863058e0539462073cb9e18d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:09 +0000
Subject: [PATCH 04/42] fix: rebuild the newline index after undo and redo

---
 core/src/editor/piece_table/mod.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/core/src/editor/piece_table/mod.rs b/core/src/editor/piece_table/mod.rs
index 61ed09a..3403f25 100644
--- a/core/src/editor/piece_table/mod.rs
+++ b/core/src/editor/piece_table/mod.rs
@@ -241,10 +241,15 @@ impl PieceTable {
         self.last_action = None;
     }
 
+    fn index_newlines(&mut self) {
+        self.newlines = self.text().match_indices('\n').map(|(i, _)| i).collect();
+    }
+
     fn undo(&mut self) -> bool {
         if let Some(pieces) = self.undos.pop() {
             self.redos.push(self.pieces.clone());
             self.pieces = pieces;
+            self.index_newlines();
             self.last_action = None;
             true
         } else {
@@ -256,6 +261,7 @@ impl PieceTable {
         if let Some(pieces) = self.redos.pop() {
             self.undos.push(self.pieces.clone());
             self.pieces = pieces;
+            self.index_newlines();
             self.last_action = None;
             true
         } else {
-- 
2.43.0


From c1eea718cc098deef6f8e92a9791919cfb0cb954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:40 +0000
Subject: [PATCH 05/42] fix: count coordinates, lines lengths and moves in
 graphemes

---
 core/src/editor/piece_table/mod.rs       | 44 +++++++-----------------
 core/src/editor/piece_table/navigator.rs | 29 +++++++---------
 2 files changed, 26 insertions(+), 47 deletions(-)

diff --git a/core/src/editor/piece_table/mod.rs b/core/src/editor/piece_table/mod.rs
index 3403f25..7118019 100644
--- a/core/src/editor/piece_table/mod.rs
+++ b/core/src/editor/piece_table/mod.rs
@@ -375,25 +375,17 @@ impl PieceTable {
 
         let preceding_lines = self.newlines.range(..offset).collect::<Vec<_>>();
         let lineno = preceding_lines.len() + 1;
-        Some(match preceding_lines.last() {
-            Some(&nli) => {
-                let line = self.line_bytes(lineno).unwrap();
-                let indices: BTreeSet<_> = line.grapheme_indices().map(|(i, _, _)| i).collect();
-                let col = indices.range(..offset - nli).count();
-                Coords { l: lineno, c: col }
-            }
-            None => Coords {
-                l: lineno,
-                c: offset + 1,
-            },
-        })
+        let line_offset = preceding_lines.last().map_or(0, |&nl| nl + 1);
+        let line = self.line_bytes(lineno).unwrap();
+        let col = line
+            .grapheme_indices()
+            .take_while(|(i, _, _)| line_offset + i <= offset)
+            .count();
+        Some(Coords { l: lineno, c: col })
     }
 
     pub fn coord_to_offset(&self, coords: Coords) -> Option<usize> {
-        if coords.l == 0 {
-            // FIXME this is weird
-            Some(0)
-        } else if coords.l > self.line_count() {
+        if coords.l == 0 || coords.c == 0 || coords.l > self.line_count() {
             None
         } else {
             let line_offset = if coords.l > 1 {
@@ -407,9 +399,10 @@ impl PieceTable {
             let lbs = self
                 .line_bytes(coords.l)
                 .unwrap_or_else(|| panic!("get bytes for line {}", coords.l));
-            if coords.c == lbs.graphemes().count() + 1 {
+            let newline_offset = line_offset + lbs.len();
+            if coords.c == lbs.graphemes().count() + 1 && self.newlines.contains(&newline_offset) {
                 // this is the newline character for this line
-                Some(line_offset + lbs.len())
+                Some(newline_offset)
             } else {
                 lbs.grapheme_indices()
                     .nth(coords.c - 1)
@@ -448,19 +441,8 @@ impl PieceTable {
     }
 
     pub fn line_length(&self, index: usize) -> usize {
-        let mut nls = self.newlines.iter().collect::<Vec<_>>();
-        nls.sort_unstable();
-        if nls.is_empty() {
-            self.len()
-        } else if index == 1 {
-            *nls[0]
-        } else if index - 1 < nls.len() {
-            nls[index - 1] - nls[index - 2] - 1
-        } else if index - 1 == nls.len() {
-            self.len() - nls[index - 2] - 1
-        } else {
-            0
-        }
+        self.line_bytes(index)
+            .map_or(0, |line| line.graphemes().count())
     }
 
     pub fn longest_line(&self) -> (usize, usize) {
diff --git a/core/src/editor/piece_table/navigator.rs b/core/src/editor/piece_table/navigator.rs
index 329cd27..db5a60c 100644
--- a/core/src/editor/piece_table/navigator.rs
+++ b/core/src/editor/piece_table/navigator.rs
@@ -1,6 +1,4 @@
-use std::cmp::min;
-
-use bstr::ByteSlice;
+use std::cmp::{max, min};
 
 use crate::editor::piece_table::{Coords, PieceTable, Position};
 
@@ -34,13 +32,15 @@ impl Navigator<'_> {
     }
 
     pub fn pos(&self) -> Position {
-        let col_count = self
-            .table
-            .line_bytes(self.cursor.l)
-            .unwrap_or_else(|| panic!("get bytes for line {}", self.cursor.l))
-            .graphemes()
-            .count()
-            + 1;
+        let newline = Coords {
+            c: self.table.line_length(self.cursor.l) + 1,
+            ..self.cursor
+        };
+        // the last line does not always end with a newline
+        let col_count = match self.table.coord_to_offset(newline) {
+            Some(_) => newline.c,
+            None => newline.c - 1,
+        };
         let cursor = Coords {
             c: min(col_count, self.target_col),
             ..self.cursor
@@ -65,11 +65,8 @@ impl Navigator<'_> {
             };
             self.target_col = 1;
         } else {
-            let offset = self.table.coord_to_offset(self.cursor).unwrap();
-            if let Some(coord) = self.table.offset_to_coord(offset + 1) {
-                self.cursor = coord;
-                self.target_col = coord.c;
-            }
+            self.cursor.c += 1;
+            self.target_col = self.cursor.c;
         }
         self
     }
@@ -109,7 +106,7 @@ impl Navigator<'_> {
     }
 
     pub fn line_end(&mut self) -> &mut Self {
-        self.cursor.c = self.table.line_length(self.cursor.l);
+        self.cursor.c = max(self.table.line_length(self.cursor.l), 1);
         self.target_col = self.cursor.c;
         self
     }
-- 
2.43.0


From 36229a3bb85a6b3c6b3eeadd961ff9bf4173a4c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:00 +0000
Subject: [PATCH 06/42] fix: compare texts by characters, up to their ends

---
 core/src/editor/diff.rs | 106 ++++++++++++++++++++--------------------
 1 file changed, 52 insertions(+), 54 deletions(-)

diff --git a/core/src/editor/diff.rs b/core/src/editor/diff.rs
index bf70309..0df78f3 100644
--- a/core/src/editor/diff.rs
+++ b/core/src/editor/diff.rs
@@ -7,28 +7,28 @@ pub enum Diff {
     Right(usize),
 }
 
-fn precompute(b1: &[u8], b2: &[u8]) -> (usize, Option<usize>) {
-    let l1 = b1.len();
-    let l2 = b2.len();
+/// Above this number of cells the comparison is not worth its memory.
+const MAX_CELLS: usize = 1 << 24;
+
+/// Returns the lengths of the common prefix and of the common suffix.
+fn precompute(left: &[char], right: &[char]) -> (usize, usize) {
+    let l1 = left.len();
+    let l2 = right.len();
 
     let mut start = 0;
-    while start < l1 && start < l2 && b1[start] == b2[start] {
+    while start < l1 && start < l2 && left[start] == right[start] {
         start += 1;
     }
 
     let mut end = 0;
-    while start < l1 - end && start < l2 - end && b1[l1 - 1 - end] == b2[l2 - 1 - end] {
+    while start < l1 - end && start < l2 - end && left[l1 - 1 - end] == right[l2 - 1 - end] {
         end += 1;
     }
 
-    if start == end || end == 0 {
-        (start, None)
-    } else {
-        (start, Some(end))
-    }
+    (start, end)
 }
 
-fn find_lcs(left: &[u8], right: &[u8]) -> Vec<u8> {
+fn find_lcs<T: Copy + PartialEq>(left: &[T], right: &[T]) -> Vec<T> {
     let el = left.len();
     let er = right.len();
 
@@ -56,95 +56,93 @@ fn find_lcs(left: &[u8], right: &[u8]) -> Vec<u8> {
     }
 
     let mut lcs = Vec::new();
-    let mut i = (el - 1) as isize;
-    let mut j = (er - 1) as isize;
+    let mut i = el as isize - 1;
+    let mut j = er as isize - 1;
     while i >= 0 && j >= 0 {
         let idx = i as usize;
         let jdx = j as usize;
         if left[idx] == right[jdx] {
-            lcs.insert(0, left[idx]);
+            lcs.push(left[idx]);
             i -= 1;
             j -= 1;
         } else if j == 0 && i == 0 {
             break;
-        } else if i == 0 || mt[idx * er + jdx - 1] > mt[(idx - 1) * er + jdx] {
+        } else if j > 0 && (i == 0 || mt[idx * er + jdx - 1] > mt[(idx - 1) * er + jdx]) {
             j -= 1;
         } else {
             i -= 1;
         }
     }
 
+    lcs.reverse();
     lcs
 }
 
+fn byte_len(chars: &[char]) -> usize {
+    chars.iter().map(|c| c.len_utf8()).sum()
+}
+
 #[allow(clippy::many_single_char_names)]
 pub fn diff(left: &str, right: &str) -> Vec<Diff> {
-    let bleft = left.as_bytes();
-    let bright = right.as_bytes();
+    let cleft: Vec<char> = left.chars().collect();
+    let cright: Vec<char> = right.chars().collect();
     let mut diffs = Vec::new();
 
-    let (start, maybe_end) = precompute(bleft, bright);
+    let (start, end) = precompute(&cleft, &cright);
     if start > 0 {
-        diffs.push(Diff::Both(start));
+        diffs.push(Diff::Both(byte_len(&cleft[..start])));
     }
-    let end = match maybe_end {
-        Some(len) => len,
-        None if start > 0 => return diffs,
-        None => 0,
-    };
 
-    let l = &bleft[start..bleft.len() - end];
-    let r = &bright[start..bright.len() - end];
-    let lcs = find_lcs(l, r);
+    let l = &cleft[start..cleft.len() - end];
+    let r = &cright[start..cright.len() - end];
+    let lcs = if l.len().saturating_mul(r.len()) > MAX_CELLS {
+        Vec::new()
+    } else {
+        find_lcs(l, r)
+    };
     let mut i = 0;
     let mut j = 0;
-    let mut len;
+    let mut from;
 
-    let mut lcs_it = lcs.iter();
-    while let Some(&c) = lcs_it.next() {
-        len = 0;
+    let mut lcs_it = lcs.iter().peekable();
+    while let Some(&&c) = lcs_it.peek() {
+        from = i;
         while i < l.len() && l[i] != c {
-            len += 1;
             i += 1;
         }
-        if len > 0 {
-            diffs.push(Diff::Left(len));
+        if i > from {
+            diffs.push(Diff::Left(byte_len(&l[from..i])));
         }
 
-        len = 0;
+        from = j;
         while j < r.len() && r[j] != c {
-            len += 1;
             j += 1;
         }
-        if len > 0 {
-            diffs.push(Diff::Right(len));
+        if j > from {
+            diffs.push(Diff::Right(byte_len(&r[from..j])));
         }
 
-        len = 0;
-        let mut sub_c = c;
-        while l[i] == sub_c && r[j] == sub_c {
-            len += 1;
+        from = i;
+        while let Some(&&sub_c) = lcs_it.peek() {
+            if l[i] != sub_c || r[j] != sub_c {
+                break;
+            }
             i += 1;
             j += 1;
-            match lcs_it.next() {
-                Some(&v) => sub_c = v,
-                None => break,
-            }
-        }
-        if len > 0 {
-            diffs.push(Diff::Both(len));
+            lcs_it.next();
         }
+        diffs.push(Diff::Both(byte_len(&l[from..i])));
     }
 
-    if i < l.len() - 1 {
-        diffs.push(Diff::Left(l.len() - i));
+    if i < l.len() {
+        diffs.push(Diff::Left(byte_len(&l[i..])));
     }
-    if j < r.len() - 1 {
-        diffs.push(Diff::Right(r.len() - j));
+    if j < r.len() {
+        diffs.push(Diff::Right(byte_len(&r[j..])));
     }
 
     if end > 0 {
-        diffs.push(Diff::Both(end));
+        diffs.push(Diff::Both(byte_len(&cleft[cleft.len() - end..])));
     }
     diffs
 }
-- 
2.43.0


From 11640baf4fc2c0e58cc98fdc3a8c5fbb3bb3f365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:15 +0000
Subject: [PATCH 07/42] fix: decorate selections on character boundaries

---
 core/src/editor/view.rs | 31 +++++++++++++++++++------------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/core/src/editor/view.rs b/core/src/editor/view.rs
index 17dd5bc..b8d481e 100644
--- a/core/src/editor/view.rs
+++ b/core/src/editor/view.rs
@@ -5,6 +5,7 @@ use std::ops::Range;
 
 use crate::editor::selection::Selection;
 use crate::editor::Buffer;
+use bstr::ByteSlice;
 use ornament::Decorator;
 use remote::protocol::{
     notifications::{ViewParams, ViewParamsItem, ViewParamsLens},
@@ -193,18 +194,16 @@ impl View {
                         for s in ss {
                             let start = buffer.content.offset_to_coord(s.begin()).unwrap();
                             let end = {
-                                if s.end() == buffer.content.max_offset() {
-                                    let mut end = buffer.content.offset_to_coord(s.end()).unwrap();
+                                let mut nv = buffer
+                                    .content
+                                    .navigate(buffer.content.offset_to_coord(s.end()))
+                                    .unwrap();
+                                if nv.is_at_end() {
+                                    let mut end = nv.pos().coords;
                                     end.c += 1;
                                     end
                                 } else {
-                                    buffer
-                                        .content
-                                        .navigate(buffer.content.offset_to_coord(s.end()))
-                                        .unwrap()
-                                        .next()
-                                        .pos()
-                                        .coords
+                                    nv.next().pos().coords
                                 }
                             };
                             if start.l == end.l {
@@ -243,17 +242,25 @@ impl View {
                         .map(|(i, line)| {
                             let l = line.to_owned() + " ";
                             let mut deco = Decorator::with_text(&l);
+                            // columns are graphemes, decorations are set on bytes
+                            let bounds = line
+                                .as_bytes()
+                                .grapheme_indices()
+                                .map(|(i, _, _)| i)
+                                .chain(std::iter::once(line.len()))
+                                .collect::<Vec<_>>();
+                            let to_byte = |col: usize| *bounds.get(col).unwrap_or(&l.len());
                             if let Some(ranges) = selected.get(&i) {
                                 for range in ranges {
                                     match *range {
                                         (Some(start), Some(end)) => {
-                                            deco.set(Face::Selection, start..end);
+                                            deco.set(Face::Selection, to_byte(start)..to_byte(end));
                                         }
                                         (Some(start), None) => {
-                                            deco.set(Face::Selection, start..l.len());
+                                            deco.set(Face::Selection, to_byte(start)..l.len());
                                         }
                                         (None, Some(end)) => {
-                                            deco.set(Face::Selection, 0..end);
+                                            deco.set(Face::Selection, 0..to_byte(end));
                                         }
                                         (None, None) => {
                                             deco.set(Face::Selection, 0..l.len());
-- 
2.43.0


From 87dec6d75f542348a167d051454830ec06d06212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:11 +0000
Subject: [PATCH 08/42] fix: refuse unreadable files and reload every changed
 file

---
 core/src/editor/buffer.rs | 55 +++++++++++++++++++++++----------------
 core/src/editor/core.rs   | 33 ++++++++++++++++-------
 core/src/editor/mod.rs    |  5 ++--
 3 files changed, 60 insertions(+), 33 deletions(-)

diff --git a/core/src/editor/buffer.rs b/core/src/editor/buffer.rs
index d2341b8..b755a76 100644
--- a/core/src/editor/buffer.rs
+++ b/core/src/editor/buffer.rs
@@ -1,6 +1,6 @@
 use std::env::current_dir;
 use std::fs::{self, File};
-use std::io::Read;
+use std::io::{self, Read};
 use std::ops::{Index, Range};
 use std::path::{Path, PathBuf};
 use std::time::SystemTime;
@@ -57,6 +57,20 @@ fn find_shortest_name(sources: &[BufferSource], idx: usize) -> String {
     }
 }
 
+fn modification_time(path: &Path) -> Option<SystemTime> {
+    fs::metadata(path).and_then(|meta| meta.modified()).ok()
+}
+
+fn read_content(path: &Path) -> io::Result<String> {
+    let mut file = File::open(path)?;
+    let mut content = String::new();
+    file.read_to_string(&mut content)?;
+    if !content.ends_with('\n') {
+        content += "\n";
+    }
+    Ok(content)
+}
+
 pub struct Buffer {
     pub source: BufferSource,
     pub content: PieceTable,
@@ -80,29 +94,27 @@ impl Buffer {
     }
 
     pub fn new_file(filename: &Path) -> Buffer {
+        Self::open_file(filename).expect("open file")
+    }
+
+    pub fn open_file(filename: &Path) -> io::Result<Buffer> {
         let absolute_path = if filename.is_absolute() {
             filename.to_owned()
         } else {
-            let mut full_path = current_dir().unwrap();
+            let mut full_path = current_dir()?;
             full_path.push(filename);
-            full_path.canonicalize().unwrap()
+            full_path.canonicalize()?
         };
 
-        let mut file = File::open(&absolute_path).unwrap();
-        let mut file_content = String::new();
-        file.read_to_string(&mut file_content).expect("read file");
-        let last_sync = Some(SystemTime::now());
-
-        if !file_content.ends_with('\n') {
-            file_content += "\n";
-        }
+        let last_sync = modification_time(&absolute_path);
+        let file_content = read_content(&absolute_path)?;
 
-        Buffer {
+        Ok(Buffer {
             source: BufferSource::File(absolute_path),
             content: PieceTable::with_text(file_content),
             last_sync,
             modified: false,
-        }
+        })
     }
 
     pub fn line_count(&self) -> usize {
@@ -135,26 +147,25 @@ impl Buffer {
                 return false;
             }
             match meta.modified() {
-                Ok(dt_modified) => return dt_modified < dt_sync,
+                Ok(dt_modified) => return dt_modified == dt_sync,
                 Err(_) => return false,
             }
         }
         true
     }
 
-    pub fn load_from_disk(&mut self) -> bool {
+    pub fn load_from_disk(&mut self) -> io::Result<bool> {
         match self.source {
-            BufferSource::Scratch(_) => true,
+            BufferSource::Scratch(_) => Ok(true),
             BufferSource::File(ref path) => {
                 if !self.is_synced() {
-                    let mut file = File::open(&path).unwrap();
-                    let mut content = String::new();
-                    file.read_to_string(&mut content).expect("read file");
+                    let last_sync = modification_time(path);
+                    let content = read_content(path)?;
                     self.content.apply_diff(&content);
-                    self.last_sync = Some(SystemTime::now());
-                    true
+                    self.last_sync = last_sync;
+                    Ok(true)
                 } else {
-                    false
+                    Ok(false)
                 }
             }
         }
diff --git a/core/src/editor/core.rs b/core/src/editor/core.rs
index ed37a10..9dbb6e2 100644
--- a/core/src/editor/core.rs
+++ b/core/src/editor/core.rs
@@ -117,6 +117,7 @@ macro_rules! lock {
 #[derive(Debug)]
 pub enum Error {
     BufferNotFound { name: String },
+    FileNotLoaded { name: String, source: std::io::Error },
     ViewNotFound { view_id: String },
 }
 
@@ -125,6 +126,7 @@ impl std::fmt::Display for Error {
         use Error::*;
         match self {
             BufferNotFound { name } => write!(f, "buffer not found: {}", name),
+            FileNotLoaded { name, source } => write!(f, "could not load file: {}: {}", name, source),
             ViewNotFound { view_id } => write!(f, "view not found: {}", view_id),
         }
     }
@@ -327,9 +329,13 @@ impl Core {
         lock!(self).buffers.insert(name.to_owned(), buffer);
     }
 
-    pub fn open_file(&mut self, buffer_name: &str, filename: &Path) {
-        let buffer = Buffer::new_file(filename);
+    pub fn open_file(&mut self, buffer_name: &str, filename: &Path) -> Result<(), Error> {
+        let buffer = Buffer::open_file(filename).map_err(|source| Error::FileNotLoaded {
+            name: buffer_name.to_owned(),
+            source,
+        })?;
         lock!(self).buffers.insert(buffer_name.to_owned(), buffer);
+        Ok(())
     }
 
     pub fn add_view(&mut self, view: View) {
@@ -413,7 +419,7 @@ impl Core {
         }
     }
 
-    pub fn edit(&mut self, client_id: usize, name: &str, scratch: bool) {
+    pub fn edit(&mut self, client_id: usize, name: &str, scratch: bool) -> Result<(), Error> {
         // TODO check for same file but different name
         let exists = self.buffer_exists(name);
         let notify_change = if scratch {
@@ -422,7 +428,15 @@ impl Core {
             }
             false
         } else if exists {
-            let reloaded = lock!(self).buffers.get_mut(name).unwrap().load_from_disk();
+            let reloaded = lock!(self)
+                .buffers
+                .get_mut(name)
+                .unwrap()
+                .load_from_disk()
+                .map_err(|source| Error::FileNotLoaded {
+                    name: name.to_owned(),
+                    source,
+                })?;
             if reloaded {
                 self.debug(&format!("reloaded from disk: {}", name));
             }
@@ -433,7 +447,7 @@ impl Core {
                 absolute.push(name);
                 absolute
             };
-            self.open_file(name, &path);
+            self.open_file(name, &path)?;
             true
         };
 
@@ -451,6 +465,7 @@ impl Core {
                 .collect();
             self.notify_view_update(client_ids);
         }
+        Ok(())
     }
 
     pub fn view(&mut self, client_id: usize, view_id: &str) -> Result<(), Error> {
@@ -772,15 +787,15 @@ impl rlua::UserData for Core {
             "scratch",
             |_, this, (client, name, content): (usize, String, String)| {
                 this.open_scratch(&name, content);
-                this.edit(client, &name, true);
-                Ok(())
+                this.edit(client, &name, true)
+                    .map_err(rlua::Error::external)
             },
         );
         methods.add_method_mut(
             "edit",
             |_, this, (client, name, scratch): (usize, String, bool)| {
-                this.edit(client, &name, scratch);
-                Ok(())
+                this.edit(client, &name, scratch)
+                    .map_err(rlua::Error::external)
             },
         );
         methods.add_method_mut("append_to", |_, this, (buffer, text): (String, String)| {
diff --git a/core/src/editor/mod.rs b/core/src/editor/mod.rs
index 462b98e..431cffb 100644
--- a/core/src/editor/mod.rs
+++ b/core/src/editor/mod.rs
@@ -246,8 +246,9 @@ impl Editor {
         client_id: usize,
         params: &<requests::Edit as requests::Request>::Params,
     ) -> Result<<requests::Edit as requests::Request>::Result, Error> {
-        self.core.edit(client_id, &params.name, params.scratch);
-        Ok(())
+        self.core
+            .edit(client_id, &params.name, params.scratch)
+            .map_err(|e| Error::invalid_request(&e.to_string()))
     }
 
     pub fn command_quit(
-- 
2.43.0


From 9ee9b0e33b8f2f03d08494797bc11a84810efbbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:11 +0000
Subject: [PATCH 09/42] fix: end selections after their whole last character

---
 core/src/editor/buffer.rs | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/core/src/editor/buffer.rs b/core/src/editor/buffer.rs
index b755a76..40ce8f8 100644
--- a/core/src/editor/buffer.rs
+++ b/core/src/editor/buffer.rs
@@ -177,17 +177,11 @@ impl Buffer {
     }
 
     pub fn selection_range(&self, sel: &Selection) -> Range<usize> {
-        let end_offset = if sel.end() == self.content.max_offset() {
-            sel.end() + 1
-        } else {
-            self.content
-                .navigate(self.content.offset_to_coord(sel.end()))
-                .unwrap()
-                .next()
-                .pos()
-                .offset
-        };
-        sel.begin()..end_offset
+        let end_length = self
+            .content
+            .char_at_offset(sel.end())
+            .map_or(1, |grapheme| grapheme.len());
+        sel.begin()..sel.end() + end_length
     }
 }
 
-- 
2.43.0


From 78dae8625b9dfbad66763cf918d948eec5bf1086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:31 +0000
Subject: [PATCH 10/42] fix: leave a deleted view before notifying anyone

---
 core/src/editor/core.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/core/src/editor/core.rs b/core/src/editor/core.rs
index 9dbb6e2..1250a9f 100644
--- a/core/src/editor/core.rs
+++ b/core/src/editor/core.rs
@@ -363,10 +363,10 @@ impl Core {
         }
 
         let view = lock!(self).views.remove(&view_id.to_owned()).unwrap();
-        self.debug(&format!("delete view: {}", view_id));
         for (_id, context) in lock!(self).clients.iter_mut() {
             context.selections.remove(view_id);
         }
+        let mut deleted_buffers = Vec::new();
         for buffer in view.borrow().buffers() {
             let mut has_ref = false;
             for view in lock!(self).views.values() {
@@ -377,11 +377,11 @@ impl Core {
             }
             if !has_ref {
                 lock!(self).buffers.remove(&buffer.to_owned());
-                self.debug(&format!("delete buffer: {}", buffer));
+                deleted_buffers.push(buffer.to_owned());
             }
         }
         if lock!(self).views.is_empty() {
-            if lock!(self).buffers.is_empty() {
+            if !self.buffer_exists(BUFFER_SCRATCH) {
                 self.open_scratch(BUFFER_SCRATCH, String::new());
             }
             self.add_view(View::for_buffer(BUFFER_SCRATCH));
@@ -394,6 +394,11 @@ impl Core {
                 to_notify.push(*id);
             }
         }
+        // nobody displays the deleted view anymore, it is now safe to notify the clients
+        self.debug(&format!("delete view: {}", view_id));
+        for buffer in deleted_buffers {
+            self.debug(&format!("delete buffer: {}", buffer));
+        }
         self.notify_view_update(to_notify);
         Ok(())
     }
-- 
2.43.0


From c73b14b3315b4b60428312224778c07931202a9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:35 +0000
Subject: [PATCH 11/42] fix: keep only the selections of the buffers of a
 modified view

---
 core/src/editor/core.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/core/src/editor/core.rs b/core/src/editor/core.rs
index 1250a9f..15f9dcd 100644
--- a/core/src/editor/core.rs
+++ b/core/src/editor/core.rs
@@ -414,8 +414,12 @@ impl Core {
         if old_key != new_key {
             if !new_view.is_empty() {
                 for (_id, context) in lock!(self).clients.iter_mut() {
-                    if let Some(old_sels) = context.selections.remove(&old_key) {
-                        context.selections.insert(new_key.clone(), old_sels);
+                    if let Some(mut old_sels) = context.selections.remove(&old_key) {
+                        old_sels.retain(|buffer, _| new_view.contains_buffer(buffer));
+                        context
+                            .selections
+                            .entry(new_key.clone())
+                            .or_insert(old_sels);
                     }
                 }
                 self.add_view(new_view);
-- 
2.43.0


From a92b756022f8881ec491531d876550d5a48f8b33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:38 +0000
Subject: [PATCH 12/42] fix: create the selections of a view opened by its
 buffer name

---
 core/src/editor/core.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/core/src/editor/core.rs b/core/src/editor/core.rs
index 15f9dcd..9a06105 100644
--- a/core/src/editor/core.rs
+++ b/core/src/editor/core.rs
@@ -487,13 +487,13 @@ impl Core {
             self.notify_view_update(vec![client_id]);
             Ok(())
         } else if self.buffer_exists(view_id) {
+            let view = View::for_buffer(view_id);
+            let key = view.key();
+            self.add_view(view);
             {
                 let mut state = lock!(self);
-                let view = Rc::new(RefCell::new(View::for_buffer(view_id)));
-                let key = view.borrow().key();
-                let context = state.clients.get_mut(&client_id).unwrap();
-                context.view = Rc::clone(&view);
-                state.views.entry(key).or_insert(view);
+                let view = Rc::clone(&state.views[&key]);
+                state.clients.get_mut(&client_id).unwrap().view = view;
             }
             self.notify_view_update(vec![client_id]);
             Ok(())
-- 
2.43.0


From 40a118ad6b814e1bc6ff5bbcaf9891bb2292b763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:28 +0000
Subject: [PATCH 13/42] fix: show the current view to every new client with
 selections for all views

---
 core/src/editor/core.rs | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/core/src/editor/core.rs b/core/src/editor/core.rs
index 9a06105..441cd6d 100644
--- a/core/src/editor/core.rs
+++ b/core/src/editor/core.rs
@@ -298,16 +298,19 @@ impl Core {
                 state.clients[c].clone()
             } else {
                 let latest_view = state.views.latest_value().unwrap();
-                let mut selections = HashMap::new();
-                selections.insert(
-                    latest_view.borrow().key(),
-                    latest_view
-                        .borrow()
-                        .buffers()
-                        .iter()
-                        .map(|&b| (b.clone(), vec![Selection::new()]))
-                        .collect(),
-                );
+                let selections = state
+                    .views
+                    .iter()
+                    .map(|(key, view)| {
+                        let sels = view
+                            .borrow()
+                            .buffers()
+                            .iter()
+                            .map(|&b| (b.clone(), vec![Selection::new()]))
+                            .collect();
+                        (key.clone(), sels)
+                    })
+                    .collect();
                 ClientContext {
                     view: Rc::clone(latest_view),
                     selections,
@@ -317,6 +320,7 @@ impl Core {
         }
         self.debug(&format!("new client: {}", id));
         self.notifier.info_update(id, info);
+        self.notify_view_update(vec![id]);
     }
 
     pub fn remove_client(&mut self, id: usize) {
-- 
2.43.0


From a2a56246ccb685070d6192c3bb13b41f4cb99af7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:03 +0000
Subject: [PATCH 14/42] fix: keep every selection on existing text when a
 buffer shrinks

---
 core/src/editor/core.rs      | 93 ++++++++++++++++++++++++------------
 core/src/editor/selection.rs | 16 -------
 2 files changed, 63 insertions(+), 46 deletions(-)

diff --git a/core/src/editor/core.rs b/core/src/editor/core.rs
index 441cd6d..182e3b0 100644
--- a/core/src/editor/core.rs
+++ b/core/src/editor/core.rs
@@ -213,6 +213,18 @@ impl Core {
             .collect()
     }
 
+    fn clients_with_buffers(&self, names: &HashSet<String>) -> Vec<usize> {
+        lock!(self)
+            .clients
+            .iter()
+            .filter(|(_id, ctx)| {
+                let view = ctx.view.borrow();
+                names.iter().any(|name| view.contains_buffer(name))
+            })
+            .map(|(&id, _ctx)| id)
+            .collect()
+    }
+
     fn get_selected_text(&self, buffer: &str, sel: &Selection) -> Option<String> {
         let state = lock!(self);
         state
@@ -330,7 +342,9 @@ impl Core {
 
     pub fn open_scratch(&mut self, name: &str, content: String) {
         let buffer = Buffer::new_scratch(name.to_owned(), content);
-        lock!(self).buffers.insert(name.to_owned(), buffer);
+        let mut state = lock!(self);
+        state.buffers.insert(name.to_owned(), buffer);
+        Self::clamp_selections(&mut state, name);
     }
 
     pub fn open_file(&mut self, buffer_name: &str, filename: &Path) -> Result<(), Error> {
@@ -441,15 +455,20 @@ impl Core {
             }
             false
         } else if exists {
-            let reloaded = lock!(self)
-                .buffers
-                .get_mut(name)
-                .unwrap()
-                .load_from_disk()
-                .map_err(|source| Error::FileNotLoaded {
-                    name: name.to_owned(),
-                    source,
-                })?;
+            let reloaded = {
+                let mut state = lock!(self);
+                let reloaded = state
+                    .buffers
+                    .get_mut(name)
+                    .unwrap()
+                    .load_from_disk()
+                    .map_err(|source| Error::FileNotLoaded {
+                        name: name.to_owned(),
+                        source,
+                    })?;
+                Self::clamp_selections(&mut state, name);
+                reloaded
+            };
             if reloaded {
                 self.debug(&format!("reloaded from disk: {}", name));
             }
@@ -595,25 +614,34 @@ impl Core {
         }
     }
 
-    fn clamp_selections(state: &mut MutexGuard<CoreState>, client_id: usize, bufname: &str) {
-        let max_offset = state.buffers[bufname].content.max_offset();
-        let ctx = state.clients.get_mut(&client_id).unwrap();
-        let view_key = ctx.view.borrow().key();
-        ctx.selections
-            .get_mut(&view_key)
-            .unwrap()
-            .get_mut(bufname)
-            .unwrap()
-            .iter_mut()
-            .for_each(|s| {
-                s.clamp_to(max_offset);
-            });
+    fn clamp_selections(state: &mut MutexGuard<CoreState>, bufname: &str) {
+        let state: &mut CoreState = state;
+        let content = match state.buffers.get(bufname) {
+            Some(buffer) => &buffer.content,
+            None => return,
+        };
+        let max_offset = content.max_offset();
+        // the first byte of the character containing an offset, or of the last character
+        let adjust = |offset: usize| {
+            content
+                .offset_to_coord(offset.min(max_offset))
+                .and_then(|coord| content.coord_to_offset(coord))
+                .unwrap_or(0)
+        };
+        for (_id, ctx) in state.clients.iter_mut() {
+            for sels in ctx.selections.values_mut() {
+                for s in sels.get_mut(bufname).into_iter().flatten() {
+                    s.anchor = adjust(s.anchor);
+                    s.cursor = adjust(s.cursor);
+                }
+            }
+        }
     }
 
     pub fn delete_selection(&mut self, client_id: usize) -> Vec<String> {
         let mut deleted = Vec::new();
+        let mut modified_buffers = HashSet::new();
         {
-            let mut modified_buffers = HashSet::new();
             let mut state = lock!(self);
             let ctx = &state.clients[&client_id];
             let view_key = ctx.view.borrow().key();
@@ -637,13 +665,11 @@ impl Core {
             }
             // XXX selections reprocessing is made afterwards because of the borrow rules on struct attributes
             // XXX in 2021 edition it should be possible to handle both operations in one pass
-            for bufname in modified_buffers {
-                Self::clamp_selections(&mut state, client_id, &bufname);
+            for bufname in &modified_buffers {
+                Self::clamp_selections(&mut state, bufname);
             }
         }
-        if !deleted.is_empty() {
-            self.notify_view_update(vec![client_id]);
-        }
+        self.notify_view_update(self.clients_with_buffers(&modified_buffers));
         deleted
     }
 }
@@ -801,7 +827,14 @@ impl rlua::UserData for Core {
             |_, this, (client, name, content): (usize, String, String)| {
                 this.open_scratch(&name, content);
                 this.edit(client, &name, true)
-                    .map_err(rlua::Error::external)
+                    .map_err(rlua::Error::external)?;
+                let others = this
+                    .clients_with_buffer(&name)
+                    .into_iter()
+                    .filter(|&id| id != client)
+                    .collect();
+                this.notify_view_update(others);
+                Ok(())
             },
         );
         methods.add_method_mut(
diff --git a/core/src/editor/selection.rs b/core/src/editor/selection.rs
index b8f76ba..58632d2 100644
--- a/core/src/editor/selection.rs
+++ b/core/src/editor/selection.rs
@@ -35,20 +35,4 @@ impl Selection {
             self.anchor
         }
     }
-
-    pub fn clamp_to(&mut self, n: usize) -> usize {
-        if n <= self.end() {
-            let delta;
-            if self.anchor < self.cursor {
-                delta = self.cursor - n;
-                self.cursor = n;
-            } else {
-                delta = self.anchor - n;
-                self.anchor = n;
-            }
-            delta
-        } else {
-            0
-        }
-    }
 }
-- 
2.43.0


From 400067bec441388f002b4e69f7a1377dd26db289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:03 +0000
Subject: [PATCH 15/42] fix: let clients quit and vanish without stopping the
 server

---
 core/src/editor/core.rs               |  9 +++++++--
 core/src/editor/mod.rs                | 11 ++++++++++-
 core/src/server.rs                    | 24 ++++++++++++++++--------
 remote/src/transport/server_stream.rs |  8 ++++++++
 4 files changed, 41 insertions(+), 11 deletions(-)

diff --git a/core/src/editor/core.rs b/core/src/editor/core.rs
index 182e3b0..330e622 100644
--- a/core/src/editor/core.rs
+++ b/core/src/editor/core.rs
@@ -195,6 +195,10 @@ impl Core {
         lock!(self).views.keys().map(String::to_owned).collect()
     }
 
+    pub fn client_exists(&self, id: usize) -> bool {
+        lock!(self).clients.contains_key(&id)
+    }
+
     fn clients_with_buffer(&self, name: &str) -> Vec<usize> {
         if !self.buffer_exists(name) {
             return Vec::new();
@@ -336,8 +340,9 @@ impl Core {
     }
 
     pub fn remove_client(&mut self, id: usize) {
-        lock!(self).clients.remove(&id);
-        self.debug(&format!("client left: {}", id));
+        if lock!(self).clients.remove(&id).is_some() {
+            self.debug(&format!("client left: {}", id));
+        }
     }
 
     pub fn open_scratch(&mut self, name: &str, content: String) {
diff --git a/core/src/editor/mod.rs b/core/src/editor/mod.rs
index 431cffb..09d0eee 100644
--- a/core/src/editor/mod.rs
+++ b/core/src/editor/mod.rs
@@ -197,6 +197,9 @@ impl Editor {
     }
 
     pub fn remove_client(&mut self, id: usize) {
+        if !self.core.client_exists(id) {
+            return;
+        }
         self.core.remove_client(id);
         let _ = self.exec_lua("remove_client", id, |lua| {
             lua.load(&format!("editor:remove_client({})", id)).exec()
@@ -219,6 +222,12 @@ impl Editor {
             }
         };
         log::trace!("<- ({}) {}", client_id, msg);
+        if !self.core.client_exists(client_id) {
+            return Ok(Response::invalid_request(
+                msg.id,
+                &format!("unknown client: {}", client_id),
+            ));
+        }
         match msg.method.as_str() {
             "edit" => response!(msg, |params| self.command_edit(client_id, params)),
             "quit" => Response::new(msg.id.clone(), self.command_quit(client_id)),
@@ -255,7 +264,7 @@ impl Editor {
         &mut self,
         client_id: usize,
     ) -> Result<<requests::Quit as requests::Request>::Result, Error> {
-        self.core.remove_client(client_id);
+        self.remove_client(client_id);
         self.stopped_clients.insert(client_id);
         Ok(())
     }
diff --git a/core/src/server.rs b/core/src/server.rs
index 6da977e..6c3afcb 100644
--- a/core/src/server.rs
+++ b/core/src/server.rs
@@ -106,30 +106,38 @@ impl Server {
                 }
                 Event::Leave(client_id) => {
                     editor.remove_client(client_id);
+                    // the client may have already left by quitting
                     clients
                         .write()
                         .expect("lock client index")
-                        .remove(&client_id)
-                        .expect("remove client from index");
+                        .remove(&client_id);
                     log::info!("client {}: connection closed", client_id);
                     is_leave_event = true;
                 }
                 Event::Message((client_id, raw)) => match editor.handle(client_id, &raw) {
                     Ok(message) => {
                         let mut index = clients.write().expect("lock client index");
-                        let stream = index.get_mut(&client_id).unwrap();
-                        Self::write_client(client_id, stream, &message)
-                            .expect("send response to client");
+                        if let Some(stream) = index.get_mut(&client_id) {
+                            let res = Self::write_client(client_id, stream, &message);
+                            if let Err(e) = res {
+                                log::error!("{}", e);
+                            }
+                        }
                     }
                     Err(e) => log::error!("{}: {:?}", e, raw),
                 },
             }
             for client_id in editor.removed_clients() {
-                clients
+                let stream = clients
                     .write()
                     .expect("lock client index")
-                    .remove(&client_id)
-                    .expect("remove client from index");
+                    .remove(&client_id);
+                if let Some(stream) = stream {
+                    // ends the reading task, which notifies the departure
+                    if let Err(e) = stream.shutdown() {
+                        log::error!("{}", e);
+                    }
+                }
                 log::info!("client {}: quit", client_id);
             }
             if clients.read().expect("lock client index").len() == 0 && is_leave_event {
diff --git a/remote/src/transport/server_stream.rs b/remote/src/transport/server_stream.rs
index abd280e..65bd1db 100644
--- a/remote/src/transport/server_stream.rs
+++ b/remote/src/transport/server_stream.rs
@@ -1,4 +1,5 @@
 use std::io;
+use std::net::Shutdown;
 use std::pin::Pin;
 use std::task::{Context, Poll};
 
@@ -22,6 +23,13 @@ impl ServerStream {
             Tcp(sock_addr) => Ok(ServerStream::Tcp(TcpStream::connect(sock_addr).await?)),
         }
     }
+
+    pub fn shutdown(&self) -> io::Result<()> {
+        match self {
+            ServerStream::Socket(inner) => inner.shutdown(Shutdown::Both),
+            ServerStream::Tcp(inner) => inner.shutdown(Shutdown::Both),
+        }
+    }
 }
 
 impl AsyncRead for ServerStream {
-- 
2.43.0


From 938654513e8139eb60c1c10279e5b8f924c9faa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:27 +0000
Subject: [PATCH 16/42] fix: refuse script calls naming unknown clients

---
 core/src/editor/core.rs | 24 ++++++++++++++++++++++++
 core/src/editor/mod.rs  |  6 ++++++
 2 files changed, 30 insertions(+)

diff --git a/core/src/editor/core.rs b/core/src/editor/core.rs
index 330e622..6013364 100644
--- a/core/src/editor/core.rs
+++ b/core/src/editor/core.rs
@@ -117,6 +117,7 @@ macro_rules! lock {
 #[derive(Debug)]
 pub enum Error {
     BufferNotFound { name: String },
+    ClientNotFound { id: usize },
     FileNotLoaded { name: String, source: std::io::Error },
     ViewNotFound { view_id: String },
 }
@@ -126,6 +127,7 @@ impl std::fmt::Display for Error {
         use Error::*;
         match self {
             BufferNotFound { name } => write!(f, "buffer not found: {}", name),
+            ClientNotFound { id } => write!(f, "client not found: {}", id),
             FileNotLoaded { name, source } => write!(f, "could not load file: {}: {}", name, source),
             ViewNotFound { view_id } => write!(f, "view not found: {}", view_id),
         }
@@ -199,6 +201,14 @@ impl Core {
         lock!(self).clients.contains_key(&id)
     }
 
+    pub fn check_client(&self, id: usize) -> Result<(), Error> {
+        if self.client_exists(id) {
+            Ok(())
+        } else {
+            Err(Error::ClientNotFound { id })
+        }
+    }
+
     fn clients_with_buffer(&self, name: &str) -> Vec<usize> {
         if !self.buffer_exists(name) {
             return Vec::new();
@@ -786,15 +796,18 @@ impl rlua::UserData for Core {
             Ok(())
         });
         methods.add_method_mut("message", |_, this, (client, content): (usize, String)| {
+            this.check_client(client).map_err(rlua::Error::external)?;
             this.message(client, &content);
             Ok(())
         });
         methods.add_method_mut("error", |_, this, (client, content): (usize, String)| {
+            this.check_client(client).map_err(rlua::Error::external)?;
             this.error(client, "lua", &content);
             Ok(())
         });
 
         methods.add_method("get_context", |lua, this, client: usize| {
+            this.check_client(client).map_err(rlua::Error::external)?;
             let context = lock!(this).clients[&client].clone();
             let view_key = context.view.borrow().key();
             let sels = &context.selections[&view_key];
@@ -830,6 +843,7 @@ impl rlua::UserData for Core {
         methods.add_method_mut(
             "scratch",
             |_, this, (client, name, content): (usize, String, String)| {
+                this.check_client(client).map_err(rlua::Error::external)?;
                 this.open_scratch(&name, content);
                 this.edit(client, &name, true)
                     .map_err(rlua::Error::external)?;
@@ -845,6 +859,7 @@ impl rlua::UserData for Core {
         methods.add_method_mut(
             "edit",
             |_, this, (client, name, scratch): (usize, String, bool)| {
+                this.check_client(client).map_err(rlua::Error::external)?;
                 this.edit(client, &name, scratch)
                     .map_err(rlua::Error::external)
             },
@@ -855,38 +870,47 @@ impl rlua::UserData for Core {
         });
 
         methods.add_method_mut("move_left", |_, this, (client, extend)| {
+            this.check_client(client).map_err(rlua::Error::external)?;
             this.move_cursor(client, CursorTarget::Left, extend);
             Ok(())
         });
         methods.add_method_mut("move_right", |_, this, (client, extend)| {
+            this.check_client(client).map_err(rlua::Error::external)?;
             this.move_cursor(client, CursorTarget::Right, extend);
             Ok(())
         });
         methods.add_method_mut("move_up", |_, this, (client, extend)| {
+            this.check_client(client).map_err(rlua::Error::external)?;
             this.move_cursor(client, CursorTarget::Up, extend);
             Ok(())
         });
         methods.add_method_mut("move_down", |_, this, (client, extend)| {
+            this.check_client(client).map_err(rlua::Error::external)?;
             this.move_cursor(client, CursorTarget::Down, extend);
             Ok(())
         });
         methods.add_method_mut("move_to_line_begin", |_, this, (client, extend)| {
+            this.check_client(client).map_err(rlua::Error::external)?;
             this.move_cursor(client, CursorTarget::LineBegin, extend);
             Ok(())
         });
         methods.add_method_mut("move_to_line_end", |_, this, (client, extend)| {
+            this.check_client(client).map_err(rlua::Error::external)?;
             this.move_cursor(client, CursorTarget::LineEnd, extend);
             Ok(())
         });
         methods.add_method_mut("move_to_begin", |_, this, (client, extend)| {
+            this.check_client(client).map_err(rlua::Error::external)?;
             this.move_cursor(client, CursorTarget::Begin, extend);
             Ok(())
         });
         methods.add_method_mut("move_to_end", |_, this, (client, extend)| {
+            this.check_client(client).map_err(rlua::Error::external)?;
             this.move_cursor(client, CursorTarget::End, extend);
             Ok(())
         });
         methods.add_method_mut("delete_selection", |_, this, client| {
+            this.check_client(client).map_err(rlua::Error::external)?;
             let deleted = this.delete_selection(client);
             Ok(deleted)
         });
diff --git a/core/src/editor/mod.rs b/core/src/editor/mod.rs
index 09d0eee..3aa041f 100644
--- a/core/src/editor/mod.rs
+++ b/core/src/editor/mod.rs
@@ -62,6 +62,9 @@ impl rlua::UserData for LuaEditor {
         methods.add_method(
             "set_status_line",
             |_, this, (client, config): (usize, HashMap<String, rlua::Table>)| {
+                this.core
+                    .check_client(client)
+                    .map_err(rlua::Error::external)?;
                 let mut items = Vec::new();
                 for v in config.values() {
                     items.push(notifications::StatusParamsItem {
@@ -79,6 +82,9 @@ impl rlua::UserData for LuaEditor {
         methods.add_method(
             "show_hint",
             |_, this, (client, lines): (usize, Vec<String>)| {
+                this.core
+                    .check_client(client)
+                    .map_err(rlua::Error::external)?;
                 let params = notifications::HintParams {
                     text: lines.iter().map(|l| l.as_str().into()).collect(),
                 };
-- 
2.43.0


From 71efb05ab4feacc4456fd260fd33e813e2b11b17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:45 +0000
Subject: [PATCH 17/42] fix: search the words of menu searches literally

---
 core/src/editor/menu.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/src/editor/menu.rs b/core/src/editor/menu.rs
index 8beb8b3..daab47a 100644
--- a/core/src/editor/menu.rs
+++ b/core/src/editor/menu.rs
@@ -150,7 +150,7 @@ impl MenuFilter {
         let elements: Vec<String> = self
             .search
             .split_whitespace()
-            .map(|e| format!("({})", e))
+            .map(|e| format!("({})", regex::escape(e)))
             .collect();
         let raw_re = format!("(?i){}", elements.join(".*"));
         Regex::new(&raw_re).unwrap()
-- 
2.43.0


From 4bb0a59c649e653497017b74a0d443f932d2cf4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:50 +0000
Subject: [PATCH 18/42] fix: support menus without entries

---
 remote/src/connection.rs | 33 ++++++++++++++++++---------------
 1 file changed, 18 insertions(+), 15 deletions(-)

diff --git a/remote/src/connection.rs b/remote/src/connection.rs
index 5c04872..e4dd00f 100644
--- a/remote/src/connection.rs
+++ b/remote/src/connection.rs
@@ -22,7 +22,7 @@ pub struct Menu {
 
 impl Menu {
     fn select_next(&mut self) {
-        if self.selected < self.entries.len() - 1 {
+        if self.selected + 1 < self.entries.len() {
             self.selected += 1;
         }
     }
@@ -33,8 +33,10 @@ impl Menu {
         }
     }
 
-    fn selected_item(&self) -> &str {
-        &self.entries[self.selected].value
+    fn selected_item(&self) -> Option<&str> {
+        self.entries
+            .get(self.selected)
+            .map(|entry| entry.value.as_str())
     }
 }
 
@@ -197,18 +199,19 @@ impl Connection {
 
     pub fn menu_select(&mut self) {
         if let Some(menu) = self.state().menu {
-            let selected = menu.selected_item();
-            let id = self.request_id();
-            let choice = if selected.is_empty() {
-                &menu.search
-            } else {
-                selected
-            };
-            let params = requests::MenuSelectParams {
-                command: menu.command.to_owned(),
-                choice: choice.to_owned(),
-            };
-            self.request(requests::MenuSelect::new(id, params));
+            if let Some(selected) = menu.selected_item() {
+                let id = self.request_id();
+                let choice = if selected.is_empty() {
+                    &menu.search
+                } else {
+                    selected
+                };
+                let params = requests::MenuSelectParams {
+                    command: menu.command.to_owned(),
+                    choice: choice.to_owned(),
+                };
+                self.request(requests::MenuSelect::new(id, params));
+            }
             self.action_menu_cancel();
         } else {
             log::warn!("menu_select without active menu");
-- 
2.43.0


From 0b543816833a1ff5d554aecd66b2081a9485358a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:44 +0000
Subject: [PATCH 19/42] fix: search across line ends and survive huge menu
 searches

---
 core/src/editor/menu.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/core/src/editor/menu.rs b/core/src/editor/menu.rs
index daab47a..a37140d 100644
--- a/core/src/editor/menu.rs
+++ b/core/src/editor/menu.rs
@@ -152,8 +152,9 @@ impl MenuFilter {
             .split_whitespace()
             .map(|e| format!("({})", regex::escape(e)))
             .collect();
-        let raw_re = format!("(?i){}", elements.join(".*"));
-        Regex::new(&raw_re).unwrap()
+        let raw_re = format!("(?is){}", elements.join(".*"));
+        // an expression too big to be compiled does not match anything
+        Regex::new(&raw_re).unwrap_or_else(|_| Regex::new("a^").unwrap())
     }
 
     pub fn filter<T>(&self, items: &[T]) -> Candidates<T>
-- 
2.43.0


From efe2999f1083c180c35f7338f57ff21c2cfec473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:51 +0000
Subject: [PATCH 20/42] fix: keep null results of decoded responses

---
 remote/src/jsonrpc.rs | 52 +++++++++++++++++++++++++++++++++++--------
 1 file changed, 43 insertions(+), 9 deletions(-)

diff --git a/remote/src/jsonrpc.rs b/remote/src/jsonrpc.rs
index acc5fe7..b660c31 100644
--- a/remote/src/jsonrpc.rs
+++ b/remote/src/jsonrpc.rs
@@ -1,8 +1,9 @@
+use std::convert::TryFrom;
 use std::fmt;
 use std::str::FromStr;
 
 use serde::de::DeserializeOwned;
-use serde::Serialize;
+use serde::{Deserialize, Deserializer, Serialize};
 use serde_json::{from_value, to_string, to_value, Value};
 
 pub type JsonCodingError = serde_json::Error;
@@ -198,7 +199,44 @@ impl fmt::Display for Error {
 
 impl std::error::Error for Error {}
 
+#[derive(Deserialize)]
+struct RawResponse {
+    jsonrpc: String,
+    id: Id,
+    #[serde(default, deserialize_with = "deserialize_present")]
+    result: Option<Value>,
+    error: Option<Error>,
+}
+
+// contrary to the default, keeps the difference between a null and an absent value
+fn deserialize_present<'de, D>(deserializer: D) -> Result<Option<Value>, D::Error>
+where
+    D: Deserializer<'de>,
+{
+    Value::deserialize(deserializer).map(Some)
+}
+
+impl TryFrom<RawResponse> for Response {
+    type Error = &'static str;
+
+    fn try_from(raw: RawResponse) -> Result<Self, Self::Error> {
+        let result = match (raw.result, &raw.error) {
+            (None, None) => return Err("response without result nor error"),
+            (Some(Value::Null), Some(_)) => None,
+            (Some(_), Some(_)) => return Err("response with both result and error"),
+            (result, _) => result,
+        };
+        Ok(Response {
+            jsonrpc: raw.jsonrpc,
+            id: raw.id,
+            result,
+            error: raw.error,
+        })
+    }
+}
+
 #[derive(Debug, Serialize, Deserialize)]
+#[serde(try_from = "RawResponse")]
 pub struct Response {
     jsonrpc: String,
     pub id: Id,
@@ -227,9 +265,9 @@ impl Response {
     where
         T: DeserializeOwned,
     {
-        Ok(match self.result {
-            Some(ref result) => Ok(from_value(result.clone())?),
-            None => Err(self.error.clone().unwrap()),
+        Ok(match self.error {
+            Some(ref error) => Err(error.clone()),
+            None => Ok(from_value(self.result.clone().unwrap_or(Value::Null))?),
         })
     }
 
@@ -254,14 +292,10 @@ impl Response {
     where
         T: Serialize,
     {
-        let serialized_result = match result {
-            Some(r) => Some(serde_json::to_value(r)?),
-            None => None,
-        };
         Ok(Response {
             jsonrpc: "2.0".to_string(),
             id,
-            result: serialized_result,
+            result: Some(to_value(result)?),
             error: None,
         })
     }
-- 
2.43.0


From 906df7a8b73a5e309fd02e685bdc29171eee1784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:12 +0000
Subject: [PATCH 21/42] fix: parse every address of a TCP session and never
 crash on its name

---
 remote/src/session.rs | 33 +++++++++++++++++++++------------
 1 file changed, 21 insertions(+), 12 deletions(-)

diff --git a/remote/src/session.rs b/remote/src/session.rs
index 73285fb..2e39c00 100644
--- a/remote/src/session.rs
+++ b/remote/src/session.rs
@@ -1,7 +1,7 @@
 use std::env;
 use std::fmt;
 use std::fs;
-use std::net::SocketAddr;
+use std::net::{SocketAddr, ToSocketAddrs};
 use std::path::PathBuf;
 use std::str::FromStr;
 
@@ -9,7 +9,8 @@ use regex::Regex;
 
 lazy_static! {
     static ref RE_ADDR: Regex =
-        Regex::new(r"^@(?P<address>\w+|\d+\.\d\.\d+\.\d+)?:(?P<port>\d+)$").unwrap();
+        Regex::new(r"^@(?P<address>[\w-]+(\.[\w-]+)*|\[[[:xdigit:]:.]+(%\d+)?\])?:(?P<port>\d+)$")
+            .unwrap();
 }
 
 #[cfg(unix)]
@@ -25,7 +26,23 @@ pub enum ConnectionMode {
 
 impl ConnectionMode {
     fn is_tcp(s: &str) -> bool {
-        RE_ADDR.is_match(s)
+        Self::tcp_addr(s).is_some()
+    }
+
+    /// The endpoint denoted by `@[address]:port`, if any.
+    fn tcp_addr(s: &str) -> Option<SocketAddr> {
+        let caps = RE_ADDR.captures(s)?;
+        let address = caps
+            .name("address")
+            .map(|m| m.as_str())
+            .unwrap_or("127.0.0.1");
+        let endpoint = format!("{}:{}", address, &caps["port"]);
+        if let Ok(addr) = endpoint.parse() {
+            return Some(addr);
+        }
+        let addrs: Vec<SocketAddr> = endpoint.to_socket_addrs().ok()?.collect();
+        let ipv4 = addrs.iter().find(|addr| addr.is_ipv4());
+        ipv4.or_else(|| addrs.first()).copied()
     }
 }
 
@@ -44,15 +61,7 @@ impl FromStr for ConnectionMode {
 
     fn from_str(s: &str) -> Result<Self, Self::Err> {
         use self::ConnectionMode::*;
-        if let Some(caps) = RE_ADDR.captures(s) {
-            let address = caps
-                .name("address")
-                .map(|m| m.as_str())
-                .unwrap_or("127.0.0.1");
-            let port = caps.name("port").unwrap().as_str();
-            let sock_addr = format!("{}:{}", address, port)
-                .parse()
-                .expect("invalid address");
+        if let Some(sock_addr) = Self::tcp_addr(s) {
             Ok(Tcp(sock_addr))
         } else {
             Ok(Socket(s.into()))
-- 
2.43.0


From 37b5580a05c39f51dd89b6120cedf138eeec9c05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:09 +0000
Subject: [PATCH 22/42] fix: parse the names of all the keys

---
 remote/src/keys.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/remote/src/keys.rs b/remote/src/keys.rs
index d676d25..d045d02 100644
--- a/remote/src/keys.rs
+++ b/remote/src/keys.rs
@@ -53,7 +53,15 @@ impl FromStr for Key {
         }
 
         match s {
+            "bkspc" => Ok(Key::Backspace),
+            "ret" => Ok(Key::Enter),
             "esc" => Ok(Key::Escape),
+
+            "up" => Ok(Key::Up),
+            "down" => Ok(Key::Down),
+            "left" => Ok(Key::Left),
+            "right" => Ok(Key::Right),
+
             _ => Err(ParseKeyError {
                 raw_source: s.to_owned(),
             }),
-- 
2.43.0


From 743d7cb90554b5942c742f1c2ba8465377d05c4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:13 +0000
Subject: [PATCH 23/42] fix: write each event on its own line in json mode

---
 core/src/clients.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/core/src/clients.rs b/core/src/clients.rs
index fff920c..97f1ebc 100644
--- a/core/src/clients.rs
+++ b/core/src/clients.rs
@@ -80,7 +80,10 @@ impl StdioClient {
             ex.spawn(request_loop).detach();
             while let Some(event) = events.next().await {
                 match event {
-                    Ok(msg) => stdout.write_all(msg.to_string().as_bytes()).await?,
+                    Ok(msg) => {
+                        stdout.write_all(format!("{}\n", msg).as_bytes()).await?;
+                        stdout.flush().await?;
+                    }
                     Err(e) => log::error!("invalid event: {}", e),
                 }
             }
-- 
2.43.0


From 500ffb52e63552c0b635f70338cbd798b1c77b0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:18 +0000
Subject: [PATCH 24/42] fix: report connection errors as events

---
 remote/src/client.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/remote/src/client.rs b/remote/src/client.rs
index e19bb31..37a288a 100644
--- a/remote/src/client.rs
+++ b/remote/src/client.rs
@@ -3,6 +3,7 @@ use crate::session::Session;
 use crate::transport::ServerStream;
 use async_channel::{unbounded, Receiver, Sender};
 use futures_lite::*;
+use serde::de::Error as _;
 
 pub type ClientEventResult = Result<ClientEvent, JsonCodingError>;
 
@@ -37,8 +38,7 @@ impl Client {
         };
         fn parse_line(x: io::Result<String>) -> Result<ClientEvent, JsonCodingError> {
             log::trace!("polled a new client event");
-            // TODO handle io::Error (eg: closed connection)
-            x.expect("parse line").parse()
+            x.map_err(JsonCodingError::custom)?.parse()
         }
         Ok((
             io::BufReader::new(stream).lines().map(parse_line),
-- 
2.43.0


From cdef5f2f0677292cc437694c7f7e70fa9ebcf908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:55 +0000
Subject: [PATCH 25/42] fix: hand over to C only the events and texts it can
 express

---
 remote-ffi/src/connection.rs | 20 +++++++++++++-------
 remote-ffi/src/event.rs      | 16 +++++++++-------
 remote-ffi/src/lib.rs        |  9 ++++++---
 remote-ffi/src/text.rs       |  1 +
 4 files changed, 29 insertions(+), 17 deletions(-)

diff --git a/remote-ffi/src/connection.rs b/remote-ffi/src/connection.rs
index a2a7afb..1e3ad4a 100644
--- a/remote-ffi/src/connection.rs
+++ b/remote-ffi/src/connection.rs
@@ -2,7 +2,7 @@ use std::ffi::CStr;
 use std::os::raw::c_char;
 use std::ptr;
 use std::sync::mpsc::{self, Receiver};
-use std::time::Duration;
+use std::time::{Duration, Instant};
 
 use crate::event::CedEvent;
 use crate::{raw, set_last_error};
@@ -60,11 +60,17 @@ pub unsafe extern "C" fn ced_connection_next_event<'a>(p: *mut CedConnection) ->
     //         ptr::null_mut()
     //     }
     // }
-    if let Ok(ev) = handle.events.recv_timeout(Duration::from_secs(5)) {
-        println!("<-- {:?}", ev);
-        Box::into_raw(Box::new(CedEvent::from(ev)))
-    } else {
-        println!("<-- None");
-        ptr::null_mut()
+    let deadline = Instant::now() + Duration::from_secs(5);
+    loop {
+        let timeout = deadline.saturating_duration_since(Instant::now());
+        if let Ok(ev) = handle.events.recv_timeout(timeout) {
+            println!("<-- {:?}", ev);
+            if let Some(event) = CedEvent::from_event(ev) {
+                return Box::into_raw(Box::new(event));
+            }
+        } else {
+            println!("<-- None");
+            return ptr::null_mut();
+        }
     }
 }
diff --git a/remote-ffi/src/event.rs b/remote-ffi/src/event.rs
index f45b703..1e6866a 100644
--- a/remote-ffi/src/event.rs
+++ b/remote-ffi/src/event.rs
@@ -34,13 +34,14 @@ pub enum CedEvent {
     },
 }
 
-impl From<ConnectionEvent> for CedEvent {
-    fn from(event: ConnectionEvent) -> CedEvent {
-        match event {
+impl CedEvent {
+    /// Returns `None` for the events that have no C counterpart.
+    pub fn from_event(event: ConnectionEvent) -> Option<CedEvent> {
+        let event = match event {
             ConnectionEvent::Echo(text) => CedEvent::Echo {
                 message: raw!(CedTextIterator::from(&text)),
             },
-            ConnectionEvent::Hint(_hint) => todo!(),
+            ConnectionEvent::Hint(_hint) => return None,
             ConnectionEvent::Info(client, session) => CedEvent::Info {
                 client: cstring!(client),
                 session: cstring!(session),
@@ -58,9 +59,10 @@ impl From<ConnectionEvent> for CedEvent {
             ConnectionEvent::View(view) => CedEvent::View {
                 items: raw!(ViewIterator::from(&view)),
             },
-            ConnectionEvent::ConnErr(_msg) => todo!(),
-            ConnectionEvent::Noop => todo!(),
-        }
+            ConnectionEvent::ConnErr(_msg) => return None,
+            ConnectionEvent::Noop => return None,
+        };
+        Some(event)
     }
 }
 
diff --git a/remote-ffi/src/lib.rs b/remote-ffi/src/lib.rs
index 5d419de..0ba31d7 100644
--- a/remote-ffi/src/lib.rs
+++ b/remote-ffi/src/lib.rs
@@ -19,11 +19,14 @@ macro_rules! raw {
 
 #[macro_export]
 macro_rules! cstring {
-    ($e:expr) => {
-        std::ffi::CString::new($e)
+    ($e:expr) => {{
+        // C strings can't hold null bytes
+        let mut bytes: Vec<u8> = $e.into();
+        bytes.retain(|&b| b != 0);
+        std::ffi::CString::new(bytes)
             .expect("failed to encode string")
             .into_raw()
-    };
+    }};
 }
 
 pub struct IndexedIterator<T, U> {
diff --git a/remote-ffi/src/text.rs b/remote-ffi/src/text.rs
index e7e926d..2b3ac6a 100644
--- a/remote-ffi/src/text.rs
+++ b/remote-ffi/src/text.rs
@@ -4,6 +4,7 @@ use crate::cstring;
 use crate::IndexedIterator;
 use remote::protocol::{Text, TextFragment};
 
+#[repr(C)]
 pub struct CedTextItem {
     pub text: *const c_char,
     pub face: *const c_char,
-- 
2.43.0


From ff53c5be2c6e14d0b7289461377ec287509c5f85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:14 +0000
Subject: [PATCH 26/42] fix: report failures to connect instead of panicking

---
 core/src/bin/ced.rs          |  3 +--
 core/src/tui.rs              |  7 ++++---
 remote-ffi/src/connection.rs |  8 +++++++-
 remote/src/connection.rs     | 10 +++++-----
 4 files changed, 17 insertions(+), 11 deletions(-)

diff --git a/core/src/bin/ced.rs b/core/src/bin/ced.rs
index 3efbb84..aae524d 100644
--- a/core/src/bin/ced.rs
+++ b/core/src/bin/ced.rs
@@ -113,8 +113,7 @@ fn main() -> io::Result<()> {
             Mode::term => {
                 use ced::tui::Term;
                 ensure_session(&session)?;
-                Term::new(session, &filenames).start();
-                Ok(())
+                Term::new(session, &filenames).start()
             }
         }
     }
diff --git a/core/src/tui.rs b/core/src/tui.rs
index 6d6bedb..e04c9eb 100644
--- a/core/src/tui.rs
+++ b/core/src/tui.rs
@@ -100,7 +100,7 @@ impl Term {
         term
     }
 
-    pub fn start(&mut self) {
+    pub fn start(&mut self) -> io::Result<()> {
         terminal::enable_raw_mode().expect("enable terminal raw mode");
         execute!(io::stdout(), terminal::EnterAlternateScreen, cursor::Hide)
             .expect("prepare terminal state");
@@ -132,7 +132,7 @@ impl Term {
             })
             .detach();
 
-            let (mut messages, request_loop) = self.connection.connect().await;
+            let (mut messages, request_loop) = self.connection.connect().await?;
             ex.spawn(request_loop).detach();
             let messages_tx = tx.clone();
             ex.spawn(async move {
@@ -171,7 +171,8 @@ impl Term {
                     break;
                 }
             }
-        }));
+            Ok(())
+        }))
     }
 
     fn debug(&mut self, message: &str) {
diff --git a/remote-ffi/src/connection.rs b/remote-ffi/src/connection.rs
index 1e3ad4a..a7b1b85 100644
--- a/remote-ffi/src/connection.rs
+++ b/remote-ffi/src/connection.rs
@@ -26,7 +26,13 @@ pub unsafe extern "C" fn ced_connection_create(session: *const c_char) -> *mut C
     }
 
     let connection = Connection::new(session);
-    let (events, request_loop) = future::block_on(connection.connect());
+    let (events, request_loop) = match future::block_on(connection.connect()) {
+        Ok(connected) => connected,
+        Err(err) => {
+            set_last_error(err);
+            return ptr::null_mut();
+        }
+    };
     std::thread::spawn(|| future::block_on(request_loop));
     let (tx, rx) = mpsc::channel();
     std::thread::spawn(move || {
diff --git a/remote/src/connection.rs b/remote/src/connection.rs
index e4dd00f..5d7609e 100644
--- a/remote/src/connection.rs
+++ b/remote/src/connection.rs
@@ -149,13 +149,13 @@ impl Connection {
 
     pub async fn connect(
         &self,
-    ) -> (
+    ) -> io::Result<(
         ConnectionEventStream<impl FnMut(ClientEventResult) -> ConnectionEvent>,
         impl Future<Output = ()>,
-    ) {
+    )> {
         let ctx_lock = self.state_lock.clone();
-        let (events, request_loop) = self.client.run().await.unwrap();
-        (
+        let (events, request_loop) = self.client.run().await?;
+        Ok((
             events.map(move |ev| match ev {
                 Ok(e) => {
                     let mut ctx = ctx_lock.write().unwrap();
@@ -164,7 +164,7 @@ impl Connection {
                 Err(e) => ConnectionEvent::ConnErr(e.to_string()),
             }),
             request_loop,
-        )
+        ))
     }
 
     fn request_id(&mut self) -> Id {
-- 
2.43.0


From e528c2fb2cab3a6f020919674610ec26a9f83204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:39 +0000
Subject: [PATCH 27/42] fix: draw any content on any terminal size

---
 core/src/tui.rs | 153 ++++++++++++++++++++++++++----------------------
 1 file changed, 84 insertions(+), 69 deletions(-)

diff --git a/core/src/tui.rs b/core/src/tui.rs
index e04c9eb..299fee4 100644
--- a/core/src/tui.rs
+++ b/core/src/tui.rs
@@ -11,21 +11,18 @@ use crossterm::{
     Result as CTResult,
 };
 use futures_lite::*;
-use remote::protocol::{notifications::HintParams, Face, Key, KeyEvent, TextFragment};
+use remote::protocol::{notifications::HintParams, Face, Key, KeyEvent, Text, TextFragment};
 use remote::{Connection, ConnectionEvent, Menu, Session};
 
 fn logline(msg: impl std::fmt::Display) {
     use std::fs::OpenOptions;
 
-    let mut file = OpenOptions::new()
+    // there is nowhere to report a failure to write the log
+    let _ = OpenOptions::new()
         .create(true)
         .append(true)
         .open("log.txt")
-        .expect("open file");
-
-    if let Err(e) = writeln!(file, "{}", msg) {
-        eprintln!("Couldn't write to file: {}", e);
-    }
+        .and_then(|mut file| writeln!(file, "{}", msg));
 }
 
 struct ToKey(Option<KeyEvent>);
@@ -68,6 +65,31 @@ fn format_text(tf: &TextFragment) -> String {
     }
 }
 
+fn text_width(text: &Text) -> usize {
+    text.iter().map(|tf| tf.text.chars().count()).sum()
+}
+
+/// Renders the part of the text that fits in the given width.
+fn render_clipped<F>(text: &Text, width: usize, decorator: F) -> String
+where
+    F: Fn(&TextFragment) -> String,
+{
+    let mut rendered = String::new();
+    let mut left = width;
+    for tf in text {
+        let clipped: String = tf.text.chars().take(left).collect();
+        left -= clipped.chars().count();
+        rendered += &decorator(&TextFragment {
+            text: clipped,
+            face: tf.face.clone(),
+        });
+        if left == 0 {
+            break;
+        }
+    }
+    rendered
+}
+
 #[derive(Debug)]
 enum Event {
     DrawHint(HintParams),
@@ -117,16 +139,15 @@ impl Term {
                     logline(format!("new input: {:?}", event));
                     match event {
                         Ok(ev @ CEvent::Key(_)) => {
-                            tx.send(Event::Input(ev)).await.expect("send event")
+                            let _ = tx.send(Event::Input(ev)).await;
                         }
                         Ok(CEvent::Mouse(_)) => {}
                         Ok(CEvent::Resize(w, h)) => {
-                            tx.send(Event::Resize((w, h))).await.expect("send event")
+                            let _ = tx.send(Event::Resize((w, h))).await;
+                        }
+                        Err(e) => {
+                            let _ = tx.send(Event::Error(format!("event read: {}", e))).await;
                         }
-                        Err(e) => tx
-                            .send(Event::Error(format!("\"event read: {}\"", e)))
-                            .await
-                            .expect("send event"),
                     }
                 }
             })
@@ -140,15 +161,16 @@ impl Term {
                 while let Some(msg) = messages.next().await {
                     logline(format!("new message: {:?}", msg));
                     use ConnectionEvent::*;
-                    match msg {
-                        Echo(_) | View(_) => tx.send(Event::DrawView).await.expect("send event"),
-                        Hint(hint) => tx.send(Event::DrawHint(hint)).await.expect("send event"),
-                        Info(_, _) => {}
-                        Menu(menu) => tx.send(Event::DrawMenu(menu)).await.expect("send event"),
-                        Status(_) => tx.send(Event::DrawStatus).await.expect("send event"),
-                        ConnErr(msg) => tx.send(Event::Error(msg)).await.expect("send event"),
-                        Noop => {}
-                    }
+                    let event = match msg {
+                        Echo(_) | View(_) => Event::DrawView,
+                        Hint(hint) => Event::DrawHint(hint),
+                        Info(_, _) => continue,
+                        Menu(menu) => Event::DrawMenu(menu),
+                        Status(_) => Event::DrawStatus,
+                        ConnErr(msg) => Event::Error(msg),
+                        Noop => continue,
+                    };
+                    let _ = tx.send(event).await;
                 }
                 logline("connection lost");
                 tx.close();
@@ -176,41 +198,41 @@ impl Term {
     }
 
     fn debug(&mut self, message: &str) {
-        self.connection.exec(&format!("editor:debug({})", message));
+        self.connection
+            .exec(&format!("editor:debug({:?})", message));
     }
 
     fn error(&mut self, message: &str) {
-        self.connection.exec(&format!("editor:error({})", message));
+        self.connection.exec(&format!(
+            "editor:error(tonumber(env.client), {:?})",
+            message
+        ));
     }
 
     fn draw_view(&mut self) -> CTResult<()> {
         let mut stdout = io::stdout();
-        let (width, height) = self.last_size;
+        let (width, height) = (self.last_size.0 as usize, self.last_size.1 as usize);
         let state = self.connection.state();
 
         queue!(stdout, Clear(ClearType::All))?;
-        let mut i = 0;
         let mut content = Vec::new();
         'outer: for item in &state.view {
             let buffer = &item.buffer;
             let coords = format!("{}:{}", item.start, item.end);
-            let padding = "-".repeat(width as usize - 5 - buffer.len() - coords.len());
-            content.push(format!("-[{}][{}]{}", buffer, coords, padding));
-            i += 1;
+            if content.len() + 1 >= height {
+                break;
+            }
+            let header = format!("-[{}][{}]", buffer, coords);
+            let padding = "-".repeat(width.saturating_sub(header.chars().count()));
+            let header = format!("{}{}", header, padding);
+            content.push(header.chars().take(width).collect());
 
             for lens in &item.lenses {
                 for line in &lens.lines {
-                    if i == (height - 1) {
+                    if content.len() + 1 >= height {
                         break 'outer;
                     }
-                    let rendered = line.render(format_text);
-                    let line_view = if line.text_len() > width as usize {
-                        &rendered[..width as usize]
-                    } else {
-                        &rendered
-                    };
-                    content.push(line_view.to_string());
-                    i += 1;
+                    content.push(render_clipped(line, width, format_text));
                 }
             }
         }
@@ -225,12 +247,11 @@ impl Term {
         let mut stdout = io::stdout();
         let (width_w, height_w) = self.last_size;
 
-        let width_h = hint.text[0].plain().chars().count();
-        let x = width_w - width_h as u16;
-        let mut y = height_w - hint.text.len() as u16;
+        let width_h = hint.text.first().map_or(0, text_width);
+        let x = (width_w as usize).saturating_sub(width_h) as u16;
+        let mut y = (height_w as usize).saturating_sub(hint.text.len()) as u16;
         for line in &hint.text {
-            // TODO clamp to screen size (or less?)
-            let text = line.render(format_text);
+            let text = render_clipped(line, width_w as usize, format_text);
             queue!(
                 stdout,
                 cursor::MoveTo(x, y),
@@ -248,32 +269,28 @@ impl Term {
 
     fn draw_menu(&mut self, menu: &Menu) -> CTResult<()> {
         let mut stdout = io::stdout();
-        let (width, height) = self.last_size;
+        let (width, height) = (self.last_size.0 as usize, self.last_size.1 as usize);
         let title = format!("{}:{}", menu.title, menu.search);
-        let padding = " ".repeat(width as usize - title.len());
+        let padding = " ".repeat(width.saturating_sub(title.chars().count()));
+        let title: String = (title + &padding).chars().take(width).collect();
 
         queue!(
             stdout,
             Clear(ClearType::All),
             cursor::MoveTo(0, 0),
-            PrintStyledContent(style(title + &padding).reverse())
+            PrintStyledContent(style(title).reverse())
         )?;
         {
-            let display_size = (height - 1) as usize;
+            let display_size = height.saturating_sub(1);
             for i in 0..menu.entries.len() {
                 if i == display_size {
                     break;
                 }
-                let item = &menu.entries[i].text.render(|tf| match tf.face {
-                    Face::Match => style(&tf.text).underlined().to_string(),
-                    _ => tf.text.to_owned(),
-                });
-
-                let item_view = if item.len() > width as usize {
-                    &item[..width as usize]
-                } else {
-                    &item
-                };
+                let item_view =
+                    render_clipped(&menu.entries[i].text, width, |tf| match tf.face {
+                        Face::Match => style(&tf.text).underlined().to_string(),
+                        _ => tf.text.to_owned(),
+                    });
                 let item_print = if i == menu.selected {
                     PrintStyledContent(style(item_view).reverse())
                 } else {
@@ -303,19 +320,17 @@ impl Term {
             .map(|item| item.text.plain())
             .collect::<Vec<String>>()
             .join("·");
-        let text = if echo.text_len() >= width as usize {
-            echo.render(format_text)
-        } else if echo.text_len() + status.len() >= width as usize {
-            let skip = echo.text_len() - width as usize + 1;
-            format!("{} {}", echo.render(format_text), &status[skip..])
+        let width = width as usize;
+        let (echo_width, status_width) = (text_width(&echo), status.chars().count());
+        let echo = render_clipped(&echo, width, format_text);
+        let text = if echo_width >= width {
+            echo
+        } else if echo_width + status_width >= width {
+            let skip = echo_width + status_width + 1 - width;
+            format!("{} {}", echo, status.chars().skip(skip).collect::<String>())
         } else {
-            let padding = width as usize - echo.text_len() - status.len();
-            format!(
-                "{}{}{}",
-                echo.render(format_text),
-                " ".repeat(padding),
-                status
-            )
+            let padding = width - echo_width - status_width;
+            format!("{}{}{}", echo, " ".repeat(padding), status)
         };
         queue!(
             stdout,
-- 
2.43.0


From 114fc22c309c914db71eaaa4027761198fb4c066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:44 +0000
Subject: [PATCH 28/42] fix: keep showing the open menu in the terminal

---
 core/src/tui.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/core/src/tui.rs b/core/src/tui.rs
index 299fee4..3bd443f 100644
--- a/core/src/tui.rs
+++ b/core/src/tui.rs
@@ -182,7 +182,7 @@ impl Term {
                 use Event::*;
                 match event {
                     DrawMenu(menu) => self.draw_menu(&menu).expect("draw menu"),
-                    DrawView => self.draw_view().expect("draw view"),
+                    DrawView => self.draw().expect("draw view"),
                     DrawHint(h) => self.draw_hint(&h).expect("draw hint"),
                     DrawStatus => self.draw_status(true).expect("draw view"),
                     Error(msg) => self.error(&msg),
@@ -209,6 +209,13 @@ impl Term {
         ));
     }
 
+    fn draw(&mut self) -> CTResult<()> {
+        match self.connection.state().menu {
+            Some(menu) => self.draw_menu(&menu),
+            None => self.draw_view(),
+        }
+    }
+
     fn draw_view(&mut self) -> CTResult<()> {
         let mut stdout = io::stdout();
         let (width, height) = (self.last_size.0 as usize, self.last_size.1 as usize);
@@ -348,10 +355,7 @@ impl Term {
         let current = (w, h);
         if self.last_size != current {
             self.last_size = current;
-            match self.connection.state().menu {
-                Some(menu) => self.draw_menu(&menu)?,
-                None => self.draw_view()?,
-            }
+            self.draw()?;
         }
         Ok(())
     }
-- 
2.43.0


From c78285316af0f6ef239b3c169b53bbaaad935bce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:06 +0000
Subject: [PATCH 29/42] fix: leave the session alone when the server can not
 bind it

---
 core/src/server.rs | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/core/src/server.rs b/core/src/server.rs
index 6c3afcb..8701baa 100644
--- a/core/src/server.rs
+++ b/core/src/server.rs
@@ -173,18 +173,24 @@ impl Server {
 
     async fn serve(
         ex: Arc<LocalExecutor<'_>>,
-        session: Session,
+        listener: ServerListener,
         sender: Sender<Event>,
     ) -> io::Result<()> {
         let mut next_client_id = FIRST_CLIENT_ID;
-        let listener = ServerListener::bind(&session).await?;
         let mut incoming = listener.incoming();
         // notify readiness to a potential awaiting client
         println!();
         log::trace!("ready to accept incoming connections");
         while let Some(stream) = incoming.next().await {
             log::trace!("incoming connection");
-            let stream = stream.expect("error while accepting a new client");
+            let stream = match stream {
+                Ok(stream) => stream,
+                Err(e) => {
+                    log::error!("error while accepting a new client: {}", e);
+                    future::yield_now().await;
+                    continue;
+                }
+            };
             let sender = sender.clone();
             log::trace!("connection ready");
             sender
@@ -205,14 +211,15 @@ impl Server {
         log::trace!("spawning server task");
         future::block_on(ex.run(async {
             let (sender, receiver) = unbounded();
-            ex.spawn(Self::serve(ex.clone(), self.session.clone(), sender))
-                .detach();
+            let listener = ServerListener::bind(&self.session).await?;
+            ex.spawn(Self::serve(ex.clone(), listener, sender)).detach();
             Self::handle_events(ex.clone(), self.session.to_string(), receiver).await;
 
             log::info!("no more client, exiting...");
             if let ConnectionMode::Socket(path) = &self.session.mode {
                 log::trace!("cleaning session device: {}", path.display());
-                fs::remove_file(path).expect("clean session");
+                fs::remove_file(path)
+                    .unwrap_or_else(|e| log::warn!("could not clean session device: {}", e));
                 if Session::list().is_empty() {
                     fs::remove_dir(path.parent().unwrap())
                         .unwrap_or_else(|e| log::warn!("could not clean session directory: {}", e));
-- 
2.43.0


From 26c3b69759e4a1230404c1c52f9df9e0b39454c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:53 +0000
Subject: [PATCH 30/42] fix: give the session name verbatim to scripts

---
 core/src/editor/mod.rs | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/core/src/editor/mod.rs b/core/src/editor/mod.rs
index 3aa041f..8e205d4 100644
--- a/core/src/editor/mod.rs
+++ b/core/src/editor/mod.rs
@@ -163,19 +163,13 @@ impl Editor {
     where
         F: FnOnce(rlua::Context) -> rlua::Result<R>,
     {
+        let session = self.session_name.as_str();
         self.lua
             .context(|context| {
-                let env_source = format!(
-                    r#"
-                    env = {{
-                        session = "{session}",
-                        client = "{client}",
-                    }}
-                    "#,
-                    session = self.session_name,
-                    client = client_id,
-                );
-                context.load(&env_source).exec()?;
+                let env = context.create_table()?;
+                env.set("session", session)?;
+                env.set("client", client_id.to_string())?;
+                context.globals().set("env", env)?;
                 f(context)
             })
             .map_err(|e| {
-- 
2.43.0


From 73ea1cba0c0bfaa80bf02ce3f07f3c8b9841172c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:57 +0000
Subject: [PATCH 31/42] fix: keep the keys of distinct views distinct

---
 core/src/editor/view.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/core/src/editor/view.rs b/core/src/editor/view.rs
index b8d481e..100bd06 100644
--- a/core/src/editor/view.rs
+++ b/core/src/editor/view.rs
@@ -117,7 +117,12 @@ impl View {
                 .iter()
                 .map(|lens| lens.focus.to_string())
                 .collect::<Vec<String>>();
-            parts.push(format!("{}{{{}}}", buffer, coords.join(",")));
+            // distinct views must have distinct keys, whatever the names of their buffers
+            let name = buffer
+                .replace('\\', r"\\")
+                .replace('{', r"\{")
+                .replace('|', r"\|");
+            parts.push(format!("{}{{{}}}", name, coords.join(",")));
         }
         parts.join("|")
     }
-- 
2.43.0


From 791efe41785dbfbe57c029663f023c5f050e5216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:10 +0000
Subject: [PATCH 32/42] fix: print every notification in standalone mode

---
 core/src/clients.rs | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/core/src/clients.rs b/core/src/clients.rs
index 97f1ebc..885a1a4 100644
--- a/core/src/clients.rs
+++ b/core/src/clients.rs
@@ -2,6 +2,7 @@ use std::io::BufRead;
 use std::thread;
 
 use crate::editor::Editor;
+use crate::server::BroadcastMessage;
 use async_channel::{bounded, Sender};
 use async_executor::LocalExecutor;
 use blocking::Unblock;
@@ -11,7 +12,14 @@ use remote::{protocol::requests::EditParams, Client, Request, Session};
 const CLIENT_ID: usize = 1;
 
 pub fn start_standalone(filenames: &[&str]) {
-    let (tx, rx) = bounded(100);
+    let (tx, rx) = bounded::<BroadcastMessage>(100);
+    let printer = thread::spawn(move || {
+        while let Ok(bm) = future::block_on(rx.recv()) {
+            if bm.should_notify(CLIENT_ID) {
+                println!("{}", &bm.message);
+            }
+        }
+    });
     let mut editor = Editor::new("", tx);
 
     editor.add_client(CLIENT_ID);
@@ -24,13 +32,6 @@ pub fn start_standalone(filenames: &[&str]) {
             .command_edit(CLIENT_ID, &params)
             .map_err(|err| log::error!("could not open file '{}': {}", fname, err));
     }
-    thread::spawn(move || loop {
-        if let Ok(bm) = future::block_on(rx.recv()) {
-            if bm.should_notify(CLIENT_ID) {
-                println!("{}", &bm.message);
-            }
-        }
-    });
 
     let stdin = std::io::stdin();
     for maybe_line in stdin.lock().lines() {
@@ -41,9 +42,15 @@ pub fn start_standalone(filenames: &[&str]) {
             },
             Err(e) => eprintln!("failed to read line: {}", e),
         }
+        if !editor.removed_clients().is_empty() {
+            break;
+        }
     }
 
     editor.remove_client(CLIENT_ID);
+    // no more notifications can come once the editor is gone, wait for the last ones
+    drop(editor);
+    let _ = printer.join();
 }
 
 pub struct StdioClient {
-- 
2.43.0


From e9307e4ac7216741fd29be7d8d22bc3237142a35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:51 +0000
Subject: [PATCH 33/42] fix: leave the cursor in place when there is no line to
 move to

---
 core/src/editor/piece_table/navigator.rs | 31 +++++++++++++-----------
 1 file changed, 17 insertions(+), 14 deletions(-)

diff --git a/core/src/editor/piece_table/navigator.rs b/core/src/editor/piece_table/navigator.rs
index db5a60c..b8ab54a 100644
--- a/core/src/editor/piece_table/navigator.rs
+++ b/core/src/editor/piece_table/navigator.rs
@@ -32,27 +32,30 @@ impl Navigator<'_> {
     }
 
     pub fn pos(&self) -> Position {
+        Position {
+            offset: self
+                .table
+                .coord_to_offset(self.cursor)
+                .unwrap_or_else(|| panic!("convert coordinates: {:?}", self.cursor)),
+            coords: self.cursor,
+            grapheme: self.table.char_at(self.cursor),
+        }
+    }
+
+    fn move_to_line(&mut self, l: usize) {
         let newline = Coords {
-            c: self.table.line_length(self.cursor.l) + 1,
-            ..self.cursor
+            l,
+            c: self.table.line_length(l) + 1,
         };
         // the last line does not always end with a newline
         let col_count = match self.table.coord_to_offset(newline) {
             Some(_) => newline.c,
             None => newline.c - 1,
         };
-        let cursor = Coords {
+        self.cursor = Coords {
+            l,
             c: min(col_count, self.target_col),
-            ..self.cursor
         };
-        Position {
-            offset: self
-                .table
-                .coord_to_offset(cursor)
-                .unwrap_or_else(|| panic!("convert coordinates: {:?}", cursor)),
-            coords: cursor,
-            grapheme: self.table.char_at(cursor),
-        }
     }
 
     pub fn next(&mut self) -> &mut Self {
@@ -87,14 +90,14 @@ impl Navigator<'_> {
 
     pub fn next_line(&mut self) -> &mut Self {
         if self.cursor.l < self.table.line_count() {
-            self.cursor.l += 1;
+            self.move_to_line(self.cursor.l + 1);
         }
         self
     }
 
     pub fn previous_line(&mut self) -> &mut Self {
         if self.cursor.l > 1 {
-            self.cursor.l -= 1;
+            self.move_to_line(self.cursor.l - 1);
         }
         self
     }
-- 
2.43.0


From 5f9ec41cacce767179eebc1f241f60a5aae9bb57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:53 +0000
Subject: [PATCH 34/42] fix: show each client its own number in its status line

---
 core/scripts/editor.lua | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/scripts/editor.lua b/core/scripts/editor.lua
index 58c0c39..f556f05 100644
--- a/core/scripts/editor.lua
+++ b/core/scripts/editor.lua
@@ -120,7 +120,7 @@ function Editor:add_client(client_id)
             client = {
                 index = 100,
                 text = function()
-                    return "[" .. env.client .. "@" .. env.session .. "]"
+                    return "[" .. client_id .. "@" .. env.session .. "]"
                 end,
             },
         },
-- 
2.43.0


From 42a25853002c92b247a4ca190132a3d9b29aebc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:29 +0000
Subject: [PATCH 35/42] fix: survive connections reset in the middle of a line

---
 core/src/server.rs                    |  2 +-
 remote/src/client.rs                  | 11 +++--------
 remote/src/transport/server_stream.rs | 24 ++++++++++++++++++++++++
 3 files changed, 28 insertions(+), 9 deletions(-)

diff --git a/core/src/server.rs b/core/src/server.rs
index 8701baa..cce4863 100644
--- a/core/src/server.rs
+++ b/core/src/server.rs
@@ -151,7 +151,7 @@ impl Server {
         stream: ServerStream,
         sender: Sender<Event>,
     ) -> io::Result<()> {
-        let mut lines = io::BufReader::new(stream).lines();
+        let mut lines = stream.lines();
         while let Some(line) = lines.next().await {
             if line.is_err() {
                 // connection reset
diff --git a/remote/src/client.rs b/remote/src/client.rs
index 37a288a..6bfb5d2 100644
--- a/remote/src/client.rs
+++ b/remote/src/client.rs
@@ -7,10 +7,8 @@ use serde::de::Error as _;
 
 pub type ClientEventResult = Result<ClientEvent, JsonCodingError>;
 
-pub type ClientEventStream = stream::Map<
-    io::Lines<io::BufReader<ServerStream>>,
-    fn(io::Result<String>) -> ClientEventResult,
->;
+pub type ClientEventStream =
+    stream::Map<stream::Boxed<io::Result<String>>, fn(io::Result<String>) -> ClientEventResult>;
 
 pub struct Client {
     session: Session,
@@ -40,9 +38,6 @@ impl Client {
             log::trace!("polled a new client event");
             x.map_err(JsonCodingError::custom)?.parse()
         }
-        Ok((
-            io::BufReader::new(stream).lines().map(parse_line),
-            request_loop,
-        ))
+        Ok((stream.lines().map(parse_line), request_loop))
     }
 }
diff --git a/remote/src/transport/server_stream.rs b/remote/src/transport/server_stream.rs
index 65bd1db..60ad768 100644
--- a/remote/src/transport/server_stream.rs
+++ b/remote/src/transport/server_stream.rs
@@ -30,6 +30,30 @@ impl ServerStream {
             ServerStream::Tcp(inner) => inner.shutdown(Shutdown::Both),
         }
     }
+
+    /// The lines received, without their ends.
+    pub fn lines(self) -> stream::Boxed<io::Result<String>> {
+        // contrary to `io::Lines` this bears an error occurring in the middle of a line
+        let reader = futures_lite::io::BufReader::new(self);
+        Box::pin(stream::unfold(reader, |mut reader| async move {
+            let mut line = Vec::new();
+            match reader.read_until(b'\n', &mut line).await {
+                Ok(0) => None,
+                Ok(_) => {
+                    if line.ends_with(b"\n") {
+                        line.pop();
+                        if line.ends_with(b"\r") {
+                            line.pop();
+                        }
+                    }
+                    let line = String::from_utf8(line)
+                        .map_err(|e| io::Error::new(io::ErrorKind::InvalidData, e));
+                    Some((line, reader))
+                }
+                Err(e) => Some((Err(e), reader)),
+            }
+        }))
+    }
 }
 
 impl AsyncRead for ServerStream {
-- 
2.43.0


From e00d09b65fa7833003f0eceeb4567fe7ac59df94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:48 +0000
Subject: [PATCH 36/42] fix: keep hints within the screen

---
 core/src/tui.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/src/tui.rs b/core/src/tui.rs
index 3bd443f..c6e3358 100644
--- a/core/src/tui.rs
+++ b/core/src/tui.rs
@@ -254,7 +254,7 @@ impl Term {
         let mut stdout = io::stdout();
         let (width_w, height_w) = self.last_size;
 
-        let width_h = hint.text.first().map_or(0, text_width);
+        let width_h = hint.text.iter().map(text_width).max().unwrap_or(0);
         let x = (width_w as usize).saturating_sub(width_h) as u16;
         let mut y = (height_w as usize).saturating_sub(hint.text.len()) as u16;
         for line in &hint.text {
-- 
2.43.0


From 8cb0588358966b36c6054a2a5e48167c42ece037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:12 +0000
Subject: [PATCH 37/42] fix: show the selected menu entry as such to its end

---
 core/src/tui.rs | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/core/src/tui.rs b/core/src/tui.rs
index c6e3358..4c7b3a6 100644
--- a/core/src/tui.rs
+++ b/core/src/tui.rs
@@ -293,20 +293,21 @@ impl Term {
                 if i == display_size {
                     break;
                 }
-                let item_view =
-                    render_clipped(&menu.entries[i].text, width, |tf| match tf.face {
-                        Face::Match => style(&tf.text).underlined().to_string(),
-                        _ => tf.text.to_owned(),
-                    });
-                let item_print = if i == menu.selected {
-                    PrintStyledContent(style(item_view).reverse())
-                } else {
-                    PrintStyledContent(style(item_view))
-                };
+                // styles end with the fragment they apply to
+                let item_view = render_clipped(&menu.entries[i].text, width, |tf| {
+                    let mut item = style(&tf.text);
+                    if tf.face == Face::Match {
+                        item = item.underlined();
+                    }
+                    if i == menu.selected {
+                        item = item.reverse();
+                    }
+                    item.to_string()
+                });
                 queue!(
                     stdout,
                     cursor::MoveTo(0, 1 + i as u16),
-                    item_print,
+                    Print(item_view),
                     Clear(ClearType::UntilNewLine)
                 )?;
             }
-- 
2.43.0


From b7cc0953e85aceb55d2b07357c0bb376d986e159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:36 +0000
Subject: [PATCH 38/42] fix: a menu announced in answer to a selection is not
 closed by it

---
 remote/src/connection.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/remote/src/connection.rs b/remote/src/connection.rs
index 5d7609e..5b2cb91 100644
--- a/remote/src/connection.rs
+++ b/remote/src/connection.rs
@@ -198,7 +198,9 @@ impl Connection {
     }
 
     pub fn menu_select(&mut self) {
-        if let Some(menu) = self.state().menu {
+        // the answer may be a new menu: the current one is closed before asking
+        let menu = self.state_lock.write().unwrap().menu.take();
+        if let Some(menu) = menu {
             if let Some(selected) = menu.selected_item() {
                 let id = self.request_id();
                 let choice = if selected.is_empty() {
@@ -212,7 +214,6 @@ impl Connection {
                 };
                 self.request(requests::MenuSelect::new(id, params));
             }
-            self.action_menu_cancel();
         } else {
             log::warn!("menu_select without active menu");
         }
-- 
2.43.0


From a0b3f960e0ad957cc76f9399e248bfdf5470e0c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:04 +0000
Subject: [PATCH 39/42] fix: wait for a starting server that does not listen
 yet

A server binds its socket, which makes its session visible to other clients,
before it listens on it: a client coming in between was refused.
---
 remote/src/transport/server_stream.rs | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/remote/src/transport/server_stream.rs b/remote/src/transport/server_stream.rs
index 60ad768..bab2f42 100644
--- a/remote/src/transport/server_stream.rs
+++ b/remote/src/transport/server_stream.rs
@@ -2,13 +2,18 @@ use std::io;
 use std::net::Shutdown;
 use std::pin::Pin;
 use std::task::{Context, Poll};
+use std::time::Duration;
 
+use async_io::Timer;
 use async_net::TcpStream;
 use futures_lite::*;
 
 use crate::transport::socket::SocketStream;
 use crate::ConnectionMode;
 
+const MAX_CONNECT_RETRIES: usize = 50;
+const CONNECT_RETRY_DELAY: Duration = Duration::from_millis(10);
+
 #[derive(Clone, Debug)]
 pub enum ServerStream {
     Socket(SocketStream),
@@ -19,7 +24,23 @@ impl ServerStream {
     pub async fn new(mode: &ConnectionMode) -> io::Result<ServerStream> {
         use self::ConnectionMode::*;
         match mode {
-            Socket(path) => Ok(ServerStream::Socket(SocketStream::connect(path).await?)),
+            Socket(path) => {
+                let mut retries = 0;
+                let stream = loop {
+                    match SocketStream::connect(path).await {
+                        // a starting server binds its socket before it accepts connections
+                        Err(e)
+                            if e.kind() == io::ErrorKind::ConnectionRefused
+                                && retries < MAX_CONNECT_RETRIES =>
+                        {
+                            retries += 1;
+                            Timer::after(CONNECT_RETRY_DELAY).await;
+                        }
+                        res => break res?,
+                    }
+                };
+                Ok(ServerStream::Socket(stream))
+            }
             Tcp(sock_addr) => Ok(ServerStream::Tcp(TcpStream::connect(sock_addr).await?)),
         }
     }
-- 
2.43.0


From 7c6e38e81dad637037495a37eb7797dded73c9a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:08 +0000
Subject: [PATCH 40/42] fix: retry to bind a socket whose directory is removed
 meanwhile

The last server of a session removes the directory shared by all sessions when
it is empty, which failed another server starting at the same time.
---
 remote/src/transport/socket.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/remote/src/transport/socket.rs b/remote/src/transport/socket.rs
index 625eb61..61ebb79 100644
--- a/remote/src/transport/socket.rs
+++ b/remote/src/transport/socket.rs
@@ -9,15 +9,25 @@ use async_net::unix::{UnixListener, UnixStream};
 #[cfg(windows)]
 use super::socket_windows::{UnixListener, UnixStream};
 
+const MAX_BIND_RETRIES: usize = 20;
+
 #[derive(Debug)]
 pub struct SocketListener(UnixListener);
 
 impl SocketListener {
     pub async fn bind(path: &Path) -> io::Result<SocketListener> {
         let root_dir = path.parent().unwrap();
-        if !root_dir.exists() {
-            fs::create_dir_all(root_dir)?
+        // the last server of another session may be removing the directory
+        for _ in 0..MAX_BIND_RETRIES {
+            if !root_dir.exists() && fs::create_dir_all(root_dir).is_err() {
+                continue;
+            }
+            match UnixListener::bind(path) {
+                Err(e) if e.kind() == io::ErrorKind::NotFound => {}
+                res => return Ok(SocketListener(res?)),
+            }
         }
+        fs::create_dir_all(root_dir)?;
         Ok(SocketListener(UnixListener::bind(path)?))
     }
 }
-- 
2.43.0


From 4415aab5497b854dd98a7346e4bb2aa55734dd27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:22 +0000
Subject: [PATCH 41/42] fix: report a server that could not be started

Starting a server in the background succeeded even when that server ended
without ever being ready, as for a session name already in use.
---
 remote/src/lib.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/remote/src/lib.rs b/remote/src/lib.rs
index e80371c..4589abf 100644
--- a/remote/src/lib.rs
+++ b/remote/src/lib.rs
@@ -60,10 +60,14 @@ pub fn start_daemon(session: &Session) -> io::Result<u32> {
     let pid = prg.id();
 
     //  Once ready to accept connections the server send an empty line on stdout.
+    let mut is_ready = false;
     if let Some(stdout) = prg.stdout {
         for line in BufReader::new(stdout).lines() {
             let should_stop = match line {
-                Ok(l) => l.is_empty(),
+                Ok(l) => {
+                    is_ready = l.is_empty();
+                    is_ready
+                }
                 Err(err) => {
                     log::error!("failed to read stdout: {}", err);
                     true
@@ -78,13 +82,23 @@ pub fn start_daemon(session: &Session) -> io::Result<u32> {
     }
 
     log::info!("server command: {} {:?}", bin, args);
+    if !is_ready {
+        let msg = format!("could not start a server for session {}", session);
+        return Err(io::Error::new(io::ErrorKind::Other, msg));
+    }
     Ok(pid)
 }
 
 pub fn ensure_session(session: &Session) -> io::Result<()> {
     if let ConnectionMode::Socket(path) = &session.mode {
         if !path.exists() {
-            start_daemon(&session)?;
+            match start_daemon(&session) {
+                // another client may have started it in the meantime
+                Err(_) if path.exists() => {}
+                res => {
+                    res?;
+                }
+            }
         }
     }
     Ok(())
-- 
2.43.0


From 53bc84065a2073c040f79b02168afc4d717fa15f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:26 +0000
Subject: [PATCH 42/42] fix: keep signals of the first client's terminal from
 the server

The server started by a client stayed in its process group: closing the
terminal of that client ended the session of all other clients.
---
 remote/src/lib.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/remote/src/lib.rs b/remote/src/lib.rs
index 4589abf..48fd165 100644
--- a/remote/src/lib.rs
+++ b/remote/src/lib.rs
@@ -51,12 +51,16 @@ pub fn start_daemon(session: &Session) -> io::Result<u32> {
     } else {
         Stdio::null()
     };
-    let prg = Command::new(&bin)
+    let mut command = Command::new(&bin);
+    command
         .args(&args)
         .stdin(Stdio::null())
         .stdout(Stdio::piped())
-        .stderr(stderr)
-        .spawn()?;
+        .stderr(stderr);
+    // signals from the terminal of the client are not meant for the server
+    #[cfg(unix)]
+    std::os::unix::process::CommandExt::process_group(&mut command, 0);
+    let prg = command.spawn()?;
     let pid = prg.id();
 
     //  Once ready to accept connections the server send an empty line on stdout.
-- 
2.43.0

