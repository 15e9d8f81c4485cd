From e8201cdae7fb4fbfde85e777faab6c75cec55751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:07 +0000
Subject: [PATCH 01/12] fix: forget every row freed by
 DancingMatrix::add_solution

Only the rows of one of the covered columns were forgotten, so adding a row
that conflicted through another column dereferenced freed nodes. A rejected
row is also no longer recorded as part of the solution.
---
 src/structures/dancing_links/mod.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/structures/dancing_links/mod.rs b/src/structures/dancing_links/mod.rs
index 7a81f5e..72d3c44 100644
--- a/src/structures/dancing_links/mod.rs
+++ b/src/structures/dancing_links/mod.rs
@@ -59,15 +59,20 @@ impl DancingMatrix {
             return Err(DancingLinksError::IndexError);
         }
 
-        self.partial_solution.push(row);
-        let row = self.rows[row];
+        let index = row;
+        let row = self.rows[index];
 
         if row.is_null() {
             return Err(DancingLinksError::InvalidRow);
         }
 
-        for node in unsafe { Node::iter_down(Node::header(row)).skip(1) } {
-            self.rows[unsafe { Node::row(node) }] = null_mut();
+        self.partial_solution.push(index);
+
+        // Every row sharing a column with the added row is about to be freed
+        for col in unsafe { Node::iter_right(row) } {
+            for node in unsafe { Node::iter_down(Node::header(col)).skip(1) } {
+                self.rows[unsafe { Node::row(node) }] = null_mut();
+            }
         }
 
         for node in unsafe { Node::iter_right(row) } {
-- 
2.43.0


From 04e5bb7576bb6972d1f0ed87c9d4448905744390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:07 +0000
Subject: [PATCH 02/12] fix: reject sudoku clues greater than nine

A clue above nine was treated as a clue of one of the following cells, or
ignored in the last cells.
---
 src/puzzles/sudoku/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/puzzles/sudoku/mod.rs b/src/puzzles/sudoku/mod.rs
index f1f9509..e21a3ec 100644
--- a/src/puzzles/sudoku/mod.rs
+++ b/src/puzzles/sudoku/mod.rs
@@ -78,6 +78,10 @@ pub fn solve_sudoku(puzzle: &[u8]) -> Result<Vec<u8>, SudokuError> {
             continue;
         }
 
+        if value as usize > GRID_SIZE {
+            return Err(SudokuError::NoSolution);
+        }
+
         let result = matrix.add_solution(index * 9 + (value as usize) - 1);
 
         if matches!(result, Err(DancingLinksError::InvalidRow)) {
-- 
2.43.0


From 4c332c3d667fab92c11095a408c6fbaee51dc072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:07 +0000
Subject: [PATCH 03/12] fix: report vertical steps in the solution of a maze of
 width one

---
 src/puzzles/maze/mod.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/puzzles/maze/mod.rs b/src/puzzles/maze/mod.rs
index dae2c03..f7eb32d 100644
--- a/src/puzzles/maze/mod.rs
+++ b/src/puzzles/maze/mod.rs
@@ -86,14 +86,15 @@ pub fn create_maze(
 
                 let mut solution = Vec::new();
                 while let PathNode::Path(parent) = path_tree[current] {
-                    solution.push(if parent == current + 1 {
-                        MazeDirection::Left
-                    } else if parent == current + width {
+                    // Vertical steps come first as both offsets are the same when `width` is 1
+                    solution.push(if parent == current + width {
                         MazeDirection::Up
-                    } else if parent == current - 1 {
-                        MazeDirection::Right
-                    } else {
+                    } else if parent + width == current {
                         MazeDirection::Down
+                    } else if parent == current + 1 {
+                        MazeDirection::Left
+                    } else {
+                        MazeDirection::Right
                     });
 
                     current = parent;
-- 
2.43.0


From d5373091d21a6c05b9d03e67e95c1990f51d5381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:07 +0000
Subject: [PATCH 04/12] fix: accept maze solutions that stay inside of the
 image

The final step through the exit was checked against five pixels more than
it draws, so every solution of a printed maze was rejected, and so were steps
into the first column or row.
---
 src/puzzles/maze/mod.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/puzzles/maze/mod.rs b/src/puzzles/maze/mod.rs
index f7eb32d..113702a 100644
--- a/src/puzzles/maze/mod.rs
+++ b/src/puzzles/maze/mod.rs
@@ -208,7 +208,7 @@ pub fn print_maze_solution(
                 y += 1;
             }
             MazeDirection::Left => {
-                if x * 10 < 15 || unsolved.height() < y * 10 + 6 {
+                if x == 0 || unsolved.height() < y * 10 + 6 {
                     return Err(MazeError::InvalidSolution);
                 }
 
@@ -219,7 +219,7 @@ pub fn print_maze_solution(
                 x -= 1;
             }
             MazeDirection::Up => {
-                if unsolved.width() < x * 10 + 6 || y * 10 < 15 {
+                if unsolved.width() < x * 10 + 6 || y == 0 {
                     return Err(MazeError::InvalidSolution);
                 }
 
@@ -232,7 +232,7 @@ pub fn print_maze_solution(
         }
     }
 
-    if unsolved.width() < x * 10 + 6 || unsolved.height() < y * 10 + 16 {
+    if unsolved.width() < x * 10 + 6 || unsolved.height() < y * 10 + 11 {
         return Err(MazeError::InvalidSolution);
     }
 
-- 
2.43.0


From daf7f6af318a0dec3dad98860e69f111a972a3ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:07 +0000
Subject: [PATCH 05/12] fix: do not overflow when summing the runs of a
 nonogram rule

---
 src/puzzles/nonogram/mod.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/puzzles/nonogram/mod.rs b/src/puzzles/nonogram/mod.rs
index 977a1ec..4cda2d3 100644
--- a/src/puzzles/nonogram/mod.rs
+++ b/src/puzzles/nonogram/mod.rs
@@ -35,7 +35,7 @@ pub fn parse_nonogram_rules(rules: &str, bound: usize) -> Result<Vec<Vec<usize>>
     rules
         .split(';')
         .map(|rule| {
-            let mut size = 0;
+            let mut size = 0usize;
 
             let values = rule
                 .split(',')
@@ -44,13 +44,13 @@ pub fn parse_nonogram_rules(rules: &str, bound: usize) -> Result<Vec<Vec<usize>>
                         .parse::<usize>()
                         .or(Err(NonogramError::InvalidRule(x.into())))?;
 
-                    size += value;
+                    size = size.saturating_add(value);
 
                     Ok(value)
                 })
                 .collect::<Result<Vec<usize>, NonogramError>>()?;
 
-            size += values.len() - 1;
+            size = size.saturating_add(values.len() - 1);
 
             if values.is_empty() || size > bound {
                 return Err(NonogramError::InvalidRuleDimension);
-- 
2.43.0


From 4a017d90059c74f86520d88bb8868cba976e4c2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:07 +0000
Subject: [PATCH 06/12] fix: accept runs of length zero in nonogram rules

A rule of `0` is the usual way of writing an empty line and is accepted by the
parser, but made the solver panic.
---
 src/puzzles/nonogram/right_left.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/puzzles/nonogram/right_left.rs b/src/puzzles/nonogram/right_left.rs
index f872a6f..e0af651 100644
--- a/src/puzzles/nonogram/right_left.rs
+++ b/src/puzzles/nonogram/right_left.rs
@@ -19,7 +19,7 @@ impl RuleMachine {
     pub fn new(rule: &[usize]) -> Self {
         let mut left_states = vec![Node::Start, Node::End];
 
-        for &value in rule {
+        for &value in rule.iter().filter(|&&value| value != 0) {
             left_states.extend(vec![Node::Fill; value].into_iter());
             left_states.push(Node::Space);
         }
@@ -28,7 +28,7 @@ impl RuleMachine {
 
         let mut right_states = vec![Node::Start, Node::End];
 
-        for &value in rule.iter().rev() {
+        for &value in rule.iter().rev().filter(|&&value| value != 0) {
             right_states.extend(vec![Node::Fill; value].into_iter());
             right_states.push(Node::Space);
         }
-- 
2.43.0


From 7911a9f41e17f3964eb408f175e4dbb5dd813cbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:07 +0000
Subject: [PATCH 07/12] fix: reject empty nonograms instead of panicking

---
 src/puzzles/nonogram/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/puzzles/nonogram/mod.rs b/src/puzzles/nonogram/mod.rs
index 4cda2d3..9246de3 100644
--- a/src/puzzles/nonogram/mod.rs
+++ b/src/puzzles/nonogram/mod.rs
@@ -72,6 +72,10 @@ pub fn solve_nonogram(col: &[Vec<usize>], row: &[Vec<usize>]) -> Result<Vec<bool
     let width = col.len();
     let height = row.len();
 
+    if width == 0 || height == 0 {
+        return Err(NonogramError::EmptyPuzzle);
+    }
+
     let mut grid = vec![Square::Blank; width * height];
 
     right_left(&mut grid, col, row)?;
-- 
2.43.0


From a474fd40ee57b196b390c4f07fb83278eaad3700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:07 +0000
Subject: [PATCH 08/12] fix: solve nonograms that need guessing

The backtracking step was empty, so a puzzle that line solving alone does not
finish was answered with a grid violating its rules.
---
 src/puzzles/nonogram/mod.rs | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/src/puzzles/nonogram/mod.rs b/src/puzzles/nonogram/mod.rs
index 9246de3..4154bec 100644
--- a/src/puzzles/nonogram/mod.rs
+++ b/src/puzzles/nonogram/mod.rs
@@ -79,7 +79,10 @@ pub fn solve_nonogram(col: &[Vec<usize>], row: &[Vec<usize>]) -> Result<Vec<bool
     let mut grid = vec![Square::Blank; width * height];
 
     right_left(&mut grid, col, row)?;
-    recursive_backtrack(&mut grid, col, row);
+
+    if !recursive_backtrack(&mut grid, col, row) {
+        return Err(NonogramError::NoSolution);
+    }
 
     Ok(grid
         .iter()
@@ -120,7 +123,26 @@ fn right_left(
     Ok(())
 }
 
-fn recursive_backtrack(grid: &mut [Square], col: &[Vec<usize>], row: &[Vec<usize>]) {}
+/// Guesses the squares line solving left blank, returns whether the puzzle could be solved
+fn recursive_backtrack(grid: &mut [Square], col: &[Vec<usize>], row: &[Vec<usize>]) -> bool {
+    let Some(index) = grid.iter().position(|square| *square == Square::Blank) else {
+        return true;
+    };
+
+    for guess in [Square::Filled, Square::Blocked] {
+        let mut attempt = grid.to_vec();
+        attempt[index] = guess;
+
+        if right_left(&mut attempt, col, row).is_ok()
+            && recursive_backtrack(&mut attempt, col, row)
+        {
+            grid.clone_from_slice(&attempt);
+            return true;
+        }
+    }
+
+    false
+}
 
 pub fn print_nonogram(
     width: u32,
-- 
2.43.0


From 558ad96d17bdd9b5600babf7f703a61c0639ee14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:07 +0000
Subject: [PATCH 09/12] fix: do not overflow on huge nonogram dimensions

Such dimensions are reported as invalid instead.
---
 src/puzzles/nonogram/mod.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/puzzles/nonogram/mod.rs b/src/puzzles/nonogram/mod.rs
index 4154bec..5408386 100644
--- a/src/puzzles/nonogram/mod.rs
+++ b/src/puzzles/nonogram/mod.rs
@@ -232,12 +232,12 @@ pub fn print_nonogram_solution(
     mut image: RgbBuffer,
     grid: &[bool],
 ) -> Result<RgbBuffer, NonogramError> {
-    let rule_width = max(150, width * 10);
-    let rule_height = max(150, height * 10);
+    let rule_width = max(150, width.saturating_mul(10));
+    let rule_height = max(150, height.saturating_mul(10));
 
     if grid.len() != width as usize * height as usize
-        || image.width() != width * 50 + rule_width
-        || image.height() != height * 50 + rule_height
+        || Some(image.width()) != width.saturating_mul(50).checked_add(rule_width)
+        || Some(image.height()) != height.saturating_mul(50).checked_add(rule_height)
     {
         return Err(NonogramError::InvalidDimensions);
     }
-- 
2.43.0


From 256420b079fb847c28a4cd4cdae6e46861de4409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:07 +0000
Subject: [PATCH 10/12] fix: reject maze dimensions too large for an image
 instead of overflowing

---
 src/puzzles/maze/mod.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/puzzles/maze/mod.rs b/src/puzzles/maze/mod.rs
index 113702a..fd95c35 100644
--- a/src/puzzles/maze/mod.rs
+++ b/src/puzzles/maze/mod.rs
@@ -1,6 +1,6 @@
 mod recursive_backtrack;
 
-use std::collections::VecDeque;
+use std::{cmp::max, collections::VecDeque};
 
 use image::RgbImage;
 use serde::{Deserialize, Serialize};
@@ -137,6 +137,10 @@ pub fn print_maze(width: u32, height: u32, grid: &[MazeNode]) -> Result<RgbBuffe
         return Err(MazeError::InvalidDimensions);
     }
 
+    if max(width, height) > (u32::MAX - 1) / 10 {
+        return Err(MazeError::InvalidDimensions);
+    }
+
     let mut image = RgbImage::from_pixel(width * 10 + 1, height * 10 + 1, WHITE_PIXEL);
 
     for row in 0..image.height() {
-- 
2.43.0


From 5c84f0ece6e01ade860b72945ad69b8bc38a6970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:04 +0000
Subject: [PATCH 11/12] hook: expose internals to the verification harness
 under cfg(verif)

---
 src/lib.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index a473200..363612d 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1,3 +1,5 @@
+#![allow(unexpected_cfgs)] // `cfg(verif)` is set by the external verification harness only
+
 pub mod puzzles;
 mod structures;
 mod util;
@@ -23,3 +25,11 @@ pub fn image_to_png_bytes(image: &RgbBuffer) -> Result<Vec<u8>, ImageError> {
 
     Ok(bytes)
 }
+
+/// Internals reached by the external verification harness, absent from normal builds
+#[cfg(verif)]
+pub mod verif {
+    pub use crate::structures::dancing_links::{DancingLinksError, DancingMatrix};
+    pub use crate::structures::disjoint_set::DisjointSet;
+    pub use crate::util::choose_random;
+}
-- 
2.43.0


From 257dec9498f312ddb09de09ec3a5f6242cd3a4c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:39 +0000
Subject: [PATCH 12/12] fix: answer that runs longer than their line have no
 solution

The states of a rule were allocated for its runs whatever their length, so that
a run of many billions of squares made solve_nonogram abort or panic with a
capacity overflow instead of answering that there is no solution.
---
 src/puzzles/nonogram/mod.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/puzzles/nonogram/mod.rs b/src/puzzles/nonogram/mod.rs
index 5408386..d6b6511 100644
--- a/src/puzzles/nonogram/mod.rs
+++ b/src/puzzles/nonogram/mod.rs
@@ -76,6 +76,12 @@ pub fn solve_nonogram(col: &[Vec<usize>], row: &[Vec<usize>]) -> Result<Vec<bool
         return Err(NonogramError::EmptyPuzzle);
     }
 
+    // A run longer than its line fits nowhere (and could be too long to be solved in memory)
+    if col.iter().flatten().any(|&run| run > height) || row.iter().flatten().any(|&run| run > width)
+    {
+        return Err(NonogramError::NoSolution);
+    }
+
     let mut grid = vec![Square::Blank; width * height];
 
     right_left(&mut grid, col, row)?;
-- 
2.43.0

