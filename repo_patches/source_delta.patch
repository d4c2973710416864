From 3fedce625e7cfafec10b4f5d26535a4ae608a40b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:32 +0000
Subject: [PATCH 01/19] Add verif_hooks re-exports (only with --cfg
 verif_hooks)

---
 rust/src/main.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/rust/src/main.rs b/rust/src/main.rs
index 6757cdf..548d4e1 100644
--- a/rust/src/main.rs
+++ b/rust/src/main.rs
@@ -455,3 +455,13 @@ fn main() {
         _ => {println!("Unrecognized arg '{}'", args[1])}
     }
 }
+
+
+// Verification hook: re-exports the modules to an external test harness.
+// Only compiled with `--cfg verif_hooks`; an ordinary build does not contain it.
+#[allow(unexpected_cfgs)]
+#[cfg(verif_hooks)]
+pub mod verif_hooks {
+    pub use crate::sequences::{sequence, symmetries, williamson, rowsum, fourier, equations, matrices, equivalence, matching, product, mum, matrix_equivalence};
+    pub use crate::find::{find_williamson, find_optim, find_naive, find_with_rowsum, find_unique, find_write};
+}
-- 
2.43.0


From 22e65d4ca2765ccb63ac1c8b1f2da73a1c34ae81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:07 +0000
Subject: [PATCH 02/19] fix: do not shift Williamson sequences when reducing to
 canonical representatives

---
 rust/src/find/find_unique.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rust/src/find/find_unique.rs b/rust/src/find/find_unique.rs
index 107f68b..9488284 100644
--- a/rust/src/find/find_unique.rs
+++ b/rust/src/find/find_unique.rs
@@ -190,6 +190,9 @@ pub fn reduce_to_canonical_reps(sequences : &Vec<QuadSeq>, seqtype : SequenceTyp
     let symmetries;
     if matches!(seqtype, SequenceType::QuaternionType) {
         symmetries = generate_symmetry_group(sequences[0].size(), seqtype, &vec![equivalent_automorphism, equivalent_even_alternated_negation, equivalent_uniform_shift, equivalent_dual_half_shift]);
+    } else if matches!(seqtype, SequenceType::Williamson) {
+        // A uniform shift does not preserve the symmetry of Williamson sequences
+        symmetries = generate_symmetry_group(sequences[0].size(), seqtype, &vec![equivalent_automorphism, equivalent_even_alternated_negation, equivalent_uniform_half_shift]);
     } else {
         symmetries = generate_symmetry_group(sequences[0].size(), seqtype, &vec![equivalent_automorphism, equivalent_even_alternated_negation, equivalent_uniform_shift, equivalent_uniform_half_shift]);
     }
-- 
2.43.0


From b252a123cbb995cb616ce4956e707cc446d09ea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:07 +0000
Subject: [PATCH 03/19] fix: reducing an empty list up to equivalence gives an
 empty list instead of a panic

---
 rust/src/find/find_unique.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/rust/src/find/find_unique.rs b/rust/src/find/find_unique.rs
index 9488284..6d6d0c5 100644
--- a/rust/src/find/find_unique.rs
+++ b/rust/src/find/find_unique.rs
@@ -121,6 +121,10 @@ fn find_recursive(will : &mut QuadSeq, size : usize, index : usize, sequences :
 
 // Algorithm 6
 pub fn reduce_to_equivalence_set_dif(sequences : &Vec<QuadSeq>, seqtype : SequenceType, equivalences : &Vec<fn(&QuadSeq, SequenceType, bool) -> HashSet<QuadSeq>>) -> Vec<QuadSeq> {
+    if sequences.is_empty() {
+        return vec![];
+    }
+
     let mut res = HashSet::new();
     res.extend(sequences.clone().into_iter());
 
@@ -140,6 +144,10 @@ pub fn reduce_to_equivalence_set_dif(sequences : &Vec<QuadSeq>, seqtype : Sequen
 
 // Algorithm 7
 pub fn reduce_to_equivalence_par(sequences : &Vec<QuadSeq>, seqtype : SequenceType, equivalences : &Vec<fn(&QuadSeq, SequenceType, bool) -> HashSet<QuadSeq>>) -> Vec<QuadSeq> {
+    if sequences.is_empty() {
+        return vec![];
+    }
+
     let mut res = HashSet::new();
     let symmetry_group = generate_symmetry_group(sequences[0].size(), seqtype, equivalences);
     let mut count = 0;
@@ -159,7 +167,10 @@ pub fn reduce_to_equivalence_par(sequences : &Vec<QuadSeq>, seqtype : SequenceTy
 // Original algorithm
 pub fn reduce_to_equivalence(sequences : &Vec<QuadSeq>, seqtype : SequenceType, equivalences : &Vec<fn(&QuadSeq, SequenceType, bool) -> HashSet<QuadSeq>>) -> Vec<QuadSeq> {
     // This function reduces a set of QTS up to the Sequence equivalence defined in our paper
-    
+    if sequences.is_empty() {
+        return vec![];
+    }
+
     let mut classes : Vec<HashSet<QuadSeq>> = vec![];
     let symmetry_group = generate_symmetry_group(sequences[0].size(), seqtype, equivalences);
 
@@ -187,6 +198,10 @@ pub fn reduce_to_equivalence(sequences : &Vec<QuadSeq>, seqtype : SequenceType,
 }
 
 pub fn reduce_to_canonical_reps(sequences : &Vec<QuadSeq>, seqtype : SequenceType) -> Vec<QuadSeq> {
+    if sequences.is_empty() {
+        return vec![];
+    }
+
     let symmetries;
     if matches!(seqtype, SequenceType::QuaternionType) {
         symmetries = generate_symmetry_group(sequences[0].size(), seqtype, &vec![equivalent_automorphism, equivalent_even_alternated_negation, equivalent_uniform_shift, equivalent_dual_half_shift]);
-- 
2.43.0


From 4599d8bf2ee3d6c9ac892cbefaaffa84fb9bec30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:48 +0000
Subject: [PATCH 04/19] fix: create makes the .pair files that pair_single
 writes

---
 rust/src/find/find_write.rs | 14 ++------------
 1 file changed, 2 insertions(+), 12 deletions(-)

diff --git a/rust/src/find/find_write.rs b/rust/src/find/find_write.rs
index 933e241..8aa97f6 100644
--- a/rust/src/find/find_write.rs
+++ b/rust/src/find/find_write.rs
@@ -72,16 +72,6 @@ pub fn print_memory_usage(message : &str) {
 
 
 
-fn index_to_tag(index: usize) -> SequenceTag {
-    match index {
-        0 => {SequenceTag::W}
-        1 => {SequenceTag::X}
-        2 => {SequenceTag::Y}
-        3 => {SequenceTag::Z}
-        _ => {panic!("incorrect index")}
-    }
-}
-
 pub fn write_sequences(sequences : &Vec<Vec<i8>>, tag : &SequenceTag, folder_path : &String) {
     // stores the sequences
 
@@ -348,8 +338,8 @@ pub fn create_rowsum_dirs(folder : String, p : usize, rs : (isize, isize, isize,
     println!("{}",folder_path);
     fs::create_dir_all(&folder_path).expect("Error when creating the dir");
 
-    let (_, indices) = sort(&rs); // we sort the rowsum in decreasing order, and we keep track of their original indices
-    let tags : Vec<SequenceTag> = indices.iter().map(|i| index_to_tag(*i)).collect(); // we convert the indices to their respective tags
+    // same order as in write_pairs_rowsum, so that the files created here are the ones it writes
+    let tags : Vec<SequenceTag> = vec![SequenceTag::W, SequenceTag::X, SequenceTag::Y, SequenceTag::Z];
 
     let path1 : String;
     let path2 : String;
-- 
2.43.0


From 2d2fe1c2ecbad62b97a3ed62c044c242cbd9dbce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:48 +0000
Subject: [PATCH 05/19] fix: compare keys in the order the .pair files are
 sorted when joining

---
 rust/src/find/find_write.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rust/src/find/find_write.rs b/rust/src/find/find_write.rs
index 8aa97f6..5e7e284 100644
--- a/rust/src/find/find_write.rs
+++ b/rust/src/find/find_write.rs
@@ -753,7 +753,8 @@ pub fn get_line_from(seq : &Option<Result<String, Error>>) -> (String, (usize, u
     let s = seq.as_ref().unwrap().as_ref().expect("Error when reading file").clone();
     let mut s_parts = s.split("_:_");
 
-    let line = s_parts.next().expect("Expected something before ':' !").to_string();
+    // The separator stays in the key: the files are sorted with it, so "3_:" comes after "30_:"
+    let line = s_parts.next().expect("Expected something before ':' !").to_string() + "_:";
     let mut indices_parts = s_parts.next().expect("Expected something after ':' !").split("_");
     let indices = (indices_parts.next().expect("Expected something !").parse().expect("Expected a number !"), indices_parts.next().expect("Expected something !").parse().expect("Expected a number !"));
 
-- 
2.43.0


From a71276c52fc363af07a390e2e1e37a3af8b9a067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:48 +0000
Subject: [PATCH 06/19] fix: HM::verify does not overflow i8 for matrices of
 order over 127

---
 rust/src/sequences/matrices.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rust/src/sequences/matrices.rs b/rust/src/sequences/matrices.rs
index dc35232..999b061 100644
--- a/rust/src/sequences/matrices.rs
+++ b/rust/src/sequences/matrices.rs
@@ -457,9 +457,9 @@ impl HM {
                 let row2_vec = self.row(row2);
 
                 // Perform inner product
-                let mut result = 0;
+                let mut result : isize = 0;
                 for i in 0..n {
-                    result += row1_vec[i] * row2_vec[i];
+                    result += (row1_vec[i] * row2_vec[i]) as isize;
                 }
 
                 if result != 0 {
-- 
2.43.0


From 1ef435ee912d0c807887783d60174566a48cc6fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:48 +0000
Subject: [PATCH 07/19] fix: HM::dephased dephases the columns of the matrix
 whose rows it dephased

---
 rust/src/sequences/matrices.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rust/src/sequences/matrices.rs b/rust/src/sequences/matrices.rs
index 999b061..ffcc732 100644
--- a/rust/src/sequences/matrices.rs
+++ b/rust/src/sequences/matrices.rs
@@ -357,7 +357,7 @@ impl HM {
         for inv_col in 0..self.size {
             for row in 0..self.size {
                 let col = self.size - 1 - inv_col;
-                new_mat[row][col] = self.matrix[row][0]*self.matrix[row][col];
+                new_mat[row][col] = new_mat[row][0]*new_mat[row][col];
             }
         }
 
-- 
2.43.0


From 47072fe990cdaa1aaf2ef3aa63ee59c475d3a620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:48 +0000
Subject: [PATCH 08/19] fix: HMUO::tensor multiplies the sizes

---
 rust/src/sequences/mum.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rust/src/sequences/mum.rs b/rust/src/sequences/mum.rs
index 83c8070..bdfdfdb 100644
--- a/rust/src/sequences/mum.rs
+++ b/rust/src/sequences/mum.rs
@@ -240,7 +240,7 @@ impl HMUO {
 
 
     pub fn tensor(&self, other : &HMUO) -> HMUO {
-        HMUO {matrix_size : self.matrix_size + other.matrix_size, operator : self.operator.tensor(&other.operator)}
+        HMUO {matrix_size : self.matrix_size * other.matrix_size, operator : self.operator.tensor(&other.operator)}
     }
 
     pub fn to_string(&self) -> String {
-- 
2.43.0


From 5039b94644962a9e98ba7ef6caef866837c6d698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:48 +0000
Subject: [PATCH 09/19] fix: generate_matching_table keeps the first pair of
 each key

---
 rust/src/sequences/matching.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rust/src/sequences/matching.rs b/rust/src/sequences/matching.rs
index c8e3c2a..e026abe 100644
--- a/rust/src/sequences/matching.rs
+++ b/rust/src/sequences/matching.rs
@@ -271,7 +271,7 @@ pub fn generate_matching_table<'a, 'b>(sequences1 : &'a Vec<Vec<i8>>, sequences2
 
         match match_table.get_mut(&match_data) {
             Some(list) => {list.push((seq1, seq2))}
-            None => {match_table.insert(match_data, vec![]);}
+            None => {match_table.insert(match_data, vec![(seq1, seq2)]);}
         }
     }
 
-- 
2.43.0


From f2598c9dc69203995d473f702fdb7ea037128460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:48 +0000
Subject: [PATCH 10/19] fix: solver equations use the right variables and
 cross-correlations

---
 rust/src/sequences/equations.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/rust/src/sequences/equations.rs b/rust/src/sequences/equations.rs
index 3b1cf88..a9fb5e3 100644
--- a/rust/src/sequences/equations.rs
+++ b/rust/src/sequences/equations.rs
@@ -230,7 +230,7 @@ fn generate_equation_autocorrelation(size : usize, offset : usize, mut rightside
             result += "+";
         }
 
-        let index_offset = (index + offset) % size;
+        let index_offset = (index + offset - 1) % size + 1; // variables are numbered from 1
         result += &("4 x".to_string() + &(index).to_string() + &" x" + &index_offset.to_string() + " ");
         result += &("-2 x".to_string() + &(index).to_string() + &" -2 x" + &index_offset.to_string() + " ");
 
@@ -254,11 +254,11 @@ fn generate_equation_autocorrelation(size : usize, offset : usize, mut rightside
 
 
 fn op_minus(seqa : &Vec<i8>, seqb : &Vec<i8>, offset: usize) -> isize{
-    cross_correlation(seqa, seqb, offset) - cross_correlation(seqa, seqb, offset)
+    cross_correlation(seqa, seqb, offset) - cross_correlation(seqb, seqa, offset)
 }
 
 fn op_plus(seqa : &Vec<i8>, seqb : &Vec<i8>, offset: usize) -> isize{
-    cross_correlation(seqa, seqb, offset) + cross_correlation(seqa, seqb, offset)
+    cross_correlation(seqa, seqb, offset) + cross_correlation(seqb, seqa, offset)
 }
 
 
@@ -293,7 +293,7 @@ fn equations_nonlinear_crosscorrelation(seq1 : &Vec<i8>, seq2 : &Vec<i8>, op_typ
 
 
 fn generator_left_minus(index : usize, offset : usize, size : usize) -> String {
-    let index_offset = (index + offset) % size;
+    let index_offset = (index + offset - 1) % size + 1; // variables are numbered from 1
 
     let mut result = "".to_string();
     result += &("4 x".to_string() + &(index).to_string() + &" x" + &(index_offset + size).to_string() + " ");
@@ -306,7 +306,7 @@ fn generator_left_minus(index : usize, offset : usize, size : usize) -> String {
 }
 
 fn generator_right_minus(index : usize, offset : usize, size : usize) -> String {
-    let index_offset = (index + offset) % size;
+    let index_offset = (index + offset - 1) % size + 1; // variables are numbered from 1
 
     let mut result = "".to_string();
     result += &("4 x".to_string() + &(index + size).to_string() + &" x" + &index_offset.to_string() + " ");
@@ -319,7 +319,7 @@ fn generator_right_minus(index : usize, offset : usize, size : usize) -> String
 }
 
 fn generator_plus(index : usize, offset : usize, size : usize) -> String {
-    let index_offset = (index + offset) % size;
+    let index_offset = (index + offset - 1) % size + 1; // variables are numbered from 1
 
     let mut result = "".to_string();
     result += &("4 x".to_string() + &(index).to_string() + &" x" + &(index_offset + size).to_string() + " ");
-- 
2.43.0


From 5d259dd60091634ac23913e9d66f0c86888d0b13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:47 +0000
Subject: [PATCH 11/19] fix: reduce_to_equivalence_set_dif keeps one member of
 each class

---
 rust/src/find/find_unique.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/rust/src/find/find_unique.rs b/rust/src/find/find_unique.rs
index 6d6d0c5..491f382 100644
--- a/rust/src/find/find_unique.rs
+++ b/rust/src/find/find_unique.rs
@@ -131,6 +131,11 @@ pub fn reduce_to_equivalence_set_dif(sequences : &Vec<QuadSeq>, seqtype : Sequen
     let symmetry_group = generate_symmetry_group(sequences[0].size(), seqtype, equivalences);
     
     for seq in sequences {
+        // Another member of its class has been kept
+        if !res.contains(seq) {
+            continue;
+        }
+
         let mut new_class = generate_equivalence_class_fast(seq, &symmetry_group);
         new_class.remove(seq);
 
-- 
2.43.0


From ebd2adb8d0ed6ec353702f3d92f4b57e1870171d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:58 +0000
Subject: [PATCH 12/19] fix: the PSD filters keep pairs that reach the bound
 exactly

---
 rust/src/sequences/fourier.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/rust/src/sequences/fourier.rs b/rust/src/sequences/fourier.rs
index a9d35d0..3a98ccb 100644
--- a/rust/src/sequences/fourier.rs
+++ b/rust/src/sequences/fourier.rs
@@ -9,6 +9,9 @@ use std::sync::{OnceLock, Mutex};
 static R2C_PLAN : OnceLock<Mutex<R2CPlan64>> = OnceLock::new();
 static C2R_PLAN : OnceLock<Mutex<C2RPlan64>> = OnceLock::new();
 
+// The filters keep what reaches the bound exactly, which rounding errors must not push above it
+const BOUND_TOLERANCE : f64 = 1e-6;
+
 pub fn dft_sequence(seq : &Vec<i8>) -> Vec<Complex<f64>>{
     // returns the dft of the sequence
     let n = seq.len();
@@ -49,7 +52,7 @@ pub fn iter_over_filtered_dft<'a>(sequences : &'a Vec<Vec<i8>>, bound : f64) ->
         .filter(move |seq| {
             let dft = dft_sequence(seq);
             for elm in dft {
-                if elm.norm_sqr() > bound_sqr {return false;}
+                if elm.norm_sqr() > bound_sqr + BOUND_TOLERANCE {return false;}
             }
             true
         })
@@ -63,7 +66,7 @@ pub fn iter_over_filtered_couples<'a>(sequences1 : &'a Vec<Vec<i8>>, sequences2
             let dft1 = dft_sequence(seq1);
             let dft2 = dft_sequence(seq2);
             for (elm1, elm2) in dft1.iter().zip(dft2.iter()) {
-                if elm1.norm_sqr() + elm2.norm_sqr() > bound {return false;}
+                if elm1.norm_sqr() + elm2.norm_sqr() > bound + BOUND_TOLERANCE {return false;}
             }
             true
         })
@@ -78,7 +81,7 @@ pub fn iter_over_enumerate_filtered_couples<'a>(sequences1 : &'a Vec<Vec<i8>>, s
             let dft1 = dft_sequence(seq1);
             let dft2 = dft_sequence(seq2);
             for (elm1, elm2) in dft1.iter().zip(dft2.iter()) {                
-                if elm1.norm_sqr() + elm2.norm_sqr() > bound {return false;}
+                if elm1.norm_sqr() + elm2.norm_sqr() > bound + BOUND_TOLERANCE {return false;}
             }
             true
         })
@@ -103,7 +106,7 @@ pub fn iter_over_enumerate_filtered_couples_psds<'a>(sequences1: &'a Vec<Vec<i8>
         let norm1: Vec<f64> = dft1.iter().map(|elm| elm.norm_sqr()).collect();
         let norm2: Vec<f64> = dft2.iter().map(|elm| elm.norm_sqr()).collect();
         
-        let bound_exceeded = norm1.iter().enumerate().zip(norm2.iter().enumerate()).any(|((i1, n1), (i2, n2))| i1 != 0 && i2 != 0 && n1 + n2 > bound);
+        let bound_exceeded = norm1.iter().enumerate().zip(norm2.iter().enumerate()).any(|((i1, n1), (i2, n2))| i1 != 0 && i2 != 0 && n1 + n2 > bound + BOUND_TOLERANCE);
 
         if bound_exceeded {
             None
-- 
2.43.0


From 56a2e0bf12a99e7cd764ec50db3187a4a9090a04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:33 +0000
Subject: [PATCH 13/19] fix: driver.sh stops when the pairs or join step fails

The steps are piped into tee, so $? was tee's status and the checks never fired.
---
 rust/driver.sh | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rust/driver.sh b/rust/driver.sh
index b68e9d4..1f00b38 100755
--- a/rust/driver.sh
+++ b/rust/driver.sh
@@ -25,6 +25,9 @@ then
 	exit 0
 fi
 
+# A pipeline into tee fails if the program fails
+set -o pipefail
+
 type=$1
 n=$2
 
-- 
2.43.0


From 8f8fdfb06739b724f2b3f8c40b1bec65f1243912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:33 +0000
Subject: [PATCH 14/19] fix: sortpairs.sh makes no file named '*.pair.sorted'
 where nothing is left to sort

join counts it as a third sorted file and fails.
---
 rust/sortpairs.sh | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/rust/sortpairs.sh b/rust/sortpairs.sh
index b12c1e0..e4f3a0b 100755
--- a/rust/sortpairs.sh
+++ b/rust/sortpairs.sh
@@ -43,6 +43,11 @@ do
 	then
 		for filename in $dirname/*.pair;
 		do
+			# Nothing left to sort in this directory
+			if [ ! -e "$filename" ]; then
+				continue
+			fi
+
 			# For consistency use a single core to sort, even when more cores are available
 			echo "Sorting file $filename ..." | tee $results -a
 			if [ "$use_slurm" = true ]; then
-- 
2.43.0


From de04bf622796b43d6b9f9cef13f51e51dcfdca89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:33 +0000
Subject: [PATCH 15/19] fix: sortpairs.sh reports failure when a sort failed

driver.sh checks its status, but joined partly written .sorted files all the same.
---
 rust/sortpairs.sh | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/rust/sortpairs.sh b/rust/sortpairs.sh
index e4f3a0b..aa70858 100755
--- a/rust/sortpairs.sh
+++ b/rust/sortpairs.sh
@@ -36,6 +36,7 @@ done
 
 export LC_ALL=C
 
+failed=0
 start=`date +%s.%N`
 for dirname in results/pairs/$type/find_$n/*;
 do
@@ -61,6 +62,8 @@ do
 			# If sort was successful, remove .pair files
 			if [ $status -eq 0 ]; then
 				rm $filename
+			else
+				failed=1
 			fi
 		done
 	fi
@@ -69,3 +72,6 @@ done
 end=`date +%s.%N`
 elapsed=$(echo "$end - $start" | bc)
 printf "Total time to sort: %.2f seconds.\n\n" $elapsed | tee $results -a
+
+# driver.sh must not join files that are not sorted completely
+exit $failed
-- 
2.43.0


From c9a1b9f72350c43e413b7f834b758a104eb33c07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:33 +0000
Subject: [PATCH 16/19] fix: join_pairs.sh logs the time of joining only if
 joining succeeded

---
 rust/join_pairs.sh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rust/join_pairs.sh b/rust/join_pairs.sh
index b197c72..02676a5 100755
--- a/rust/join_pairs.sh
+++ b/rust/join_pairs.sh
@@ -19,8 +19,9 @@ filename="$foldername/result.log"
 # sorting the files
 start2=`date +%s`
 ./target/release/rust join $type $n &>> $filename
+status=$?
 end2=`date +%s`
-if [[ $? -eq 0 ]]; then
+if [[ $status -eq 0 ]]; then
     echo -e "Joining the files together took $((end2 - start2)) seconds. \n\n" >> "./results/pairs/$type/find_$n/result.log"
 fi
 
-- 
2.43.0


From e7aab459a7fce5e46dbed8b050dea330d329a905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:11 +0000
Subject: [PATCH 17/19] fix: write result files completely or fail

File::write may write only part of its buffer (a full disk, a size limit);
the step then reported success and left cut-off files.
---
 rust/src/find/find_with_rowsum.rs        |  4 ++--
 rust/src/find/find_write.rs              |  8 ++++----
 rust/src/main.rs                         | 16 ++++++++--------
 rust/src/sequences/matrix_equivalence.rs |  2 +-
 4 files changed, 15 insertions(+), 15 deletions(-)

diff --git a/rust/src/find/find_with_rowsum.rs b/rust/src/find/find_with_rowsum.rs
index 754f541..318612c 100644
--- a/rust/src/find/find_with_rowsum.rs
+++ b/rust/src/find/find_with_rowsum.rs
@@ -84,8 +84,8 @@ pub fn find(p : usize, seqtype : SequenceType) {
                 if equations != "" {
                     let mut f = File::create(path).expect("Invalid file ?");
                     let comment = generate_comment(seq1, &tag1, seq2, &tag2, &rs);
-                    f.write(comment.as_bytes()).expect("Error when writing in the file");
-                    f.write(equations.as_bytes()).expect("Error when writing in the file");
+                    f.write_all(comment.as_bytes()).expect("Error when writing in the file");
+                    f.write_all(equations.as_bytes()).expect("Error when writing in the file");
                     count +=1;
                 }
 
diff --git a/rust/src/find/find_write.rs b/rust/src/find/find_write.rs
index 5e7e284..e49d83e 100644
--- a/rust/src/find/find_write.rs
+++ b/rust/src/find/find_write.rs
@@ -25,7 +25,7 @@ pub fn write_rowsums(p : usize, seqtype : SequenceType) {
 
     let s = rs.iter().map(|e| quad_to_string(*e)).fold("".to_string(), |a,b| a + &b);
 
-    f.write(s.as_bytes()).expect("Error writing file");
+    f.write_all(s.as_bytes()).expect("Error writing file");
 }
 
 
@@ -79,7 +79,7 @@ pub fn write_sequences(sequences : &Vec<Vec<i8>>, tag : &SequenceTag, folder_pat
     let mut f = File::create(path).expect("Invalid file ?");
 
     for seq in sequences {
-        f.write((sequence_to_string(seq) + &"\n").as_bytes()).expect("Error when writing in the file");
+        f.write_all((sequence_to_string(seq) + &"\n").as_bytes()).expect("Error when writing in the file");
     }
 }
 
@@ -219,7 +219,7 @@ pub fn write_seq_pairs(sequences : (&Vec<Vec<i8>>, &Vec<Vec<i8>>), tags : (&Sequ
         counter += 1;
 
         if counter % 1000 == 0 {
-            f.write(buffer.as_bytes()).expect("Error when writing in the file");
+            f.write_all(buffer.as_bytes()).expect("Error when writing in the file");
             buffer = "".to_string();
         }
 
@@ -235,7 +235,7 @@ pub fn write_seq_pairs(sequences : (&Vec<Vec<i8>>, &Vec<Vec<i8>>), tags : (&Sequ
         println!("WARNING (pair {}{}): CPSD values approximate half-integer with error as small as {}", tags.0.to_string(), tags.1.to_string(), min_half_int_difference_cpsd);
     }
     
-    f.write(buffer.as_bytes()).expect("Error when writing in the file");
+    f.write_all(buffer.as_bytes()).expect("Error when writing in the file");
 
     counter
 }
diff --git a/rust/src/main.rs b/rust/src/main.rs
index 548d4e1..6769081 100644
--- a/rust/src/main.rs
+++ b/rust/src/main.rs
@@ -86,7 +86,7 @@ fn find_unique_williamson_type_of_size(i : usize){
     let path = Path::new(s);
     let mut f = File::create(path).expect("Invalid file ?");
     
-    f.write(result.as_bytes()).expect("Error when writing in the file");
+    f.write_all(result.as_bytes()).expect("Error when writing in the file");
 }
 
 fn find_write_quad_seq(i : usize, seqtype : SequenceType){
@@ -117,8 +117,8 @@ fn find_write_quad_seq(i : usize, seqtype : SequenceType){
     let seq_res_string = result.iter().map(|w| w.to_qs().to_string_raw() + &"\n").fold("".to_string(), |s, t| s + &t);
     let qseq_res_string = result.iter().map(|w| w.to_string() + &"\n").fold("".to_string(), |s, t| s + &t);
 
-    f_seq.write(seq_res_string.as_bytes()).expect("Error when writing in the file");
-    f_qseq.write(qseq_res_string.as_bytes()).expect("Error when writing in the file");
+    f_seq.write_all(seq_res_string.as_bytes()).expect("Error when writing in the file");
+    f_qseq.write_all(qseq_res_string.as_bytes()).expect("Error when writing in the file");
 
     // When doing a Williamson-type enumeration, additionally generate an enumeratation up to QT equivalences for the later Hadamard equivalence check
     if matches!(seqtype, SequenceType::WilliamsonType) {
@@ -163,8 +163,8 @@ fn find_write_quad_seq(i : usize, seqtype : SequenceType){
         let mut f_qseq = File::create(path_qseq).expect("Invalid file ?");
         let seq_res_string = qt_reduced.iter().map(|w| w.to_qs().to_string_raw() + &"\n").fold("".to_string(), |s, t| s + &t);
         let qseq_res_string = qt_reduced.iter().map(|w| w.to_string() + &"\n").fold("".to_string(), |s, t| s + &t);
-        f_seq.write(seq_res_string.as_bytes()).expect("Error when writing in the file");
-        f_qseq.write(qseq_res_string.as_bytes()).expect("Error when writing in the file");
+        f_seq.write_all(seq_res_string.as_bytes()).expect("Error when writing in the file");
+        f_qseq.write_all(qseq_res_string.as_bytes()).expect("Error when writing in the file");
     }
 }
 
@@ -202,7 +202,7 @@ fn convert_qs_to_matrices(seqtype : SequenceType, len : usize) {
                 result += &"\n";
             }
         }
-        f.write(result.as_bytes()).expect("Error when writing in the file");
+        f.write_all(result.as_bytes()).expect("Error when writing in the file");
 
         println!("converted {num_seq} sequences of size {len}. {num_non_commutative} contained non-commuting elements.");
     }
@@ -233,7 +233,7 @@ fn qhm_write_all(seqtype : SequenceType, len : usize) {
     for seq in &equ {
         let qhm = QHM::from_pqs(seq.to_qs()).dephased();
         //assert!(qhm.verify());
-        fout.write((qhm.to_string() + &"\n\n".to_string()).as_bytes()).expect("Error when trying to write to file '{path_out}'");
+        fout.write_all((qhm.to_string() + &"\n\n".to_string()).as_bytes()).expect("Error when trying to write to file '{path_out}'");
     }
 }
 
@@ -260,7 +260,7 @@ fn qhm_write_all(seqtype : SequenceType, len : usize) {
         result_string += &seq.to_qs().to_string_raw();
         result_string += &"\n";
     }
-    f.write(result_string.as_bytes()).expect("Error when writing in the file");
+    f.write_all(result_string.as_bytes()).expect("Error when writing in the file");
     
 }*/
 
diff --git a/rust/src/sequences/matrix_equivalence.rs b/rust/src/sequences/matrix_equivalence.rs
index 2af4c58..a13fed4 100644
--- a/rust/src/sequences/matrix_equivalence.rs
+++ b/rust/src/sequences/matrix_equivalence.rs
@@ -118,6 +118,6 @@ pub fn hadamard_equivalence_from_file(pathname : String, seqtype : SequenceType)
         result_string += &"\n";
     }
 
-    result_file.write(result_string.as_bytes()).expect("Error when writing in the file");
+    result_file.write_all(result_string.as_bytes()).expect("Error when writing in the file");
 
 }
-- 
2.43.0


From d193a1459c431b6781f0c44eb70466b61cfd918b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:30 +0000
Subject: [PATCH 18/19] fix: report lists that cannot be read instead of
 treating them as shorter or absent

---
 rust/src/find/find_write.rs |  5 ++---
 rust/src/main.rs            | 22 ++++++++++++----------
 2 files changed, 14 insertions(+), 13 deletions(-)

diff --git a/rust/src/find/find_write.rs b/rust/src/find/find_write.rs
index e49d83e..1c1449d 100644
--- a/rust/src/find/find_write.rs
+++ b/rust/src/find/find_write.rs
@@ -576,9 +576,8 @@ pub fn file_to_sequences(filename : &String) -> Vec<Vec<i8>> {
     let mut seq = vec![];
 
     for line in read_lines(filename).expect("Error when reading file") {
-        if let Ok(s) = line {
-            seq.push(string_to_sequence(&s));
-        }
+        let s = line.expect("Error when reading file");
+        seq.push(string_to_sequence(&s));
     }
 
     seq
diff --git a/rust/src/main.rs b/rust/src/main.rs
index 6769081..66594f3 100644
--- a/rust/src/main.rs
+++ b/rust/src/main.rs
@@ -188,24 +188,26 @@ fn convert_qs_to_matrices(seqtype : SequenceType, len : usize) {
 
         let mut result = "".to_string();
         for line in lines {
-            if let Ok(pqs) = line {
-                num_seq += 1;
+            let pqs = line.expect("Error reading line");
+            num_seq += 1;
 
-                let mut qhm = QHM::from_pqs(QS::from_str(&pqs));
-                qhm.dephase();
+            let mut qhm = QHM::from_pqs(QS::from_str(&pqs));
+            qhm.dephase();
 
-                if qhm.contains_non_commuting_elements() {
-                    num_non_commutative += 1;
-                }
-
-                result += &qhm.to_string();
-                result += &"\n";
+            if qhm.contains_non_commuting_elements() {
+                num_non_commutative += 1;
             }
+
+            result += &qhm.to_string();
+            result += &"\n";
         }
         f.write_all(result.as_bytes()).expect("Error when writing in the file");
 
         println!("converted {num_seq} sequences of size {len}. {num_non_commutative} contained non-commuting elements.");
     }
+    else {
+        panic!("Error reading file. Make sure sequences have already been generated for this length");
+    }
 }
 
 // Write all found QHM of a given order to qhm.mat, using the expanded list including equivalent matrices
-- 
2.43.0


From 0e58a01311416fe327d58e0f83a2eab34876a232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:42 +0000
Subject: [PATCH 19/19] fix: driver.sh and the step scripts report a failed
 conversion, pairs or join step

---
 rust/convert_hm.sh  |  5 +++++
 rust/convert_qhm.sh |  5 +++++
 rust/driver.sh      | 10 ++++++++++
 rust/join_pairs.sh  |  2 +-
 rust/pairs.sh       |  5 +++++
 5 files changed, 26 insertions(+), 1 deletion(-)

diff --git a/rust/convert_hm.sh b/rust/convert_hm.sh
index ccd7fc6..f20813d 100755
--- a/rust/convert_hm.sh
+++ b/rust/convert_hm.sh
@@ -15,6 +15,11 @@ filename="./results/pairs/$type/find_$n/result.log"
 # sorting the files
 start2=`date +%s.%N`
 ./target/release/rust convert hm $type $n | tee -a $filename
+if [ ${PIPESTATUS[0]} -ne 0 ]
+then
+	echo 'ERROR: convert hm exited unsuccessfully. See log for additional details'
+	exit 1
+fi
 end2=`date +%s.%N`
 elapsed=$(echo "$end2 - $start2" | bc)
 printf "Converting to matrices up to Hadamard equivalence took %.2f seconds\n" $elapsed
diff --git a/rust/convert_qhm.sh b/rust/convert_qhm.sh
index 83c1e8d..7ccd0b9 100755
--- a/rust/convert_qhm.sh
+++ b/rust/convert_qhm.sh
@@ -15,6 +15,11 @@ filename="./results/pairs/$type/find_$n/result.log"
 # sorting the files
 start2=`date +%s.%N`
 ./target/release/rust convert qhm $type $n | tee -a $filename
+if [ ${PIPESTATUS[0]} -ne 0 ]
+then
+	echo 'ERROR: convert qhm exited unsuccessfully. See log for additional details'
+	exit 1
+fi
 end2=`date +%s.%N`
 elapsed=$(echo "$end2 - $start2" | bc)
 printf "Converting to PQS to QHM took %.2f seconds\n" $elapsed | tee -a $filename
diff --git a/rust/driver.sh b/rust/driver.sh
index 1f00b38..31ecff0 100755
--- a/rust/driver.sh
+++ b/rust/driver.sh
@@ -126,6 +126,11 @@ fi
 if [ $hadamard = true ]; then
 	start2=`date +%s.%N`
 	./target/release/rust convert hm $type $n | tee $filename -a
+	if [ $? -ne 0 ]
+	then
+		echo 'ERROR: convert hm exited unsuccessfully. See log for additional details'
+		exit 1
+	fi
 	end2=`date +%s.%N`
 	elapsed=$(echo "$end2 - $start2" | bc)
 	printf "Converting to matrices up to Hadamard equivalence took %.2f seconds\n" $elapsed | tee $filename -a
@@ -137,6 +142,11 @@ fi
 
 echo "Converting PQS to QHM ..." | tee $filename -a
 ./convert_qhm.sh $type $n
+if [ $? -ne 0 ]
+then
+	echo 'ERROR: convert qhm exited unsuccessfully. See log for additional details'
+	exit 1
+fi
 
 end=`date +%s.%N`
 elapsed=$(echo "$end - $start" | bc)
diff --git a/rust/join_pairs.sh b/rust/join_pairs.sh
index 02676a5..2757beb 100755
--- a/rust/join_pairs.sh
+++ b/rust/join_pairs.sh
@@ -24,4 +24,4 @@ end2=`date +%s`
 if [[ $status -eq 0 ]]; then
     echo -e "Joining the files together took $((end2 - start2)) seconds. \n\n" >> "./results/pairs/$type/find_$n/result.log"
 fi
-
+exit $status
diff --git a/rust/pairs.sh b/rust/pairs.sh
index 156cba3..90400cb 100755
--- a/rust/pairs.sh
+++ b/rust/pairs.sh
@@ -79,6 +79,11 @@ fi
 # Call rust code
 start=`date +%s`
 ./target/release/rust pairs $type $n $match_option $rowsum_pairing | tee $filename
+if [ ${PIPESTATUS[0]} -ne 0 ]
+then
+	echo 'ERROR: pairs exited unsuccessfully. See log for additional details'
+	exit 1
+fi
 end=`date +%s`
 echo Generating the .pair files took `expr $end - $start` seconds. 
 echo -e Generating the .pair files took `expr $end - $start` seconds. "\n \n" >> $filename
-- 
2.43.0

