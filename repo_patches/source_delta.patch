From 11cba4c1af9af6a551dced4d556ba50b76816147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:38 +0000
Subject: [PATCH 01/14] fix: canonical representatives of Williamson sequences
 stay Williamson

reduce_to_canonical_reps used the uniform shift for Williamson sequences,
which is not one of their equivalence operations: the representative of a
symmetric quadruple could be a shift of it which is not symmetric.
---
 rust/src/find/find_unique.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rust/src/find/find_unique.rs b/rust/src/find/find_unique.rs
index 107f68b..66cb01d 100644
--- a/rust/src/find/find_unique.rs
+++ b/rust/src/find/find_unique.rs
@@ -190,6 +190,9 @@ pub fn reduce_to_canonical_reps(sequences : &Vec<QuadSeq>, seqtype : SequenceTyp
     let symmetries;
     if matches!(seqtype, SequenceType::QuaternionType) {
         symmetries = generate_symmetry_group(sequences[0].size(), seqtype, &vec![equivalent_automorphism, equivalent_even_alternated_negation, equivalent_uniform_shift, equivalent_dual_half_shift]);
+    } else if matches!(seqtype, SequenceType::Williamson) {
+        // A uniform shift does not preserve the symmetry of Williamson sequences (see SequenceType::equivalences)
+        symmetries = generate_symmetry_group(sequences[0].size(), seqtype, &vec![equivalent_automorphism, equivalent_even_alternated_negation, equivalent_uniform_half_shift]);
     } else {
         symmetries = generate_symmetry_group(sequences[0].size(), seqtype, &vec![equivalent_automorphism, equivalent_even_alternated_negation, equivalent_uniform_shift, equivalent_uniform_half_shift]);
     }
-- 
2.43.0


From 234fef72abd31454e491028240b6e528f2333bb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:38 +0000
Subject: [PATCH 02/14] fix: reduce_to_equivalence_set_dif keeps one sequence
 of every class

Of two equivalent sequences each removed the other one, so that whole
classes disappeared from the result.
---
 rust/src/find/find_unique.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/rust/src/find/find_unique.rs b/rust/src/find/find_unique.rs
index 66cb01d..eb1b6a4 100644
--- a/rust/src/find/find_unique.rs
+++ b/rust/src/find/find_unique.rs
@@ -127,6 +127,11 @@ pub fn reduce_to_equivalence_set_dif(sequences : &Vec<QuadSeq>, seqtype : Sequen
     let symmetry_group = generate_symmetry_group(sequences[0].size(), seqtype, equivalences);
     
     for seq in sequences {
+        // A sequence which was removed is represented by the one it is equivalent to
+        if !res.contains(seq) {
+            continue;
+        }
+
         let mut new_class = generate_equivalence_class_fast(seq, &symmetry_group);
         new_class.remove(seq);
 
-- 
2.43.0


From 6bd05e895c031921888228ad23fb7db6faba49e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:38 +0000
Subject: [PATCH 03/14] fix: reducing an empty list gives an empty list

A search which finds no sequences ended in an out of bounds access when
its (empty) result was reduced up to equivalence.
---
 rust/src/find/find_unique.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/rust/src/find/find_unique.rs b/rust/src/find/find_unique.rs
index eb1b6a4..e156e59 100644
--- a/rust/src/find/find_unique.rs
+++ b/rust/src/find/find_unique.rs
@@ -121,6 +121,10 @@ fn find_recursive(will : &mut QuadSeq, size : usize, index : usize, sequences :
 
 // Algorithm 6
 pub fn reduce_to_equivalence_set_dif(sequences : &Vec<QuadSeq>, seqtype : SequenceType, equivalences : &Vec<fn(&QuadSeq, SequenceType, bool) -> HashSet<QuadSeq>>) -> Vec<QuadSeq> {
+    if sequences.is_empty() {
+        return vec![];
+    }
+
     let mut res = HashSet::new();
     res.extend(sequences.clone().into_iter());
 
@@ -145,6 +149,10 @@ pub fn reduce_to_equivalence_set_dif(sequences : &Vec<QuadSeq>, seqtype : Sequen
 
 // Algorithm 7
 pub fn reduce_to_equivalence_par(sequences : &Vec<QuadSeq>, seqtype : SequenceType, equivalences : &Vec<fn(&QuadSeq, SequenceType, bool) -> HashSet<QuadSeq>>) -> Vec<QuadSeq> {
+    if sequences.is_empty() {
+        return vec![];
+    }
+
     let mut res = HashSet::new();
     let symmetry_group = generate_symmetry_group(sequences[0].size(), seqtype, equivalences);
     let mut count = 0;
@@ -164,6 +172,10 @@ pub fn reduce_to_equivalence_par(sequences : &Vec<QuadSeq>, seqtype : SequenceTy
 // Original algorithm
 pub fn reduce_to_equivalence(sequences : &Vec<QuadSeq>, seqtype : SequenceType, equivalences : &Vec<fn(&QuadSeq, SequenceType, bool) -> HashSet<QuadSeq>>) -> Vec<QuadSeq> {
     // This function reduces a set of QTS up to the Sequence equivalence defined in our paper
+    if sequences.is_empty() {
+        return vec![];
+    }
+
     
     let mut classes : Vec<HashSet<QuadSeq>> = vec![];
     let symmetry_group = generate_symmetry_group(sequences[0].size(), seqtype, equivalences);
@@ -192,6 +204,10 @@ pub fn reduce_to_equivalence(sequences : &Vec<QuadSeq>, seqtype : SequenceType,
 }
 
 pub fn reduce_to_canonical_reps(sequences : &Vec<QuadSeq>, seqtype : SequenceType) -> Vec<QuadSeq> {
+    if sequences.is_empty() {
+        return vec![];
+    }
+
     let symmetries;
     if matches!(seqtype, SequenceType::QuaternionType) {
         symmetries = generate_symmetry_group(sequences[0].size(), seqtype, &vec![equivalent_automorphism, equivalent_even_alternated_negation, equivalent_uniform_shift, equivalent_dual_half_shift]);
-- 
2.43.0


From 6052a39bf2a960562da8a395fe43b5c98159b798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:52 +0000
Subject: [PATCH 04/14] fix: HM::dephased normalises the rows and the columns

---
 rust/src/sequences/matrices.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rust/src/sequences/matrices.rs b/rust/src/sequences/matrices.rs
index dc35232..7104669 100644
--- a/rust/src/sequences/matrices.rs
+++ b/rust/src/sequences/matrices.rs
@@ -357,7 +357,7 @@ impl HM {
         for inv_col in 0..self.size {
             for row in 0..self.size {
                 let col = self.size - 1 - inv_col;
-                new_mat[row][col] = self.matrix[row][0]*self.matrix[row][col];
+                new_mat[row][col] = new_mat[row][0]*new_mat[row][col];
             }
         }
 
-- 
2.43.0


From ed5a0963f0508366f6506d708f09f89ac7bf9c26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:52 +0000
Subject: [PATCH 05/14] fix: HM::verify does not overflow on matrices of order
 256 and more

---
 rust/src/sequences/matrices.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rust/src/sequences/matrices.rs b/rust/src/sequences/matrices.rs
index 7104669..ffcc732 100644
--- a/rust/src/sequences/matrices.rs
+++ b/rust/src/sequences/matrices.rs
@@ -457,9 +457,9 @@ impl HM {
                 let row2_vec = self.row(row2);
 
                 // Perform inner product
-                let mut result = 0;
+                let mut result : isize = 0;
                 for i in 0..n {
-                    result += row1_vec[i] * row2_vec[i];
+                    result += (row1_vec[i] * row2_vec[i]) as isize;
                 }
 
                 if result != 0 {
-- 
2.43.0


From 5f1b308a2a5f1a83667fed039e5a9a4d744828b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:34 +0000
Subject: [PATCH 06/14] fix: generate_matching_table keeps the first pair of
 every key

---
 rust/src/sequences/matching.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rust/src/sequences/matching.rs b/rust/src/sequences/matching.rs
index c8e3c2a..e026abe 100644
--- a/rust/src/sequences/matching.rs
+++ b/rust/src/sequences/matching.rs
@@ -271,7 +271,7 @@ pub fn generate_matching_table<'a, 'b>(sequences1 : &'a Vec<Vec<i8>>, sequences2
 
         match match_table.get_mut(&match_data) {
             Some(list) => {list.push((seq1, seq2))}
-            None => {match_table.insert(match_data, vec![]);}
+            None => {match_table.insert(match_data, vec![(seq1, seq2)]);}
         }
     }
 
-- 
2.43.0


From 6a8f69156e968dffa0aabb106707fce4fc271102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:34 +0000
Subject: [PATCH 07/14] fix: HMUO::tensor records the size of the product

---
 rust/src/sequences/mum.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rust/src/sequences/mum.rs b/rust/src/sequences/mum.rs
index 83c8070..bdfdfdb 100644
--- a/rust/src/sequences/mum.rs
+++ b/rust/src/sequences/mum.rs
@@ -240,7 +240,7 @@ impl HMUO {
 
 
     pub fn tensor(&self, other : &HMUO) -> HMUO {
-        HMUO {matrix_size : self.matrix_size + other.matrix_size, operator : self.operator.tensor(&other.operator)}
+        HMUO {matrix_size : self.matrix_size * other.matrix_size, operator : self.operator.tensor(&other.operator)}
     }
 
     pub fn to_string(&self) -> String {
-- 
2.43.0


From b0a073bbbc59933523572efe8add081cc31b3d5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:34 +0000
Subject: [PATCH 08/14] fix: joining does not lose matches when a key is a
 prefix of another

---
 rust/src/find/find_write.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rust/src/find/find_write.rs b/rust/src/find/find_write.rs
index 933e241..ae8dc0a 100644
--- a/rust/src/find/find_write.rs
+++ b/rust/src/find/find_write.rs
@@ -763,7 +763,8 @@ pub fn get_line_from(seq : &Option<Result<String, Error>>) -> (String, (usize, u
     let s = seq.as_ref().unwrap().as_ref().expect("Error when reading file").clone();
     let mut s_parts = s.split("_:_");
 
-    let line = s_parts.next().expect("Expected something before ':' !").to_string();
+    // The delimiter is kept, so that keys compare in the order in which whole lines were sorted, even when one is a prefix of another
+    let line = s_parts.next().expect("Expected something before ':' !").to_string() + &"_:_";
     let mut indices_parts = s_parts.next().expect("Expected something after ':' !").split("_");
     let indices = (indices_parts.next().expect("Expected something !").parse().expect("Expected a number !"), indices_parts.next().expect("Expected something !").parse().expect("Expected a number !"));
 
-- 
2.43.0


From 44b53421b47eebf3bb18efd959c6392b7f5cb2a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:42 +0000
Subject: [PATCH 09/14] fix: files are written completely or the write fails

---
 rust/src/find/find_with_rowsum.rs        |  4 ++--
 rust/src/find/find_write.rs              |  8 ++++----
 rust/src/main.rs                         | 16 ++++++++--------
 rust/src/sequences/matrix_equivalence.rs |  2 +-
 4 files changed, 15 insertions(+), 15 deletions(-)

diff --git a/rust/src/find/find_with_rowsum.rs b/rust/src/find/find_with_rowsum.rs
index 754f541..318612c 100644
--- a/rust/src/find/find_with_rowsum.rs
+++ b/rust/src/find/find_with_rowsum.rs
@@ -84,8 +84,8 @@ pub fn find(p : usize, seqtype : SequenceType) {
                 if equations != "" {
                     let mut f = File::create(path).expect("Invalid file ?");
                     let comment = generate_comment(seq1, &tag1, seq2, &tag2, &rs);
-                    f.write(comment.as_bytes()).expect("Error when writing in the file");
-                    f.write(equations.as_bytes()).expect("Error when writing in the file");
+                    f.write_all(comment.as_bytes()).expect("Error when writing in the file");
+                    f.write_all(equations.as_bytes()).expect("Error when writing in the file");
                     count +=1;
                 }
 
diff --git a/rust/src/find/find_write.rs b/rust/src/find/find_write.rs
index ae8dc0a..a313544 100644
--- a/rust/src/find/find_write.rs
+++ b/rust/src/find/find_write.rs
@@ -25,7 +25,7 @@ pub fn write_rowsums(p : usize, seqtype : SequenceType) {
 
     let s = rs.iter().map(|e| quad_to_string(*e)).fold("".to_string(), |a,b| a + &b);
 
-    f.write(s.as_bytes()).expect("Error writing file");
+    f.write_all(s.as_bytes()).expect("Error writing file");
 }
 
 
@@ -89,7 +89,7 @@ pub fn write_sequences(sequences : &Vec<Vec<i8>>, tag : &SequenceTag, folder_pat
     let mut f = File::create(path).expect("Invalid file ?");
 
     for seq in sequences {
-        f.write((sequence_to_string(seq) + &"\n").as_bytes()).expect("Error when writing in the file");
+        f.write_all((sequence_to_string(seq) + &"\n").as_bytes()).expect("Error when writing in the file");
     }
 }
 
@@ -229,7 +229,7 @@ pub fn write_seq_pairs(sequences : (&Vec<Vec<i8>>, &Vec<Vec<i8>>), tags : (&Sequ
         counter += 1;
 
         if counter % 1000 == 0 {
-            f.write(buffer.as_bytes()).expect("Error when writing in the file");
+            f.write_all(buffer.as_bytes()).expect("Error when writing in the file");
             buffer = "".to_string();
         }
 
@@ -245,7 +245,7 @@ pub fn write_seq_pairs(sequences : (&Vec<Vec<i8>>, &Vec<Vec<i8>>), tags : (&Sequ
         println!("WARNING (pair {}{}): CPSD values approximate half-integer with error as small as {}", tags.0.to_string(), tags.1.to_string(), min_half_int_difference_cpsd);
     }
     
-    f.write(buffer.as_bytes()).expect("Error when writing in the file");
+    f.write_all(buffer.as_bytes()).expect("Error when writing in the file");
 
     counter
 }
diff --git a/rust/src/main.rs b/rust/src/main.rs
index 6757cdf..972a655 100644
--- a/rust/src/main.rs
+++ b/rust/src/main.rs
@@ -86,7 +86,7 @@ fn find_unique_williamson_type_of_size(i : usize){
     let path = Path::new(s);
     let mut f = File::create(path).expect("Invalid file ?");
     
-    f.write(result.as_bytes()).expect("Error when writing in the file");
+    f.write_all(result.as_bytes()).expect("Error when writing in the file");
 }
 
 fn find_write_quad_seq(i : usize, seqtype : SequenceType){
@@ -117,8 +117,8 @@ fn find_write_quad_seq(i : usize, seqtype : SequenceType){
     let seq_res_string = result.iter().map(|w| w.to_qs().to_string_raw() + &"\n").fold("".to_string(), |s, t| s + &t);
     let qseq_res_string = result.iter().map(|w| w.to_string() + &"\n").fold("".to_string(), |s, t| s + &t);
 
-    f_seq.write(seq_res_string.as_bytes()).expect("Error when writing in the file");
-    f_qseq.write(qseq_res_string.as_bytes()).expect("Error when writing in the file");
+    f_seq.write_all(seq_res_string.as_bytes()).expect("Error when writing in the file");
+    f_qseq.write_all(qseq_res_string.as_bytes()).expect("Error when writing in the file");
 
     // When doing a Williamson-type enumeration, additionally generate an enumeratation up to QT equivalences for the later Hadamard equivalence check
     if matches!(seqtype, SequenceType::WilliamsonType) {
@@ -163,8 +163,8 @@ fn find_write_quad_seq(i : usize, seqtype : SequenceType){
         let mut f_qseq = File::create(path_qseq).expect("Invalid file ?");
         let seq_res_string = qt_reduced.iter().map(|w| w.to_qs().to_string_raw() + &"\n").fold("".to_string(), |s, t| s + &t);
         let qseq_res_string = qt_reduced.iter().map(|w| w.to_string() + &"\n").fold("".to_string(), |s, t| s + &t);
-        f_seq.write(seq_res_string.as_bytes()).expect("Error when writing in the file");
-        f_qseq.write(qseq_res_string.as_bytes()).expect("Error when writing in the file");
+        f_seq.write_all(seq_res_string.as_bytes()).expect("Error when writing in the file");
+        f_qseq.write_all(qseq_res_string.as_bytes()).expect("Error when writing in the file");
     }
 }
 
@@ -202,7 +202,7 @@ fn convert_qs_to_matrices(seqtype : SequenceType, len : usize) {
                 result += &"\n";
             }
         }
-        f.write(result.as_bytes()).expect("Error when writing in the file");
+        f.write_all(result.as_bytes()).expect("Error when writing in the file");
 
         println!("converted {num_seq} sequences of size {len}. {num_non_commutative} contained non-commuting elements.");
     }
@@ -233,7 +233,7 @@ fn qhm_write_all(seqtype : SequenceType, len : usize) {
     for seq in &equ {
         let qhm = QHM::from_pqs(seq.to_qs()).dephased();
         //assert!(qhm.verify());
-        fout.write((qhm.to_string() + &"\n\n".to_string()).as_bytes()).expect("Error when trying to write to file '{path_out}'");
+        fout.write_all((qhm.to_string() + &"\n\n".to_string()).as_bytes()).expect("Error when trying to write to file '{path_out}'");
     }
 }
 
@@ -260,7 +260,7 @@ fn qhm_write_all(seqtype : SequenceType, len : usize) {
         result_string += &seq.to_qs().to_string_raw();
         result_string += &"\n";
     }
-    f.write(result_string.as_bytes()).expect("Error when writing in the file");
+    f.write_all(result_string.as_bytes()).expect("Error when writing in the file");
     
 }*/
 
diff --git a/rust/src/sequences/matrix_equivalence.rs b/rust/src/sequences/matrix_equivalence.rs
index 2af4c58..a13fed4 100644
--- a/rust/src/sequences/matrix_equivalence.rs
+++ b/rust/src/sequences/matrix_equivalence.rs
@@ -118,6 +118,6 @@ pub fn hadamard_equivalence_from_file(pathname : String, seqtype : SequenceType)
         result_string += &"\n";
     }
 
-    result_file.write(result_string.as_bytes()).expect("Error when writing in the file");
+    result_file.write_all(result_string.as_bytes()).expect("Error when writing in the file");
 
 }
-- 
2.43.0


From f5d121ad5630a6e6dd5434158aa5b41816950296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:30 +0000
Subject: [PATCH 10/14] fix: create_rowsum_dirs names the pair files as the
 pair step does

---
 rust/src/find/find_write.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rust/src/find/find_write.rs b/rust/src/find/find_write.rs
index a313544..c722f97 100644
--- a/rust/src/find/find_write.rs
+++ b/rust/src/find/find_write.rs
@@ -348,8 +348,8 @@ pub fn create_rowsum_dirs(folder : String, p : usize, rs : (isize, isize, isize,
     println!("{}",folder_path);
     fs::create_dir_all(&folder_path).expect("Error when creating the dir");
 
-    let (_, indices) = sort(&rs); // we sort the rowsum in decreasing order, and we keep track of their original indices
-    let tags : Vec<SequenceTag> = indices.iter().map(|i| index_to_tag(*i)).collect(); // we convert the indices to their respective tags
+    // The files are named as in write_pairs_rowsum
+    let tags : Vec<SequenceTag> = (0..4).map(|i| index_to_tag(i)).collect();
 
     let path1 : String;
     let path2 : String;
-- 
2.43.0


From dc10f89cbbeb4dd5c5a702a5384b429055a5734a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:05 +0000
Subject: [PATCH 11/14] fix: rounding errors do not make the spectral filters
 discard valid pairs

---
 rust/src/sequences/fourier.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/rust/src/sequences/fourier.rs b/rust/src/sequences/fourier.rs
index a9d35d0..8cc57d1 100644
--- a/rust/src/sequences/fourier.rs
+++ b/rust/src/sequences/fourier.rs
@@ -9,6 +9,9 @@ use std::sync::{OnceLock, Mutex};
 static R2C_PLAN : OnceLock<Mutex<R2CPlan64>> = OnceLock::new();
 static C2R_PLAN : OnceLock<Mutex<C2RPlan64>> = OnceLock::new();
 
+// The power spectrum can reach the bound exactly, so the rounding errors of the transform must not count as exceeding it
+const BOUND_TOLERANCE : f64 = 1e-6;
+
 pub fn dft_sequence(seq : &Vec<i8>) -> Vec<Complex<f64>>{
     // returns the dft of the sequence
     let n = seq.len();
@@ -49,7 +52,7 @@ pub fn iter_over_filtered_dft<'a>(sequences : &'a Vec<Vec<i8>>, bound : f64) ->
         .filter(move |seq| {
             let dft = dft_sequence(seq);
             for elm in dft {
-                if elm.norm_sqr() > bound_sqr {return false;}
+                if elm.norm_sqr() > bound_sqr + BOUND_TOLERANCE {return false;}
             }
             true
         })
@@ -63,7 +66,7 @@ pub fn iter_over_filtered_couples<'a>(sequences1 : &'a Vec<Vec<i8>>, sequences2
             let dft1 = dft_sequence(seq1);
             let dft2 = dft_sequence(seq2);
             for (elm1, elm2) in dft1.iter().zip(dft2.iter()) {
-                if elm1.norm_sqr() + elm2.norm_sqr() > bound {return false;}
+                if elm1.norm_sqr() + elm2.norm_sqr() > bound + BOUND_TOLERANCE {return false;}
             }
             true
         })
@@ -78,7 +81,7 @@ pub fn iter_over_enumerate_filtered_couples<'a>(sequences1 : &'a Vec<Vec<i8>>, s
             let dft1 = dft_sequence(seq1);
             let dft2 = dft_sequence(seq2);
             for (elm1, elm2) in dft1.iter().zip(dft2.iter()) {                
-                if elm1.norm_sqr() + elm2.norm_sqr() > bound {return false;}
+                if elm1.norm_sqr() + elm2.norm_sqr() > bound + BOUND_TOLERANCE {return false;}
             }
             true
         })
@@ -103,7 +106,7 @@ pub fn iter_over_enumerate_filtered_couples_psds<'a>(sequences1: &'a Vec<Vec<i8>
         let norm1: Vec<f64> = dft1.iter().map(|elm| elm.norm_sqr()).collect();
         let norm2: Vec<f64> = dft2.iter().map(|elm| elm.norm_sqr()).collect();
         
-        let bound_exceeded = norm1.iter().enumerate().zip(norm2.iter().enumerate()).any(|((i1, n1), (i2, n2))| i1 != 0 && i2 != 0 && n1 + n2 > bound);
+        let bound_exceeded = norm1.iter().enumerate().zip(norm2.iter().enumerate()).any(|((i1, n1), (i2, n2))| i1 != 0 && i2 != 0 && n1 + n2 > bound + BOUND_TOLERANCE);
 
         if bound_exceeded {
             None
-- 
2.43.0


From f5f11081c510aa04b5de1cb2b6cae19ff76b65d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:50 +0000
Subject: [PATCH 12/14] fix: an input file which cannot be read is an error

---
 rust/src/find/find_write.rs |  5 ++---
 rust/src/main.rs            | 22 ++++++++++++----------
 2 files changed, 14 insertions(+), 13 deletions(-)

diff --git a/rust/src/find/find_write.rs b/rust/src/find/find_write.rs
index c722f97..dc44895 100644
--- a/rust/src/find/find_write.rs
+++ b/rust/src/find/find_write.rs
@@ -586,9 +586,8 @@ pub fn file_to_sequences(filename : &String) -> Vec<Vec<i8>> {
     let mut seq = vec![];
 
     for line in read_lines(filename).expect("Error when reading file") {
-        if let Ok(s) = line {
-            seq.push(string_to_sequence(&s));
-        }
+        let s = line.expect("Error when reading file");
+        seq.push(string_to_sequence(&s));
     }
 
     seq
diff --git a/rust/src/main.rs b/rust/src/main.rs
index 972a655..2361e71 100644
--- a/rust/src/main.rs
+++ b/rust/src/main.rs
@@ -188,24 +188,26 @@ fn convert_qs_to_matrices(seqtype : SequenceType, len : usize) {
 
         let mut result = "".to_string();
         for line in lines {
-            if let Ok(pqs) = line {
-                num_seq += 1;
+            let pqs = line.expect("Error when reading file");
+            num_seq += 1;
 
-                let mut qhm = QHM::from_pqs(QS::from_str(&pqs));
-                qhm.dephase();
+            let mut qhm = QHM::from_pqs(QS::from_str(&pqs));
+            qhm.dephase();
 
-                if qhm.contains_non_commuting_elements() {
-                    num_non_commutative += 1;
-                }
-
-                result += &qhm.to_string();
-                result += &"\n";
+            if qhm.contains_non_commuting_elements() {
+                num_non_commutative += 1;
             }
+
+            result += &qhm.to_string();
+            result += &"\n";
         }
         f.write_all(result.as_bytes()).expect("Error when writing in the file");
 
         println!("converted {num_seq} sequences of size {len}. {num_non_commutative} contained non-commuting elements.");
     }
+    else {
+        panic!("Error when reading file");
+    }
 }
 
 // Write all found QHM of a given order to qhm.mat, using the expanded list including equivalent matrices
-- 
2.43.0


From 1a88bd26fc1fbb51cee5c8bfefb1eaa9a74445a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:03 +0000
Subject: [PATCH 13/14] fix: equations: the right side of the nonlinear
 cross-correlation equations compares both orders of the pair

op_minus subtracted a cross-correlation from itself, so that the right side
was always 0 (and op_plus added it to itself).
---
 rust/src/sequences/equations.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rust/src/sequences/equations.rs b/rust/src/sequences/equations.rs
index 3b1cf88..07f8d57 100644
--- a/rust/src/sequences/equations.rs
+++ b/rust/src/sequences/equations.rs
@@ -254,11 +254,11 @@ fn generate_equation_autocorrelation(size : usize, offset : usize, mut rightside
 
 
 fn op_minus(seqa : &Vec<i8>, seqb : &Vec<i8>, offset: usize) -> isize{
-    cross_correlation(seqa, seqb, offset) - cross_correlation(seqa, seqb, offset)
+    cross_correlation(seqa, seqb, offset) - cross_correlation(seqb, seqa, offset)
 }
 
 fn op_plus(seqa : &Vec<i8>, seqb : &Vec<i8>, offset: usize) -> isize{
-    cross_correlation(seqa, seqb, offset) + cross_correlation(seqa, seqb, offset)
+    cross_correlation(seqa, seqb, offset) + cross_correlation(seqb, seqa, offset)
 }
 
 
-- 
2.43.0


From bb63e8e14667783e3dcc2828a12b7139cd041c00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:03 +0000
Subject: [PATCH 14/14] fix: equations: the second index of a product wraps
 around to 1, not to 0

The variables are numbered from 1, but (index + offset) % size is 0 for the last
index of each shift: this wrote x0, and xn for x2n.
---
 rust/src/sequences/equations.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/rust/src/sequences/equations.rs b/rust/src/sequences/equations.rs
index 07f8d57..0a9e104 100644
--- a/rust/src/sequences/equations.rs
+++ b/rust/src/sequences/equations.rs
@@ -230,7 +230,7 @@ fn generate_equation_autocorrelation(size : usize, offset : usize, mut rightside
             result += "+";
         }
 
-        let index_offset = (index + offset) % size;
+        let index_offset = (index + offset - 1) % size + 1;
         result += &("4 x".to_string() + &(index).to_string() + &" x" + &index_offset.to_string() + " ");
         result += &("-2 x".to_string() + &(index).to_string() + &" -2 x" + &index_offset.to_string() + " ");
 
@@ -293,7 +293,7 @@ fn equations_nonlinear_crosscorrelation(seq1 : &Vec<i8>, seq2 : &Vec<i8>, op_typ
 
 
 fn generator_left_minus(index : usize, offset : usize, size : usize) -> String {
-    let index_offset = (index + offset) % size;
+    let index_offset = (index + offset - 1) % size + 1;
 
     let mut result = "".to_string();
     result += &("4 x".to_string() + &(index).to_string() + &" x" + &(index_offset + size).to_string() + " ");
@@ -306,7 +306,7 @@ fn generator_left_minus(index : usize, offset : usize, size : usize) -> String {
 }
 
 fn generator_right_minus(index : usize, offset : usize, size : usize) -> String {
-    let index_offset = (index + offset) % size;
+    let index_offset = (index + offset - 1) % size + 1;
 
     let mut result = "".to_string();
     result += &("4 x".to_string() + &(index + size).to_string() + &" x" + &index_offset.to_string() + " ");
@@ -319,7 +319,7 @@ fn generator_right_minus(index : usize, offset : usize, size : usize) -> String
 }
 
 fn generator_plus(index : usize, offset : usize, size : usize) -> String {
-    let index_offset = (index + offset) % size;
+    let index_offset = (index + offset - 1) % size + 1;
 
     let mut result = "".to_string();
     result += &("4 x".to_string() + &(index).to_string() + &" x" + &(index_offset + size).to_string() + " ");
-- 
2.43.0

