From 2ff47f8a981f2f232aea8630c488a7d2bf5c8ea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:49 +0000
Subject: [PATCH 01/18] fix: reach the next HDU from any reader position
 without underflow

Asking for the next HDU again after the last one, or after a read that left the
reader outside of the data unit, computed a negative number of bytes to skip.
---
 src/fits.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/fits.rs b/src/fits.rs
index 70e524e..d9aee27 100644
--- a/src/fits.rs
+++ b/src/fits.rs
@@ -6,6 +6,7 @@ use crate::hdu::header::extension::image::Image;
 use crate::hdu::header::Header;
 use crate::hdu::header::Xtension;
 
+use std::convert::TryFrom;
 use std::fmt::Debug;
 
 #[derive(Debug, Clone)]
@@ -63,16 +64,20 @@ where
         // The number of bytes to skip is the remaining bytes +
         // an offset to get to a multiple of 2880 bytes
 
-        // current seek position since the start of the stream
-        let cur_pos = self.reader.stream_position()? as usize;
-        let mut num_bytes_to_skip = self.num_bytes_in_cur_du - (cur_pos - self.pos_start_cur_du);
-
+        // The next HDU starts right after the data unit, once aligned on a 2880 bytes block
         let offset_in_2880_block = self.num_bytes_in_cur_du % 2880;
+        let mut pos_next_hdu = self.pos_start_cur_du as i128 + self.num_bytes_in_cur_du as i128;
         let is_aligned_on_block = offset_in_2880_block == 0;
         if !is_aligned_on_block {
-            num_bytes_to_skip += 2880 - offset_in_2880_block;
+            pos_next_hdu += 2880 - offset_in_2880_block as i128;
         }
-        self.reader.seek_relative(num_bytes_to_skip as i64)?;
+
+        // current seek position since the start of the stream. It may be anywhere: before, inside or after
+        // the current data unit depending on what the user read from it
+        let cur_pos = self.reader.stream_position()?;
+        let num_bytes_to_skip = i64::try_from(pos_next_hdu - cur_pos as i128)
+            .map_err(|_| Error::StaticError("The next HDU is out of reach of the reader"))?;
+        self.reader.seek_relative(num_bytes_to_skip)?;
 
         Ok(())
     }
-- 
2.43.0


From 46e4864562ff4b6c27d1c6faa797c8f11462e38b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:19 +0000
Subject: [PATCH 02/18] fix: keep the binary table cursor right on empty cells,
 selections and row seeks

Empty variable length arrays underflowed or were attributed to the wrong row, fields
with a repeat count of 0 were read as if they stored something, a bit array in the heap
was read with one byte per bit, seek_to_row ignored a pending heap read or selection,
select_fields counted a field given twice twice and failed on an empty selection, and
hostile array descriptors overflowed.
---
 src/hdu/data/bintable/data.rs | 249 ++++++++++++++++++++--------------
 src/hdu/data/bintable/row.rs  |  10 +-
 2 files changed, 157 insertions(+), 102 deletions(-)

diff --git a/src/hdu/data/bintable/data.rs b/src/hdu/data/bintable/data.rs
index 64759f7..2ca859f 100644
--- a/src/hdu/data/bintable/data.rs
+++ b/src/hdu/data/bintable/data.rs
@@ -3,6 +3,7 @@ use crate::hdu::header::extension::bintable::{
     TForm, VariableArrayTy, A, B, C, D, E, I, J, K, L, M, P, Q, X,
 };
 use crate::hdu::header::{Header, Xtension};
+use std::convert::TryFrom;
 use std::fmt::Debug;
 
 use super::row::TableRowData;
@@ -210,7 +211,10 @@ impl<R> TableData<R> {
             })
             .collect();
 
-        let cols_idx = (0..(ctx.tforms.len())).collect();
+        // Fields with a repeat count of 0 do not store anything in the table
+        let cols_idx = (0..(ctx.tforms.len()))
+            .filter(|&col_idx| ctx.tforms[col_idx].num_bytes_field() > 0)
+            .collect();
 
         let col_idx = 0;
         let item_idx = 0;
@@ -276,11 +280,17 @@ impl<R> TableData<R> {
                     }
                 }
             }
-        ).collect();
+        )
+        // Fields with a repeat count of 0 do not store anything in the table
+        .filter(|&col_idx| self.ctx.tforms[col_idx].num_bytes_field() > 0)
+        .collect();
 
         self.cols_idx.sort_unstable();
+        self.cols_idx.dedup();
 
-        // We must go to the first column at this point
+        // We must go to the first selected column of the current row at this point
+        self.col_idx = 0;
+        self.item_idx = 0;
         self.seek_to_first_col = true;
 
         self
@@ -292,40 +302,49 @@ where
     R: Seek,
 {
     fn seek_to_next_col(&mut self) -> Result<(), Error> {
-        let last_col = self.col_idx == self.cols_idx.len() - 1;
-        let last_row = self.row_idx == self.ctx.naxis2 as usize - 1;
-
-        if last_col {
+        self.item_idx = 0;
+        self.col_idx += 1;
+        if self.col_idx == self.cols_idx.len() {
+            // it was the last col, the next one is on the next row
+            self.col_idx = 0;
             self.row_idx += 1;
         }
 
-        // If we are at the last row and the last col, then we go to the end of the main data table
-        let off = if last_col && last_row {
-            // seek to the end of the main data table
-            self.main_data_table_byte_size as i64 - self.byte_offset as i64
+        let next_byte_offset = if self.row_idx == self.ctx.naxis2 as usize {
+            // It was the last col of the last row: seek to the end of the main data table
+            self.main_data_table_byte_size
         } else {
-            self.col_idx = (self.col_idx + 1) % self.cols_idx.len();
-            self.item_idx = 0;
+            self.row_idx * self.ctx.naxis1 as usize
+                + self.col_byte_offsets[self.cols_idx[self.col_idx]]
+        };
 
-            let col_idx = self.cols_idx[self.col_idx];
+        let off = next_byte_offset as i64 - self.byte_offset as i64;
+        self.reader.seek_relative(off)?;
+        // update the byte offset as well
+        self.byte_offset = next_byte_offset;
 
-            let next_row_byte_off = self.col_byte_offsets[col_idx] as i64;
-            let cur_row_byte_off = (self.byte_offset as i64) % (self.ctx.naxis1 as i64);
+        Ok(())
+    }
 
-            let mut rel_row_byte_off = next_row_byte_off - cur_row_byte_off;
+    /// Seek to the first selected column of the current row, wherever the reader is
+    fn seek_to_first_col(&mut self) -> Result<(), Error> {
+        self.state = DataReaderState::MainTable;
+        self.col_idx = 0;
+        self.item_idx = 0;
 
-            if rel_row_byte_off < 0 {
-                // next col is on the next row
-                // get to the end of the current row
-                rel_row_byte_off += self.ctx.naxis1 as i64;
-            }
+        let mut byte_offset = self.row_idx * self.ctx.naxis1 as usize;
+        if let Some(&col_idx) = self.cols_idx.first() {
+            byte_offset += self.col_byte_offsets[col_idx];
+        }
 
-            rel_row_byte_off
-        };
+        let pos = self
+            .start_pos
+            .checked_add(byte_offset as u64)
+            .ok_or(Error::StaticError("The row is out of reach of the reader"))?;
+        self.reader.seek(SeekFrom::Start(pos))?;
 
-        self.reader.seek_relative(off)?;
-        // update the byte offset as well
-        self.byte_offset += off as usize;
+        self.byte_offset = byte_offset;
+        self.seek_to_first_col = false;
 
         Ok(())
     }
@@ -340,26 +359,8 @@ where
                 "The row index specified is > than the number of rows of the table",
             ))
         } else {
-            self.col_idx = 0;
             self.row_idx = idx;
-            self.item_idx = 0;
-
-            let new_byte_offset =
-                // go to the beginning of the idx-th row
-                (idx as i64) * (self.ctx.naxis1 as i64)
-                // go to the first column of that row
-                + (self.col_byte_offsets[self.cols_idx[0]] as i64);
-
-            // Offset for moving from the current position to the new row position
-            let off =
-                // go back to the beginning of the main table data block
-                - (self.byte_offset as i64) + new_byte_offset;
-
-            self.reader.seek_relative(off)?;
-
-            self.byte_offset = new_byte_offset as usize;
-
-            Ok(())
+            self.seek_to_first_col()
         }
     }
 
@@ -393,11 +394,17 @@ where
                 // Move to the HEAP
                 let off =
                     // go back to the beginning of the main table data block
-                    - (self.byte_offset as i64)
+                    - (self.byte_offset as i128)
                     // from the beginning of the main table go to the beginning of the heap
-                    + self.ctx.theap as i64
+                    + self.ctx.theap as i128
                     // from the beginning of the heap go to the start of the array
-                    + byte_offset as i64;
+                    + byte_offset as i128;
+                let out_of_reach = Error::StaticError("The array is out of reach in the heap");
+                let (off, num_bytes_to_read) =
+                    match (i64::try_from(off), n_elems.checked_mul(t_byte_size)) {
+                        (Ok(off), Some(num_bytes_to_read)) => (off, num_bytes_to_read),
+                        _ => return Err(out_of_reach),
+                    };
 
                 // Get the current location used to go back to the main table
                 let pos = SeekFrom::Start(self.reader.stream_position()?);
@@ -405,7 +412,6 @@ where
                 // Go to the HEAP
                 self.reader.seek_relative(off)?;
 
-                let num_bytes_to_read = n_elems * t_byte_size;
                 self.state = DataReaderState::HEAP {
                     ty,
                     main_table_pos: pos,
@@ -453,19 +459,85 @@ where
     type Item = DataValue;
 
     fn next(&mut self) -> Option<Self::Item> {
-        // First get the column index in the main data table where the reader is
-        let col_idx = self.cols_idx[self.col_idx];
+        // Skip the cells that contain no element
+        while !self.enter_cell()? {}
+
+        self.read_elem()
+    }
+}
 
-        // a select fields has been done, we must offset to the first col
+impl<R> TableData<R>
+where
+    R: Read + Seek + Debug,
+{
+    /// Prepare the reading of the next element of the table, jumping to the heap if necessary
+    ///
+    /// Returns `None` if there is no more element to read, `Some(false)` if the current cell is an empty variable
+    /// length array: it is then skipped.
+    pub(crate) fn enter_cell(&mut self) -> Option<bool> {
+        // a select fields has been done, we must go to the first col
         if self.seek_to_first_col {
-            self.seek_to_first_col = false;
+            self.seek_to_first_col().ok()?;
+        }
+
+        if let DataReaderState::HEAP { .. } = self.state {
+            return Some(true);
+        }
+
+        // Check whether we are at the end of the main data table
+        // This would mean we read all the table
+        if self.cols_idx.is_empty() || self.row_idx >= self.ctx.naxis2 as usize {
+            return None;
+        }
+
+        let (ty, t_byte_size, num_elems, offset_byte) =
+            match self.ctx.tforms[self.cols_idx[self.col_idx]] {
+                // Array Descriptor (32-bit)
+                TFormType::P {
+                    ty, t_byte_size, ..
+                } if self.heap => {
+                    let num_elems = self.reader.read_u32::<BigEndian>().ok()?;
+                    let offset_byte = self.reader.read_u32::<BigEndian>().ok()?;
+                    self.byte_offset += P::BYTES_SIZE;
+
+                    (ty, t_byte_size, num_elems as u64, offset_byte as u64)
+                }
+                // Array Descriptor (64-bit)
+                TFormType::Q {
+                    ty, t_byte_size, ..
+                } if self.heap => {
+                    let num_elems = self.reader.read_u64::<BigEndian>().ok()?;
+                    let offset_byte = self.reader.read_u64::<BigEndian>().ok()?;
+                    self.byte_offset += Q::BYTES_SIZE;
+
+                    (ty, t_byte_size, num_elems, offset_byte)
+                }
+                // The element is in the main table
+                _ => return Some(true),
+            };
+
+        if num_elems == 0 {
+            // nothing is stored in the heap for that cell
+            self.seek_to_next_col().ok()?;
 
-            let off = self.col_byte_offsets[col_idx] as i64;
-            // seek to the next col location
-            self.reader.seek_relative(off).ok()?;
-            // update the byte offset as well
-            self.byte_offset += off as usize;
+            Some(false)
+        } else {
+            // bits are read by bytes
+            let num_elems = match ty {
+                VariableArrayTy::X => num_elems.div_ceil(8),
+                _ => num_elems,
+            };
+            self.jump_to_heap(ty, offset_byte, num_elems, t_byte_size)
+                .ok()?;
+
+            Some(true)
         }
+    }
+
+    /// Read one element from the cell entered
+    pub(crate) fn read_elem(&mut self) -> Option<DataValue> {
+        // First get the column index in the main data table where the reader is
+        let col_idx = self.cols_idx[self.col_idx];
 
         match &mut self.state {
             DataReaderState::HEAP {
@@ -795,61 +867,38 @@ where
                             }) // Determine the count idx inside the field
                         }
                         // Array Descriptor (32-bit)
-                        TFormType::P {
-                            ty, t_byte_size, ..
-                        } => {
+                        TFormType::P { .. } => {
                             let num_elems = self.reader.read_u32::<BigEndian>().ok()?;
                             let offset_byte = self.reader.read_u32::<BigEndian>().ok()?;
 
                             self.byte_offset += P::BYTES_SIZE;
 
-                            if self.heap {
-                                self.jump_to_heap(
-                                    *ty,
-                                    offset_byte as u64,
-                                    num_elems as u64,
-                                    *t_byte_size,
-                                )
-                                .ok()?;
-
-                                self.next()
-                            } else {
-                                // We need to seek to the next call if we do not jump to the heap, notifying
-                                // we finished parsing this field
-                                self.seek_to_next_col().ok()?;
+                            // We need to seek to the next call if we do not jump to the heap, notifying
+                            // we finished parsing this field
+                            self.seek_to_next_col().ok()?;
 
-                                // just returns the n_elems and offset from the iterator
-                                Some(DataValue::VariableLengthArray32 {
-                                    num_elems,
-                                    offset_byte,
-                                })
-                            }
+                            // just returns the n_elems and offset from the iterator
+                            Some(DataValue::VariableLengthArray32 {
+                                num_elems,
+                                offset_byte,
+                            })
                         }
                         // Array Descriptor (64-bit)
-                        TFormType::Q {
-                            ty, t_byte_size, ..
-                        } => {
+                        TFormType::Q { .. } => {
                             let num_elems = self.reader.read_u64::<BigEndian>().ok()?;
                             let offset_byte = self.reader.read_u64::<BigEndian>().ok()?;
 
                             self.byte_offset += Q::BYTES_SIZE;
 
-                            if self.heap {
-                                self.jump_to_heap(*ty, offset_byte, num_elems, *t_byte_size)
-                                    .ok()?;
+                            // We need to seek to the next call if we do not jump to the heap, notifying
+                            // we finished parsing this field
+                            self.seek_to_next_col().ok()?;
 
-                                self.next()
-                            } else {
-                                // We need to seek to the next call if we do not jump to the heap, notifying
-                                // we finished parsing this field
-                                self.seek_to_next_col().ok()?;
-
-                                // just returns the n_elems and offset from the iterator
-                                Some(DataValue::VariableLengthArray64 {
-                                    num_elems,
-                                    offset_byte,
-                                })
-                            }
+                            // just returns the n_elems and offset from the iterator
+                            Some(DataValue::VariableLengthArray64 {
+                                num_elems,
+                                offset_byte,
+                            })
                         }
                     }
                 }
diff --git a/src/hdu/data/bintable/row.rs b/src/hdu/data/bintable/row.rs
index 90f8851..a25d6d1 100644
--- a/src/hdu/data/bintable/row.rs
+++ b/src/hdu/data/bintable/row.rs
@@ -13,7 +13,10 @@ pub struct TableRowData<R> {
 
 impl<R> TableRowData<R> {
     pub fn new(data: TableData<R>) -> Self {
-        Self { data, idx_row: 0 }
+        // a row may have been seeked before
+        let idx_row = data.row_idx;
+
+        Self { data, idx_row }
     }
 
     pub fn get_ctx(&self) -> &BinTable {
@@ -49,7 +52,10 @@ where
         let mut row_data = vec![];
 
         while self.data.row_idx == self.idx_row {
-            row_data.push(self.data.next()?);
+            // empty variable length arrays have no value to give
+            if self.data.enter_cell()? {
+                row_data.push(self.data.read_elem()?);
+            }
         }
 
         self.idx_row += 1;
-- 
2.43.0


From a97d4989200d42f6fbd74830fd098555930c6ccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:15:36 +0000
Subject: [PATCH 03/18] fix: size bit fields of binary tables by their own
 bytes

A field of n bits takes ceil(n/8) bytes in each row: n multiple of 8 was read with one byte
too many, and the row size was checked on the sum of the bits of all fields. Repeat counts
too large to be multiplied do not overflow anymore.
---
 src/hdu/data/bintable/data.rs        |  2 +-
 src/hdu/header/extension/bintable.rs | 40 ++++++++++++----------------
 2 files changed, 18 insertions(+), 24 deletions(-)

diff --git a/src/hdu/data/bintable/data.rs b/src/hdu/data/bintable/data.rs
index 2ca859f..2a86f31 100644
--- a/src/hdu/data/bintable/data.rs
+++ b/src/hdu/data/bintable/data.rs
@@ -707,7 +707,7 @@ where
                             self.byte_offset += X::BYTES_SIZE;
 
                             self.item_idx += 1;
-                            if self.item_idx == (*repeat_count / 8) + 1 {
+                            if self.item_idx == repeat_count.div_ceil(8) {
                                 self.seek_to_next_col().ok()?;
                             }
 
diff --git a/src/hdu/header/extension/bintable.rs b/src/hdu/header/extension/bintable.rs
index a801ebd..b5e95d6 100644
--- a/src/hdu/header/extension/bintable.rs
+++ b/src/hdu/header/extension/bintable.rs
@@ -509,12 +509,10 @@ impl Xtension for BinTable {
             (naxis1 as usize) * (naxis2 as usize)
         };
 
-        let num_bits_per_row = tforms
-            .iter()
-            .map(|tform| tform.num_bits_field() as u64)
-            .sum::<u64>();
+        let num_bytes_per_row = tforms.iter().fold(0_u64, |acc, tform| {
+            acc.saturating_add(tform.num_bytes_field() as u64)
+        });
 
-        let num_bytes_per_row = num_bits_per_row >> 3;
         if num_bytes_per_row != naxis1 {
             return Err(Error::StaticError("BinTable NAXIS1 and TFORMS does not give the same amount of bytes the table should have per row."));
         }
@@ -766,27 +764,23 @@ pub(crate) enum ArrayDescriptorTy {
 }
 */
 impl TFormType {
-    pub(crate) fn num_bits_field(&self) -> usize {
+    pub(crate) fn num_bytes_field(&self) -> usize {
         match self {
-            TFormType::L { repeat_count } => repeat_count * L::BITS_SIZE, // Logical
-            TFormType::X { repeat_count } => repeat_count * X::BITS_SIZE, // Bit
-            TFormType::B { repeat_count } => repeat_count * B::BITS_SIZE, // Unsigned byte
-            TFormType::I { repeat_count } => repeat_count * I::BITS_SIZE, // 16-bit integer
-            TFormType::J { repeat_count } => repeat_count * J::BITS_SIZE, // 32-bit integer
-            TFormType::K { repeat_count } => repeat_count * K::BITS_SIZE, // 64-bit integer
-            TFormType::A { repeat_count } => repeat_count * A::BITS_SIZE, // Character
-            TFormType::E { repeat_count } => repeat_count * E::BITS_SIZE, // Single-precision floating point
-            TFormType::D { repeat_count } => repeat_count * D::BITS_SIZE, // Double-precision floating point
-            TFormType::C { repeat_count } => repeat_count * C::BITS_SIZE, // Single-precision complex
-            TFormType::M { repeat_count } => repeat_count * M::BITS_SIZE, // Double-precision complex
-            TFormType::P { .. } => P::BITS_SIZE, // Array Descriptor (32-bit)
-            TFormType::Q { .. } => Q::BITS_SIZE, // Array Descriptor (64-bit)
+            TFormType::L { repeat_count } => repeat_count.saturating_mul(L::BYTES_SIZE), // Logical
+            TFormType::X { repeat_count } => repeat_count.div_ceil(8),                   // Bit
+            TFormType::B { repeat_count } => repeat_count.saturating_mul(B::BYTES_SIZE), // Unsigned byte
+            TFormType::I { repeat_count } => repeat_count.saturating_mul(I::BYTES_SIZE), // 16-bit integer
+            TFormType::J { repeat_count } => repeat_count.saturating_mul(J::BYTES_SIZE), // 32-bit integer
+            TFormType::K { repeat_count } => repeat_count.saturating_mul(K::BYTES_SIZE), // 64-bit integer
+            TFormType::A { repeat_count } => repeat_count.saturating_mul(A::BYTES_SIZE), // Character
+            TFormType::E { repeat_count } => repeat_count.saturating_mul(E::BYTES_SIZE), // Single-precision floating point
+            TFormType::D { repeat_count } => repeat_count.saturating_mul(D::BYTES_SIZE), // Double-precision floating point
+            TFormType::C { repeat_count } => repeat_count.saturating_mul(C::BYTES_SIZE), // Single-precision complex
+            TFormType::M { repeat_count } => repeat_count.saturating_mul(M::BYTES_SIZE), // Double-precision complex
+            TFormType::P { .. } => P::BYTES_SIZE, // Array Descriptor (32-bit)
+            TFormType::Q { .. } => Q::BYTES_SIZE, // Array Descriptor (64-bit)
         }
     }
-
-    pub(crate) fn num_bytes_field(&self) -> usize {
-        self.num_bits_field().div_ceil(8)
-    }
 }
 
 #[cfg(test)]
-- 
2.43.0


From 3c23f0f7fa25c2adda66b96c48e15ff4de270421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:16:19 +0000
Subject: [PATCH 04/18] fix: a logical table cell is true when it contains 'T'

Any non zero byte was considered as true, so that 'F' was.
---
 src/hdu/data/bintable/data.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hdu/data/bintable/data.rs b/src/hdu/data/bintable/data.rs
index 2a86f31..c25d684 100644
--- a/src/hdu/data/bintable/data.rs
+++ b/src/hdu/data/bintable/data.rs
@@ -556,7 +556,7 @@ where
 
                 let value = match ty {
                     VariableArrayTy::L => {
-                        let value = self.reader.read_u8().ok()? != 0;
+                        let value = self.reader.read_u8().ok()? == b'T';
                         *num_bytes_to_read -= L::BYTES_SIZE as u64;
                         DataValue::Logical {
                             value,
@@ -696,7 +696,7 @@ where
                             }
 
                             Some(DataValue::Logical {
-                                value: byte != 0,
+                                value: byte == b'T',
                                 column: ColumnId::Index(col_idx),
                                 idx,
                             }) // Determine the count idx inside the field
-- 
2.43.0


From eec3a84f4a872d71bcbb45069ec1730849915f43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:17:03 +0000
Subject: [PATCH 05/18] fix: raw bytes of a truncated in-memory data unit do
 not panic

---
 src/hdu/data/bintable/data.rs | 5 +++--
 src/hdu/data/image.rs         | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/hdu/data/bintable/data.rs b/src/hdu/data/bintable/data.rs
index c25d684..f84b34a 100644
--- a/src/hdu/data/bintable/data.rs
+++ b/src/hdu/data/bintable/data.rs
@@ -168,8 +168,9 @@ where
         let raw_bytes = inner.as_ref();
 
         let s = self.start_pos as usize;
-        let e = s + (self.ctx.get_num_bytes_data_block() as usize);
-        &raw_bytes[s..e]
+        let e = s.saturating_add(self.ctx.get_num_bytes_data_block() as usize);
+        // The buffer may be truncated
+        &raw_bytes[s.min(raw_bytes.len())..e.min(raw_bytes.len())]
     }
 }
 
diff --git a/src/hdu/data/image.rs b/src/hdu/data/image.rs
index 9b5ee0a..3045c88 100644
--- a/src/hdu/data/image.rs
+++ b/src/hdu/data/image.rs
@@ -97,8 +97,9 @@ where
         let raw_bytes = inner.as_ref();
 
         let s = self.start_pos as usize;
-        let e = s + (self.num_bytes_data_block as usize);
-        &raw_bytes[s..e]
+        let e = s.saturating_add(self.num_bytes_data_block as usize);
+        // The buffer may be truncated
+        &raw_bytes[s.min(raw_bytes.len())..e.min(raw_bytes.len())]
     }
 }
 
-- 
2.43.0


From c6a6eb08d737796655d1671b83d1737ac014591e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:19:34 +0000
Subject: [PATCH 06/18] fix: reject data unit sizes and field counts that
 cannot be

---
 src/hdu/header/extension/asciitable.rs |  2 ++
 src/hdu/header/extension/bintable.rs   | 17 ++++++++++++++---
 src/hdu/header/extension/image.rs      | 12 ++++++++++--
 src/hdu/header/mod.rs                  | 25 ++++++++++++++++++++++++-
 4 files changed, 50 insertions(+), 6 deletions(-)

diff --git a/src/hdu/header/extension/asciitable.rs b/src/hdu/header/extension/asciitable.rs
index d981f47..5425fed 100644
--- a/src/hdu/header/extension/asciitable.rs
+++ b/src/hdu/header/extension/asciitable.rs
@@ -5,6 +5,7 @@ use serde::Serialize;
 
 use crate::error::Error;
 
+use crate::hdu::header::check_data_unit_size;
 use crate::hdu::header::Bitpix;
 
 use crate::hdu::header::ValueMap;
@@ -114,6 +115,7 @@ impl Xtension for AsciiTable {
         // NAXIS1
         let naxis1 = values.check_for_naxisi(1)?;
         let naxis2 = values.check_for_naxisi(2)?;
+        check_data_unit_size([naxis1, naxis2], 0)?;
 
         // PCOUNT
         let pcount = values.check_for_pcount()?;
diff --git a/src/hdu/header/extension/bintable.rs b/src/hdu/header/extension/bintable.rs
index b5e95d6..289c5ba 100644
--- a/src/hdu/header/extension/bintable.rs
+++ b/src/hdu/header/extension/bintable.rs
@@ -1,6 +1,7 @@
 use std::fmt::Debug;
 
 use crate::error::Error;
+use crate::hdu::header::check_data_unit_size;
 use crate::hdu::header::Bitpix;
 use crate::hdu::Value;
 use async_trait::async_trait;
@@ -208,6 +209,7 @@ impl Xtension for BinTable {
 
         // PCOUNT
         let pcount = values.check_for_pcount()?;
+        check_data_unit_size([naxis1, naxis2], pcount)?;
 
         // GCOUNT
         let gcount = values.check_for_gcount()?;
@@ -288,8 +290,8 @@ impl Xtension for BinTable {
         // in the first row of the table, and the tile containing the last pixel in the image appears in the
         // last row of the binary table.
         let (z_naxisn, z_tilen) = if let Some(z_naxis) = z_naxis {
-            let mut z_naxisn = Vec::with_capacity(z_naxis);
-            let mut z_tilen = Vec::with_capacity(z_naxis);
+            let mut z_naxisn = Vec::new();
+            let mut z_tilen = Vec::new();
 
             for i in 1..=z_naxis {
                 let znaxisn = if let Ok(value) = values.get_parsed(&format!("ZNAXIS{i}")) {
@@ -368,7 +370,14 @@ impl Xtension for BinTable {
                     .collect::<String>();
 
                 let num_count_digits = count.len();
-                let repeat_count = count.parse::<usize>().unwrap_or(1);
+                let repeat_count = if count.is_empty() {
+                    1
+                } else if let Ok(repeat_count) = count.parse::<usize>() {
+                    repeat_count
+                } else {
+                    warn!("The repeat count of {tform_kw} is too large. It will be discarded");
+                    return None;
+                };
                 // If the field type is not found, discard it as well
                 let Some(field_ty) = tform.chars().nth(num_count_digits) else {
                     warn!("Cannot extract the field type of {tform_kw}");
@@ -426,6 +435,8 @@ impl Xtension for BinTable {
                     'C' => TFormType::C { repeat_count },
                     // Double-precision complex
                     'M' => TFormType::M { repeat_count },
+                    // No array descriptor is stored
+                    'P' | 'Q' if repeat_count == 0 => TFormType::B { repeat_count },
                     // Array Descriptor 32-bit
                     'P' => {
                         let (t_byte_size, ty) = compute_ty_array_desc()?;
diff --git a/src/hdu/header/extension/image.rs b/src/hdu/header/extension/image.rs
index 66ca7bc..b8a35ad 100644
--- a/src/hdu/header/extension/image.rs
+++ b/src/hdu/header/extension/image.rs
@@ -2,6 +2,7 @@ use async_trait::async_trait;
 use serde::Serialize;
 
 use crate::error::Error;
+use crate::hdu::header::check_data_unit_size;
 use crate::hdu::header::Bitpix;
 
 use crate::hdu::header::ValueMap;
@@ -28,7 +29,7 @@ impl Image {
 
     /// Get total number of pixels in the image
     pub fn get_num_pixels(&self) -> u64 {
-        if self.naxisn.is_empty() {
+        if self.naxisn.is_empty() || self.naxisn.contains(&0) {
             return 0;
         }
         self.naxisn.iter().product()
@@ -49,7 +50,14 @@ impl Xtension for Image {
         // The size of each NAXIS
         let naxisn = (1..=naxis)
             .map(|naxis_i| values.check_for_naxisi(naxis_i))
-            .collect::<Result<_, _>>()?;
+            .collect::<Result<Box<[u64]>, _>>()?;
+        check_data_unit_size(
+            naxisn
+                .iter()
+                .copied()
+                .chain(std::iter::once(bitpix.byte_size() as u64)),
+            0,
+        )?;
 
         Ok(Image { bitpix, naxisn })
     }
diff --git a/src/hdu/header/mod.rs b/src/hdu/header/mod.rs
index 69054d9..131354a 100644
--- a/src/hdu/header/mod.rs
+++ b/src/hdu/header/mod.rs
@@ -73,6 +73,24 @@ pub enum Bitpix {
     F64 = -64,
 }
 
+/// Check that the size in bytes of a data unit, i.e. the product of `factors` plus `extra`, is one that can be
+/// addressed in a file
+fn check_data_unit_size(factors: impl IntoIterator<Item = u64>, extra: u64) -> Result<(), Error> {
+    let mut size = Some(1_u64);
+    for factor in factors {
+        if factor == 0 {
+            size = Some(0);
+            break;
+        }
+        size = size.and_then(|size| size.checked_mul(factor));
+    }
+
+    match size.and_then(|size| size.checked_add(extra)) {
+        Some(size) if size <= i64::MAX as u64 => Ok(()),
+        _ => Err(Error::StaticError("The size of the data unit is too large")),
+    }
+}
+
 impl Bitpix {
     pub fn byte_size(&self) -> usize {
         ((*self as i8).unsigned_abs() as usize) >> 3
@@ -154,7 +172,12 @@ impl ValueMap {
     }
 
     fn check_for_tfields(&self) -> Result<usize, Error> {
-        self.get_parsed("TFIELDS")
+        let tfields = self.get_parsed("TFIELDS")?;
+        // FITS document 7.2.1 and 7.3.1: the maximum permissible value is 999
+        if tfields > 999 {
+            return Err(Error::StaticError("TFIELDS must not exceed 999"));
+        }
+        Ok(tfields)
     }
 }
 
-- 
2.43.0


From fa675d76caed31ea4e36135a2d38b5f83103e79d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:53 +0000
Subject: [PATCH 07/18] fix: report a string without its closing quote instead
 of panicking

---
 src/card.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/card.rs b/src/card.rs
index c8205bc..6b063d2 100644
--- a/src/card.rs
+++ b/src/card.rs
@@ -317,6 +317,7 @@ pub fn split_value_and_comment(buf: &[u8]) -> Result<(String, Option<String>), E
     let mut slash = UNDEFINED;
     let mut tic = false;
     let mut toc = false;
+    let mut closed = false; // a quoted string came to its end
 
     let mut value = String::new();
     let buf = String::from_utf8_lossy(buf.trim_ascii());
@@ -355,7 +356,8 @@ pub fn split_value_and_comment(buf: &[u8]) -> Result<(String, Option<String>), E
                 // valid FITS characters, add these even if outside string
                 if toc {
                     tic = false;
-                    toc = false
+                    toc = false;
+                    closed = true
                 } // end of string
                 value.push(c)
             }
@@ -370,6 +372,10 @@ pub fn split_value_and_comment(buf: &[u8]) -> Result<(String, Option<String>), E
         }
     }
 
+    if tic && !toc && !closed {
+        return Err(Error::StaticError("missing single quote at end"));
+    }
+
     if slash == UNDEFINED {
         Ok((value.trim().to_owned(), None))
     } else {
-- 
2.43.0


From 000851deab8ee516096c91859d3cd566ff0298b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:08 +0000
Subject: [PATCH 08/18] fix: a CONTINUE record after another card does not
 continue the string before

---
 src/hdu/header/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/hdu/header/mod.rs b/src/hdu/header/mod.rs
index 131354a..eee318e 100644
--- a/src/hdu/header/mod.rs
+++ b/src/hdu/header/mod.rs
@@ -332,7 +332,8 @@ fn process_cards(cards: &[Card]) -> Result<ValueMap, Error> {
                 }
             }
             // TODO log skipped card at debug level
-            _ => ( /* NOOP */),
+            // A string is only continued by CONTINUE records that immediately follow it
+            _ => kw = None,
         }
     }
     Err(Error::StaticError("Missing END card"))
-- 
2.43.0


From 86f108d254ba5d573b01f95f130b7e3698957321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:45 +0000
Subject: [PATCH 09/18] fix: find the unit of a comment that follows its slash
 by a space

---
 src/card.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/card.rs b/src/card.rs
index 6b063d2..8f90404 100644
--- a/src/card.rs
+++ b/src/card.rs
@@ -522,6 +522,8 @@ impl<'de> IntoDeserializer<'de, Error> for &'de Value {
 /// FITSv4 section 4.3.2. Units in comment fields
 fn parse_unit(comment: &Option<String>) -> Option<&str> {
     if let Some(c) = comment {
+        // the comment is usually separated from the slash by a space
+        let c = c.trim_start();
         if c.starts_with("[") {
             if let Some(i) = c.find("]") {
                 Some(&c[1..i])
-- 
2.43.0


From 8e6004588817a5ec19b0f792a4ee1d9cc685a00e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:55 +0000
Subject: [PATCH 10/18] fix: read every member of a gzip file

---
 src/gz.rs | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/src/gz.rs b/src/gz.rs
index db6df65..d869b9a 100644
--- a/src/gz.rs
+++ b/src/gz.rs
@@ -1,4 +1,6 @@
-use flate2::read::GzDecoder;
+use flate2::bufread::GzDecoder;
+use std::io::BufReader;
+use std::io::ErrorKind;
 use std::io::Seek;
 /*
 use crate::hdu::data::FitsRead;
@@ -94,7 +96,7 @@ where
 {
     /// Open a fits file from a path. Can be gzip-compressed
     pub fn new(reader: R) -> Result<Self, Error> {
-        let mut gz = GzDecoder::new(reader);
+        let mut gz = GzDecoder::new(BufReader::new(reader));
 
         match gz.header() {
             // `path` points to a file that is gzip-compressed.
@@ -102,11 +104,25 @@ where
                 let mut buf = vec![];
                 gz.read_to_end(&mut buf)?;
 
+                // A gzip file may be made of several members, what follows the last one is ignored
+                loop {
+                    gz = GzDecoder::new(gz.into_inner());
+                    if gz.header().is_some() {
+                        gz.read_to_end(&mut buf)?;
+                    } else {
+                        match gz.read(&mut [0]).map_err(|e| (e.kind(), e)) {
+                            Err((ErrorKind::InvalidInput | ErrorKind::UnexpectedEof, _))
+                            | Ok(_) => break,
+                            Err((_, e)) => return Err(e.into()),
+                        }
+                    }
+                }
+
                 Ok(GzReader::GzReader(Cursor::new(buf.into_boxed_slice())))
             }
             // `path` points to a plain text file.
             None => {
-                let mut r = gz.into_inner();
+                let mut r = gz.into_inner().into_inner();
                 // Since the `GzDecoder` already moved some bytes out of f
                 // by trying to decompress it, the file must be rewinded
                 // TODO There may be a better way instead of reading the same
-- 
2.43.0


From 3f66e2c53a950729d05391db18c1daf0bc64ea91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:55 +0000
Subject: [PATCH 11/18] fix: let RICE differences wrap around as the algorithm
 expects

---
 src/hdu/data/bintable/tile_compressed/rice.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hdu/data/bintable/tile_compressed/rice.rs b/src/hdu/data/bintable/tile_compressed/rice.rs
index b9a9fac..278635f 100644
--- a/src/hdu/data/bintable/tile_compressed/rice.rs
+++ b/src/hdu/data/bintable/tile_compressed/rice.rs
@@ -285,7 +285,7 @@ where
                             diff = !(diff >> 1);
                         }
 
-                        let curpix = (diff as i32) + lastpix;
+                        let curpix = (diff as i32).wrapping_add(lastpix);
                         buf[j..(j + T::size_of())]
                             .copy_from_slice(&curpix.to_ne_bytes()[..T::size_of()]);
                         lastpix = curpix;
@@ -342,7 +342,7 @@ where
                         } else {
                             diff = !(diff >> 1);
                         }
-                        let curpix = (diff as i32) + lastpix;
+                        let curpix = (diff as i32).wrapping_add(lastpix);
                         buf[j..(j + T::size_of())]
                             .copy_from_slice(&curpix.to_ne_bytes()[..T::size_of()]);
                         lastpix = curpix;
-- 
2.43.0


From 1b5b54502565bcf19c9857b2dd7ec9957353874c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:35 +0000
Subject: [PATCH 12/18] fix: a blank pixel uses up its dithering value

---
 src/hdu/data/bintable/tile_compressed/mod.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/hdu/data/bintable/tile_compressed/mod.rs b/src/hdu/data/bintable/tile_compressed/mod.rs
index 7668cac..097c14d 100644
--- a/src/hdu/data/bintable/tile_compressed/mod.rs
+++ b/src/hdu/data/bintable/tile_compressed/mod.rs
@@ -96,6 +96,14 @@ impl F64Keywords {
         // map the NaN if value corresponds to BLANK
         if let Some(z_blank) = self.z_blank {
             if z_blank == value {
+                // a blank pixel uses up its random value as any other one
+                match &mut self.quantiz {
+                    Quantiz::NoDither => (),
+                    Quantiz::SubtractiveDither1 { i1 } | Quantiz::SubtractiveDither2 { i1 } => {
+                        *i1 = (*i1 + 1) % N_RANDOM;
+                    }
+                }
+
                 return f32::NAN;
             }
         }
@@ -133,6 +141,14 @@ impl F32Keywords {
         // map the NaN if value corresponds to BLANK
         if let Some(z_blank) = self.z_blank {
             if z_blank == value {
+                // a blank pixel uses up its random value as any other one
+                match &mut self.quantiz {
+                    Quantiz::NoDither => (),
+                    Quantiz::SubtractiveDither1 { i1 } | Quantiz::SubtractiveDither2 { i1 } => {
+                        *i1 = (*i1 + 1) % N_RANDOM;
+                    }
+                }
+
                 return f32::NAN;
             }
         }
-- 
2.43.0


From 33beb76e9a96ca7b69964d7d82668b87f06f3cc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:31 +0000
Subject: [PATCH 13/18] fix: decode border tiles and reject tile layouts the
 table does not have

---
 src/hdu/data/bintable/tile_compressed/mod.rs  |  30 +-
 .../data/bintable/tile_compressed/pixels.rs   | 331 ++++++++++--------
 src/hdu/data/bintable/tile_compressed/rice.rs |  28 ++
 src/hdu/header/extension/bintable.rs          |  78 +++++
 4 files changed, 315 insertions(+), 152 deletions(-)

diff --git a/src/hdu/data/bintable/tile_compressed/mod.rs b/src/hdu/data/bintable/tile_compressed/mod.rs
index 097c14d..e285f76 100644
--- a/src/hdu/data/bintable/tile_compressed/mod.rs
+++ b/src/hdu/data/bintable/tile_compressed/mod.rs
@@ -41,9 +41,9 @@ where
 #[derive(Debug)]
 pub struct F32Keywords {
     /// Idx column storing z_scale values for each tile
-    z_scale_idx: usize,
+    z_scale_idx: Option<usize>,
     /// Idx column storing z_zero values for each tile
-    z_zero_idx: usize,
+    z_zero_idx: Option<usize>,
     /// Idx column storing z_blank values for each tile
     z_blank_idx: Option<usize>,
 
@@ -67,9 +67,9 @@ pub struct F32Keywords {
 #[derive(Debug)]
 pub struct F64Keywords {
     /// Idx column storing z_scale values for each tile
-    z_scale_idx: usize,
+    z_scale_idx: Option<usize>,
     /// Idx column storing z_zero values for each tile
-    z_zero_idx: usize,
+    z_zero_idx: Option<usize>,
     /// Idx column storing z_blank values for each tile
     z_blank_idx: Option<usize>,
 
@@ -191,13 +191,13 @@ impl Keywords for F32Keywords {
         } = config;
 
         let ctx = header.get_xtension();
-        let z_scale_idx = ctx.find_field_by_ttype("ZSCALE").unwrap();
-        let z_zero_idx = ctx.find_field_by_ttype("ZZERO").unwrap();
+        let z_scale_idx = ctx.find_item_by_ttype("ZSCALE");
+        let z_zero_idx = ctx.find_item_by_ttype("ZZERO");
 
         let mut z_blank = None;
         let z_blank_idx = ctx
             // Check for a field named ZBLANK
-            .find_field_by_ttype("ZBLANK")
+            .find_item_by_ttype("ZBLANK")
             .or_else(|| {
                 z_blank = header
                     .get_parsed("ZBLANK")
@@ -209,8 +209,9 @@ impl Keywords for F32Keywords {
         // If no ZBLANK colum has been found then check the header keywords (ZBLANK for float, BLANK for integer)
 
         Self {
-            scale: 1.0,
-            zero: 0.0,
+            // Without a column, the same value applies to all the tiles
+            scale: header.get_parsed("ZSCALE").unwrap_or(1.0),
+            zero: header.get_parsed("ZZERO").unwrap_or(0.0),
             z_scale_idx,
             z_zero_idx,
             z_blank_idx,
@@ -233,13 +234,13 @@ impl Keywords for F64Keywords {
         } = config;
 
         let ctx = header.get_xtension();
-        let z_scale_idx = ctx.find_field_by_ttype("ZSCALE").unwrap();
-        let z_zero_idx = ctx.find_field_by_ttype("ZZERO").unwrap();
+        let z_scale_idx = ctx.find_item_by_ttype("ZSCALE");
+        let z_zero_idx = ctx.find_item_by_ttype("ZZERO");
 
         let mut z_blank = None;
         let z_blank_idx = ctx
             // Check for a field named ZBLANK
-            .find_field_by_ttype("ZBLANK")
+            .find_item_by_ttype("ZBLANK")
             .or_else(|| {
                 z_blank = header
                     .get_parsed("ZBLANK")
@@ -251,8 +252,9 @@ impl Keywords for F64Keywords {
         // If no ZBLANK colum has been found then check the header keywords (ZBLANK for float, BLANK for integer)
 
         Self {
-            scale: 1.0,
-            zero: 0.0,
+            // Without a column, the same value applies to all the tiles
+            scale: header.get_parsed("ZSCALE").unwrap_or(1.0),
+            zero: header.get_parsed("ZZERO").unwrap_or(0.0),
             z_scale_idx,
             z_zero_idx,
             z_blank_idx,
diff --git a/src/hdu/data/bintable/tile_compressed/pixels.rs b/src/hdu/data/bintable/tile_compressed/pixels.rs
index 9ed59ab..00fc134 100644
--- a/src/hdu/data/bintable/tile_compressed/pixels.rs
+++ b/src/hdu/data/bintable/tile_compressed/pixels.rs
@@ -10,6 +10,7 @@ use crate::error::Error;
 use crate::hdu::header::extension::bintable::{BinTable, TileCompressedImage, ZCmpType, ZQuantiz};
 use crate::hdu::header::{Bitpix, Header};
 use crate::{TableData, TableRowData};
+use std::convert::TryFrom;
 use std::io::{Read, Seek, SeekFrom};
 
 #[derive(Debug)]
@@ -52,9 +53,13 @@ where
     desc: TileDesc<K>,
 
     z_tile: Box<[usize]>,
-    //z_naxis: Box<[usize]>,
+    z_naxis: Box<[u64]>,
     z_cmp_type: ZCmpType,
+    /// Index of the compressed data among the items of a row
     data_compressed_idx: usize,
+
+    /// Set if a tile could not be decoded
+    failed: bool,
 }
 
 impl<R, K> It<R, K>
@@ -78,23 +83,16 @@ where
         // This buffer is only used if tile compressed image in the gzip compression is to be found
         let TileCompressedImage {
             z_tilen,
+            z_naxisn,
             z_cmp_type,
             data_compressed_idx,
             ..
         } = config;
-        // Allocation of a buffer at init of the iterator that is the size of the biggest tiles we can found
-        // on the tile compressed image. This is simply given by the ZTILEi keyword.
-        // Some tiles found on the border of the image can be smaller
-        let n_elems_max = z_tilen.iter().product::<usize>();
-
         // FIXME
         // A little precision. The gzdecoder from flate2 seems to unzip data in a stream of u32 i.e. even if the type of data
-        // to uncompress is byte or short, the result will be cast in a u32. I thus allocate for gzip compression, a buffer of
-        // n_elems_max * size_in_bytes of u32.
+        // to uncompress is byte or short, the result will be cast in a u32.
         // It seems to be the same for RICE, so the latter rice decompression code is called on i32
-        let num_bytes_max_tile = n_elems_max * std::mem::size_of::<u32>();
-
-        let buf = vec![0_u8; num_bytes_max_tile];
+        let buf = vec![];
 
         let desc = TileDesc::new(header, config);
 
@@ -106,61 +104,84 @@ where
 
             desc,
 
-            data_compressed_idx: *data_compressed_idx,
-            //z_naxis: z_naxisn.clone(),
+            data_compressed_idx: header.get_xtension().item_idx(*data_compressed_idx),
+            z_naxis: z_naxisn.clone(),
             z_tile: z_tilen.clone(),
             z_cmp_type: *z_cmp_type,
+
+            failed: false,
+        }
+    }
+
+    /// Get the row describing the next tile, none follows a tile that could not be decoded
+    fn next_row(&mut self) -> Option<Box<[DataValue]>>
+    where
+        R: Read + Seek + Debug,
+    {
+        if self.failed {
+            return None;
         }
+
+        // until the tile is decoded
+        self.failed = true;
+        self.row_it.next()
+    }
+
+    /// Start the reading of a tile that has been decoded
+    fn start_tile(&mut self, num_pixels: u64) {
+        self.desc.n_pixels = num_pixels;
+        self.desc.remaining_pixels = num_pixels;
+        self.failed = false;
     }
 }
 
-/*
-/// Compute the size of the tile from its row position inside the compressed data column
-/// FIXME: optimize this computation by using memoization
-pub(crate) fn tile_size_from_row_idx(
-    z_tile: &[usize],
-    z_naxis: &[usize],
-    n: usize,
-) -> Box<[usize]> {
-    let d = z_tile.len();
-
-    if d == 0 {
-        // There must be at least one dimension
-        unreachable!();
-    } else {
-        let mut u = vec![0_usize; z_tile.len()];
-
-        let s = z_naxis
-            .iter()
-            .zip(z_tile.iter())
-            .map(|(naxisi, tilei)| naxisi.div_ceil(*tilei))
-            .collect::<Vec<_>>();
-
-        // Compute the position inside the first dimension
-        u[0] = n % s[0];
-
-        for i in 1..d {
-            u[i] = n
-                - u[0]
-                - (1..i)
-                    .map(|k| {
-                        let prod_sk = s.iter().take(k).product::<usize>();
-                        u[k] * prod_sk
-                    })
-                    .sum::<usize>();
-
-            let prod_si = s.iter().take(i).product::<usize>();
-
-            u[i] = (u[i] / prod_si) % s[i];
+/// Compute the number of pixels of the tile from its row position inside the compressed data column
+///
+/// Tiles found on the border of the image can be smaller. Returns `None` if there is no such tile in the image
+fn tile_num_pixels(z_tile: &[usize], z_naxis: &[u64], n: usize) -> Option<u64> {
+    // Index of the tile in the remaining dimensions
+    let mut n = n as u64;
+    let mut num_pixels = 1_u64;
+
+    for (&tilei, &naxisi) in z_tile.iter().zip(z_naxis.iter()) {
+        let num_tiles = naxisi.div_ceil(tilei as u64);
+        if num_tiles == 0 {
+            return None;
         }
 
-        u.iter()
-            .zip(z_naxis.iter().zip(z_tile.iter()))
-            .map(|(&u_i, (&naxis, &tilez))| tilez.min(naxis - u_i * tilez))
-            .collect()
+        let u = n % num_tiles;
+        n /= num_tiles;
+
+        num_pixels = num_pixels.checked_mul((tilei as u64).min(naxisi - u * tilei as u64))?;
     }
+
+    // RICE counts the pixels with a i32
+    if n == 0 && num_pixels <= (i32::MAX / 4) as u64 {
+        Some(num_pixels)
+    } else {
+        None
+    }
+}
+
+/// Read the pixels of a tile in the buffer
+fn read_tile<D: Read>(decoder: &mut D, buf: &mut Vec<u8>, num_pixels: u64) -> Result<(), Error> {
+    let num_bytes = num_pixels as usize * std::mem::size_of::<u32>();
+
+    // The size of the tile is only known from the header: grow the buffer with what is really decoded
+    buf.clear();
+    while buf.len() < num_bytes {
+        let start = buf.len();
+        buf.resize(num_bytes.min(start + 0x10000), 0);
+        decoder.read_exact(&mut buf[start..])?;
+    }
+
+    Ok(())
+}
+
+/// Offset in the random values for the tile at a given row
+fn dither_offset(row_idx: usize, z_dither_0: i64) -> usize {
+    (row_idx as i64).wrapping_add(z_dither_0).rem_euclid(10000) as usize
 }
-    */
 
 use std::fmt::Debug;
 impl<R> Iterator for It<R, U8Keywords>
@@ -173,9 +194,9 @@ where
     fn next(&mut self) -> Option<Self::Item> {
         // We first retrieve the whole row from the row data iterator
         if self.desc.remaining_pixels == 0 {
-            let row_data = self.row_it.next()?;
+            let row_data = self.next_row()?;
 
-            let (_, byte_offset) = match row_data[self.data_compressed_idx] {
+            let (num_elems, byte_offset) = match row_data[self.data_compressed_idx] {
                 DataValue::VariableLengthArray32 {
                     num_elems,
                     offset_byte,
@@ -186,14 +207,16 @@ where
                 } => (num_elems, offset_byte),
                 _ => unreachable!(),
             };
+            if num_elems == 0 {
+                // The tile is not stored in that column
+                return None;
+            }
 
             let ctx = self.row_it.get_ctx();
             let row_idx = self.row_it.get_row_idx();
 
             // Update the tile compressed currently decompressed
-            let num_pixels = self.z_tile.iter().product::<usize>() as u64;
-            self.desc.n_pixels = num_pixels;
-            self.desc.remaining_pixels = num_pixels;
+            let num_pixels = tile_num_pixels(&self.z_tile, &self.z_naxis, row_idx - 1)?;
 
             // We jump to the heap at the position of the tile
             // Then we decomp the tile and store it into out internal buf
@@ -201,11 +224,11 @@ where
             let main_data_table_offset = row_idx * (ctx.naxis1 as usize);
             let off =
                 // go back to the beginning of the main table data block
-                - (main_data_table_offset as i64)
+                - (main_data_table_offset as i128)
                 // from the beginning of the main table go to the beginning of the heap
-                + ctx.theap as i64
+                + ctx.theap as i128
                 // from the beginning of the heap go to the start of the array
-                + byte_offset as i64;
+                + byte_offset as i128;
             self.jump_to_location(
                 |s| {
                     let It { buf, row_it, .. } = s;
@@ -216,7 +239,7 @@ where
                         // For GZIP2, the byte shuffling is done in the next method
                         ZCmpType::Gzip1 | ZCmpType::Gzip2 => {
                             let mut gz = GzDecoder::new(reader);
-                            gz.read_exact(&mut buf[..])?;
+                            read_tile(&mut gz, buf, num_pixels)?;
                         }
                         // FIXME support bytepix
                         ZCmpType::Rice { blocksize, .. } => {
@@ -225,7 +248,7 @@ where
                                 blocksize as i32,
                                 num_pixels as i32,
                             );
-                            rice.read_exact(&mut buf[..])?;
+                            read_tile(&mut rice, buf, num_pixels)?;
                         }
                         // Other compression not supported, when parsing the bintable extension keywords
                         // we ensured that z_image is `None` for other compressions than GZIP or RICE
@@ -234,21 +257,29 @@ where
 
                     Ok(())
                 },
-                SeekFrom::Current(off),
+                SeekFrom::Current(i64::try_from(off).ok()?),
             )
             .ok()?;
+
+            self.start_tile(num_pixels);
         }
 
         // There is remaining pixels inside our buffer, we simply return the current one
         let idx = (self.desc.n_pixels - self.desc.remaining_pixels) as usize;
 
         let value = match self.z_cmp_type {
-            ZCmpType::Gzip1 | ZCmpType::Gzip2 => {
+            ZCmpType::Gzip1 => {
                 // We need to get the byte index in the buffer storing u32, i.e. 4 bytes per elements
                 let off = 4 * idx;
                 // read from BigEndian, i.e. the most significant byte is at first and the least one is at last position
                 self.buf[off + 3]
             }
+            ZCmpType::Gzip2 => {
+                // The bytes are shuffled, the least significant ones come last
+                let num_bytes = self.buf.len();
+                let step_msb = num_bytes / 4;
+                self.buf[3 * step_msb + idx]
+            }
             ZCmpType::Rice { .. } => {
                 // We need to get the byte index in the buffer storing u32, i.e. 4 bytes per elements
                 let off = 4 * idx;
@@ -273,9 +304,9 @@ where
     fn next(&mut self) -> Option<Self::Item> {
         // We first retrieve the whole row from the row data iterator
         if self.desc.remaining_pixels == 0 {
-            let row_data = self.row_it.next()?;
+            let row_data = self.next_row()?;
 
-            let (_, byte_offset) = match row_data[self.data_compressed_idx] {
+            let (num_elems, byte_offset) = match row_data[self.data_compressed_idx] {
                 DataValue::VariableLengthArray32 {
                     num_elems,
                     offset_byte,
@@ -286,25 +317,27 @@ where
                 } => (num_elems, offset_byte),
                 _ => unreachable!(),
             };
+            if num_elems == 0 {
+                // The tile is not stored in that column
+                return None;
+            }
 
             let ctx = self.row_it.get_ctx();
             let row_idx = self.row_it.get_row_idx();
 
             // Update the tile compressed currently decompressed
-            let num_pixels = self.z_tile.iter().product::<usize>() as u64;
-            self.desc.n_pixels = num_pixels;
-            self.desc.remaining_pixels = num_pixels;
+            let num_pixels = tile_num_pixels(&self.z_tile, &self.z_naxis, row_idx - 1)?;
             // We jump to the heap at the position of the tile
             // Then we decomp the tile and store it into out internal buf
             // Finally we go back to the main data table location before jumping to the heap
             let main_data_table_offset = row_idx * (ctx.naxis1 as usize);
             let off =
                 // go back to the beginning of the main table data block
-                - (main_data_table_offset as i64)
+                - (main_data_table_offset as i128)
                 // from the beginning of the main table go to the beginning of the heap
-                + ctx.theap as i64
+                + ctx.theap as i128
                 // from the beginning of the heap go to the start of the array
-                + byte_offset as i64;
+                + byte_offset as i128;
             self.jump_to_location(
                 |s| {
                     let It { buf, row_it, .. } = s;
@@ -315,7 +348,7 @@ where
                         // For GZIP2, the byte shuffling is done in the next method
                         ZCmpType::Gzip1 | ZCmpType::Gzip2 => {
                             let mut gz = GzDecoder::new(reader);
-                            gz.read_exact(&mut buf[..])?;
+                            read_tile(&mut gz, buf, num_pixels)?;
                         }
                         // FIXME support bytepix
                         ZCmpType::Rice { blocksize, .. } => {
@@ -324,7 +357,7 @@ where
                                 blocksize as i32,
                                 num_pixels as i32,
                             );
-                            rice.read_exact(&mut buf[..])?;
+                            read_tile(&mut rice, buf, num_pixels)?;
                         }
                         // Other compression not supported, when parsing the bintable extension keywords
                         // we ensured that z_image is `None` for other compressions than GZIP or RICE
@@ -333,9 +366,11 @@ where
 
                     Ok(())
                 },
-                SeekFrom::Current(off),
+                SeekFrom::Current(i64::try_from(off).ok()?),
             )
             .ok()?;
+
+            self.start_tile(num_pixels);
         }
 
         // There is remaining pixels inside our buffer, we simply return the current one
@@ -379,9 +414,9 @@ where
     fn next(&mut self) -> Option<Self::Item> {
         // We first retrieve the whole row from the row data iterator
         if self.desc.remaining_pixels == 0 {
-            let row_data = self.row_it.next()?;
+            let row_data = self.next_row()?;
 
-            let (_, byte_offset) = match row_data[self.data_compressed_idx] {
+            let (num_elems, byte_offset) = match row_data[self.data_compressed_idx] {
                 DataValue::VariableLengthArray32 {
                     num_elems,
                     offset_byte,
@@ -392,25 +427,27 @@ where
                 } => (num_elems, offset_byte),
                 _ => unreachable!(),
             };
+            if num_elems == 0 {
+                // The tile is not stored in that column
+                return None;
+            }
 
             let ctx = self.row_it.get_ctx();
             let row_idx = self.row_it.get_row_idx();
 
             // Update the tile compressed currently decompressed
-            let num_pixels = self.z_tile.iter().product::<usize>() as u64;
-            self.desc.n_pixels = num_pixels;
-            self.desc.remaining_pixels = num_pixels;
+            let num_pixels = tile_num_pixels(&self.z_tile, &self.z_naxis, row_idx - 1)?;
             // We jump to the heap at the position of the tile
             // Then we decomp the tile and store it into out internal buf
             // Finally we go back to the main data table location before jumping to the heap
             let main_data_table_offset = row_idx * (ctx.naxis1 as usize);
             let off =
                 // go back to the beginning of the main table data block
-                - (main_data_table_offset as i64)
+                - (main_data_table_offset as i128)
                 // from the beginning of the main table go to the beginning of the heap
-                + ctx.theap as i64
+                + ctx.theap as i128
                 // from the beginning of the heap go to the start of the array
-                + byte_offset as i64;
+                + byte_offset as i128;
             self.jump_to_location(
                 |s| {
                     let It { buf, row_it, .. } = s;
@@ -421,7 +458,7 @@ where
                         // For GZIP2, the byte shuffling is done in the next method
                         ZCmpType::Gzip1 | ZCmpType::Gzip2 => {
                             let mut gz = GzDecoder::new(reader);
-                            gz.read_exact(&mut buf[..])?;
+                            read_tile(&mut gz, buf, num_pixels)?;
                         }
                         // FIXME support bytepix
                         ZCmpType::Rice { blocksize, .. } => {
@@ -430,7 +467,7 @@ where
                                 blocksize as i32,
                                 num_pixels as i32,
                             );
-                            rice.read_exact(&mut buf[..])?;
+                            read_tile(&mut rice, buf, num_pixels)?;
                         }
                         // Other compression not supported, when parsing the bintable extension keywords
                         // we ensured that z_image is `None` for other compressions than GZIP or RICE
@@ -439,9 +476,11 @@ where
 
                     Ok(())
                 },
-                SeekFrom::Current(off),
+                SeekFrom::Current(i64::try_from(off).ok()?),
             )
             .ok()?;
+
+            self.start_tile(num_pixels);
         }
 
         // There is remaining pixels inside our buffer, we simply return the current one
@@ -497,9 +536,9 @@ where
     fn next(&mut self) -> Option<Self::Item> {
         // We first retrieve the whole row from the row data iterator
         if self.desc.remaining_pixels == 0 {
-            let row_data = self.row_it.next()?;
+            let row_data = self.next_row()?;
 
-            let (_, byte_offset) = match row_data[self.data_compressed_idx] {
+            let (num_elems, byte_offset) = match row_data[self.data_compressed_idx] {
                 DataValue::VariableLengthArray32 {
                     num_elems,
                     offset_byte,
@@ -510,14 +549,16 @@ where
                 } => (num_elems, offset_byte),
                 _ => unreachable!(),
             };
+            if num_elems == 0 {
+                // The tile is not stored in that column
+                return None;
+            }
 
             let ctx = self.row_it.get_ctx();
             let row_idx = self.row_it.get_row_idx();
 
             // Update the tile compressed currently decompressed
-            let num_pixels = self.z_tile.iter().product::<usize>() as u64;
-            self.desc.n_pixels = num_pixels;
-            self.desc.remaining_pixels = num_pixels;
+            let num_pixels = tile_num_pixels(&self.z_tile, &self.z_naxis, row_idx - 1)?;
 
             let TileDesc {
                 keywords:
@@ -537,36 +578,40 @@ where
 
             *quantiz = match z_quantiz {
                 ZQuantiz::SubtractiveDither1 => {
-                    let i0 = (row_idx - 1 + ((*z_dither_0) as usize)) % 10000;
+                    let i0 = dither_offset(row_idx - 1, *z_dither_0);
                     let i1 = (RAND_VALUES[i0] * 500.0).floor() as usize;
                     Quantiz::SubtractiveDither1 { i1 }
                 }
                 ZQuantiz::SubtractiveDither2 => {
-                    let i0 = (row_idx - 1 + (*z_dither_0 as usize)) % 10000;
+                    let i0 = dither_offset(row_idx - 1, *z_dither_0);
                     let i1 = (RAND_VALUES[i0] * 500.0).floor() as usize;
                     Quantiz::SubtractiveDither2 { i1 }
                 }
                 _ => Quantiz::NoDither,
             };
 
-            *scale = match row_data[*z_scale_idx] {
-                DataValue::Float { value, .. } => value,
-                DataValue::Double { value, .. } => value as f32,
-                _ => unreachable!(),
-            };
+            if let Some(idx) = z_scale_idx {
+                *scale = match row_data[*idx] {
+                    DataValue::Float { value, .. } => value,
+                    DataValue::Double { value, .. } => value as f32,
+                    _ => unreachable!(),
+                };
+            }
 
-            *zero = match row_data[*z_zero_idx] {
-                DataValue::Float { value, .. } => value,
-                DataValue::Double { value, .. } => value as f32,
-                _ => unreachable!(),
-            };
+            if let Some(idx) = z_zero_idx {
+                *zero = match row_data[*idx] {
+                    DataValue::Float { value, .. } => value,
+                    DataValue::Double { value, .. } => value as f32,
+                    _ => unreachable!(),
+                };
+            }
 
             if let Some(idx) = z_blank_idx {
                 *z_blank = match row_data[*idx] {
                     DataValue::UnsignedByte { value, .. } => Some(value as i32),
                     DataValue::Short { value, .. } => Some(value as i32),
                     DataValue::Integer { value, .. } => Some(value),
-                    DataValue::Long { value, .. } => Some(value as i32),
+                    DataValue::Long { value, .. } => i32::try_from(value).ok(),
                     _ => unreachable!(),
                 }
             }
@@ -577,11 +622,11 @@ where
             let main_data_table_offset = row_idx * (ctx.naxis1 as usize);
             let off =
                 // go back to the beginning of the main table data block
-                - (main_data_table_offset as i64)
+                - (main_data_table_offset as i128)
                 // from the beginning of the main table go to the beginning of the heap
-                + ctx.theap as i64
+                + ctx.theap as i128
                 // from the beginning of the heap go to the start of the array
-                + byte_offset as i64;
+                + byte_offset as i128;
             self.jump_to_location(
                 |s| {
                     let It { buf, row_it, .. } = s;
@@ -592,7 +637,7 @@ where
                         // For GZIP2, the byte shuffling is done in the next method
                         ZCmpType::Gzip1 | ZCmpType::Gzip2 => {
                             let mut gz = GzDecoder::new(reader);
-                            gz.read_exact(&mut buf[..])?;
+                            read_tile(&mut gz, buf, num_pixels)?;
                         }
                         // FIXME support bytepix
                         ZCmpType::Rice { blocksize, .. } => {
@@ -601,7 +646,7 @@ where
                                 blocksize as i32,
                                 num_pixels as i32,
                             );
-                            rice.read_exact(&mut buf[..])?;
+                            read_tile(&mut rice, buf, num_pixels)?;
                         }
                         // Other compression not supported, when parsing the bintable extension keywords
                         // we ensured that z_image is `None` for other compressions than GZIP or RICE
@@ -610,9 +655,11 @@ where
 
                     Ok(())
                 },
-                SeekFrom::Current(off),
+                SeekFrom::Current(i64::try_from(off).ok()?),
             )
             .ok()?;
+
+            self.start_tile(num_pixels);
         }
 
         // There is remaining pixels inside our buffer, we simply return the current one
@@ -675,9 +722,9 @@ where
     fn next(&mut self) -> Option<Self::Item> {
         // We first retrieve the whole row from the row data iterator
         if self.desc.remaining_pixels == 0 {
-            let row_data = self.row_it.next()?;
+            let row_data = self.next_row()?;
 
-            let (_, byte_offset) = match row_data[self.data_compressed_idx] {
+            let (num_elems, byte_offset) = match row_data[self.data_compressed_idx] {
                 DataValue::VariableLengthArray32 {
                     num_elems,
                     offset_byte,
@@ -688,14 +735,16 @@ where
                 } => (num_elems, offset_byte),
                 _ => unreachable!(),
             };
+            if num_elems == 0 {
+                // The tile is not stored in that column
+                return None;
+            }
 
             let ctx = self.row_it.get_ctx();
             let row_idx = self.row_it.get_row_idx();
 
             // Update the tile compressed currently decompressed
-            let num_pixels = self.z_tile.iter().product::<usize>() as u64;
-            self.desc.n_pixels = num_pixels;
-            self.desc.remaining_pixels = num_pixels;
+            let num_pixels = tile_num_pixels(&self.z_tile, &self.z_naxis, row_idx - 1)?;
 
             let TileDesc {
                 keywords:
@@ -715,36 +764,40 @@ where
 
             *quantiz = match z_quantiz {
                 ZQuantiz::SubtractiveDither1 => {
-                    let i0 = (row_idx - 1 + ((*z_dither_0) as usize)) % 10000;
+                    let i0 = dither_offset(row_idx - 1, *z_dither_0);
                     let i1 = (RAND_VALUES[i0] * 500.0).floor() as usize;
                     Quantiz::SubtractiveDither1 { i1 }
                 }
                 ZQuantiz::SubtractiveDither2 => {
-                    let i0 = (row_idx - 1 + (*z_dither_0 as usize)) % 10000;
+                    let i0 = dither_offset(row_idx - 1, *z_dither_0);
                     let i1 = (RAND_VALUES[i0] * 500.0).floor() as usize;
                     Quantiz::SubtractiveDither2 { i1 }
                 }
                 _ => Quantiz::NoDither,
             };
 
-            *scale = match row_data[*z_scale_idx] {
-                DataValue::Float { value, .. } => value,
-                DataValue::Double { value, .. } => value as f32,
-                _ => unreachable!(),
-            };
+            if let Some(idx) = z_scale_idx {
+                *scale = match row_data[*idx] {
+                    DataValue::Float { value, .. } => value,
+                    DataValue::Double { value, .. } => value as f32,
+                    _ => unreachable!(),
+                };
+            }
 
-            *zero = match row_data[*z_zero_idx] {
-                DataValue::Float { value, .. } => value,
-                DataValue::Double { value, .. } => value as f32,
-                _ => unreachable!(),
-            };
+            if let Some(idx) = z_zero_idx {
+                *zero = match row_data[*idx] {
+                    DataValue::Float { value, .. } => value,
+                    DataValue::Double { value, .. } => value as f32,
+                    _ => unreachable!(),
+                };
+            }
 
             if let Some(idx) = z_blank_idx {
                 *z_blank = match row_data[*idx] {
                     DataValue::UnsignedByte { value, .. } => Some(value as i32),
                     DataValue::Short { value, .. } => Some(value as i32),
                     DataValue::Integer { value, .. } => Some(value),
-                    DataValue::Long { value, .. } => Some(value as i32),
+                    DataValue::Long { value, .. } => i32::try_from(value).ok(),
                     _ => unreachable!(),
                 }
             }
@@ -755,11 +808,11 @@ where
             let main_data_table_offset = row_idx * (ctx.naxis1 as usize);
             let off =
                 // go back to the beginning of the main table data block
-                - (main_data_table_offset as i64)
+                - (main_data_table_offset as i128)
                 // from the beginning of the main table go to the beginning of the heap
-                + ctx.theap as i64
+                + ctx.theap as i128
                 // from the beginning of the heap go to the start of the array
-                + byte_offset as i64;
+                + byte_offset as i128;
             self.jump_to_location(
                 |s| {
                     let It { buf, row_it, .. } = s;
@@ -770,7 +823,7 @@ where
                         // For GZIP2, the byte shuffling is done in the next method
                         ZCmpType::Gzip1 | ZCmpType::Gzip2 => {
                             let mut gz = GzDecoder::new(reader);
-                            gz.read_exact(&mut buf[..])?;
+                            read_tile(&mut gz, buf, num_pixels)?;
                         }
                         // FIXME support bytepix
                         ZCmpType::Rice { blocksize, .. } => {
@@ -779,7 +832,7 @@ where
                                 blocksize as i32,
                                 num_pixels as i32,
                             );
-                            rice.read_exact(&mut buf[..])?;
+                            read_tile(&mut rice, buf, num_pixels)?;
                         }
                         // Other compression not supported, when parsing the bintable extension keywords
                         // we ensured that z_image is `None` for other compressions than GZIP or RICE
@@ -788,9 +841,11 @@ where
 
                     Ok(())
                 },
-                SeekFrom::Current(off),
+                SeekFrom::Current(i64::try_from(off).ok()?),
             )
             .ok()?;
+
+            self.start_tile(num_pixels);
         }
 
         // There is remaining pixels inside our buffer, we simply return the current one
diff --git a/src/hdu/data/bintable/tile_compressed/rice.rs b/src/hdu/data/bintable/tile_compressed/rice.rs
index 278635f..d15c1e5 100644
--- a/src/hdu/data/bintable/tile_compressed/rice.rs
+++ b/src/hdu/data/bintable/tile_compressed/rice.rs
@@ -241,6 +241,15 @@ where
                             i,
                             lastpix,
                         }
+                    } else {
+                        // The buf has been filled in the middle of the block
+                        self.state = RICEState::LowEntropyDecoding {
+                            b,
+                            nbits,
+                            i,
+                            lastpix,
+                            imax,
+                        }
                     }
 
                     // The buf has been filled
@@ -302,6 +311,15 @@ where
                             i,
                             lastpix,
                         }
+                    } else {
+                        // The buf has been filled in the middle of the block
+                        self.state = RICEState::HighEntropyDecoding {
+                            nbits,
+                            b,
+                            i,
+                            lastpix,
+                            imax,
+                        }
                     }
 
                     // The buf has been filled
@@ -359,6 +377,16 @@ where
                             i,
                             lastpix,
                         }
+                    } else {
+                        // The buf has been filled in the middle of the block
+                        self.state = RICEState::RICEDecoding {
+                            nbits,
+                            b,
+                            i,
+                            lastpix,
+                            fs,
+                            imax,
+                        }
                     }
 
                     // The buf has been filled
diff --git a/src/hdu/header/extension/bintable.rs b/src/hdu/header/extension/bintable.rs
index 289c5ba..96ab074 100644
--- a/src/hdu/header/extension/bintable.rs
+++ b/src/hdu/header/extension/bintable.rs
@@ -90,6 +90,21 @@ impl BinTable {
         find_field_by_ttype(&self.ttypes, ttype)
     }
 
+    /// Index, among the items of a row, of the first one of a field. Variable length arrays count for one item,
+    /// i.e. their descriptor
+    pub(crate) fn item_idx(&self, field_idx: usize) -> usize {
+        self.tforms[..field_idx]
+            .iter()
+            .map(|tform| tform.num_items())
+            .sum()
+    }
+
+    /// Returns the index, among the items of a row, of the first one of a field given by its name
+    pub(crate) fn find_item_by_ttype(&self, ttype: &str) -> Option<usize> {
+        self.find_field_by_ttype(ttype)
+            .map(|field_idx| self.item_idx(field_idx))
+    }
+
     pub fn get_z_image(&self) -> &Option<TileCompressedImage> {
         &self.z_image
     }
@@ -140,6 +155,47 @@ pub struct TileCompressedImage {
     pub(crate) data_compressed_idx: usize,
 }
 
+impl TileCompressedImage {
+    /// Check that the tiles can be read from the columns of the table
+    fn is_supported(
+        &self,
+        values: &ValueMap,
+        tforms: &[TFormType],
+        ttypes: &[Option<String>],
+    ) -> bool {
+        let tform = |ttype| find_field_by_ttype(ttypes, ttype).map(|idx| &tforms[idx]);
+
+        let is_array = matches!(
+            tforms[self.data_compressed_idx],
+            TFormType::P { .. } | TFormType::Q { .. }
+        );
+        let are_tiles = self.z_tilen.iter().all(|&tilen| tilen > 0);
+
+        // Quantization keywords of the floating point images
+        let is_float = |ttype| match tform(ttype) {
+            Some(TFormType::E { repeat_count }) | Some(TFormType::D { repeat_count }) => {
+                *repeat_count > 0
+            }
+            Some(_) => false,
+            None => values.get_parsed::<f32>(ttype).is_ok(),
+        };
+        let is_blank = match tform("ZBLANK") {
+            Some(TFormType::B { repeat_count })
+            | Some(TFormType::I { repeat_count })
+            | Some(TFormType::J { repeat_count })
+            | Some(TFormType::K { repeat_count }) => *repeat_count > 0,
+            Some(_) => false,
+            None => true,
+        };
+        let is_quantized = match self.z_bitpix {
+            Bitpix::F32 | Bitpix::F64 => is_float("ZSCALE") && is_float("ZZERO") && is_blank,
+            _ => true,
+        };
+
+        is_array && are_tiles && is_quantized
+    }
+}
+
 #[derive(Debug, PartialEq, Serialize, Deserialize, Clone)]
 pub(crate) enum ZQuantiz {
     #[serde(rename = "NO_DITHER")]
@@ -507,6 +563,10 @@ impl Xtension for BinTable {
                     warn!("Only bitpix u8, i16, i32, f32, f64 are supported");
                     None
                 }
+                _ if !tile_compressed.is_supported(values, &tforms, &ttypes) => {
+                    warn!("Tile compressed image keywords or columns not valid. Discarded");
+                    None
+                }
                 _ => Some(tile_compressed),
             }
         } else {
@@ -792,6 +852,24 @@ impl TFormType {
             TFormType::Q { .. } => Q::BYTES_SIZE, // Array Descriptor (64-bit)
         }
     }
+
+    /// Number of items stored in a row for that field
+    pub(crate) fn num_items(&self) -> usize {
+        match self {
+            TFormType::X { repeat_count } => repeat_count.div_ceil(8), // bits are read by bytes
+            TFormType::L { repeat_count }
+            | TFormType::B { repeat_count }
+            | TFormType::I { repeat_count }
+            | TFormType::J { repeat_count }
+            | TFormType::K { repeat_count }
+            | TFormType::A { repeat_count }
+            | TFormType::E { repeat_count }
+            | TFormType::D { repeat_count }
+            | TFormType::C { repeat_count }
+            | TFormType::M { repeat_count } => *repeat_count,
+            TFormType::P { .. } | TFormType::Q { .. } => 1,
+        }
+    }
 }
 
 #[cfg(test)]
-- 
2.43.0


From a29211076ec81c6c0b0a03e5a42943684fae960b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:22 +0000
Subject: [PATCH 14/18] fix: stop reading values once the reader failed instead
 of misplacing them

---
 src/hdu/data/bintable/data.rs | 42 ++++++++++++++++++++++++++++-------
 src/hdu/data/bintable/row.rs  |  4 ++--
 src/hdu/data/image.rs         | 12 +++++-----
 src/hdu/data/iter.rs          | 31 +++++++++++++++++++++++---
 4 files changed, 70 insertions(+), 19 deletions(-)

diff --git a/src/hdu/data/bintable/data.rs b/src/hdu/data/bintable/data.rs
index f84b34a..ade5302 100644
--- a/src/hdu/data/bintable/data.rs
+++ b/src/hdu/data/bintable/data.rs
@@ -150,6 +150,8 @@ pub struct TableData<R> {
     start_pos: u64,
     /// Seek to first col
     seek_to_first_col: bool,
+    /// Set once there is nothing more to read or the reader failed
+    failed: bool,
 
     /// current row index, is read from the row iterator
     pub(crate) row_idx: usize,
@@ -234,6 +236,7 @@ impl<R> TableData<R> {
             cols_idx,
             col_byte_offsets,
             seek_to_first_col: false,
+            failed: false,
             byte_offset,
             main_data_table_byte_size,
             start_pos,
@@ -346,6 +349,7 @@ where
 
         self.byte_offset = byte_offset;
         self.seek_to_first_col = false;
+        self.failed = false;
 
         Ok(())
     }
@@ -361,6 +365,7 @@ where
             ))
         } else {
             self.row_idx = idx;
+            self.seek_to_first_col = true;
             self.seek_to_first_col()
         }
     }
@@ -461,9 +466,11 @@ where
 
     fn next(&mut self) -> Option<Self::Item> {
         // Skip the cells that contain no element
-        while !self.enter_cell()? {}
-
-        self.read_elem()
+        loop {
+            if let Some(elem) = self.next_elem()? {
+                return Some(elem);
+            }
+        }
     }
 }
 
@@ -471,16 +478,35 @@ impl<R> TableData<R>
 where
     R: Read + Seek + Debug,
 {
-    /// Prepare the reading of the next element of the table, jumping to the heap if necessary
+    /// Read the next element of the table
     ///
-    /// Returns `None` if there is no more element to read, `Some(false)` if the current cell is an empty variable
-    /// length array: it is then skipped.
-    pub(crate) fn enter_cell(&mut self) -> Option<bool> {
+    /// Returns `None` if there is no more element to read or once the reader failed, because it may then be anywhere,
+    /// `Some(None)` if the current cell is an empty variable length array.
+    pub(crate) fn next_elem(&mut self) -> Option<Option<DataValue>> {
         // a select fields has been done, we must go to the first col
         if self.seek_to_first_col {
             self.seek_to_first_col().ok()?;
         }
 
+        if self.failed {
+            return None;
+        }
+
+        let elem = match self.enter_cell() {
+            Some(true) => self.read_elem().map(Some),
+            Some(false) => Some(None),
+            None => None,
+        };
+        self.failed = elem.is_none();
+
+        elem
+    }
+
+    /// Prepare the reading of the next element of the table, jumping to the heap if necessary
+    ///
+    /// Returns `None` if there is no more element to read, `Some(false)` if the current cell is an empty variable
+    /// length array: it is then skipped.
+    fn enter_cell(&mut self) -> Option<bool> {
         if let DataReaderState::HEAP { .. } = self.state {
             return Some(true);
         }
@@ -536,7 +562,7 @@ where
     }
 
     /// Read one element from the cell entered
-    pub(crate) fn read_elem(&mut self) -> Option<DataValue> {
+    fn read_elem(&mut self) -> Option<DataValue> {
         // First get the column index in the main data table where the reader is
         let col_idx = self.cols_idx[self.col_idx];
 
diff --git a/src/hdu/data/bintable/row.rs b/src/hdu/data/bintable/row.rs
index a25d6d1..400b180 100644
--- a/src/hdu/data/bintable/row.rs
+++ b/src/hdu/data/bintable/row.rs
@@ -53,8 +53,8 @@ where
 
         while self.data.row_idx == self.idx_row {
             // empty variable length arrays have no value to give
-            if self.data.enter_cell()? {
-                row_data.push(self.data.read_elem()?);
+            if let Some(elem) = self.data.next_elem()? {
+                row_data.push(elem);
             }
         }
 
diff --git a/src/hdu/data/image.rs b/src/hdu/data/image.rs
index 3045c88..8f0b491 100644
--- a/src/hdu/data/image.rs
+++ b/src/hdu/data/image.rs
@@ -57,12 +57,12 @@ where
         let limit = ctx.get_num_bytes_data_block();
 
         let pixels = match ctx.get_bitpix() {
-            Bitpix::U8 => Pixels::U8(It::new(reader, limit)),
-            Bitpix::I16 => Pixels::I16(It::new(reader, limit)),
-            Bitpix::I32 => Pixels::I32(It::new(reader, limit)),
-            Bitpix::I64 => Pixels::I64(It::new(reader, limit)),
-            Bitpix::F32 => Pixels::F32(It::new(reader, limit)),
-            Bitpix::F64 => Pixels::F64(It::new(reader, limit)),
+            Bitpix::U8 => Pixels::U8(It::with_start_pos(reader, limit, start_pos)),
+            Bitpix::I16 => Pixels::I16(It::with_start_pos(reader, limit, start_pos)),
+            Bitpix::I32 => Pixels::I32(It::with_start_pos(reader, limit, start_pos)),
+            Bitpix::I64 => Pixels::I64(It::with_start_pos(reader, limit, start_pos)),
+            Bitpix::F32 => Pixels::F32(It::with_start_pos(reader, limit, start_pos)),
+            Bitpix::F64 => Pixels::F64(It::with_start_pos(reader, limit, start_pos)),
         };
 
         Self {
diff --git a/src/hdu/data/iter.rs b/src/hdu/data/iter.rs
index ccea367..b5b3750 100644
--- a/src/hdu/data/iter.rs
+++ b/src/hdu/data/iter.rs
@@ -53,6 +53,10 @@ pub struct It<R, T> {
     num_items: usize,
     /// Number of item read
     cur_idx: usize,
+    /// Byte position of the first item in the reader, if known
+    start_pos: Option<u64>,
+    /// Set once the reader failed, its position is then unknown
+    failed: bool,
     /// The type of element read from the reader
     _t: std::marker::PhantomData<T>,
 }
@@ -99,9 +103,19 @@ where
             reader,
             cur_idx: 0,
             num_items,
+            start_pos: None,
+            failed: false,
             _t: std::marker::PhantomData,
         }
     }
+
+    /// Same as [It::new] knowing where the first item is in the reader
+    pub(crate) fn with_start_pos(reader: R, limit: u64, start_pos: u64) -> Self {
+        Self {
+            start_pos: Some(start_pos),
+            ..Self::new(reader, limit)
+        }
+    }
 }
 
 impl<R, T> Iterator for It<R, T>
@@ -112,10 +126,11 @@ where
     type Item = T;
 
     fn next(&mut self) -> Option<Self::Item> {
-        if self.cur_idx == self.num_items {
+        if self.cur_idx == self.num_items || self.failed {
             None
         } else {
             let byte = T::read_be(&mut self.reader);
+            self.failed = byte.is_err();
             self.cur_idx += 1;
 
             byte.ok()
@@ -123,7 +138,7 @@ where
     }
 }
 
-use std::io::Seek;
+use std::io::{Seek, SeekFrom};
 impl<R, T> It<R, T>
 where
     R: Read + Seek,
@@ -142,7 +157,17 @@ where
             let t_bytes = std::mem::size_of::<T>() as i64;
             let off = (idx as i64 - self.cur_idx as i64) * t_bytes;
 
-            self.reader.seek_relative(off)?;
+            if self.failed {
+                let pos = self
+                    .start_pos
+                    .and_then(|start_pos| start_pos.checked_add(idx as u64 * t_bytes as u64))
+                    .ok_or(Error::StaticError("Value to retrieve is out of reach"))?;
+                self.reader.seek(SeekFrom::Start(pos))?;
+            } else {
+                self.failed = true;
+                self.reader.seek_relative(off)?;
+            }
+            self.failed = false;
             self.cur_idx = idx;
 
             self.next()
-- 
2.43.0


From 21c641c555bcdd931d61ec2d08333a4fdb246502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:00:14 +0000
Subject: [PATCH 15/18] fix: keep the state of the asynchronous reading when
 the reader is not ready

---
 src/async_fits.rs      | 126 +++++++++++++++++++++++++----------------
 src/hdu/data/image.rs  |   2 +-
 src/hdu/data/stream.rs |  83 +++++++++++++++++----------
 src/hdu/mod.rs         |  21 +++----
 4 files changed, 141 insertions(+), 91 deletions(-)

diff --git a/src/async_fits.rs b/src/async_fits.rs
index 4b6d036..ba40f35 100644
--- a/src/async_fits.rs
+++ b/src/async_fits.rs
@@ -8,7 +8,7 @@ use crate::hdu::header::extension::bintable::BinTable;
 use crate::hdu::header::extension::image::Image;
 use crate::hdu::header::extension::Xtension;
 use crate::hdu::header::Header;
-use futures::{Future, Stream};
+use futures::{ready, FutureExt, Stream};
 use serde::Serialize;
 use std::fmt::Debug;
 
@@ -25,6 +25,8 @@ pub struct AsyncFits<R> {
     num_bytes_in_cur_hdu: usize,
     // If an error has been encountered, the HDU iterator ends
     error_parsing_encountered: bool,
+    // Bytes of the header of the next HDU read so far
+    header: Vec<u8>,
     reader: R,
 }
 
@@ -39,12 +41,12 @@ impl<R> AsyncFits<R> {
             num_remaining_bytes_in_cur_hdu: 0,
             num_bytes_in_cur_hdu: 0,
             error_parsing_encountered: false,
+            header: vec![],
             start: true,
         }
     }
 }
 
-use futures::AsyncBufReadExt;
 impl<'a, R> AsyncFits<R>
 where
     R: AsyncDataBufRead<'a, Image>
@@ -53,41 +55,69 @@ where
         + 'a,
 {
     /// Returns a boolean to know if we are at EOF
-    async fn consume_until_next_hdu(&mut self) -> Result<bool, Error> {
+    ///
+    /// What has been consumed is kept track of so that polling again goes on from there
+    fn poll_until_next_hdu(&mut self, cx: &mut Context<'_>) -> Poll<Result<bool, Error>> {
         // 1. Check if there are still bytes to be read to get to the end of data
-        if self.num_remaining_bytes_in_cur_hdu > 0 {
-            // Then read them
-            <R as AsyncDataBufRead<'_, Image>>::read_n_bytes_exact(
-                &mut self.reader,
-                self.num_remaining_bytes_in_cur_hdu as u64,
-            )
-            .await?;
+        while self.num_remaining_bytes_in_cur_hdu > 0 {
+            let num_bytes = ready!(Pin::new(&mut self.reader).poll_fill_buf(cx))?.len();
+            if num_bytes == 0 {
+                return Poll::Ready(Err(Error::StaticError("The file has reached EOF")));
+            }
+
+            let num_bytes = num_bytes.min(self.num_remaining_bytes_in_cur_hdu);
+            Pin::new(&mut self.reader).consume(num_bytes);
+            self.num_remaining_bytes_in_cur_hdu -= num_bytes;
         }
 
         // 2. We are at the end of the real data. As FITS standard stores data in block of 2880 bytes
         // we must read until the next block of data to get the location of the next HDU
-
-        let is_remaining_bytes = !self.num_bytes_in_cur_hdu.is_multiple_of(2880);
-        // Skip the remaining bytes to set the reader where a new HDU begins
-        if is_remaining_bytes {
-            let mut block_mem_buf: [u8; 2880] = [0; 2880];
-
-            let num_off_bytes = 2880 - (self.num_bytes_in_cur_hdu % 2880);
-            match self
-                .reader
-                .read_exact(&mut block_mem_buf[..num_off_bytes])
-                .await
-            {
-                // An error like unexpected EOF is not permitted by the standard but we make it pass
+        while !self.num_bytes_in_cur_hdu.is_multiple_of(2880) {
+            let num_bytes = ready!(Pin::new(&mut self.reader).poll_fill_buf(cx))?.len();
+            if num_bytes == 0 {
+                // An EOF is not permitted by the standard but we make it pass
                 // interpreting it as the last HDU in the file
-                Err(ref e) if e.kind() == std::io::ErrorKind::UnexpectedEof => return Ok(true),
-                Err(e) => return Err(e.into()),
-                Ok(()) => {}
+                return Poll::Ready(Ok(true));
             }
+
+            let num_off_bytes = 2880 - (self.num_bytes_in_cur_hdu % 2880);
+            let num_bytes = num_bytes.min(num_off_bytes);
+            Pin::new(&mut self.reader).consume(num_bytes);
+            self.num_bytes_in_cur_hdu += num_bytes;
         }
 
-        let eof = self.reader.fill_buf().await?.is_empty();
-        Ok(eof)
+        if self.header.is_empty() {
+            let eof = ready!(Pin::new(&mut self.reader).poll_fill_buf(cx))?.is_empty();
+            Poll::Ready(Ok(eof))
+        } else {
+            // the header of the next HDU is being read
+            Poll::Ready(Ok(false))
+        }
+    }
+
+    /// Read the blocks of the header of the next HDU, until the one containing the END card or EOF
+    fn poll_header(&mut self, cx: &mut Context<'_>) -> Poll<Result<(), Error>> {
+        loop {
+            let num_off_bytes = 2880 - (self.header.len() % 2880);
+            if num_off_bytes == 2880 {
+                let last_block = self.header.chunks(2880).last().unwrap_or(&[]);
+                if last_block
+                    .chunks(80)
+                    .any(|card| card[..8].trim_ascii() == b"END")
+                {
+                    return Poll::Ready(Ok(()));
+                }
+            }
+
+            let buf = ready!(Pin::new(&mut self.reader).poll_fill_buf(cx))?;
+            if buf.is_empty() {
+                return Poll::Ready(Ok(()));
+            }
+
+            let num_bytes = buf.len().min(num_off_bytes);
+            self.header.extend_from_slice(&buf[..num_bytes]);
+            Pin::new(&mut self.reader).consume(num_bytes);
+        }
     }
 
     pub fn get_data<X>(&'a mut self, hdu: &AsyncHDU<X>) -> <R as AsyncDataBufRead<'a, X>>::Data
@@ -131,23 +161,17 @@ where
             let hdu = if !self.start {
                 // We must consume the bytes until the next header is found
                 // if eof then the iterator finishes
-                let consume_tokens_until_next_hdu = self.consume_until_next_hdu();
-                let eof = match std::pin::pin!(consume_tokens_until_next_hdu).poll(cx) {
-                    Poll::Pending => return Poll::Pending,
-                    // The future finished returning the eof information
-                    Poll::Ready(r) => r,
-                };
-
-                match eof {
+                match ready!(self.poll_until_next_hdu(cx)) {
                     Ok(eof) => {
                         if !eof {
                             // parse the extension HDU
-                            let r = &mut self.reader;
-                            let parse_x_hdu = hdu::AsyncHDU::new_xtension(r);
-                            match std::pin::pin!(parse_x_hdu).poll(cx) {
-                                Poll::Pending => return Poll::Pending,
-                                // the future finished, returning the parsed hdu or the error while parsing it
-                                Poll::Ready(r) => Some(r),
+                            match ready!(self.poll_header(cx)) {
+                                Ok(()) => {
+                                    let header = std::mem::take(&mut self.header);
+                                    // the header is in memory, it is parsed at once, returning the hdu or the error while parsing it
+                                    hdu::AsyncHDU::new_xtension(&mut &header[..]).now_or_never()
+                                }
+                                Err(e) => Some(Err(e)),
                             }
                         } else {
                             None
@@ -157,11 +181,13 @@ where
                 }
             } else {
                 // parse the primary HDU
-                let parse_first_hdu = hdu::AsyncHDU::new_primary(&mut self.reader);
-                match std::pin::pin!(parse_first_hdu).poll(cx) {
-                    Poll::Pending => return Poll::Pending,
-                    // the future finished, returning the parsed hdu or the error while parsing it
-                    Poll::Ready(r) => Some(r),
+                match ready!(self.poll_header(cx)) {
+                    Ok(()) => {
+                        let header = std::mem::take(&mut self.header);
+                        // the header is in memory, it is parsed at once, returning the hdu or the error while parsing it
+                        hdu::AsyncHDU::new_primary(&mut &header[..]).now_or_never()
+                    }
+                    Err(e) => Some(Err(e)),
                 }
             };
 
@@ -209,18 +235,18 @@ where
     header: Header<X>,
 }
 
-use futures::AsyncReadExt;
+use futures::{AsyncRead, AsyncReadExt};
 impl<X> AsyncHDU<X>
 where
     X: Xtension + std::fmt::Debug,
 {
-    pub async fn new<'a, R>(
+    pub async fn new<R>(
         reader: &mut R,
         num_bytes_read: &mut usize,
         cards: Vec<Card>,
     ) -> Result<Self, Error>
     where
-        R: AsyncDataBufRead<'a, X> + 'a,
+        R: AsyncRead + Unpin,
     {
         /* 1. Parse the header first */
         let header = Header::parse(cards)?;
diff --git a/src/hdu/data/image.rs b/src/hdu/data/image.rs
index 8f0b491..6abd626 100644
--- a/src/hdu/data/image.rs
+++ b/src/hdu/data/image.rs
@@ -8,7 +8,7 @@ use futures::AsyncReadExt;
 use serde::Serialize;
 use std::io::Read;
 
-use super::super::AsyncDataBufRead;
+use super::AsyncDataBufRead;
 use super::DataStream;
 use crate::hdu::header::extension::image::Image;
 use crate::hdu::FitsRead;
diff --git a/src/hdu/data/stream.rs b/src/hdu/data/stream.rs
index ac9cd61..5729bef 100644
--- a/src/hdu/data/stream.rs
+++ b/src/hdu/data/stream.rs
@@ -1,5 +1,4 @@
 use byteorder::ByteOrder;
-use futures::AsyncReadExt;
 
 /// An async iterator on the data array
 /// This is an enum whose content depends on the
@@ -28,6 +27,11 @@ where
 {
     pub reader: &'a mut R,
     pub num_remaining_bytes_in_cur_hdu: &'a mut usize,
+    /// Bytes of the current item read so far, the reader might not be ready to give all of them at once
+    item: [u8; 8],
+    num_bytes_item: usize,
+    /// Set once the reader failed
+    failed: bool,
     phantom: std::marker::PhantomData<T>,
 }
 
@@ -39,15 +43,49 @@ where
         Self {
             reader,
             num_remaining_bytes_in_cur_hdu,
+            item: [0; 8],
+            num_bytes_item: 0,
+            failed: false,
             phantom: std::marker::PhantomData,
         }
     }
+
+    /// Attempt to read the next item. The bytes that are available are kept until the next poll if there are not
+    /// enough of them
+    fn poll_read_item(
+        &mut self,
+        cx: &mut Context<'_>,
+        buf: &mut [u8],
+    ) -> Poll<Result<(), futures::io::Error>> {
+        while self.num_bytes_item < buf.len() {
+            let bytes = &mut self.item[self.num_bytes_item..buf.len()];
+            match Pin::new(&mut *self.reader).poll_read(cx, bytes) {
+                Poll::Pending => return Poll::Pending,
+                Poll::Ready(Err(e)) => {
+                    self.failed = true;
+                    return Poll::Ready(Err(e));
+                }
+                Poll::Ready(Ok(0)) => {
+                    self.failed = true;
+                    return Poll::Ready(Err(futures::io::ErrorKind::UnexpectedEof.into()));
+                }
+                Poll::Ready(Ok(num_bytes)) => {
+                    self.num_bytes_item += num_bytes;
+                    *self.num_remaining_bytes_in_cur_hdu -= num_bytes;
+                }
+            }
+        }
+
+        buf.copy_from_slice(&self.item[..buf.len()]);
+        self.num_bytes_item = 0;
+
+        Poll::Ready(Ok(()))
+    }
 }
 
 use futures::task::Context;
 use futures::task::Poll;
 use futures::AsyncBufRead;
-use futures::Future;
 //use serde::Serialize;
 use std::pin::Pin;
 
@@ -64,20 +102,16 @@ where
     /// Returns `Poll::Pending` if not ready, `Poll::Ready(Some(x))` if a value
     /// is ready, and `Poll::Ready(None)` if the stream has completed.
     fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Self::Item>> {
-        if *self.num_remaining_bytes_in_cur_hdu == 0 {
+        if *self.num_remaining_bytes_in_cur_hdu == 0 || self.failed {
             // The stream has finished
             Poll::Ready(None)
         } else {
             let mut buf = [0_u8; 1];
 
-            let mut reader_exact = self.reader.read_exact(&mut buf);
-            match Pin::new(&mut reader_exact).poll(cx) {
+            match self.poll_read_item(cx, &mut buf) {
                 Poll::Pending => Poll::Pending,
                 Poll::Ready(Err(e)) => Poll::Ready(Some(Err(e))),
-                Poll::Ready(Ok(())) => {
-                    *self.num_remaining_bytes_in_cur_hdu -= 1;
-                    Poll::Ready(Some(Ok(buf)))
-                }
+                Poll::Ready(Ok(())) => Poll::Ready(Some(Ok(buf))),
             }
         }
     }
@@ -94,18 +128,16 @@ where
     /// Returns `Poll::Pending` if not ready, `Poll::Ready(Some(x))` if a value
     /// is ready, and `Poll::Ready(None)` if the stream has completed.
     fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Self::Item>> {
-        if *self.num_remaining_bytes_in_cur_hdu == 0 {
+        if *self.num_remaining_bytes_in_cur_hdu == 0 || self.failed {
             // The stream has finished
             Poll::Ready(None)
         } else {
             let mut buf = [0_u8; 2];
-            let mut reader_exact = self.reader.read_exact(&mut buf);
-            match Pin::new(&mut reader_exact).poll(cx) {
+            match self.poll_read_item(cx, &mut buf) {
                 Poll::Pending => Poll::Pending,
                 Poll::Ready(Err(e)) => Poll::Ready(Some(Err(e))),
                 Poll::Ready(Ok(())) => {
                     let item = byteorder::BigEndian::read_i16(&buf);
-                    *self.num_remaining_bytes_in_cur_hdu -= std::mem::size_of::<i16>();
                     Poll::Ready(Some(Ok([item])))
                 }
             }
@@ -124,19 +156,16 @@ where
     /// Returns `Poll::Pending` if not ready, `Poll::Ready(Some(x))` if a value
     /// is ready, and `Poll::Ready(None)` if the stream has completed.
     fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Self::Item>> {
-        if *self.num_remaining_bytes_in_cur_hdu == 0 {
+        if *self.num_remaining_bytes_in_cur_hdu == 0 || self.failed {
             // The stream has finished
             Poll::Ready(None)
         } else {
             let mut buf = [0_u8; 4];
-            let mut reader_exact = self.reader.read_exact(&mut buf);
-            match Pin::new(&mut reader_exact).poll(cx) {
+            match self.poll_read_item(cx, &mut buf) {
                 Poll::Pending => Poll::Pending,
                 Poll::Ready(Err(e)) => Poll::Ready(Some(Err(e))),
                 Poll::Ready(Ok(())) => {
                     let item = byteorder::BigEndian::read_i32(&buf);
-                    *self.num_remaining_bytes_in_cur_hdu -= std::mem::size_of::<i32>();
-
                     Poll::Ready(Some(Ok([item])))
                 }
             }
@@ -155,18 +184,16 @@ where
     /// Returns `Poll::Pending` if not ready, `Poll::Ready(Some(x))` if a value
     /// is ready, and `Poll::Ready(None)` if the stream has completed.
     fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Self::Item>> {
-        if *self.num_remaining_bytes_in_cur_hdu == 0 {
+        if *self.num_remaining_bytes_in_cur_hdu == 0 || self.failed {
             // The stream has finished
             Poll::Ready(None)
         } else {
             let mut buf = [0_u8; 8];
-            let mut reader_exact = self.reader.read_exact(&mut buf);
-            match Pin::new(&mut reader_exact).poll(cx) {
+            match self.poll_read_item(cx, &mut buf) {
                 Poll::Pending => Poll::Pending,
                 Poll::Ready(Err(e)) => Poll::Ready(Some(Err(e))),
                 Poll::Ready(Ok(())) => {
                     let item = byteorder::BigEndian::read_i64(&buf);
-                    *self.num_remaining_bytes_in_cur_hdu -= std::mem::size_of::<i64>();
                     Poll::Ready(Some(Ok([item])))
                 }
             }
@@ -185,18 +212,16 @@ where
     /// Returns `Poll::Pending` if not ready, `Poll::Ready(Some(x))` if a value
     /// is ready, and `Poll::Ready(None)` if the stream has completed.
     fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Self::Item>> {
-        if *self.num_remaining_bytes_in_cur_hdu == 0 {
+        if *self.num_remaining_bytes_in_cur_hdu == 0 || self.failed {
             // The stream has finished
             Poll::Ready(None)
         } else {
             let mut buf = [0_u8; 4];
-            let mut reader_exact = self.reader.read_exact(&mut buf);
-            match Pin::new(&mut reader_exact).poll(cx) {
+            match self.poll_read_item(cx, &mut buf) {
                 Poll::Pending => Poll::Pending,
                 Poll::Ready(Err(e)) => Poll::Ready(Some(Err(e))),
                 Poll::Ready(Ok(())) => {
                     let item = byteorder::BigEndian::read_f32(&buf);
-                    *self.num_remaining_bytes_in_cur_hdu -= std::mem::size_of::<f32>();
                     Poll::Ready(Some(Ok([item])))
                 }
             }
@@ -215,18 +240,16 @@ where
     /// Returns `Poll::Pending` if not ready, `Poll::Ready(Some(x))` if a value
     /// is ready, and `Poll::Ready(None)` if the stream has completed.
     fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Self::Item>> {
-        if *self.num_remaining_bytes_in_cur_hdu == 0 {
+        if *self.num_remaining_bytes_in_cur_hdu == 0 || self.failed {
             // The stream has finished
             Poll::Ready(None)
         } else {
             let mut buf = [0_u8; 8];
-            let mut reader_exact = self.reader.read_exact(&mut buf);
-            match Pin::new(&mut reader_exact).poll(cx) {
+            match self.poll_read_item(cx, &mut buf) {
                 Poll::Pending => Poll::Pending,
                 Poll::Ready(Err(e)) => Poll::Ready(Some(Err(e))),
                 Poll::Ready(Ok(())) => {
                     let item = byteorder::BigEndian::read_f64(&buf);
-                    *self.num_remaining_bytes_in_cur_hdu -= std::mem::size_of::<f64>();
                     Poll::Ready(Some(Ok([item])))
                 }
             }
diff --git a/src/hdu/mod.rs b/src/hdu/mod.rs
index 0d33c10..ff87762 100644
--- a/src/hdu/mod.rs
+++ b/src/hdu/mod.rs
@@ -17,7 +17,6 @@ use crate::hdu::data::FitsRead;
 //use self::data::DataAsyncBufRead;
 use crate::error::Error;
 
-use self::data::AsyncDataBufRead;
 use self::header::consume_next_card_async;
 use self::header::extension::asciitable::AsciiTable;
 use self::header::extension::bintable::BinTable;
@@ -210,12 +209,9 @@ pub enum AsyncHDU {
 }
 
 impl AsyncHDU {
-    pub(crate) async fn new_xtension<'a, R>(reader: &mut R) -> Result<Self, Error>
+    pub(crate) async fn new_xtension<R>(reader: &mut R) -> Result<Self, Error>
     where
-        R: AsyncDataBufRead<'a, Image>
-            + AsyncDataBufRead<'a, BinTable>
-            + AsyncDataBufRead<'a, AsciiTable>
-            + 'a,
+        R: AsyncRead + std::marker::Unpin,
     {
         let mut num_bytes_read = 0;
 
@@ -251,22 +247,27 @@ impl AsyncHDU {
         Ok(hdu)
     }
 
-    pub(crate) async fn new_primary<'a, R>(reader: &mut R) -> Result<Self, Error>
+    pub(crate) async fn new_primary<R>(reader: &mut R) -> Result<Self, Error>
     where
-        R: AsyncDataBufRead<'a, Image> + 'a,
+        R: AsyncRead + std::marker::Unpin,
     {
         let mut num_bytes_read = 0;
 
         let cards = consume_cards_async(reader, &mut num_bytes_read).await?;
 
         // Check for SIMPLE keyword
-        let _name: String = "SIMPLE".to_owned();
         if let Card::Value {
-            name: _name,
+            name,
             value: Logical { value: true, .. },
             ..
         } = &cards[0]
         {
+            if name != "SIMPLE" {
+                return Err(Error::DynamicError(format!(
+                    "Invalid FITS file: expected `SIMPLE` keyword in first card, found `{name}`"
+                )));
+            }
+
             Ok(AsyncHDU::Primary(
                 async_fits::AsyncHDU::<Image>::new(reader, &mut num_bytes_read, cards).await?,
             ))
-- 
2.43.0


From b11b87485e7b93824f7f5c4553206ec17ea65c29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:02:24 +0000
Subject: [PATCH 16/18] fix: the image decoder reports truncated data instead
 of inventing pixels

---
 src/image_integration.rs | 37 ++++++++++++++++++++++++++-----------
 1 file changed, 26 insertions(+), 11 deletions(-)

diff --git a/src/image_integration.rs b/src/image_integration.rs
index 50c56d1..c2adc9a 100644
--- a/src/image_integration.rs
+++ b/src/image_integration.rs
@@ -1,3 +1,4 @@
+use std::cell::Cell;
 use std::convert::TryFrom;
 use std::fmt;
 use std::io::{Read, Seek, SeekFrom};
@@ -207,6 +208,14 @@ fn write_splat<const P: usize>(buf: &mut [u8], iter: impl Iterator<Item = [u8; P
     }
 }
 
+/// Count in `n` the pixels taken from `iter`
+fn count<'a, T>(
+    iter: impl Iterator<Item = T> + 'a,
+    n: &'a Cell<u64>,
+) -> impl Iterator<Item = T> + 'a {
+    iter.inspect(move |_| n.set(n.get() + 1))
+}
+
 // The general idea of these conversions to an image suitable for viewing:
 // - ignore negative values
 // - assume images are already normalized to their pixel format max value
@@ -315,17 +324,18 @@ impl<'a> ImageDecoder for FitsDecoder<'a> {
 
     fn read_image(mut self, buf: &mut [u8]) -> ImageResult<()> {
         let is_rgb = self.is_rgb;
+        let n = &Cell::new(0);
         match self.hdu {
             HduImageKind::Image(hdu) => {
                 let scale = Scale::deserialize(hdu.get_header().into_deserializer())
                     .map_err(to_image_error)?;
                 match self.fits.get_data(&hdu).pixels() {
-                    Pixels::U8(it) => write_u8(buf, it, scale, is_rgb),
-                    Pixels::I16(it) => write_i16(buf, it, scale, is_rgb),
-                    Pixels::I32(it) => write_i32(buf, it, scale, is_rgb),
-                    Pixels::I64(it) => write_i64(buf, it, scale, is_rgb),
-                    Pixels::F32(it) => write_f32(buf, it, is_rgb),
-                    Pixels::F64(it) => write_f64(buf, it, is_rgb),
+                    Pixels::U8(it) => write_u8(buf, count(it, n), scale, is_rgb),
+                    Pixels::I16(it) => write_i16(buf, count(it, n), scale, is_rgb),
+                    Pixels::I32(it) => write_i32(buf, count(it, n), scale, is_rgb),
+                    Pixels::I64(it) => write_i64(buf, count(it, n), scale, is_rgb),
+                    Pixels::F32(it) => write_f32(buf, count(it, n), is_rgb),
+                    Pixels::F64(it) => write_f64(buf, count(it, n), is_rgb),
                 }
             }
             HduImageKind::TileCompressed(hdu) => {
@@ -333,12 +343,12 @@ impl<'a> ImageDecoder for FitsDecoder<'a> {
                     .map_err(to_image_error)?;
                 match self.fits.get_data(&hdu) {
                     BinaryTableData::TileCompressed(tc) => match tc {
-                        TcPixels::U8(it) => write_u8(buf, it, scale, is_rgb),
-                        TcPixels::I16(it) => write_i16(buf, it, scale, is_rgb),
-                        TcPixels::I32(it) => write_i32(buf, it, scale, is_rgb),
+                        TcPixels::U8(it) => write_u8(buf, count(it, n), scale, is_rgb),
+                        TcPixels::I16(it) => write_i16(buf, count(it, n), scale, is_rgb),
+                        TcPixels::I32(it) => write_i32(buf, count(it, n), scale, is_rgb),
                         // Tile-compressed F32 and F64 iterators both yield f32
-                        TcPixels::F32(it) => write_f32(buf, it, is_rgb),
-                        TcPixels::F64(it) => write_f32(buf, it, is_rgb),
+                        TcPixels::F32(it) => write_f32(buf, count(it, n), is_rgb),
+                        TcPixels::F64(it) => write_f32(buf, count(it, n), is_rgb),
                     },
                     BinaryTableData::Table(_) => {
                         return Err(to_image_error(
@@ -348,6 +358,11 @@ impl<'a> ImageDecoder for FitsDecoder<'a> {
                 }
             }
         }
+
+        let num_planes = if is_rgb { RGB_CHANNELS as u64 } else { 1 };
+        if n.get() / num_planes < u64::from(self.width) * u64::from(self.height) {
+            return Err(to_image_error("the image data is truncated"));
+        }
         Ok(())
     }
 
-- 
2.43.0


From 82e4d4b040af13ab7b100f2fdcf822824e5810f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:36:02 +0000
Subject: [PATCH 17/18] fix: read enumerated keywords such as ZQUANTIZ from
 their strings

No quantization method was ever recognized: dithered images were decompressed
as if they were not.
---
 src/card.rs | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/card.rs b/src/card.rs
index 8f90404..7355fca 100644
--- a/src/card.rs
+++ b/src/card.rs
@@ -6,6 +6,7 @@ pub type Keyword = [u8; 8];
 /// Holds 80 bytes of ASCII characters, i.e. one line in a FITS compliant file.
 pub type CardBuf = [u8; 80];
 
+use serde::de::value::BorrowedStrDeserializer;
 use serde::de::IntoDeserializer;
 use serde::{forward_to_deserialize_any, Deserializer, Serialize};
 
@@ -501,9 +502,27 @@ impl<'de> Deserializer<'de> for &'de Value {
         }
     }
 
+    fn deserialize_enum<V>(
+        self,
+        name: &'static str,
+        variants: &'static [&'static str],
+        visitor: V,
+    ) -> Result<V::Value, Self::Error>
+    where
+        V: serde::de::Visitor<'de>,
+    {
+        match self {
+            // a string is the name of the variant
+            Value::String { value, comment: _ } => {
+                BorrowedStrDeserializer::new(value).deserialize_enum(name, variants, visitor)
+            }
+            _ => self.deserialize_any(visitor),
+        }
+    }
+
     forward_to_deserialize_any! {
         bool i8 i16 i32 i64 u8 u16 u32 u64 f32 f64 char str string bytes byte_buf unit
-        seq tuple tuple_struct map struct enum identifier ignored_any
+        seq tuple tuple_struct map struct identifier ignored_any
         newtype_struct unit_struct
     }
 }
-- 
2.43.0


From 43e6c906745c7882bd7054fa131a3c6f8b59811c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:40:16 +0000
Subject: [PATCH 18/18] fix: an asynchronous data stream opened again in the
 middle of an item stays within its data unit

---
 src/hdu/data/stream.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/hdu/data/stream.rs b/src/hdu/data/stream.rs
index 5729bef..58f73a5 100644
--- a/src/hdu/data/stream.rs
+++ b/src/hdu/data/stream.rs
@@ -58,7 +58,11 @@ where
         buf: &mut [u8],
     ) -> Poll<Result<(), futures::io::Error>> {
         while self.num_bytes_item < buf.len() {
-            let bytes = &mut self.item[self.num_bytes_item..buf.len()];
+            // never read beyond the data unit
+            let end = buf
+                .len()
+                .min(self.num_bytes_item + *self.num_remaining_bytes_in_cur_hdu);
+            let bytes = &mut self.item[self.num_bytes_item..end];
             match Pin::new(&mut *self.reader).poll_read(cx, bytes) {
                 Poll::Pending => return Poll::Pending,
                 Poll::Ready(Err(e)) => {
-- 
2.43.0

