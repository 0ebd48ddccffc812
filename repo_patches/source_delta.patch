From c1b368fc58fda944376ec86a23dec4d958041e20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:15 +0000
Subject: [PATCH 01/23] fix: only return the input as is when it is Lua 5.1
 with the output settings

---
 src/lib.rs                  | 16 +++++++++-------
 src/serialization/writer.rs |  4 ++++
 2 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index b0b70b2..c4f6dea 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -36,8 +36,15 @@ pub fn unify(input_bytes: &[u8], output_format: &Format, settings: &Settings) ->
 
     let input_format = Format::from_byte_stream(&mut byte_stream, version, settings)?;
 
-    // If the input is already in the correct format, return it as is.
-    if input_format == *output_format && !cfg!(test) {
+    let mut byte_writer = ByteWriter::new(output_format);
+
+    byte_writer.slice(settings.output.binary_signature.as_bytes());
+    byte_writer.byte(LuaVersion::Lua51.into());
+    output_format.write(&mut byte_writer);
+
+    // If the input already is Lua 5.1 byte code in the correct format and was
+    // compiled with the same settings, return it as is.
+    if byte_writer.is_prefix_of(input_bytes) && settings.lua51 == settings.output && !cfg!(test) {
         #[cfg(feature = "debug")]
         println!("\n======== Done ========\n");
 
@@ -52,11 +59,6 @@ pub fn unify(input_bytes: &[u8], output_format: &Format, settings: &Settings) ->
         return Err(LunifyError::InputTooLong);
     }
 
-    let mut byte_writer = ByteWriter::new(output_format);
-
-    byte_writer.slice(settings.output.binary_signature.as_bytes());
-    byte_writer.byte(LuaVersion::Lua51.into());
-    output_format.write(&mut byte_writer);
     root_function.write(&mut byte_writer)?;
 
     #[cfg(feature = "debug")]
diff --git a/src/serialization/writer.rs b/src/serialization/writer.rs
index dcd63cd..753a82e 100644
--- a/src/serialization/writer.rs
+++ b/src/serialization/writer.rs
@@ -45,6 +45,10 @@ impl<'a> ByteWriter<'a> {
         self.slice(value.as_bytes());
     }
 
+    pub fn is_prefix_of(&self, bytes: &[u8]) -> bool {
+        bytes.starts_with(&self.data)
+    }
+
     pub fn finalize(self) -> Vec<u8> {
         self.data
     }
-- 
2.43.0


From 509d79bd7a6aa5a3dfb0dcad94e8cd3049ca1ab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:53 +0000
Subject: [PATCH 02/23] fix: recognize each Lua version only after the
 signature configured for it

---
 src/lib.rs                  | 35 ++++++++++++++++++++++++++++++-----
 src/serialization/stream.rs |  1 +
 2 files changed, 31 insertions(+), 5 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index c4f6dea..cf640dd 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -17,16 +17,41 @@ pub use function::{lua50, lua51, InstructionLayout, OperandType, Settings};
 use crate::format::LuaVersion;
 use crate::serialization::{ByteStream, ByteWriter};
 
+/// Remove the signature and the version from the beginning of the byte stream.
+/// Every version is only recognized after its own signature.
+fn remove_header(byte_stream: &mut ByteStream, settings: &Settings) -> Result<LuaVersion, LunifyError> {
+    let signatures = [
+        (settings.lua50.binary_signature, LuaVersion::Lua50),
+        (settings.lua51.binary_signature, LuaVersion::Lua51),
+    ];
+    let mut error = LunifyError::IncorrectSignature;
+
+    for (signature, expected_version) in signatures {
+        let mut candidate = byte_stream.clone();
+
+        if !candidate.remove_signature(signature) {
+            continue;
+        }
+
+        match LuaVersion::try_from(candidate.byte()?) {
+            Ok(version) if version == expected_version => {
+                *byte_stream = candidate;
+                return Ok(version);
+            }
+            Ok(..) => {}
+            Err(unsupported_version) => error = unsupported_version,
+        }
+    }
+
+    Err(error)
+}
+
 /// Takes Lua byte code in a supported format and converts it to byte code in
 /// the specified output [`Format`]. Returns [`LunifyError`] on error.
 pub fn unify(input_bytes: &[u8], output_format: &Format, settings: &Settings) -> Result<Vec<u8>, LunifyError> {
     let mut byte_stream = ByteStream::new(input_bytes);
 
-    if !byte_stream.remove_signature(settings.lua50.binary_signature) && !byte_stream.remove_signature(settings.lua51.binary_signature) {
-        return Err(LunifyError::IncorrectSignature);
-    }
-
-    let version = byte_stream.byte()?.try_into()?;
+    let version = remove_header(&mut byte_stream, settings)?;
 
     #[cfg(feature = "debug")]
     {
diff --git a/src/serialization/stream.rs b/src/serialization/stream.rs
index 123f414..a594008 100644
--- a/src/serialization/stream.rs
+++ b/src/serialization/stream.rs
@@ -3,6 +3,7 @@ use std::convert::TryInto;
 use crate::number::Number;
 use crate::{Endianness, Format, LunifyError};
 
+#[derive(Clone)]
 pub(crate) struct ByteStream<'a> {
     data: &'a [u8],
     offset: usize,
-- 
2.43.0


From c2cfd4c23e6f965d6da1b7138826abd83c39d719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:54 +0000
Subject: [PATCH 03/23] fix: write strings with bytes above 127 unchanged

---
 src/serialization/writer.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/serialization/writer.rs b/src/serialization/writer.rs
index 753a82e..42f37d0 100644
--- a/src/serialization/writer.rs
+++ b/src/serialization/writer.rs
@@ -40,9 +40,11 @@ impl<'a> ByteWriter<'a> {
         Ok(())
     }
 
+    /// Strings hold one character per byte (see `ByteStream::string`), so they
+    /// have to be written one byte per character.
     pub fn string(&mut self, value: &str) {
-        self.size_t(value.len() as i64);
-        self.slice(value.as_bytes());
+        self.size_t(value.chars().count() as i64);
+        self.data.extend(value.chars().map(|character| character as u8));
     }
 
     pub fn is_prefix_of(&self, bytes: &[u8]) -> bool {
-- 
2.43.0


From 46c25ae56933833f9d74a5843c44d8e3ef8d0392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:55 +0000
Subject: [PATCH 04/23] fix: report huge string lengths as truncated input
 instead of overflowing

---
 src/serialization/stream.rs | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/src/serialization/stream.rs b/src/serialization/stream.rs
index a594008..415d672 100644
--- a/src/serialization/stream.rs
+++ b/src/serialization/stream.rs
@@ -86,7 +86,9 @@ impl<'a> ByteStream<'a> {
 
     pub fn slice(&mut self, length: usize) -> Result<&[u8], LunifyError> {
         let start = self.offset;
-        self.offset += length;
+        // A length that is too big to even be added is handled the same as any other
+        // length that is exceeding the available data.
+        self.offset = self.offset.saturating_add(length);
 
         if self.offset > self.data.len() {
             return Err(LunifyError::InputTooShort);
@@ -97,15 +99,7 @@ impl<'a> ByteStream<'a> {
 
     pub fn string(&mut self) -> Result<String, LunifyError> {
         let length = self.size_t()? as usize;
-        let start = self.offset;
-
-        self.offset += length;
-
-        if self.offset > self.data.len() {
-            return Err(LunifyError::InputTooShort);
-        }
-
-        Ok(self.data[start..self.offset].iter().map(|&byte| byte as char).collect())
+        Ok(self.slice(length)?.iter().map(|&byte| byte as char).collect())
     }
 
     pub fn is_empty(&self) -> bool {
-- 
2.43.0


From bee98c2b893bc37d721c6216e1f3bae5f8c5403f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:55 +0000
Subject: [PATCH 05/23] fix: keep the upvalue count of functions without
 upvalue names

---
 src/function/mod.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/function/mod.rs b/src/function/mod.rs
index 0744c90..0d36e76 100644
--- a/src/function/mod.rs
+++ b/src/function/mod.rs
@@ -21,6 +21,7 @@ pub(crate) struct Function {
     source_file: String,
     line_defined: i64,
     last_line_defined: i64,
+    upvalue_count: u8,
     parameter_count: u8,
     is_variadic: u8,
     maximum_stack_size: u8,
@@ -205,7 +206,7 @@ impl Function {
             LuaVersion::Lua50 => line_defined,
         };
 
-        let _upvalue_count = byte_stream.byte()?;
+        let upvalue_count = byte_stream.byte()?;
         let parameter_count = byte_stream.byte()?;
         let mut is_variadic = byte_stream.byte()?;
         let mut maximum_stack_size = byte_stream.byte()?;
@@ -216,7 +217,7 @@ impl Function {
             println!("source_file: {source_file}");
             println!("line_defined: {line_defined}");
             println!("last_line_defined: {last_line_defined}");
-            println!("upvalue_count: {_upvalue_count}");
+            println!("upvalue_count: {upvalue_count}");
             println!("parameter_count: {parameter_count}");
             println!("is_variadic: {is_variadic}");
             println!("maximum_stack_size: {maximum_stack_size}");
@@ -270,6 +271,7 @@ impl Function {
             source_file,
             line_defined,
             last_line_defined,
+            upvalue_count,
             parameter_count,
             is_variadic,
             maximum_stack_size,
@@ -287,7 +289,7 @@ impl Function {
         byte_writer.string(&self.source_file);
         byte_writer.integer(self.line_defined);
         byte_writer.integer(self.last_line_defined);
-        byte_writer.byte(self.upvalues.len() as u8);
+        byte_writer.byte(self.upvalue_count);
         byte_writer.byte(self.parameter_count);
         byte_writer.byte(self.is_variadic);
         byte_writer.byte(self.maximum_stack_size);
-- 
2.43.0


From 7bb0a1490fbd89c95cf9d70f28fc87ce9d86cfcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:56 +0000
Subject: [PATCH 06/23] fix: recognize the Lua 5.0 test number in 32 bit floats

---
 src/format/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/format/mod.rs b/src/format/mod.rs
index 0884749..0462e0b 100644
--- a/src/format/mod.rs
+++ b/src/format/mod.rs
@@ -94,7 +94,9 @@ impl Format {
             LuaVersion::Lua50 => {
                 // Is there even a way to get this information from Lua 5.0?
                 let value = from_slice!(byte_stream, number_width, endianness, f32, f64);
-                value != 31415926.535897933
+                // The fraction is not compared because it depends on the precision of the number
+                // (Lua 5.0 does the same).
+                value as i64 != 31415926
             }
         };
 
-- 
2.43.0


From 03b2d54bb8c62e951da5adea4777f6e8db4ed45a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:56 +0000
Subject: [PATCH 07/23] fix: reject instruction layouts with more than 64 bits

---
 src/function/instruction/operand/layout.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/function/instruction/operand/layout.rs b/src/function/instruction/operand/layout.rs
index 0feefa5..42a2f39 100644
--- a/src/function/instruction/operand/layout.rs
+++ b/src/function/instruction/operand/layout.rs
@@ -125,6 +125,11 @@ impl InstructionLayout {
             }
         }
 
+        // An instruction has at most 64 bits.
+        if offset > 64 {
+            return Err(LunifyError::InvalidInstructionLayout);
+        }
+
         let opcode = opcode.unwrap();
         let a = a.unwrap();
         let b = b.unwrap();
-- 
2.43.0


From 49799396cd4d1e07b5295f4bc5796b1ec8060ebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:41 +0000
Subject: [PATCH 08/23] fix: report integers that exceed the output width
 instead of truncating them

---
 src/error.rs                |  3 ++-
 src/function/mod.rs         | 30 +++++++++++++++---------------
 src/serialization/writer.rs | 25 +++++++++++++++++++------
 3 files changed, 36 insertions(+), 22 deletions(-)

diff --git a/src/error.rs b/src/error.rs
index d31fbf4..cd8ea7c 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -40,7 +40,8 @@ pub enum LunifyError {
     /// represented when `is_number_integral` is set to true.
     FloatPrecisionLoss,
     /// The byte code contains an integral value that is too big to be
-    /// represented when `is_number_integral` is set to false.
+    /// represented when `is_number_integral` is set to false, or an integer that
+    /// is too big for the widths specified by the output format.
     IntegerOverflow,
     /// The byte code is truncated.
     InputTooShort,
diff --git a/src/function/mod.rs b/src/function/mod.rs
index 0d36e76..fcff920 100644
--- a/src/function/mod.rs
+++ b/src/function/mod.rs
@@ -286,22 +286,22 @@ impl Function {
 
     pub(crate) fn write(self, byte_writer: &mut ByteWriter) -> Result<(), LunifyError> {
         // function
-        byte_writer.string(&self.source_file);
-        byte_writer.integer(self.line_defined);
-        byte_writer.integer(self.last_line_defined);
+        byte_writer.string(&self.source_file)?;
+        byte_writer.integer(self.line_defined)?;
+        byte_writer.integer(self.last_line_defined)?;
         byte_writer.byte(self.upvalue_count);
         byte_writer.byte(self.parameter_count);
         byte_writer.byte(self.is_variadic);
         byte_writer.byte(self.maximum_stack_size);
 
         // instructions
-        byte_writer.integer(self.instructions.len() as i64);
+        byte_writer.integer(self.instructions.len() as i64)?;
         for instruction in self.instructions {
             byte_writer.instruction(instruction);
         }
 
         // constants
-        byte_writer.integer(self.constants.len() as i64);
+        byte_writer.integer(self.constants.len() as i64)?;
         for constant in self.constants {
             match constant {
                 Constant::Nil => {
@@ -320,35 +320,35 @@ impl Function {
 
                 Constant::String(string) => {
                     byte_writer.byte(4);
-                    byte_writer.string(&string);
+                    byte_writer.string(&string)?;
                 }
             }
         }
 
         // functions
-        byte_writer.integer(self.functions.len() as i64);
+        byte_writer.integer(self.functions.len() as i64)?;
         for function in self.functions {
             function.write(byte_writer)?;
         }
 
         // line info
-        byte_writer.integer(self.line_info.len() as i64);
+        byte_writer.integer(self.line_info.len() as i64)?;
         for line_info in self.line_info {
-            byte_writer.integer(line_info);
+            byte_writer.integer(line_info)?;
         }
 
         // local variables
-        byte_writer.integer(self.local_variables.len() as i64);
+        byte_writer.integer(self.local_variables.len() as i64)?;
         for local_variable in self.local_variables {
-            byte_writer.string(&local_variable.name);
-            byte_writer.integer(local_variable.start_program_counter);
-            byte_writer.integer(local_variable.end_program_counter);
+            byte_writer.string(&local_variable.name)?;
+            byte_writer.integer(local_variable.start_program_counter)?;
+            byte_writer.integer(local_variable.end_program_counter)?;
         }
 
         // upvalues
-        byte_writer.integer(self.upvalues.len() as i64);
+        byte_writer.integer(self.upvalues.len() as i64)?;
         for upvalue in self.upvalues {
-            byte_writer.string(&upvalue);
+            byte_writer.string(&upvalue)?;
         }
 
         Ok(())
diff --git a/src/serialization/writer.rs b/src/serialization/writer.rs
index 42f37d0..ea8b7c4 100644
--- a/src/serialization/writer.rs
+++ b/src/serialization/writer.rs
@@ -20,12 +20,16 @@ impl<'a> ByteWriter<'a> {
         self.data.extend_from_slice(slice);
     }
 
-    pub fn integer(&mut self, value: i64) {
-        to_slice!(self, value, integer_width, i32)
+    pub fn integer(&mut self, value: i64) -> Result<(), LunifyError> {
+        check_width(value, self.format.integer_width)?;
+        to_slice!(self, value, integer_width, i32);
+        Ok(())
     }
 
-    pub fn size_t(&mut self, value: i64) {
-        to_slice!(self, value, size_t_width, i32)
+    pub fn size_t(&mut self, value: i64) -> Result<(), LunifyError> {
+        check_width(value, self.format.size_t_width)?;
+        to_slice!(self, value, size_t_width, i32);
+        Ok(())
     }
 
     pub fn instruction(&mut self, instruction: u64) {
@@ -42,9 +46,10 @@ impl<'a> ByteWriter<'a> {
 
     /// Strings hold one character per byte (see `ByteStream::string`), so they
     /// have to be written one byte per character.
-    pub fn string(&mut self, value: &str) {
-        self.size_t(value.chars().count() as i64);
+    pub fn string(&mut self, value: &str) -> Result<(), LunifyError> {
+        self.size_t(value.chars().count() as i64)?;
         self.data.extend(value.chars().map(|character| character as u8));
+        Ok(())
     }
 
     pub fn is_prefix_of(&self, bytes: &[u8]) -> bool {
@@ -56,6 +61,14 @@ impl<'a> ByteWriter<'a> {
     }
 }
 
+/// Make sure that the value can be represented with the given width.
+fn check_width(value: i64, width: BitWidth) -> Result<(), LunifyError> {
+    match width {
+        BitWidth::Bit32 if i32::try_from(value).is_err() => Err(LunifyError::IntegerOverflow),
+        _ => Ok(()),
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use super::ByteWriter;
-- 
2.43.0


From 8fa7463df18457653a0685a26363e73c3fa8ae23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:54 +0000
Subject: [PATCH 09/23] fix: report instructions that do not fit the output
 instruction width

---
 src/function/mod.rs         | 2 +-
 src/serialization/writer.rs | 9 +++++++--
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/function/mod.rs b/src/function/mod.rs
index fcff920..759a02c 100644
--- a/src/function/mod.rs
+++ b/src/function/mod.rs
@@ -297,7 +297,7 @@ impl Function {
         // instructions
         byte_writer.integer(self.instructions.len() as i64)?;
         for instruction in self.instructions {
-            byte_writer.instruction(instruction);
+            byte_writer.instruction(instruction)?;
         }
 
         // constants
diff --git a/src/serialization/writer.rs b/src/serialization/writer.rs
index ea8b7c4..67ad6a7 100644
--- a/src/serialization/writer.rs
+++ b/src/serialization/writer.rs
@@ -32,8 +32,13 @@ impl<'a> ByteWriter<'a> {
         Ok(())
     }
 
-    pub fn instruction(&mut self, instruction: u64) {
-        to_slice!(self, instruction, instruction_width, u32)
+    pub fn instruction(&mut self, instruction: u64) -> Result<(), LunifyError> {
+        if self.format.instruction_width == BitWidth::Bit32 && u32::try_from(instruction).is_err() {
+            return Err(LunifyError::ValueTooBigForOperand);
+        }
+
+        to_slice!(self, instruction, instruction_width, u32);
+        Ok(())
     }
 
     pub fn number(&mut self, value: Number) -> Result<(), LunifyError> {
-- 
2.43.0


From 46d236c986c2428f40f76f268cb0d5814e0f1e6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:15 +0000
Subject: [PATCH 10/23] fix: report numbers that the output number format
 cannot represent

---
 src/error.rs                |  6 +++---
 src/number.rs               |  6 ++++--
 src/serialization/writer.rs | 17 +++++++++++++++--
 3 files changed, 22 insertions(+), 7 deletions(-)

diff --git a/src/error.rs b/src/error.rs
index cd8ea7c..801baca 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -39,9 +39,9 @@ pub enum LunifyError {
     /// The byte code contains a number with a non-integral value that can't be
     /// represented when `is_number_integral` is set to true.
     FloatPrecisionLoss,
-    /// The byte code contains an integral value that is too big to be
-    /// represented when `is_number_integral` is set to false, or an integer that
-    /// is too big for the widths specified by the output format.
+    /// The byte code contains an integral value that can't be represented
+    /// exactly when `is_number_integral` is set to false, or an integral value
+    /// that is too big for the widths specified by the output format.
     IntegerOverflow,
     /// The byte code is truncated.
     InputTooShort,
diff --git a/src/number.rs b/src/number.rs
index 2deb1b7..0d1c762 100644
--- a/src/number.rs
+++ b/src/number.rs
@@ -13,7 +13,9 @@ impl Number {
         match self {
             Number::Integer(value) => Ok(value),
             Number::Float(value) => match value == value.round() {
-                true => Ok(value as i64),
+                // `i64::MAX` itself is not representable as a `f64`.
+                true if value >= i64::MIN as f64 && value < i64::MAX as f64 => Ok(value as i64),
+                true => Err(LunifyError::IntegerOverflow),
                 false => Err(LunifyError::FloatPrecisionLoss),
             },
         }
@@ -22,7 +24,7 @@ impl Number {
     pub(crate) fn as_float(self) -> Result<f64, LunifyError> {
         match self {
             Number::Float(value) => Ok(value),
-            Number::Integer(value) => match value < f64::MAX as i64 {
+            Number::Integer(value) => match value as f64 as i128 == value as i128 {
                 true => Ok(value as f64),
                 false => Err(LunifyError::IntegerOverflow),
             },
diff --git a/src/serialization/writer.rs b/src/serialization/writer.rs
index 67ad6a7..826f89e 100644
--- a/src/serialization/writer.rs
+++ b/src/serialization/writer.rs
@@ -43,8 +43,21 @@ impl<'a> ByteWriter<'a> {
 
     pub fn number(&mut self, value: Number) -> Result<(), LunifyError> {
         match self.format.is_number_integral {
-            true => to_slice!(self, value.as_integer()?, number_width, i32),
-            false => to_slice!(self, value.as_float()?, number_width, f32),
+            true => {
+                let integer = value.as_integer()?;
+                check_width(integer, self.format.number_width)?;
+                to_slice!(self, integer, number_width, i32);
+            }
+            false => {
+                let float = value.as_float()?;
+
+                // Floating point numbers may be rounded, but integers have to keep their value.
+                if self.format.number_width == BitWidth::Bit32 && matches!(value, Number::Integer(_)) && float as f32 as f64 != float {
+                    return Err(LunifyError::IntegerOverflow);
+                }
+
+                to_slice!(self, float, number_width, f32);
+            }
         }
         Ok(())
     }
-- 
2.43.0


From e5dfdb61bfbcbb247bcf5decdc4622d5e9710dd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:50 +0000
Subject: [PATCH 11/23] fix: keep instructions of functions without line info

---
 src/function/convert.rs | 14 ++++++++++++--
 src/function/upcast.rs  | 14 ++++++++++++--
 2 files changed, 24 insertions(+), 4 deletions(-)

diff --git a/src/function/convert.rs b/src/function/convert.rs
index d2e5edd..2723796 100644
--- a/src/function/convert.rs
+++ b/src/function/convert.rs
@@ -16,7 +16,12 @@ pub(crate) fn convert(
 
     let mut builder = FunctionBuilder::default();
 
-    for (instruction, line_number) in instructions.into_iter().zip(line_info) {
+    // The line info might have been stripped, in which case the output won't have
+    // any either. That must not affect the instructions.
+    let is_stripped = line_info.is_empty();
+    let line_numbers = line_info.into_iter().chain(std::iter::repeat(0));
+
+    for (instruction, line_number) in instructions.into_iter().zip(line_numbers) {
         #[cfg(feature = "debug")]
         println!("[{}] {:?}", builder.get_program_counter(), instruction);
 
@@ -104,7 +109,12 @@ pub(crate) fn convert(
         };
     }
 
-    builder.finalize(maximum_stack_size, settings)
+    let (instructions, line_info) = builder.finalize(maximum_stack_size, settings)?;
+
+    match is_stripped {
+        true => Ok((instructions, Vec::new())),
+        false => Ok((instructions, line_info)),
+    }
 }
 
 #[cfg(test)]
diff --git a/src/function/upcast.rs b/src/function/upcast.rs
index f716b3c..bce4d36 100644
--- a/src/function/upcast.rs
+++ b/src/function/upcast.rs
@@ -15,7 +15,12 @@ pub(crate) fn upcast(
     let mut builder = FunctionBuilder::default();
     let mut constant_manager = ConstantManager { constants };
 
-    for (instruction, line_number) in instructions.into_iter().zip(line_info) {
+    // The line info might have been stripped, in which case the output won't have
+    // any either. That must not affect the instructions.
+    let is_stripped = line_info.is_empty();
+    let line_numbers = line_info.into_iter().chain(std::iter::repeat(0));
+
+    for (instruction, line_number) in instructions.into_iter().zip(line_numbers) {
         builder.set_line_number(line_number);
 
         match instruction {
@@ -354,7 +359,12 @@ pub(crate) fn upcast(
         });
     }
 
-    builder.finalize(maximum_stack_size, settings)
+    let (instructions, line_info) = builder.finalize(maximum_stack_size, settings)?;
+
+    match is_stripped {
+        true => Ok((instructions, Vec::new())),
+        false => Ok((instructions, line_info)),
+    }
 }
 
 #[cfg(test)]
-- 
2.43.0


From 8493ba533f2e897d8b2bbc9ad2e5e5c19b6a1920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:50 +0000
Subject: [PATCH 12/23] fix: convert variadic functions without instructions

---
 src/function/builder.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/function/builder.rs b/src/function/builder.rs
index 870b490..2bbf330 100644
--- a/src/function/builder.rs
+++ b/src/function/builder.rs
@@ -53,7 +53,8 @@ impl FunctionBuilder {
     }
 
     pub(super) fn insert_extra_instruction(&mut self, index: usize, instruction: Instruction) {
-        let line_number = self.line_info[index];
+        // There is no instruction at the index when inserting at the very end.
+        let line_number = self.line_info.get(index).copied().unwrap_or(self.line_number);
         self.contexts.insert(index, InstructionContext::new_extra(instruction));
         self.line_info.insert(index, line_number);
     }
-- 
2.43.0


From 4625c5d27db42904908aafa2445747c9d3f57eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:07 +0000
Subject: [PATCH 13/23] fix: report stack sizes that the byte code cannot hold

---
 src/function/builder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/function/builder.rs b/src/function/builder.rs
index 2bbf330..d01ac4f 100644
--- a/src/function/builder.rs
+++ b/src/function/builder.rs
@@ -131,7 +131,7 @@ impl FunctionBuilder {
             // stack, the stack will never overflow.
             if let Some(destination) = self.contexts[context_index].instruction.stack_destination() {
                 let new_stack_size = destination.end + 1;
-                match new_stack_size <= settings.output.stack_limit {
+                match new_stack_size <= settings.output.stack_limit.min(u8::MAX as u64) {
                     true => *maximum_stack_size = (*maximum_stack_size).max(new_stack_size as u8),
                     false => return Err(LunifyError::StackTooLarge(new_stack_size)),
                 }
-- 
2.43.0


From 1f4ecc095d890784229da5895f4467985ac9ea58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:08 +0000
Subject: [PATCH 14/23] fix: get the registers that calls, varargs and generic
 for loops write right

---
 src/function/instruction/lua51.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/function/instruction/lua51.rs b/src/function/instruction/lua51.rs
index 80693b7..c6916c5 100644
--- a/src/function/instruction/lua51.rs
+++ b/src/function/instruction/lua51.rs
@@ -131,16 +131,18 @@ impl Instruction {
             Instruction::LessEquals { .. } => None,
             Instruction::Test { .. } => None,
             Instruction::TestSet { a, .. } => Some(a..a),
-            Instruction::Call { a, mode: BC(_, c) } => Some(a..a + c.0 - 1),
+            // C is the number of results plus one, or zero for a variable number of results.
+            Instruction::Call { a, mode: BC(_, c) } => Some(a..(a + c.0).saturating_sub(2).max(a)),
             Instruction::TailCall { .. } => None,
             Instruction::Return { .. } => None,
             Instruction::ForLoop { a, .. } => Some(a..a + 3),
             Instruction::ForPrep { a, .. } => Some(a..a + 2),
-            Instruction::TForLoop { a, mode: BC(_, c) } => Some(a..a + 2 + c.0),
+            // The call to the iterator function always uses three values above A+2.
+            Instruction::TForLoop { a, mode: BC(_, c) } => Some(a..a + 2 + c.0.max(3)),
             Instruction::SetList { a, .. } => Some(a..a),
             Instruction::Close { .. } => None,
             Instruction::Closure { a, .. } => Some(a..a),
-            Instruction::VarArg { a, mode: BC(b, _) } => Some(a..a.max((a + b.0).saturating_sub(1))),
+            Instruction::VarArg { a, mode: BC(b, _) } => Some(a..(a + b.0).saturating_sub(2).max(a)),
         }
     }
 }
-- 
2.43.0


From c5da906b82e55f40e1f8ec85a296dec2d9ca86d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:32 +0000
Subject: [PATCH 15/23] fix: keep jumps to removed instructions and outside of
 the function in place

---
 src/function/builder.rs | 33 ++++++++++++++++++++-------------
 1 file changed, 20 insertions(+), 13 deletions(-)

diff --git a/src/function/builder.rs b/src/function/builder.rs
index d01ac4f..1e4c2a5 100644
--- a/src/function/builder.rs
+++ b/src/function/builder.rs
@@ -81,25 +81,32 @@ impl FunctionBuilder {
         self.contexts.len()
     }
 
-    fn jump_destination(&self, context_index: usize, mut destination: i64, final_offset: i64) -> i64 {
-        let (mut steps, mut offset) = match destination.is_positive() {
-            true => (destination + 1, 1),
-            false => (destination.abs(), 0),
+    fn jump_destination(&self, context_index: usize, destination: i64, final_offset: i64) -> i64 {
+        // Number of instructions in the original code between the jump and its
+        // destination. Jumping forward, we start at the instruction following the jump.
+        let (mut steps, mut index, direction) = match destination.is_negative() {
+            true => (destination.saturating_neg(), context_index as i64, -1),
+            false => (destination + 1, context_index as i64 + 1, 1),
         };
 
-        while steps != 0 {
-            let index = match destination.is_positive() {
-                true => context_index + offset,
-                false => context_index - offset,
+        loop {
+            // Outside of the function there are no added or removed instructions.
+            let Some(context) = usize::try_from(index).ok().and_then(|index| self.contexts.get(index)) else {
+                index += (steps - 1) * direction;
+                break;
             };
-            let context = self.contexts[index];
 
-            destination += context.line_weight * destination.signum();
-            steps += context.line_weight - 1;
-            offset += 1;
+            // The destination might be an instruction that was removed, in which case
+            // we end up on the instruction following it.
+            steps -= 1 - context.line_weight;
+            if steps <= 0 {
+                break;
+            }
+
+            index += direction;
         }
 
-        destination + final_offset
+        index - context_index as i64 - 1 + final_offset
     }
 
     pub(super) fn adjusted_jump_destination(&self, bx: i64) -> Result<usize, LunifyError> {
-- 
2.43.0


From 3ef56c25c7c5822774e322c8494e89096195f70f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:52 +0000
Subject: [PATCH 16/23] fix: reject for loops that jump nowhere or out of the
 function

---
 src/error.rs            | 3 +++
 src/function/builder.rs | 5 +++--
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/error.rs b/src/error.rs
index 801baca..dc293b3 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -56,4 +56,7 @@ pub enum LunifyError {
     /// The Lua 5.0 `FORLOOP` instruction specified a positive jump, even though
     /// we expect it to always be negative.
     UnexpectedForwardJump,
+    /// The Lua 5.0 `FORLOOP` instruction specified a jump to before the start of
+    /// the function.
+    InvalidJumpDestination(i64),
 }
diff --git a/src/function/builder.rs b/src/function/builder.rs
index 1e4c2a5..42eff80 100644
--- a/src/function/builder.rs
+++ b/src/function/builder.rs
@@ -110,14 +110,15 @@ impl FunctionBuilder {
     }
 
     pub(super) fn adjusted_jump_destination(&self, bx: i64) -> Result<usize, LunifyError> {
-        if bx.is_positive() {
+        // A jump of zero leads to the instruction following the jump.
+        if !bx.is_negative() {
             return Err(LunifyError::UnexpectedForwardJump);
         }
 
         let program_counter = self.get_program_counter();
         let new_bx = self.jump_destination(program_counter - 1, bx, 0);
 
-        Ok(((program_counter as i64) + new_bx) as usize)
+        usize::try_from((program_counter as i64) + new_bx).map_err(|_| LunifyError::InvalidJumpDestination(bx))
     }
 
     pub(super) fn finalize(
-- 
2.43.0


From 060d40f557afb0b5b337181fc66c6c3a315ab524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:53 +0000
Subject: [PATCH 17/23] fix: report generic for loops with too many variables
 before expanding them

---
 src/function/upcast.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/function/upcast.rs b/src/function/upcast.rs
index bce4d36..7d11955 100644
--- a/src/function/upcast.rs
+++ b/src/function/upcast.rs
@@ -112,6 +112,14 @@ pub(crate) fn upcast(
 
                     let variable_count = c.0 + 1;
                     let call_base = a + variable_count + 2;
+
+                    // Don't generate a move for every variable if they can't be on the stack
+                    // anyway.
+                    let stack_size = call_base + variable_count.max(3);
+                    if stack_size > settings.output.stack_limit.min(u8::MAX as u64) {
+                        return Err(LunifyError::StackTooLarge(stack_size));
+                    }
+
                     let constant_nil = constant_manager.constant_nil();
 
                     // Move the iterator function, the table and the index to our call base.
-- 
2.43.0


From f0cae9457e98c654de197beea0a6bd945dd7d8ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:58 +0000
Subject: [PATCH 18/23] fix: keep table constructors intact when the flush
 sizes differ

---
 src/error.rs            |   3 +
 src/function/builder.rs | 149 ++++++++++++++++++++++++++++++++++++++--
 src/function/convert.rs |  85 +++--------------------
 src/function/upcast.rs  |  80 +++------------------
 4 files changed, 167 insertions(+), 150 deletions(-)

diff --git a/src/error.rs b/src/error.rs
index dc293b3..6bd5009 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -59,4 +59,7 @@ pub enum LunifyError {
     /// The Lua 5.0 `FORLOOP` instruction specified a jump to before the start of
     /// the function.
     InvalidJumpDestination(i64),
+    /// The byte code stores elements in a table that are not at the position
+    /// following the elements that were stored before.
+    UnexpectedSetList,
 }
diff --git a/src/function/builder.rs b/src/function/builder.rs
index 42eff80..2a54917 100644
--- a/src/function/builder.rs
+++ b/src/function/builder.rs
@@ -1,3 +1,4 @@
+use super::instruction::{Generic, LuaInstruction, Register, BC};
 use super::Settings;
 use crate::lua51::Instruction;
 use crate::LunifyError;
@@ -59,6 +60,150 @@ impl FunctionBuilder {
         self.line_info.insert(index, line_number);
     }
 
+    /// Insert an extra instruction that will also be executed by every jump to
+    /// the instruction that is currently at the index.
+    fn insert_leading_instruction(&mut self, index: usize, instruction: Instruction) {
+        self.insert_extra_instruction(index, instruction);
+
+        let line_weight = self.contexts[index].line_weight;
+        self.contexts[index].line_weight = self.contexts[index + 1].line_weight;
+        self.contexts[index + 1].line_weight = line_weight;
+    }
+
+    /// Append a `SETLIST` instruction that stores the values on the stack above
+    /// `a` in a table that already has `base` elements. If there is no count,
+    /// all values up to the top of the stack are stored.
+    ///
+    /// Lua 5.1 can only start to store elements at a multiple of
+    /// `fields_per_flush`, so this might change the preceding instructions to
+    /// store the elements in different portions than they did before.
+    pub(super) fn set_list(&mut self, a: u64, base: u64, count: Option<u64>, fields_per_flush: u64) -> Result<(), LunifyError> {
+        let final_index = self.contexts.len();
+
+        // Number of values on the stack, not including the values of the last expression if there
+        // can be any number of them.
+        let value_count = match (count, self.contexts.last().map(|context| context.instruction)) {
+            (Some(count), _) => count,
+            (None, Some(Instruction::Call { a: position, .. } | Instruction::VarArg { a: position, .. })) => position.saturating_sub(a + 1),
+            (None, _) => 0,
+        };
+
+        let stack_size = a.saturating_add(value_count).saturating_add(1);
+        if stack_size > u8::MAX as u64 {
+            return Err(LunifyError::StackTooLarge(stack_size));
+        }
+
+        if base > i64::MAX as u64 {
+            return Err(LunifyError::ValueTooBigForOperand);
+        }
+
+        // Number of elements that have to be stored along with the elements on the stack, and the
+        // number of times we need to store elements before the final instruction.
+        let offset = base % fields_per_flush;
+        let flush_count = match count {
+            Some(..) => (offset + value_count).saturating_sub(1) / fields_per_flush,
+            None => (offset + value_count) / fields_per_flush,
+        };
+        let page = base / fields_per_flush + 1;
+
+        self.instruction(Instruction::SetList {
+            a,
+            mode: BC(
+                Generic(count.map_or(0, |_| offset + value_count - flush_count * fields_per_flush)),
+                Generic(page + flush_count),
+            ),
+        });
+
+        // Good case: there are no elements left from before and all new ones can be stored at once,
+        // so we don't need any modification to the previous code.
+        if offset == 0 && flush_count == 0 {
+            return Ok(());
+        }
+
+        // Find the start of the instructions that put the values on the stack.
+        let (mut index, mut final_index) = (self.constructor_start(a, final_index), final_index);
+
+        if offset != 0 {
+            // The elements left from before are the ones stored by the preceding `SETLIST`
+            // instruction. Instead of storing them there, we leave them on the stack.
+            match index.checked_sub(1).map(|previous_index| self.contexts[previous_index].instruction) {
+                Some(Instruction::SetList { a: position, mode }) if position == a && mode == BC(Generic(offset), Generic(page)) => {
+                    self.remove_instruction(index - 1);
+                    index -= 1;
+                    final_index -= 1;
+                }
+                _ => return Err(LunifyError::UnexpectedSetList),
+            }
+
+            // Go back up the stack and make space for them.
+            for context in &mut self.contexts[index..final_index] {
+                context.instruction.move_stack_accesses(a + 1, offset as i64);
+            }
+        }
+
+        for flush_index in 0..flush_count {
+            let last_position = a + fields_per_flush;
+
+            // Find the last instruction before all values we want to store are on the stack.
+            let is_last = |context: &InstructionContext| {
+                matches!(context.instruction.stack_destination(), Some(destination) if destination.start > a && destination.start <= last_position)
+            };
+            if let Some(last_index) = self.contexts[index..final_index].iter().rposition(is_last) {
+                index += last_index + 1;
+            }
+
+            match index.checked_sub(1).map(|last_index| &mut self.contexts[last_index].instruction) {
+                // The upvalues of a closure are specified by pseudo instructions following it.
+                Some(Instruction::Closure { .. }) => {
+                    let is_upvalue = |instruction: Instruction| matches!(instruction, Instruction::Move { a: 0, .. } | Instruction::GetUpValue { a: 0, .. });
+                    while index < final_index && is_upvalue(self.contexts[index].instruction) {
+                        index += 1;
+                    }
+                }
+                // If the value is followed by other nil values they are set by the same instruction.
+                Some(Instruction::LoadNil {
+                    a: first_position,
+                    mode: BC(Register(position), unused),
+                }) if *first_position > a && *first_position <= last_position && *position > last_position => {
+                    let mode = BC(Register(*position), *unused);
+                    *position = last_position;
+
+                    self.insert_extra_instruction(index, Instruction::LoadNil { a: last_position + 1, mode });
+                    final_index += 1;
+                }
+                _ => {}
+            }
+
+            self.insert_leading_instruction(index, Instruction::SetList {
+                a,
+                mode: BC(Generic(fields_per_flush), Generic(page + flush_index)),
+            });
+            index += 1;
+            final_index += 1;
+
+            for context in &mut self.contexts[index..final_index] {
+                context.instruction.move_stack_accesses(last_position + 1, -(fields_per_flush as i64));
+            }
+        }
+
+        Ok(())
+    }
+
+    /// Get the index of the first instruction that is part of the table
+    /// constructor at stack position `a` and comes after the table was created
+    /// or the last elements were stored.
+    fn constructor_start(&self, a: u64, end_index: usize) -> usize {
+        let is_start = |context: &InstructionContext| match context.instruction {
+            // Instructions that set a field of the table.
+            Instruction::SetTable { .. } => false,
+            // Pseudo instructions that specify the upvalues of a closure.
+            Instruction::Move { .. } | Instruction::GetUpValue { .. } => false,
+            instruction => matches!(instruction.stack_destination(), Some(destination) if destination.start == a),
+        };
+
+        self.contexts[..end_index].iter().rposition(is_start).map_or(0, |index| index + 1)
+    }
+
     pub(super) fn remove_instruction(&mut self, index: usize) {
         let removed = self.contexts.remove(index);
         self.line_info.remove(index);
@@ -73,10 +218,6 @@ impl FunctionBuilder {
         self.contexts.last_mut().unwrap().final_offset = final_offset;
     }
 
-    pub(super) fn get_instruction(&mut self, index: usize) -> &mut Instruction {
-        &mut self.contexts[index].instruction
-    }
-
     pub(super) fn get_program_counter(&self) -> usize {
         self.contexts.len()
     }
diff --git a/src/function/convert.rs b/src/function/convert.rs
index 2723796..0990eb7 100644
--- a/src/function/convert.rs
+++ b/src/function/convert.rs
@@ -1,5 +1,5 @@
 use super::builder::FunctionBuilder;
-use crate::function::instruction::{Generic, LuaInstruction, BC};
+use crate::function::instruction::BC;
 use crate::{lua51, LunifyError, Settings};
 
 pub(crate) fn convert(
@@ -29,81 +29,18 @@ pub(crate) fn convert(
 
         match instruction {
             lua51::Instruction::SetList { a, mode: BC(b, c) } => {
-                let flat_index = b.0 + (settings.lua51.fields_per_flush * (c.0 - 1));
-                let page = flat_index / settings.output.fields_per_flush;
-                let offset = flat_index % settings.output.fields_per_flush;
-
-                // If b was 0 before, we need to keep it that way.
-                let b = match b.0 {
-                    0 => 0,
-                    _ => offset,
+                // Number of elements already stored in the table. A c of 0 means that the actual
+                // value is too big for the operand and follows the instruction.
+                let base = c.0.checked_sub(1).and_then(|page| page.checked_mul(settings.lua51.fields_per_flush));
+                let base = base.ok_or(LunifyError::ValueTooBigForOperand)?;
+
+                // All values on the stack are stored when b is equal to zero.
+                let count = match b.0 {
+                    0 => None,
+                    count => Some(count),
                 };
 
-                // Good case: we are on the first page and the number of entries is smaller than
-                // either `LFIELDS_PER_FLUSH`, meaning we can just insert a `SETLIST`
-                // instruction without any modification to the previous code.
-                if page == 0 && flat_index <= u64::min(settings.lua51.fields_per_flush, settings.output.fields_per_flush) {
-                    builder.instruction(lua51::Instruction::SetList {
-                        a,
-                        mode: BC(Generic(b), Generic(1)),
-                    });
-                    continue;
-                }
-
-                // Go back until we find some instruction that moves data to a stack position
-                // that is the same as our A, because that is where the setup starts.
-                for instruction_index in (0..(builder.get_program_counter() - 1)).rev() {
-                    let instruction = builder.get_instruction(instruction_index);
-
-                    // It might technically be possible for the element on slot A to be on the stack
-                    // already before any instructions if it is a parameter to a function call. So
-                    // we make sure that at least the first instruction will always match.
-                    // I am unsure that code like this can actually be emitted by the Lua compiler,
-                    // because any assignment of a table should start with a `NEWTABLE` instruction,
-                    // but better safe than sorry.
-                    if matches!(instruction.stack_destination(), Some(destination) if destination.start == a) || instruction_index == 0 {
-                        // Should either be `NEWTABLE` or `SETLIST`.
-                        if let lua51::Instruction::SetList { mode: BC(b, c), .. } = *instruction {
-                            let mut offset = b.0 as i64;
-                            let mut page = c.0;
-
-                            // Remove the `SETLIST` instruction.
-                            builder.remove_instruction(instruction_index);
-
-                            // Go back up the stack and update the stack positions.
-                            let mut instruction_index = instruction_index;
-                            while instruction_index < builder.get_program_counter() {
-                                let instruction = builder.get_instruction(instruction_index);
-
-                                if let Some(stack_destination) = instruction.stack_destination() {
-                                    if offset + stack_destination.start as i64 - 1 == (a + settings.output.fields_per_flush) as i64 {
-                                        // Add a new `SETLIST` instruction.
-                                        builder.insert_extra_instruction(instruction_index, lua51::Instruction::SetList {
-                                            a,
-                                            mode: BC(Generic(settings.output.fields_per_flush), Generic(page)),
-                                        });
-
-                                        offset -= settings.output.fields_per_flush as i64;
-                                        page += 1;
-                                        instruction_index += 1;
-                                        continue;
-                                    }
-                                }
-
-                                builder.get_instruction(instruction_index).move_stack_accesses(a, offset);
-                                instruction_index += 1;
-                            }
-                        }
-
-                        break;
-                    }
-                }
-
-                // Append the original instruction.
-                builder.instruction(lua51::Instruction::SetList {
-                    a,
-                    mode: BC(Generic(b), Generic(page + 1)),
-                });
+                builder.set_list(a, base, count, settings.output.fields_per_flush)?;
             }
             instruction => builder.instruction(instruction),
         };
diff --git a/src/function/upcast.rs b/src/function/upcast.rs
index 7d11955..4256550 100644
--- a/src/function/upcast.rs
+++ b/src/function/upcast.rs
@@ -1,6 +1,6 @@
 use super::builder::FunctionBuilder;
 use super::constant::{Constant, ConstantManager};
-use super::instruction::{lua50, lua51, Bx, ConstantRegister, Generic, LuaInstruction, Register, Settings, SignedBx, Unused, BC};
+use super::instruction::{lua50, lua51, Bx, ConstantRegister, Generic, Register, Settings, SignedBx, Unused, BC};
 use crate::LunifyError;
 
 pub(crate) fn upcast(
@@ -248,82 +248,18 @@ pub(crate) fn upcast(
                 builder.extra_instruction(lua51::Instruction::Jump { a, mode });
             }
             lua50::Instruction::SetList { a, mode: Bx(bx) } | lua50::Instruction::SetListO { a, mode: Bx(bx) } => {
-                let flat_index = bx + 1;
-                let page = flat_index / settings.output.fields_per_flush;
-                let offset = flat_index % settings.output.fields_per_flush;
+                // Number of elements already stored in the table.
+                let offset = bx % settings.lua50.fields_per_flush;
+                let base = bx - offset;
 
                 // In Lua 5.1 `SETLISTO` and `SETLIST` became a single instruction. The behavior
                 // of `SETLISTO` is used when b is equal to zero.
-                let b = match matches!(instruction, lua50::Instruction::SetListO { .. }) {
-                    true => 0,
-                    false => offset,
+                let count = match matches!(instruction, lua50::Instruction::SetListO { .. }) {
+                    true => None,
+                    false => Some(offset + 1),
                 };
 
-                // Good case: we are on the first page and the number of entries is smaller than
-                // either `LFIELDS_PER_FLUSH`, meaning we can just insert a `SETLIST`
-                // instruction without any modification to the previous code.
-                if page == 0 && flat_index <= u64::min(settings.lua50.fields_per_flush, settings.output.fields_per_flush) {
-                    builder.instruction(lua51::Instruction::SetList {
-                        a,
-                        mode: BC(Generic(b), Generic(1)),
-                    });
-                    continue;
-                }
-
-                // Go back until we find some instruction that moves data to a stack position
-                // that is the same as our A, because that is where the setup starts.
-                for instruction_index in (0..(builder.get_program_counter() - 1)).rev() {
-                    let instruction = builder.get_instruction(instruction_index);
-
-                    // It might technically be possible for the element on slot A to be on the stack
-                    // already before any instructions if it is a parameter to a function call. So
-                    // we make sure that at least the first instruction will always match.
-                    // I am unsure that code like this can actually be emitted by the Lua compiler,
-                    // because any assignment of a table should start with a `NEWTABLE` instruction,
-                    // but better safe than sorry.
-                    if matches!(instruction.stack_destination(), Some(destination) if destination.start == a) || instruction_index == 0 {
-                        // Should either be `NEWTABLE` or `SETLIST`.
-                        if let lua51::Instruction::SetList { mode: BC(b, c), .. } = *instruction {
-                            let mut offset = b.0 as i64;
-                            let mut page = c.0;
-
-                            // Remove the `SETLIST` instruction.
-                            builder.remove_instruction(instruction_index);
-
-                            // Go back up the stack and update the stack positions.
-                            let mut instruction_index = instruction_index;
-                            while instruction_index < builder.get_program_counter() {
-                                let instruction = builder.get_instruction(instruction_index);
-
-                                if let Some(stack_destination) = instruction.stack_destination() {
-                                    if offset + stack_destination.start as i64 - 1 == (a + settings.output.fields_per_flush) as i64 {
-                                        // Add a new `SETLIST` instruction.
-                                        builder.insert_extra_instruction(instruction_index, lua51::Instruction::SetList {
-                                            a,
-                                            mode: BC(Generic(settings.output.fields_per_flush), Generic(page)),
-                                        });
-
-                                        offset -= settings.output.fields_per_flush as i64;
-                                        page += 1;
-                                        instruction_index += 1;
-                                        continue;
-                                    }
-                                }
-
-                                builder.get_instruction(instruction_index).move_stack_accesses(a, offset);
-                                instruction_index += 1;
-                            }
-                        }
-
-                        break;
-                    }
-                }
-
-                // Append the original instruction.
-                builder.instruction(lua51::Instruction::SetList {
-                    a,
-                    mode: BC(Generic(b), Generic(page + 1)),
-                });
+                builder.set_list(a, base, count, settings.output.fields_per_flush)?;
             }
             lua50::Instruction::Close { a, mode } => builder.instruction(lua51::Instruction::Close { a, mode }),
             lua50::Instruction::Closure { a, mode } => builder.instruction(lua51::Instruction::Closure { a, mode }),
-- 
2.43.0


From 965693bb58feb56be3d78d787f3bb029dee6c498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:18 +0000
Subject: [PATCH 19/23] fix: reject functions that are nested too deep instead
 of overflowing the stack

---
 src/error.rs        |  3 +++
 src/function/mod.rs | 21 +++++++++++++++++----
 2 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/error.rs b/src/error.rs
index 6bd5009..b0f1d5a 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -62,4 +62,7 @@ pub enum LunifyError {
     /// The byte code stores elements in a table that are not at the position
     /// following the elements that were stored before.
     UnexpectedSetList,
+    /// The functions in the byte code are nested deeper than the Lua compiler
+    /// allows.
+    FunctionsNestedTooDeep,
 }
diff --git a/src/function/mod.rs b/src/function/mod.rs
index 759a02c..ebaf2e8 100644
--- a/src/function/mod.rs
+++ b/src/function/mod.rs
@@ -17,6 +17,11 @@ use crate::format::LuaVersion;
 use crate::serialization::{ByteStream, ByteWriter};
 use crate::LunifyError;
 
+/// Maximum number of functions that a function can be nested in. The Lua
+/// compiler doesn't allow more than 200 nested syntactical levels
+/// (`LUAI_MAXCCALLS`).
+const MAXIMUM_FUNCTION_DEPTH: usize = 200;
+
 pub(crate) struct Function {
     source_file: String,
     line_defined: i64,
@@ -114,7 +119,7 @@ impl Function {
         Ok(constants)
     }
 
-    fn get_functions(byte_stream: &mut ByteStream, version: LuaVersion, settings: &Settings) -> Result<Vec<Function>, LunifyError> {
+    fn get_functions(byte_stream: &mut ByteStream, version: LuaVersion, settings: &Settings, depth: usize) -> Result<Vec<Function>, LunifyError> {
         let function_count = byte_stream.integer()?;
         let mut functions = Vec::new();
 
@@ -122,7 +127,7 @@ impl Function {
         println!("\nfunction_count: {function_count}");
 
         for _index in 0..function_count as usize {
-            let function = Function::from_byte_stream(byte_stream, version, settings)?;
+            let function = Function::from_byte_stream_nested(byte_stream, version, settings, depth + 1)?;
             functions.push(function);
         }
 
@@ -198,6 +203,14 @@ impl Function {
     }
 
     pub(crate) fn from_byte_stream(byte_stream: &mut ByteStream, version: LuaVersion, settings: &Settings) -> Result<Self, LunifyError> {
+        Self::from_byte_stream_nested(byte_stream, version, settings, 0)
+    }
+
+    fn from_byte_stream_nested(byte_stream: &mut ByteStream, version: LuaVersion, settings: &Settings, depth: usize) -> Result<Self, LunifyError> {
+        if depth > MAXIMUM_FUNCTION_DEPTH {
+            return Err(LunifyError::FunctionsNestedTooDeep);
+        }
+
         let source_file = byte_stream.string()?;
         let line_defined = byte_stream.integer()?;
 
@@ -226,7 +239,7 @@ impl Function {
         let (instructions, constants, functions, line_info, local_variables, upvalues) = if version == LuaVersion::Lua51 {
             let instructions = Self::get_instructions(byte_stream, settings, &settings.lua51.layout)?;
             let constants = Self::get_constants(byte_stream)?;
-            let functions = Self::get_functions(byte_stream, version, settings)?;
+            let functions = Self::get_functions(byte_stream, version, settings, depth)?;
             let line_info = Self::get_line_info(byte_stream)?;
             let local_variables = Self::get_local_variables(byte_stream)?;
             let upvalues = Self::get_upvalues(byte_stream)?;
@@ -242,7 +255,7 @@ impl Function {
             let local_variables = Self::get_local_variables(byte_stream)?;
             let upvalues = Self::get_upvalues(byte_stream)?;
             let mut constants = Self::get_constants(byte_stream)?;
-            let functions = Self::get_functions(byte_stream, version, settings)?;
+            let functions = Self::get_functions(byte_stream, version, settings, depth)?;
             let instructions = Self::get_instructions(byte_stream, settings, &settings.lua50.layout)?;
 
             if is_variadic != 0 {
-- 
2.43.0


From 18f64eb928cc23e02e1447ae0e79fd305ea555c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:05 +0000
Subject: [PATCH 20/23] fix: keep local variable records in line with the
 converted instructions

---
 src/function/builder.rs | 51 +++++++++++++++++++++++++++++++++++++++--
 src/function/convert.rs | 15 ++++++------
 src/function/mod.rs     | 24 ++++++++++++++-----
 src/function/upcast.rs  | 13 ++++++-----
 4 files changed, 82 insertions(+), 21 deletions(-)

diff --git a/src/function/builder.rs b/src/function/builder.rs
index 2a54917..4a1ec74 100644
--- a/src/function/builder.rs
+++ b/src/function/builder.rs
@@ -31,6 +31,39 @@ impl InstructionContext {
     }
 }
 
+/// Debug information about the instructions created by a [`FunctionBuilder`].
+#[derive(Debug, PartialEq, Eq)]
+pub(crate) struct DebugInfo {
+    pub(super) line_info: Vec<i64>,
+    /// New program counter for each of the original instructions.
+    program_counters: Vec<i64>,
+    /// Difference in the number of instructions.
+    growth: i64,
+}
+
+impl DebugInfo {
+    /// Debug information for instructions that were not changed.
+    pub(super) fn unchanged(line_info: Vec<i64>) -> Self {
+        Self {
+            line_info,
+            program_counters: Vec::new(),
+            growth: 0,
+        }
+    }
+
+    /// Get the program counter for a program counter in the original code.
+    pub(super) fn program_counter(&self, program_counter: i64) -> i64 {
+        match program_counter {
+            // Everything that is there from the beginning stays there from the beginning.
+            program_counter if program_counter <= 0 => program_counter,
+            program_counter => match self.program_counters.get(program_counter as usize) {
+                Some(program_counter) => *program_counter,
+                None => program_counter.saturating_add(self.growth),
+            },
+        }
+    }
+}
+
 #[derive(Default)]
 pub(super) struct FunctionBuilder {
     contexts: Vec<InstructionContext>,
@@ -266,7 +299,7 @@ impl FunctionBuilder {
         mut self,
         maximum_stack_size: &mut u8,
         settings: &Settings,
-    ) -> Result<(Vec<Instruction>, Vec<i64>), LunifyError> {
+    ) -> Result<(Vec<Instruction>, DebugInfo), LunifyError> {
         #[cfg(feature = "debug")]
         println!("\n======== Output ========");
 
@@ -317,8 +350,22 @@ impl FunctionBuilder {
             }
         }
 
+        // Every instruction stands for one of the original instructions unless it was added, plus
+        // the ones removed in front of it.
+        let program_counters: Vec<i64> = (0..)
+            .zip(&self.contexts)
+            .flat_map(|(index, context)| (context.line_weight..1).map(move |_| index))
+            .collect();
+        let growth = self.contexts.len() as i64 - program_counters.len() as i64;
+
         let instructions = self.contexts.into_iter().map(|context| context.instruction).collect();
-        Ok((instructions, self.line_info))
+        let debug_info = DebugInfo {
+            line_info: self.line_info,
+            program_counters,
+            growth,
+        };
+
+        Ok((instructions, debug_info))
     }
 }
 
diff --git a/src/function/convert.rs b/src/function/convert.rs
index 0990eb7..f69436c 100644
--- a/src/function/convert.rs
+++ b/src/function/convert.rs
@@ -1,4 +1,4 @@
-use super::builder::FunctionBuilder;
+use super::builder::{DebugInfo, FunctionBuilder};
 use crate::function::instruction::BC;
 use crate::{lua51, LunifyError, Settings};
 
@@ -7,11 +7,11 @@ pub(crate) fn convert(
     line_info: Vec<i64>,
     maximum_stack_size: &mut u8,
     settings: &Settings,
-) -> Result<(Vec<lua51::Instruction>, Vec<i64>), LunifyError> {
+) -> Result<(Vec<lua51::Instruction>, DebugInfo), LunifyError> {
     // If `fields_per_flush` is the same, there is nothing to convert, so return
     // early.
     if settings.lua51.fields_per_flush == settings.output.fields_per_flush {
-        return Ok((instructions, line_info));
+        return Ok((instructions, DebugInfo::unchanged(line_info)));
     }
 
     let mut builder = FunctionBuilder::default();
@@ -46,12 +46,13 @@ pub(crate) fn convert(
         };
     }
 
-    let (instructions, line_info) = builder.finalize(maximum_stack_size, settings)?;
+    let (instructions, mut debug_info) = builder.finalize(maximum_stack_size, settings)?;
 
-    match is_stripped {
-        true => Ok((instructions, Vec::new())),
-        false => Ok((instructions, line_info)),
+    if is_stripped {
+        debug_info.line_info.clear();
     }
+
+    Ok((instructions, debug_info))
 }
 
 #[cfg(test)]
diff --git a/src/function/mod.rs b/src/function/mod.rs
index ebaf2e8..244a2a5 100644
--- a/src/function/mod.rs
+++ b/src/function/mod.rs
@@ -7,6 +7,7 @@ mod upcast;
 
 use std::fmt::Debug;
 
+use self::builder::DebugInfo;
 use self::constant::Constant;
 use self::convert::convert;
 use self::instruction::LuaInstruction;
@@ -198,6 +199,15 @@ impl Function {
         Ok(upvalues)
     }
 
+    /// Make the local variables refer to the same instructions as before the
+    /// conversion.
+    fn adjust_local_variables(local_variables: &mut [LocalVariable], debug_info: &DebugInfo) {
+        for local_variable in local_variables {
+            local_variable.start_program_counter = debug_info.program_counter(local_variable.start_program_counter);
+            local_variable.end_program_counter = debug_info.program_counter(local_variable.end_program_counter);
+        }
+    }
+
     fn strip_instructions(instructions: Vec<impl LuaInstruction>, settings: &Settings) -> Result<Vec<u64>, LunifyError> {
         instructions.into_iter().map(|instruction| instruction.to_u64(settings)).collect()
     }
@@ -241,18 +251,19 @@ impl Function {
             let constants = Self::get_constants(byte_stream)?;
             let functions = Self::get_functions(byte_stream, version, settings, depth)?;
             let line_info = Self::get_line_info(byte_stream)?;
-            let local_variables = Self::get_local_variables(byte_stream)?;
+            let mut local_variables = Self::get_local_variables(byte_stream)?;
             let upvalues = Self::get_upvalues(byte_stream)?;
 
             // Convert from the input Lua 5.1 byte code to the desired output Lua 5.1
             // byte code.
-            let (instructions, line_info) = convert(instructions, line_info, &mut maximum_stack_size, settings)?;
+            let (instructions, debug_info) = convert(instructions, line_info, &mut maximum_stack_size, settings)?;
+            Self::adjust_local_variables(&mut local_variables, &debug_info);
             let instructions = Self::strip_instructions(instructions, settings)?;
 
-            (instructions, constants, functions, line_info, local_variables, upvalues)
+            (instructions, constants, functions, debug_info.line_info, local_variables, upvalues)
         } else {
             let line_info = Self::get_line_info(byte_stream)?;
-            let local_variables = Self::get_local_variables(byte_stream)?;
+            let mut local_variables = Self::get_local_variables(byte_stream)?;
             let upvalues = Self::get_upvalues(byte_stream)?;
             let mut constants = Self::get_constants(byte_stream)?;
             let functions = Self::get_functions(byte_stream, version, settings, depth)?;
@@ -265,7 +276,7 @@ impl Function {
             }
 
             // Up-cast instructions from Lua 5.0 to Lua 5.1.
-            let (instructions, line_info) = upcast(
+            let (instructions, debug_info) = upcast(
                 instructions,
                 line_info,
                 &mut constants,
@@ -274,10 +285,11 @@ impl Function {
                 is_variadic != 0,
                 settings,
             )?;
+            Self::adjust_local_variables(&mut local_variables, &debug_info);
 
             let instructions = Self::strip_instructions(instructions, settings)?;
 
-            (instructions, constants, functions, line_info, local_variables, upvalues)
+            (instructions, constants, functions, debug_info.line_info, local_variables, upvalues)
         };
 
         Ok(Self {
diff --git a/src/function/upcast.rs b/src/function/upcast.rs
index 4256550..1578da5 100644
--- a/src/function/upcast.rs
+++ b/src/function/upcast.rs
@@ -1,4 +1,4 @@
-use super::builder::FunctionBuilder;
+use super::builder::{DebugInfo, FunctionBuilder};
 use super::constant::{Constant, ConstantManager};
 use super::instruction::{lua50, lua51, Bx, ConstantRegister, Generic, Register, Settings, SignedBx, Unused, BC};
 use crate::LunifyError;
@@ -11,7 +11,7 @@ pub(crate) fn upcast(
     parameter_count: u8,
     is_variadic: bool,
     settings: &Settings,
-) -> Result<(Vec<lua51::Instruction>, Vec<i64>), LunifyError> {
+) -> Result<(Vec<lua51::Instruction>, DebugInfo), LunifyError> {
     let mut builder = FunctionBuilder::default();
     let mut constant_manager = ConstantManager { constants };
 
@@ -303,12 +303,13 @@ pub(crate) fn upcast(
         });
     }
 
-    let (instructions, line_info) = builder.finalize(maximum_stack_size, settings)?;
+    let (instructions, mut debug_info) = builder.finalize(maximum_stack_size, settings)?;
 
-    match is_stripped {
-        true => Ok((instructions, Vec::new())),
-        false => Ok((instructions, line_info)),
+    if is_stripped {
+        debug_info.line_info.clear();
     }
+
+    Ok((instructions, debug_info))
 }
 
 #[cfg(test)]
-- 
2.43.0


From 8c28af1f153c07e73817dc9a756fcbc7d196b14a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:25 +0000
Subject: [PATCH 21/23] fix: set the variable of generic for loops to nil at
 the end of the loop

---
 src/function/upcast.rs | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/function/upcast.rs b/src/function/upcast.rs
index 1578da5..3bb923b 100644
--- a/src/function/upcast.rs
+++ b/src/function/upcast.rs
@@ -20,8 +20,12 @@ pub(crate) fn upcast(
     let is_stripped = line_info.is_empty();
     let line_numbers = line_info.into_iter().chain(std::iter::repeat(0));
 
+    // Loop variable if the previous instruction was a directly mapped `TFORLOOP`.
+    let mut loop_variable = None;
+
     for (instruction, line_number) in instructions.into_iter().zip(line_numbers) {
         builder.set_line_number(line_number);
+        let previous_loop_variable = loop_variable.take();
 
         match instruction {
             lua50::Instruction::Move { a, mode } => builder.instruction(lua51::Instruction::Move { a, mode }),
@@ -44,7 +48,18 @@ pub(crate) fn upcast(
             lua50::Instruction::Unary { a, mode } => builder.instruction(lua51::Instruction::Unary { a, mode }),
             lua50::Instruction::Not { a, mode } => builder.instruction(lua51::Instruction::Not { a, mode }),
             lua50::Instruction::Concatinate { a, mode } => builder.instruction(lua51::Instruction::Concatinate { a, mode }),
-            lua50::Instruction::Jump { a, mode } => builder.instruction(lua51::Instruction::Jump { a, mode }),
+            lua50::Instruction::Jump { a, mode } => {
+                builder.instruction(lua51::Instruction::Jump { a, mode });
+
+                // The Lua 5.1 `TFORLOOP` skips this jump at the end of the loop without
+                // assigning nil to the loop variable, which closures can still refer to.
+                if let Some(a) = previous_loop_variable {
+                    builder.extra_instruction(lua51::Instruction::LoadNil {
+                        a,
+                        mode: BC(Register(a), Unused),
+                    });
+                }
+            }
             lua50::Instruction::Equals { a, mode } => builder.instruction(lua51::Instruction::Equals { a, mode }),
             lua50::Instruction::LessThan { a, mode } => builder.instruction(lua51::Instruction::LessThan { a, mode }),
             lua50::Instruction::LessEquals { a, mode } => builder.instruction(lua51::Instruction::LessEquals { a, mode }),
@@ -105,6 +120,7 @@ pub(crate) fn upcast(
                         a,
                         mode: BC(Unused, Generic(c.0 + 1)),
                     });
+                    loop_variable = Some(a + 2);
                 } else {
                     // In order to mimic the Lua 5.0 `TFORLOOP` instruction we can't insert `MOVE`
                     // instructions after the `TFORLOOP` jump like Lua 5.1 does, because that won't
-- 
2.43.0


From d4cbcd44e90d36735b17f9ac129184edb5aa0958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:46 +0000
Subject: [PATCH 22/23] fix: only set the flags of Lua 5.1 variadic functions
 for Lua 5.0 input

---
 src/function/mod.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/function/mod.rs b/src/function/mod.rs
index 244a2a5..f22d96f 100644
--- a/src/function/mod.rs
+++ b/src/function/mod.rs
@@ -271,8 +271,9 @@ impl Function {
 
             if is_variadic != 0 {
                 // Lua 5.1 uses an addition flag called `VARARG_ISVARARG` for variadic functions
-                // which we need to set, otherwise the function will be invalid.
-                is_variadic |= 2;
+                // which we need to set, otherwise the function will be invalid. In Lua 5.0 there is
+                // only a single flag, so any other bits must not be taken for Lua 5.1 flags.
+                is_variadic = 1 | 2;
             }
 
             // Up-cast instructions from Lua 5.0 to Lua 5.1.
-- 
2.43.0


From 56cb239392df0e12319104d4b0178e4d33f257ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:05 +0000
Subject: [PATCH 23/23] fix: read lengths and counts that exceed 32 bits the
 same on every machine

---
 src/function/builder.rs     |  2 +-
 src/function/mod.rs         | 12 ++++++------
 src/serialization/stream.rs |  4 +++-
 3 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/function/builder.rs b/src/function/builder.rs
index 4a1ec74..1b9da09 100644
--- a/src/function/builder.rs
+++ b/src/function/builder.rs
@@ -56,7 +56,7 @@ impl DebugInfo {
         match program_counter {
             // Everything that is there from the beginning stays there from the beginning.
             program_counter if program_counter <= 0 => program_counter,
-            program_counter => match self.program_counters.get(program_counter as usize) {
+            program_counter => match usize::try_from(program_counter).ok().and_then(|index| self.program_counters.get(index)) {
                 Some(program_counter) => *program_counter,
                 None => program_counter.saturating_add(self.growth),
             },
diff --git a/src/function/mod.rs b/src/function/mod.rs
index f22d96f..5c15d65 100644
--- a/src/function/mod.rs
+++ b/src/function/mod.rs
@@ -53,7 +53,7 @@ impl Function {
         #[cfg(feature = "debug")]
         println!("\n======== Instructions ========");
 
-        for _program_counter in 0..instruction_count as usize {
+        for _program_counter in 0..instruction_count as u64 {
             let instruction = T::from_byte_stream(byte_stream, settings, layout)?;
 
             #[cfg(feature = "debug")]
@@ -75,7 +75,7 @@ impl Function {
             println!("\n======== Constants ========");
         }
 
-        for _index in 0..constant_count as usize {
+        for _index in 0..constant_count as u64 {
             let constant_type = byte_stream.byte()?;
 
             match constant_type {
@@ -127,7 +127,7 @@ impl Function {
         #[cfg(feature = "debug")]
         println!("\nfunction_count: {function_count}");
 
-        for _index in 0..function_count as usize {
+        for _index in 0..function_count as u64 {
             let function = Function::from_byte_stream_nested(byte_stream, version, settings, depth + 1)?;
             functions.push(function);
         }
@@ -145,7 +145,7 @@ impl Function {
             println!("\n======== Local variables ========");
         }
 
-        for _index in 0..local_variable_count as usize {
+        for _index in 0..local_variable_count as u64 {
             let name = byte_stream.string()?;
             let start_program_counter = byte_stream.integer()?;
             let end_program_counter = byte_stream.integer()?;
@@ -172,7 +172,7 @@ impl Function {
         #[cfg(feature = "debug")]
         println!("line_info_count: {line_info_count}");
 
-        for _index in 0..line_info_count as usize {
+        for _index in 0..line_info_count as u64 {
             let line = byte_stream.integer()?;
             line_info.push(line);
         }
@@ -187,7 +187,7 @@ impl Function {
         #[cfg(feature = "debug")]
         println!("\nupvalue_count: {upvalue_count}");
 
-        for _index in 0..upvalue_count as usize {
+        for _index in 0..upvalue_count as u64 {
             let upvalue = byte_stream.string()?;
 
             #[cfg(feature = "debug")]
diff --git a/src/serialization/stream.rs b/src/serialization/stream.rs
index 415d672..fc654b9 100644
--- a/src/serialization/stream.rs
+++ b/src/serialization/stream.rs
@@ -98,7 +98,9 @@ impl<'a> ByteStream<'a> {
     }
 
     pub fn string(&mut self) -> Result<String, LunifyError> {
-        let length = self.size_t()? as usize;
+        // A length that this machine can not address is handled the same as any other
+        // length that is exceeding the available data.
+        let length = usize::try_from(self.size_t()? as u64).unwrap_or(usize::MAX);
         Ok(self.slice(length)?.iter().map(|&byte| byte as char).collect())
     }
 
-- 
2.43.0

