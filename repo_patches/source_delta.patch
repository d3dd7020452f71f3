From 2a7eb8cfac57a293bd1ac749a9d3695682114675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:03:30 +0000
Subject: [PATCH 1/4] fix: reject binary literals whose value overflows the
 accumulator

checked_shl only checks the shift amount, so the high bits of a literal
longer than 64 digits were silently lost and an out-of-range value was
accepted (e.g. %1 followed by 64 zeroes assembled as 0).
---
 src/assembler/scanner.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/assembler/scanner.rs b/src/assembler/scanner.rs
index 90f09d6..e1dba3d 100644
--- a/src/assembler/scanner.rs
+++ b/src/assembler/scanner.rs
@@ -103,7 +103,7 @@ fn parse_12_bit_bin_str<'a>(bin_str: &'a str) -> Result<usize, Error<'a>> {
     if result.is_err() {
       return result;
     } else {
-      accumulator = match accumulator.checked_shl(1) {
+      accumulator = match accumulator.checked_mul(2) {
         Some(shifted) =>
           shifted | result.unwrap(),
         None =>
-- 
2.43.0


From 7faf1768c3fa76e2c455cf95c7bf3d8d2b67705b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:04:01 +0000
Subject: [PATCH 2/4] fix: parse literal and field lists iteratively

Each list item recursed once, so a long (but valid) comma-separated list
exhausted the stack and aborted the assembler instead of producing output
or a diagnostic.
---
 src/assembler/parser.rs | 55 +++++++++++++++++++++++++----------------
 1 file changed, 34 insertions(+), 21 deletions(-)

diff --git a/src/assembler/parser.rs b/src/assembler/parser.rs
index 7dd872b..38724b6 100644
--- a/src/assembler/parser.rs
+++ b/src/assembler/parser.rs
@@ -286,24 +286,27 @@ impl<'a,I> Parser<'a,I> where I: Iterator<Item=Token<'a>> {
    @return A list of literals if successful, or an error.
    */
   fn parse_literal_list(&mut self, list: Vec<Literal<'a>>) -> Result<Vec<Literal<'a>>, Error<'a>> {
-    
-    // The literal list is complete.
-    if let Some(Token::Newline(_)) = self.current_token {
-      return Ok(list);
-    }
-
-    // Parse the literal and append it to the list.
-    let literal = try!(self.parse_literal());
     let mut result_list = list;
-    result_list.push(literal);
 
-    // A comma following the literal causes the rule to recurse.
-    if let Some(Token::Comma(_)) = self.current_token {
-      let _ = self.consume_token();
-      return self.parse_literal_list(result_list);
-    }
+    loop {
 
-    return Ok(result_list);
+      // The literal list is complete.
+      if let Some(Token::Newline(_)) = self.current_token {
+        return Ok(result_list);
+      }
+
+      // Parse the literal and append it to the list.
+      let literal = try!(self.parse_literal());
+      result_list.push(literal);
+
+      // A comma following the literal causes the rule to repeat.
+      if let Some(Token::Comma(_)) = self.current_token {
+        let _ = self.consume_token();
+      } else {
+        return Ok(result_list);
+      }
+
+    }
   }
 
   /**
@@ -356,10 +359,21 @@ impl<'a,I> Parser<'a,I> where I: Iterator<Item=Token<'a>> {
    @return A list of fields if successful, or an error.
    */
   fn parse_field_list(&mut self, list: Vec<InstructionField<'a>>) -> Result<Vec<InstructionField<'a>>, Error<'a>> {
+    let mut result_list = list;
+    while try!(self.parse_field_list_entry(&mut result_list)) {}
+    Ok(result_list)
+  }
+
+  /**
+   Parses and consumes one entry of an instruction field list, including any comma that follows it.
+   @param result_list The list to append the parsed field to.
+   @return Whether another entry is expected if successful, or an error.
+   */
+  fn parse_field_list_entry(&mut self, result_list: &mut Vec<InstructionField<'a>>) -> Result<bool, Error<'a>> {
 
     // The field list is complete on Newline or Single-Line Comment.
     match self.current_token {
-      Some(Token::Newline(_)) | Some(Token::SingleLineComment(_,_)) => return Ok(list),
+      Some(Token::Newline(_)) | Some(Token::SingleLineComment(_,_)) => return Ok(false),
       _ => {}
     }
 
@@ -416,17 +430,16 @@ impl<'a,I> Parser<'a,I> where I: Iterator<Item=Token<'a>> {
     };
 
     // Append the parsed field to the list.
-    let mut result_list = list;
     result_list.push(field);
 
-    // A comma following the field causes the rule to recurse.
+    // A comma following the field causes the rule to repeat.
     if let Some(Token::Comma(_)) = self.current_token {
       let _ = self.consume_token();
-      result_list = try!(self.parse_field_list(result_list));
+      return Ok(true);
     }
     
-    // Return the complete list.
-    Ok(result_list)
+    // The list is complete.
+    Ok(false)
   }
 
   /**
-- 
2.43.0


From fb921fe8564e14b564d474b398eb29471948bfc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:04:01 +0000
Subject: [PATCH 3/4] fix: accept the timer registers in any letter case

Register names are documented as case-insensitive, but Dt, dT, St and sT
were taken for labels and rejected.
---
 src/assembler/parser.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/assembler/parser.rs b/src/assembler/parser.rs
index 38724b6..35ae88a 100644
--- a/src/assembler/parser.rs
+++ b/src/assembler/parser.rs
@@ -391,8 +391,8 @@ impl<'a,I> Parser<'a,I> where I: Iterator<Item=Token<'a>> {
         let identifier_field = match id {
 
           // Match special-purpose registers.
-           "dt" | "DT"  => InstructionField::DelayTimer,
-           "st" | "ST"  => InstructionField::SoundTimer,
+           "dt" | "DT" | "dT" | "Dt" => InstructionField::DelayTimer,
+           "st" | "ST" | "sT" | "St" => InstructionField::SoundTimer,
             "i" | "I"   => InstructionField::IndexRegister,
           "[i]" | "[I]" => InstructionField::IndexRegisterIndirect,
             "k" | "K"   => InstructionField::KeypadRegister,
-- 
2.43.0


From a0be9c1e30c94b8f406f0d71b6b7efb3034ae7bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:51:20 +0000
Subject: [PATCH 4/4] fix: report program errors on stderr, so that a failed
 write to standard output exits with status 1

With -o - and a standard output that cannot be written (full device, closed
pipe), the diagnostic was printed to the same stream: println! panicked and
the process ended with status 101 and a backtrace instead of status 1.
---
 src/main.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index bd97d31..7b79835 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -163,7 +163,8 @@ fn main() {
   };
 
   // Execute the assembler, in the event of failure, log an error and exit.
+  // Errors go to stderr, as stdout may be the output which cannot be written.
   assemble_file(input_path, output_path, |reason| {
-    println!("{}: error: {}", program, reason);
+    eprintln!("{}: error: {}", program, reason);
   });
 }
-- 
2.43.0

