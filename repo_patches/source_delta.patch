From 42cdd51cfd476c761817300801bb7e05bb61fdbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:49 +0000
Subject: [PATCH 1/5] fix: keep counting indentation beyond 255 levels of
 nesting

---
 src/emv/authorisation_response_code.rs |  2 +-
 src/emv/bitflag_values.rs              |  2 +-
 src/emv/ccd/iad.rs                     |  2 +-
 src/emv/cvm_list.rs                    |  2 +-
 src/emv/iac/default.rs                 |  2 +-
 src/emv/iac/denial.rs                  |  2 +-
 src/emv/iac/online.rs                  |  2 +-
 src/emv/pos_entry_mode.rs              |  2 +-
 src/emv/tag_basic_info.rs              |  2 +-
 src/emv/terminal_type.rs               |  2 +-
 src/emv/tlv_parsing/mod.rs             | 10 +++++-----
 src/emv/transaction_type.rs            |  2 +-
 src/main.rs                            |  2 +-
 src/non_emv/service_code.rs            |  2 +-
 src/util.rs                            |  6 +++---
 15 files changed, 21 insertions(+), 21 deletions(-)

diff --git a/src/emv/authorisation_response_code.rs b/src/emv/authorisation_response_code.rs
index 8b8ec99..4d18e8c 100644
--- a/src/emv/authorisation_response_code.rs
+++ b/src/emv/authorisation_response_code.rs
@@ -106,7 +106,7 @@ impl TryFrom<&[u8]> for AuthorisationResponseCode {
 
 #[cfg(not(tarpaulin_include))]
 impl DisplayBreakdown for AuthorisationResponseCode {
-	fn display_breakdown(&self, _: &mut StandardStream, indentation: u8, _: bool) {
+	fn display_breakdown(&self, _: &mut StandardStream, indentation: usize, _: bool) {
 		print_indentation(indentation);
 		println!("{self}");
 	}
diff --git a/src/emv/bitflag_values.rs b/src/emv/bitflag_values.rs
index 6c8d755..ee14786 100644
--- a/src/emv/bitflag_values.rs
+++ b/src/emv/bitflag_values.rs
@@ -73,7 +73,7 @@ where
 	fn display_breakdown(
 		&self,
 		stdout: &mut StandardStream,
-		indentation: u8,
+		indentation: usize,
 		show_severity_colours: bool,
 	) {
 		let bold_colour_spec = bold_colour_spec();
diff --git a/src/emv/ccd/iad.rs b/src/emv/ccd/iad.rs
index e6c8e07..604fe94 100644
--- a/src/emv/ccd/iad.rs
+++ b/src/emv/ccd/iad.rs
@@ -104,7 +104,7 @@ impl DisplayBreakdown for IssuerApplicationData {
 	fn display_breakdown(
 		&self,
 		stdout: &mut StandardStream,
-		indentation: u8,
+		indentation: usize,
 		show_severity_colours: bool,
 	) {
 		let header_colour_spec = header_colour_spec();
diff --git a/src/emv/cvm_list.rs b/src/emv/cvm_list.rs
index bb86f2a..322dbe0 100644
--- a/src/emv/cvm_list.rs
+++ b/src/emv/cvm_list.rs
@@ -59,7 +59,7 @@ impl TryFrom<&[u8]> for CardholderVerificationMethodList {
 
 #[cfg(not(tarpaulin_include))]
 impl DisplayBreakdown for CardholderVerificationMethodList {
-	fn display_breakdown(&self, stdout: &mut StandardStream, indentation: u8, _: bool) {
+	fn display_breakdown(&self, stdout: &mut StandardStream, indentation: usize, _: bool) {
 		/// This value is chosen as 3 because common currency denominations have
 		/// 2 digits for the cents (or equivalent) and this allows 1 additional
 		/// digit to represent the whole amount. For example, `$0.00`.
diff --git a/src/emv/iac/default.rs b/src/emv/iac/default.rs
index 82bb1c6..609e323 100644
--- a/src/emv/iac/default.rs
+++ b/src/emv/iac/default.rs
@@ -70,7 +70,7 @@ impl TryFrom<&[u8]> for IssuerActionCodeDefault {
 
 #[cfg(not(tarpaulin_include))]
 impl DisplayBreakdown for IssuerActionCodeDefault {
-	fn display_breakdown(&self, stdout: &mut StandardStream, indentation: u8, _: bool) {
+	fn display_breakdown(&self, stdout: &mut StandardStream, indentation: usize, _: bool) {
 		let header_colour_spec = header_colour_spec();
 
 		print_indentation(indentation);
diff --git a/src/emv/iac/denial.rs b/src/emv/iac/denial.rs
index 53dd9ac..84deedd 100644
--- a/src/emv/iac/denial.rs
+++ b/src/emv/iac/denial.rs
@@ -64,7 +64,7 @@ impl TryFrom<&[u8]> for IssuerActionCodeDenial {
 
 #[cfg(not(tarpaulin_include))]
 impl DisplayBreakdown for IssuerActionCodeDenial {
-	fn display_breakdown(&self, stdout: &mut StandardStream, indentation: u8, _: bool) {
+	fn display_breakdown(&self, stdout: &mut StandardStream, indentation: usize, _: bool) {
 		let header_colour_spec = header_colour_spec();
 
 		print_indentation(indentation);
diff --git a/src/emv/iac/online.rs b/src/emv/iac/online.rs
index 2d9f90a..07cfc74 100644
--- a/src/emv/iac/online.rs
+++ b/src/emv/iac/online.rs
@@ -68,7 +68,7 @@ impl TryFrom<&[u8]> for IssuerActionCodeOnline {
 
 #[cfg(not(tarpaulin_include))]
 impl DisplayBreakdown for IssuerActionCodeOnline {
-	fn display_breakdown(&self, stdout: &mut StandardStream, indentation: u8, _: bool) {
+	fn display_breakdown(&self, stdout: &mut StandardStream, indentation: usize, _: bool) {
 		let header_colour_spec = header_colour_spec();
 
 		print_indentation(indentation);
diff --git a/src/emv/pos_entry_mode.rs b/src/emv/pos_entry_mode.rs
index 2297b67..81a2e61 100644
--- a/src/emv/pos_entry_mode.rs
+++ b/src/emv/pos_entry_mode.rs
@@ -57,7 +57,7 @@ impl TryFrom<&[u8]> for PosEntryMode {
 
 #[cfg(not(tarpaulin_include))]
 impl DisplayBreakdown for PosEntryMode {
-	fn display_breakdown(&self, _: &mut StandardStream, indentation: u8, _: bool) {
+	fn display_breakdown(&self, _: &mut StandardStream, indentation: usize, _: bool) {
 		print_indentation(indentation);
 		println!("{self}");
 	}
diff --git a/src/emv/tag_basic_info.rs b/src/emv/tag_basic_info.rs
index 44cd656..f97d2e9 100644
--- a/src/emv/tag_basic_info.rs
+++ b/src/emv/tag_basic_info.rs
@@ -54,7 +54,7 @@ impl TryFrom<&[u8]> for TagBasicInfo {
 
 #[cfg(not(tarpaulin_include))]
 impl DisplayBreakdown for TagBasicInfo {
-	fn display_breakdown(&self, stdout: &mut StandardStream, indentation: u8, _: bool) {
+	fn display_breakdown(&self, stdout: &mut StandardStream, indentation: usize, _: bool) {
 		let bold_colour_spec = bold_colour_spec();
 		let header_colour_spec = header_colour_spec();
 
diff --git a/src/emv/terminal_type.rs b/src/emv/terminal_type.rs
index 7ac82a3..a57f920 100644
--- a/src/emv/terminal_type.rs
+++ b/src/emv/terminal_type.rs
@@ -70,7 +70,7 @@ impl TryFrom<&[u8]> for TerminalType {
 
 #[cfg(not(tarpaulin_include))]
 impl DisplayBreakdown for TerminalType {
-	fn display_breakdown(&self, _: &mut StandardStream, indentation: u8, _: bool) {
+	fn display_breakdown(&self, _: &mut StandardStream, indentation: usize, _: bool) {
 		print_indentation(indentation);
 		println!("{self}");
 	}
diff --git a/src/emv/tlv_parsing/mod.rs b/src/emv/tlv_parsing/mod.rs
index c636d36..e274ec0 100644
--- a/src/emv/tlv_parsing/mod.rs
+++ b/src/emv/tlv_parsing/mod.rs
@@ -67,7 +67,7 @@ impl DisplayBreakdown for ProcessedEmvBlock {
 	fn display_breakdown(
 		&self,
 		stdout: &mut StandardStream,
-		indentation: u8,
+		indentation: usize,
 		show_severity_colours: bool,
 	) {
 		let mut first = true;
@@ -120,7 +120,7 @@ impl DisplayBreakdown for ProcessedEmvNode {
 	fn display_breakdown(
 		&self,
 		stdout: &mut StandardStream,
-		indentation: u8,
+		indentation: usize,
 		show_severity_colours: bool,
 	) {
 		// Display the tag
@@ -277,12 +277,12 @@ impl DisplayBreakdown for ProcessedEmvTag {
 	fn display_breakdown(
 		&self,
 		stdout: &mut StandardStream,
-		indentation: u8,
+		indentation: usize,
 		show_severity_colours: bool,
 	) {
 		fn print_tag_name(
 			stdout: &mut StandardStream,
-			indentation: u8,
+			indentation: usize,
 			header_colour_spec: &ColorSpec,
 			tag: &[u8],
 			length: Option<usize>,
@@ -438,7 +438,7 @@ impl PartialOrd for RawEmvTag {
 
 #[cfg(not(tarpaulin_include))]
 impl DisplayBreakdown for RawEmvTag {
-	fn display_breakdown(&self, stdout: &mut StandardStream, indentation: u8, _: bool) {
+	fn display_breakdown(&self, stdout: &mut StandardStream, indentation: usize, _: bool) {
 		let header_colour_spec = header_colour_spec();
 		match &self.data {
 			EmvData::Normal(data) => {
diff --git a/src/emv/transaction_type.rs b/src/emv/transaction_type.rs
index ff4ea6f..8a66915 100644
--- a/src/emv/transaction_type.rs
+++ b/src/emv/transaction_type.rs
@@ -48,7 +48,7 @@ impl TryFrom<&[u8]> for TransactionType {
 
 #[cfg(not(tarpaulin_include))]
 impl DisplayBreakdown for TransactionType {
-	fn display_breakdown(&self, _: &mut StandardStream, indentation: u8, _: bool) {
+	fn display_breakdown(&self, _: &mut StandardStream, indentation: usize, _: bool) {
 		print_indentation(indentation);
 		println!("{self}");
 	}
diff --git a/src/main.rs b/src/main.rs
index 9166379..133225f 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -93,7 +93,7 @@ pub trait DisplayBreakdown: Debug {
 	fn display_breakdown(
 		&self,
 		stdout: &mut StandardStream,
-		indentation: u8,
+		indentation: usize,
 		show_severity_colours: bool,
 	);
 }
diff --git a/src/non_emv/service_code.rs b/src/non_emv/service_code.rs
index 387b8de..311c186 100644
--- a/src/non_emv/service_code.rs
+++ b/src/non_emv/service_code.rs
@@ -120,7 +120,7 @@ impl TryFrom<&[u8]> for ServiceCode {
 
 #[cfg(not(tarpaulin_include))]
 impl DisplayBreakdown for ServiceCode {
-	fn display_breakdown(&self, stdout: &mut StandardStream, indentation: u8, _: bool) {
+	fn display_breakdown(&self, stdout: &mut StandardStream, indentation: usize, _: bool) {
 		let bold_colour_spec = bold_colour_spec();
 
 		// Print the numeric representation
diff --git a/src/util.rs b/src/util.rs
index 6cc12df..c13d5b2 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -119,7 +119,7 @@ pub fn num_dec_digits(value: u32) -> usize {
 
 /// Prints the specified amount of indentation on the current line.
 #[cfg(not(tarpaulin_include))]
-pub fn print_indentation(indentation: u8) {
+pub fn print_indentation(indentation: usize) {
 	for _ in 0..indentation {
 		print!("\t");
 	}
@@ -127,7 +127,7 @@ pub fn print_indentation(indentation: u8) {
 
 /// Pretty-prints bytes as hex.
 #[cfg(not(tarpaulin_include))]
-pub fn print_bytes(bytes: &[u8], bytes_per_line: usize, indentation: u8) {
+pub fn print_bytes(bytes: &[u8], bytes_per_line: usize, indentation: usize) {
 	for line in bytes.chunks(bytes_per_line) {
 		// Print the hex
 		print_indentation(indentation);
@@ -149,7 +149,7 @@ pub fn print_bytes(bytes: &[u8], bytes_per_line: usize, indentation: u8) {
 /// Pretty-prints bytes as hex with an ASCII readout next to the hex on each
 /// line.
 #[cfg(not(tarpaulin_include))]
-pub fn print_bytes_pretty(bytes: &[u8], bytes_per_line: usize, indentation: u8) {
+pub fn print_bytes_pretty(bytes: &[u8], bytes_per_line: usize, indentation: usize) {
 	for line in bytes.chunks(bytes_per_line) {
 		// Print the hex
 		print_indentation(indentation);
-- 
2.43.0


From dd41006b441388335aaf1a17c22fc4223c6446c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:07 +0000
Subject: [PATCH 2/5] fix: accept an empty data object with a long-form length
 at the end of a BER-TLV block

---
 src/emv/tlv_parsing/ber_tlv.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/emv/tlv_parsing/ber_tlv.rs b/src/emv/tlv_parsing/ber_tlv.rs
index a546893..cf31d1e 100644
--- a/src/emv/tlv_parsing/ber_tlv.rs
+++ b/src/emv/tlv_parsing/ber_tlv.rs
@@ -48,7 +48,7 @@ pub fn parse(bytes: &[u8], masking_characters: &[char]) -> Result<RawEmvBlock, P
 			}
 			let start_index = index;
 			index += 1 + subsequent_length_byte_count;
-			if index >= bytes_len {
+			if index > bytes_len {
 				return Err(ParseError::NonCompliant);
 			}
 			byte_slice_to_u32(
-- 
2.43.0


From 38b5f825cb104a311090e34d5449dae1d4fb633d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:33 +0000
Subject: [PATCH 3/5] fix: report a failure to deliver the last buffered output

---
 src/main.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index 133225f..f9401cc 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -49,7 +49,7 @@ mod testing_macros;
 mod util;
 
 // Uses
-use std::fmt::Debug;
+use std::{fmt::Debug, io::Write};
 
 use termcolor::{StandardStream, WriteColor};
 
@@ -213,6 +213,10 @@ fn main() {
 		}
 	};
 
+	// Anything still buffered would otherwise be written while exiting, where a
+	// failure goes unnoticed
+	stdout.flush().expect("failed printing to stdout");
+
 	if let Some(error) = parse_error {
 		eprintln!("{error}");
 	}
-- 
2.43.0


From 381617e6fa9c4b1461b3708c312010cf6b8fe847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:03:33 +0000
Subject: [PATCH 4/5] fix: stop the release when the status, commit or notes
 step fails

---
 release.sh | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/release.sh b/release.sh
index 96e50db..e60f7d3 100755
--- a/release.sh
+++ b/release.sh
@@ -7,7 +7,8 @@ if [ -z "$1" ]; then
   exit
 fi
 
-if [ -n "$(git status --porcelain)" ]; then
+STATUS=$(git status --porcelain) || exit
+if [ -n "$STATUS" ]; then
   echo 'You have uncommitted changes. Please clean up first.'
   exit
 fi
@@ -27,11 +28,11 @@ cargo clippy || exit # This also updates Cargo.lock
 git cliff --tag "$TAG" > CHANGELOG.md || exit
 
 # Commit the version update and new changelog
-git add -A && git commit -m "misc(release): Prepare for $TAG."
+git add -A && git commit -m "misc(release): Prepare for $TAG." || exit
 git show
 
 # Generate another changelog of just the unreleased changes, to be put in the tag notes
-TAG_CHANGELOG=$(git cliff --tag "$TAG" --unreleased --strip all)
+TAG_CHANGELOG=$(git cliff --tag "$TAG" --unreleased --strip all) || exit
 
 # Create a signed tag for the new version
 git tag -s -a "$TAG" -m "Release $TAG" -m "$TAG_CHANGELOG$NEWLINE" --cleanup=verbatim || exit
-- 
2.43.0


From 6c0ecb76fd42c977f749cc676311d4493e89edd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:48 +0000
Subject: [PATCH 5/5] fix: reject Ingenico tag identifiers and lengths with an
 unpaired hex digit

---
 src/util.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/util.rs b/src/util.rs
index c13d5b2..d767974 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -34,9 +34,11 @@ pub fn parse_hex_str(hex_asm: &str) -> Vec<u8> {
 	bytes
 }
 /// Does the exact same thing as [`parse_hex_str`], but it throws an error if
-/// there are any non-hex ASCII characters in the string.
+/// there are any non-hex ASCII characters in the string, or if the last digit
+/// has no partner to form a byte with.
 pub fn parse_hex_str_strict(hex_asm: &str) -> Result<Vec<u8>, ParseError> {
 	if !hex_asm.is_ascii()
+		|| hex_asm.len() % 2 != 0
 		|| hex_asm.contains(|c| !matches!(c as u8, b'0'..=b'9' | b'a'..=b'f' | b'A'..=b'F'))
 	{
 		Err(ParseError::InvalidBytes)
-- 
2.43.0

