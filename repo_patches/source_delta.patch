From 713ffdbe71d08275a7770bc551285ed4a09efcb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:49 +0000
Subject: [PATCH 01/37] verif hooks: expose the codecs to the out-of-tree
 harness under cfg(plusendi_verif)

---
 src/crc16.rs |  12 ++++++
 src/fbb.rs   | 102 +++++++++++++++++++++++++++++++++++++++++++++++++++
 src/lib.rs   |  17 +++++++++
 src/lzhuf.rs |  19 ++++++++++
 4 files changed, 150 insertions(+)

diff --git a/src/crc16.rs b/src/crc16.rs
index 910f466..8125fa8 100644
--- a/src/crc16.rs
+++ b/src/crc16.rs
@@ -73,3 +73,15 @@ mod tests {
 
     }
 }
+
+/// Access for the out-of-tree verification harness.
+#[cfg(plusendi_verif = "crc16")]
+pub mod verif {
+    pub fn crc16(data: &[u8]) -> u16 {
+        let mut crc = super::Crc16::new();
+        for &b in data {
+            crc.update(b);
+        }
+        crc.finish()
+    }
+}
diff --git a/src/fbb.rs b/src/fbb.rs
index 4e58cbb..2d3c94f 100644
--- a/src/fbb.rs
+++ b/src/fbb.rs
@@ -415,3 +415,105 @@ mod tests {
     //     Err(color_eyre::eyre::eyre!("just need a forced failure"))
     // }
 }
+
+/// Access for the out-of-tree verification harness: transfers.
+#[cfg(plusendi_verif = "transfer")]
+pub mod verif_transfer {
+    #[derive(Clone, Debug, PartialEq, Eq)]
+    pub struct Transfer {
+        pub title: String,
+        pub offset: u32,
+        pub body: Option<Vec<u8>>,
+    }
+
+    #[derive(Clone, Debug, PartialEq, Eq)]
+    pub enum Verdict {
+        Complete { transfer: Transfer, remaining: usize },
+        Incomplete { needed: Option<usize> },
+        Invalid,
+    }
+
+    pub fn transfer(data: &[u8]) -> Verdict {
+        match super::b2_message_block(data) {
+            Ok((remaining, message)) => Verdict::Complete {
+                remaining: remaining.len(),
+                transfer: Transfer {
+                    title: message.title.to_string(),
+                    offset: message.offset,
+                    body: message.decompress().ok(),
+                },
+            },
+            Err(nom::Err::Incomplete(nom::Needed::Size(needed))) => Verdict::Incomplete { needed: Some(needed.get()) },
+            Err(nom::Err::Incomplete(nom::Needed::Unknown)) => Verdict::Incomplete { needed: None },
+            Err(_) => Verdict::Invalid,
+        }
+    }
+}
+
+/// Access for the out-of-tree verification harness: proposals and answers.
+#[cfg(plusendi_verif = "proposal")]
+pub mod verif_proposal {
+    use super::{IResult, MessageChoice, MessageType, VerboseError};
+
+    #[derive(Clone, Debug, PartialEq, Eq)]
+    pub enum Verdict<T> {
+        Complete { value: T, remaining: usize },
+        Incomplete,
+        Invalid,
+    }
+
+    #[derive(Clone, Debug, PartialEq, Eq)]
+    pub struct Proposal {
+        pub message_type: MessageType,
+        pub sender: String,
+        pub at_bbs: String,
+        pub recipient: String,
+        pub message_id: String,
+        pub size: u64,
+    }
+
+    #[derive(Clone, Debug, PartialEq, Eq)]
+    pub struct WinlinkProposal {
+        pub message_id: String,
+        pub uncompressed_size: u64,
+        pub compressed_size: u64,
+        /// sender, bbs, recipient
+        pub routing: Option<(String, String, String)>,
+    }
+
+    fn verdict<'a, T, U>(result: IResult<&'a [u8], T, VerboseError<&'a [u8]>>, f: impl FnOnce(T) -> U) -> Verdict<U> {
+        match result {
+            Ok((remaining, value)) => Verdict::Complete { value: f(value), remaining: remaining.len() },
+            Err(nom::Err::Incomplete(_)) => Verdict::Incomplete,
+            Err(_) => Verdict::Invalid,
+        }
+    }
+
+    pub fn proposal(data: &[u8]) -> Verdict<Proposal> {
+        verdict(super::fbb_proposal(data), |p| Proposal {
+            message_type: p.message_type,
+            sender: p.sender.as_str().to_string(),
+            at_bbs: p.addressee.mbo.as_str().to_string(),
+            recipient: p.addressee.recipient.as_str().to_string(),
+            message_id: p.message_id.as_str().to_string(),
+            size: p.message_size.into(),
+        })
+    }
+
+    pub fn winlink_proposal(data: &[u8]) -> Verdict<WinlinkProposal> {
+        verdict(super::winlink_proposal(data), |p| WinlinkProposal {
+            message_id: p.message_id.as_str().to_string(),
+            uncompressed_size: p.uncompressed_message_size.into(),
+            compressed_size: p.compressed_message_size.into(),
+            routing: p.bqp_extension.map(|e| (
+                e.sender.as_str().to_string(),
+                e.addressee.mbo.as_str().to_string(),
+                e.addressee.recipient.as_str().to_string(),
+            )),
+        })
+    }
+
+    pub fn selection<const P: usize>(data: &[u8]) -> Verdict<Vec<MessageChoice>> {
+        verdict(super::selection::<P>(data), |choices| choices.to_vec())
+    }
+}
diff --git a/src/lib.rs b/src/lib.rs
index dd1adf7..b6442be 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1,3 +1,6 @@
+// `plusendi_verif` is set only by the out-of-tree verification harness.
+#![allow(unexpected_cfgs)]
+
 use std::collections::hash_set::HashSet;
 
 pub mod fbb;
@@ -11,6 +14,20 @@ mod parser;
 pub use modem::Modem;
 pub use types::{StationId, StationIdRef};
 
+/// Access to internals for the out-of-tree verification harness; never part of a normal build.
+#[cfg(plusendi_verif)]
+#[doc(hidden)]
+pub mod verif {
+    #[cfg(plusendi_verif = "crc16")]
+    pub use crate::crc16::verif as crc16;
+    #[cfg(plusendi_verif = "lzhuf")]
+    pub use crate::lzhuf::verif as lzhuf;
+    #[cfg(plusendi_verif = "transfer")]
+    pub use crate::fbb::verif_transfer as transfer;
+    #[cfg(plusendi_verif = "proposal")]
+    pub use crate::fbb::verif_proposal as proposal;
+}
+
 #[derive(Debug, PartialEq, Eq)]
 pub struct Traffic {
     pub header: TrafficHeader,
diff --git a/src/lzhuf.rs b/src/lzhuf.rs
index b807f61..b302749 100644
--- a/src/lzhuf.rs
+++ b/src/lzhuf.rs
@@ -848,3 +848,22 @@ mod tests2 {
         Ok(())
     }
 }
+
+/// Access for the out-of-tree verification harness.
+#[cfg(plusendi_verif = "lzhuf")]
+pub mod verif {
+    pub fn compress(input: &[u8]) -> Vec<u8> {
+        let mut output = Vec::new();
+        let mut encoder = super::Encoder::new(&mut output);
+        encoder.encode(input.iter().copied());
+        encoder.finish();
+        output
+    }
+
+    pub fn decompress(input: &[u8], size: usize) -> Option<Vec<u8>> {
+        let mut buffer = vec![0; size];
+        let mut decoder = super::Decoder::new(input.iter().copied());
+        decoder.decode(&mut buffer).ok()?;
+        Some(buffer)
+    }
+}
-- 
2.43.0


From 387e7a443ffc40ad6cec2044d388537284e83475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:49 +0000
Subject: [PATCH 02/37] fix: compressing an empty message panicked

The encoder emitted a spurious blank and then decremented a length of zero.
---
 src/lzhuf.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lzhuf.rs b/src/lzhuf.rs
index b302749..a7cc65d 100644
--- a/src/lzhuf.rs
+++ b/src/lzhuf.rs
@@ -536,6 +536,9 @@ impl<'a> Encoder<'a> {
             }
             len += 1;
         }
+        if len == 0 {
+            return;
+        }
         for i in 1..=F {
             self.insert_node(r - i);
         }
-- 
2.43.0


From 9daf34475f765c1d524b933fe465424af2def4e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:49 +0000
Subject: [PATCH 03/37] fix: back-references farther than 256 bytes were
 decoded wrongly

The upper six bits of the distance were shifted within a u8 and lost.
---
 src/lzhuf.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lzhuf.rs b/src/lzhuf.rs
index a7cc65d..0d75623 100644
--- a/src/lzhuf.rs
+++ b/src/lzhuf.rs
@@ -658,7 +658,7 @@ impl<I: Iterator<Item = u8>> Decoder<I> {
     #[tracing::instrument(skip(self))]
     fn decode_position(&mut self) -> Option<u16> {
         let mut i = self.stream.get_byte()? as u16;
-        let c = DECODE_CODE[i as usize] << 6;
+        let c = (DECODE_CODE[i as usize] as u16) << 6;
         let mut j = DECODE_LEN[i as usize];
 
         j -= 2;
-- 
2.43.0


From 53c689986c887b7ccf0603880e9f86799f6fae01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:49 +0000
Subject: [PATCH 04/37] fix: rebuilding the code table moved twice as many
 entries as it should

The length was taken over from a byte count; copy_within counts elements, so it ran past
the end of the table and panicked or destroyed the sentinel on messages of more than
32454 symbols.
---
 src/lzhuf.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lzhuf.rs b/src/lzhuf.rs
index 0d75623..3f12524 100644
--- a/src/lzhuf.rs
+++ b/src/lzhuf.rs
@@ -81,7 +81,7 @@ impl LzHufState {
                 k -= 1;
             }
             k += 1;
-            let l = (j - k) * 2;
+            let l = j - k;
             self.frequency_table.copy_within((k as usize)..((k+l) as usize), k as usize + 1);
             self.frequency_table[k as usize] = f;
             self.children.copy_within((k as usize)..((k+l) as usize), k as usize + 1);
-- 
2.43.0


From 89dbbe1b49e4df5e9a778c76f0fa1f17add71fc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:49 +0000
Subject: [PATCH 05/37] fix: codes of 16 bits and more were written wrongly

A skewed message can give a rare symbol a code of 17 or more bits; the code was collected
in 16 bits and lost its end, and a 16-bit code at a byte boundary overflowed a shift.
---
 src/lzhuf.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/lzhuf.rs b/src/lzhuf.rs
index 3f12524..ff35580 100644
--- a/src/lzhuf.rs
+++ b/src/lzhuf.rs
@@ -176,7 +176,7 @@ impl<'a> Bitbuffer<'a> {
                 self.output.push(self.bit_buffer as u8);
                 // self.codesize += 2;
                 self.bit_pos -= 8;
-                self.bit_buffer = c << (l - self.bit_pos) as usize;
+                self.bit_buffer = c.checked_shl((l - self.bit_pos) as u32).unwrap_or(0);
             } else {
                 self.bit_buffer = self.bit_buffer << 8;
                 // self.codesize += 1;
@@ -497,13 +497,13 @@ impl<'a> Encoder<'a> {
     }
 
     fn encode_char(&mut self, c: u16) {
-        let mut i = 0u16;
+        let mut i = 0u32;
         let mut j = 0u8;
         let mut k = self.state.parents[(c + T) as usize];
         loop {
             i = i >> 1;
             if k & 1 != 0 {
-                i = i.wrapping_add(0x8000);
+                i |= 0x8000_0000;
             }
             j += 1;
 
@@ -513,7 +513,12 @@ impl<'a> Encoder<'a> {
             }
         }
 
-        self.output.put_code(j, i);
+        if j > 16 {
+            self.output.put_code(16, (i >> 16) as u16);
+            self.output.put_code(j - 16, i as u16);
+        } else {
+            self.output.put_code(j, (i >> 16) as u16);
+        }
         self.state.update(c as u16);
     }
 
-- 
2.43.0


From 5ab2c536028814c0e2b70815f2dcd4cacfacd8bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:49 +0000
Subject: [PATCH 06/37] fix: a back-reference past the declared size panicked
 the decoder

A corrupt or hostile message could index past the end of the output buffer.
---
 src/lzhuf.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lzhuf.rs b/src/lzhuf.rs
index ff35580..fd3733f 100644
--- a/src/lzhuf.rs
+++ b/src/lzhuf.rs
@@ -638,6 +638,9 @@ impl<I: Iterator<Item = u8>> Decoder<I> {
                 let i = (self.state.r.wrapping_sub(self.decode_position().ok_or(UnexpectedEof)?).wrapping_sub(1)) & (N - 1);
                 let j = c - 255 + THRESHOLD;
                 for k in 0..j {
+                    if count == buffer.len() {
+                        break;
+                    }
                     let c = self.state.text_buffer[((i + k) & (N - 1)) as usize];
                     buffer[count] = c;
                     self.state.update_text_buffer(c);
-- 
2.43.0


From 782f0d13fbc61683ced53fe9879f7948376de788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:19 +0000
Subject: [PATCH 07/37] fix: a complete header without its separators was
 reported as incomplete

---
 src/fbb.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fbb.rs b/src/fbb.rs
index 2d3c94f..b9ef357 100644
--- a/src/fbb.rs
+++ b/src/fbb.rs
@@ -19,7 +19,8 @@ fn soh(data: &[u8]) -> IResult<&[u8], &[u8], VerboseError<&[u8]>> {
 }
 
 fn nul(data: &[u8]) -> IResult<&[u8], &[u8], VerboseError<&[u8]>> {
-    tag(&[0x00])(data)
+    // Only used inside the header, which has been taken whole: what is missing there stays missing.
+    nom::bytes::complete::tag(&[0x00])(data)
 }
 
 fn stx(data: &[u8]) -> IResult<&[u8], &[u8], VerboseError<&[u8]>> {
-- 
2.43.0


From f1decc0fb92c80e87a06096b0788f1b71acd9070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:19 +0000
Subject: [PATCH 08/37] fix: logging a checksum mismatch panicked when the sum
 was 0x80

---
 src/fbb.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fbb.rs b/src/fbb.rs
index b9ef357..0072d71 100644
--- a/src/fbb.rs
+++ b/src/fbb.rs
@@ -72,7 +72,7 @@ fn b2_message_block(data: &[u8]) -> IResult<&[u8], CompressedMessage, VerboseErr
                 let checksum_ok = checksum.wrapping_add(check) == 0;
 
                 if !checksum_ok {
-                    tracing::warn!(sum = format!("{:#04X}", check).as_str(), expected = format!("{:#04X}", checksum).as_str(), actual = format!("{:#04X}", -(check as i8)).as_str(), "checksum mismatch");
+                    tracing::warn!(sum = format!("{:#04X}", check).as_str(), expected = format!("{:#04X}", checksum).as_str(), actual = format!("{:#04X}", check.wrapping_neg()).as_str(), "checksum mismatch");
                 }
 
                 let mut crc = Crc16::new();
-- 
2.43.0


From ec03af359851dab6a1d6f56c348bf23ebadb8a82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:44 +0000
Subject: [PATCH 09/37] fix: message sizes and resume offsets above 65535 were
 refused

---
 src/fbb.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/fbb.rs b/src/fbb.rs
index 0072d71..4ad604c 100644
--- a/src/fbb.rs
+++ b/src/fbb.rs
@@ -175,7 +175,7 @@ fn select_tag(data: &[u8]) -> IResult<&[u8], &[u8], VerboseError<&[u8]>> {
 
 #[derive(Clone, Copy, Debug, PartialEq, Eq)]
 pub enum MessageChoice {
-    Accept { offset: u16 },
+    Accept { offset: u32 },
     Defer,
     Reject,
 }
@@ -189,7 +189,7 @@ fn selection_element(data: &[u8]) -> IResult<&[u8], MessageChoice, VerboseError<
         value(MessageChoice::Accept { offset: 0 }, alt((tag("+"), tag("Y"), tag("H")))),
         map(preceded(
             alt((tag("!"), tag("A"))),
-            map_res(map_res(take_while_m_n(1, 6, is_digit), std::str::from_utf8), |s| u16::from_str_radix(s, 10)),
+            map_res(map_res(take_while_m_n(1, 6, is_digit), std::str::from_utf8), |s| u32::from_str_radix(s, 10)),
         ), |offset| MessageChoice::Accept { offset }),
         value(MessageChoice::Defer, alt((tag("="), tag("L")))),
         value(MessageChoice::Reject, alt((tag("-"), tag("N"), tag("R"), tag("E")))),
@@ -263,8 +263,8 @@ fn message_id(data: &[u8]) -> IResult<&[u8], &MessageIdRef, VerboseError<&[u8]>>
     map(map_res(take_while_m_n(1, 12, |x| !delimiter(x)), std::str::from_utf8), MessageIdRef::from_str)(data)
 }
 
-fn message_size(data: &[u8]) -> IResult<&[u8], u16, VerboseError<&[u8]>> {
-    map_res(map_res(take_while_m_n(1, 6, is_digit), std::str::from_utf8), |s| u16::from_str_radix(s, 10))(data)
+fn message_size(data: &[u8]) -> IResult<&[u8], u32, VerboseError<&[u8]>> {
+    map_res(map_res(take_while_m_n(1, 6, is_digit), std::str::from_utf8), |s| u32::from_str_radix(s, 10))(data)
 }
 
 fn fbb_proposal(data: &[u8]) -> IResult<&[u8], Proposal, VerboseError<&[u8]>> {
@@ -286,11 +286,11 @@ struct Proposal<'a> {
     sender: &'a SenderRef,
     addressee: Addressee<'a>,
     message_id: &'a MessageIdRef,
-    message_size: u16,
+    message_size: u32,
 }
 
 impl<'a> Proposal<'a> {
-    fn from_parts((message_type, sender, addressee, message_id, message_size): (MessageType, &'a SenderRef, Addressee<'a>, &'a MessageIdRef, u16)) -> Self {
+    fn from_parts((message_type, sender, addressee, message_id, message_size): (MessageType, &'a SenderRef, Addressee<'a>, &'a MessageIdRef, u32)) -> Self {
         Self {
             message_type,
             sender,
@@ -322,13 +322,13 @@ fn winlink_proposal(data: &[u8]) -> IResult<&[u8], WinlinkProposal, VerboseError
 
 struct WinlinkProposal<'a> {
     message_id: &'a MessageIdRef,
-    compressed_message_size: u16,
-    uncompressed_message_size: u16,
+    compressed_message_size: u32,
+    uncompressed_message_size: u32,
     bqp_extension: Option<BqpProposalExtension<'a>>
 }
 
 impl<'a> WinlinkProposal<'a> {
-    fn from_parts((_, message_id, uncompressed_message_size, compressed_message_size, bqp_extension): (&[u8], &'a MessageIdRef, u16, u16, Option<BqpProposalExtension<'a>>)) -> Self {
+    fn from_parts((_, message_id, uncompressed_message_size, compressed_message_size, bqp_extension): (&[u8], &'a MessageIdRef, u32, u32, Option<BqpProposalExtension<'a>>)) -> Self {
         Self {
             message_id,
             uncompressed_message_size,
-- 
2.43.0


From 295fac2b6ebb667919eca9228f1f043b5df85bca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:44 +0000
Subject: [PATCH 10/37] fix: any text containing a callsign was accepted as a
 station id

---
 src/types.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/types.rs b/src/types.rs
index 1fb387c..b56dce9 100644
--- a/src/types.rs
+++ b/src/types.rs
@@ -5,7 +5,7 @@ use nom::error::VerboseError;
 use regex::Regex;
 use thiserror::Error;
 
-static STATION: Lazy<Regex> = lazy_regex!(r#"([0-9]?[A-Za-z]+)([0-9]+)([A-Za-z][A-Za-z0-9]*)"#);
+static STATION: Lazy<Regex> = lazy_regex!(r#"^([0-9]?[A-Za-z]+)([0-9]+)([A-Za-z][A-Za-z0-9]*)(-[A-Za-z0-9]{1,2})?$"#);
 
 #[derive(Debug, Error)]
 #[error("invalid station identity")]
-- 
2.43.0


From 93d26f62f1ff45d6d6c286bc91d07f924f2877b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:47 +0000
Subject: [PATCH 11/37] fix: a report naming a callsign with an SSID ended the
 modem link

---
 src/types.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/types.rs b/src/types.rs
index b56dce9..ef9c0b8 100644
--- a/src/types.rs
+++ b/src/types.rs
@@ -33,7 +33,14 @@ impl aliri_braid::Normalizer for StationId {
 }
 
 pub fn callsign(s: &[u8]) -> nom::IResult<&[u8], &StationIdRef, VerboseError<&[u8]>> {
-    let (rest, result) = nom::bytes::complete::take_while_m_n(3,7, |c: u8| c.is_ascii_uppercase() || c.is_ascii_digit())(s)?;
+    let alphanumeric = |c: u8| c.is_ascii_uppercase() || c.is_ascii_digit();
+    let (rest, result) = nom::combinator::recognize(nom::sequence::pair(
+        nom::bytes::complete::take_while_m_n(3, 7, alphanumeric),
+        nom::combinator::opt(nom::sequence::pair(
+            nom::bytes::complete::tag("-"),
+            nom::bytes::complete::take_while_m_n(1, 2, alphanumeric),
+        )),
+    ))(s)?;
     // let cow = if result.iter().any(|&b| b'a' <= b && b <= b'z') {
     //     Cow::Owned(unsafe { String::from_utf8_unchecked(result.to_ascii_uppercase()) })
     // } else {
-- 
2.43.0


From 9d1b6c3679edcaba14025960020948de1a3cd384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:47 +0000
Subject: [PATCH 12/37] fix: connecting by two digipeaters ran the target into
 the word via

---
 src/modem/vara.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/modem/vara.rs b/src/modem/vara.rs
index bc204d1..b32d553 100644
--- a/src/modem/vara.rs
+++ b/src/modem/vara.rs
@@ -202,7 +202,7 @@ impl fmt::Display for ConnectPath {
         match self {
             ConnectPath::Direct => Ok(()),
             ConnectPath::OneHop { digipeater } => write!(f, " via {}", digipeater),
-            ConnectPath::TwoHops { first, second } => write!(f, "via {} {}", first, second),
+            ConnectPath::TwoHops { first, second } => write!(f, " via {} {}", first, second),
         }
     }
 }
-- 
2.43.0


From 16aa27be3c7e072bc9b83af42bbf43363e4b43ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:47 +0000
Subject: [PATCH 13/37] fix: a closed control connection was polled forever

---
 src/modem/vara.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/modem/vara.rs b/src/modem/vara.rs
index b32d553..20b585a 100644
--- a/src/modem/vara.rs
+++ b/src/modem/vara.rs
@@ -483,6 +483,7 @@ fn do_a_thing(stream: &mut TcpStream, upd_buffer: &mut bytes::BytesMut, tx: &mut
     match stream.try_read_buf(upd_buffer) {
         Err(err) if err.kind() == std::io::ErrorKind::WouldBlock => return Ok(to_acknowledge),
         Err(err) => return Err(err.into()),
+        Ok(0) => return Err(std::io::Error::from(std::io::ErrorKind::UnexpectedEof).into()),
         Ok(bytes) => {
             tracing::trace!(bytes, "received bytes from command port");
         }
-- 
2.43.0


From 4c36c4a4be06dade75c4718830fbf2d06913f92f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:47 +0000
Subject: [PATCH 14/37] fix: waiting for the last answers blocked the executor

---
 src/modem/vara.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/modem/vara.rs b/src/modem/vara.rs
index 20b585a..df5cc2c 100644
--- a/src/modem/vara.rs
+++ b/src/modem/vara.rs
@@ -456,6 +456,7 @@ async fn manage_modem_thread(mut rx: Receiver<(Command, tokio::sync::oneshot::Se
     }
     tracing::info!(expected_replies = response_queue.len(), "command input closed");
     while !response_queue.is_empty() {
+        stream.readable().await?;
         let results = do_a_thing(&mut stream, &mut upd_buffer, &mut tx)?;
         for result in results {
             if let Some(reply) = response_queue.pop_front() {
-- 
2.43.0


From 602a022a25400f93eff2a6ac7a706392f0a4c0de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:47 +0000
Subject: [PATCH 15/37] fix: tracing modem lines that are not UTF-8 panicked

---
 src/modem/vara.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/modem/vara.rs b/src/modem/vara.rs
index df5cc2c..cdea02d 100644
--- a/src/modem/vara.rs
+++ b/src/modem/vara.rs
@@ -495,7 +495,7 @@ fn do_a_thing(stream: &mut TcpStream, upd_buffer: &mut bytes::BytesMut, tx: &mut
         while data.len() > 0 {
             match line(&data).try_map_into_str().map_err(stringify_input) {
                 Ok((remaining, line)) => {
-                    tracing::trace!(line = std::str::from_utf8(line).unwrap(), remaining = std::str::from_utf8(remaining).unwrap(), "received complete line");
+                    tracing::trace!(line = &*String::from_utf8_lossy(line), remaining = &*String::from_utf8_lossy(remaining), "received complete line");
                     data = remaining;
 
                     match nom::combinator::all_consuming(tnc_response)(line).try_map_into_str().map_err(stringify_input).finish() {
@@ -539,7 +539,7 @@ fn do_a_thing(stream: &mut TcpStream, upd_buffer: &mut bytes::BytesMut, tx: &mut
                     }
                 },
                 Err(err) if err.is_incomplete() => {
-                    tracing::trace!(buffer = std::str::from_utf8(data).unwrap(), "incomplete");
+                    tracing::trace!(buffer = &*String::from_utf8_lossy(data), "incomplete");
                     break
                 },
                 Err(err) => {
-- 
2.43.0


From 7091ecf2cd8f8bdd8d1d38f9ece4befb073acf22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:30 +0000
Subject: [PATCH 16/37] fix: answers that arrived together with an
 unintelligible line were lost

---
 src/modem/vara.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/modem/vara.rs b/src/modem/vara.rs
index cdea02d..cac91a1 100644
--- a/src/modem/vara.rs
+++ b/src/modem/vara.rs
@@ -443,7 +443,8 @@ async fn manage_modem_thread(mut rx: Receiver<(Command, tokio::sync::oneshot::Se
                 }
             },
             _ = stream.readable() => {
-                let results = do_a_thing(&mut stream, &mut upd_buffer, &mut tx)?;
+                let mut results = Vec::new();
+                let outcome = do_a_thing(&mut stream, &mut upd_buffer, &mut tx, &mut results);
                 for result in results {
                     if let Some(reply) = response_queue.pop_front() {
                         let _ = reply.send(result);
@@ -451,13 +452,15 @@ async fn manage_modem_thread(mut rx: Receiver<(Command, tokio::sync::oneshot::Se
                         tracing::warn!("mismatched reply queue");
                     }
                 }
+                outcome?;
             }
         );
     }
     tracing::info!(expected_replies = response_queue.len(), "command input closed");
     while !response_queue.is_empty() {
         stream.readable().await?;
-        let results = do_a_thing(&mut stream, &mut upd_buffer, &mut tx)?;
+        let mut results = Vec::new();
+        let outcome = do_a_thing(&mut stream, &mut upd_buffer, &mut tx, &mut results);
         for result in results {
             if let Some(reply) = response_queue.pop_front() {
                 let _ = reply.send(result);
@@ -465,6 +468,7 @@ async fn manage_modem_thread(mut rx: Receiver<(Command, tokio::sync::oneshot::Se
                 tracing::warn!("mismatched reply queue");
             }
         }
+        outcome?;
     }
     tracing::info!("all replies sent; exiting command loop");
     Ok(())
@@ -478,11 +482,10 @@ fn stringify_input<T: std::fmt::Display>(error: nom::Err<VerboseError<T>>) -> no
     })
 }
 
-#[tracing::instrument(skip(stream, upd_buffer, tx), err)]
-fn do_a_thing(stream: &mut TcpStream, upd_buffer: &mut bytes::BytesMut, tx: &mut TncStatusSender) -> color_eyre::Result<Vec<CommandResult>> {
-    let mut to_acknowledge = Vec::new();
+#[tracing::instrument(skip(stream, upd_buffer, tx, to_acknowledge), err)]
+fn do_a_thing(stream: &mut TcpStream, upd_buffer: &mut bytes::BytesMut, tx: &mut TncStatusSender, to_acknowledge: &mut Vec<CommandResult>) -> color_eyre::Result<()> {
     match stream.try_read_buf(upd_buffer) {
-        Err(err) if err.kind() == std::io::ErrorKind::WouldBlock => return Ok(to_acknowledge),
+        Err(err) if err.kind() == std::io::ErrorKind::WouldBlock => return Ok(()),
         Err(err) => return Err(err.into()),
         Ok(0) => return Err(std::io::Error::from(std::io::ErrorKind::UnexpectedEof).into()),
         Ok(bytes) => {
@@ -556,7 +559,7 @@ fn do_a_thing(stream: &mut TcpStream, upd_buffer: &mut bytes::BytesMut, tx: &mut
         *upd_buffer = new;
         tracing::trace!(bytes = upd_buffer.len(), "retained incomplete parts");
     }
-    Ok(to_acknowledge)
+    Ok(())
 }
 
 #[derive(Debug)]
-- 
2.43.0


From 848c0368b718bca28db95e74935ee849b2969246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:30 +0000
Subject: [PATCH 17/37] fix: an open session spun and never ended when the
 modem link was lost

---
 src/modem/vara.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/modem/vara.rs b/src/modem/vara.rs
index cac91a1..267f4ed 100644
--- a/src/modem/vara.rs
+++ b/src/modem/vara.rs
@@ -778,8 +778,7 @@ impl VaraTnc {
             let (remote_dc, remote_disconnect) = tokio::sync::oneshot::channel();
             let _remote_dc = tokio::spawn(async move {
                 loop {
-                    let _ = subscriber.changed().await;
-                    if subscriber.borrow().is_disconnected() {
+                    if subscriber.changed().await.is_err() || subscriber.borrow().is_disconnected() {
                         let _ = remote_dc.send(());
                         break;
                     }
-- 
2.43.0


From 695948034865df66d8d201b1f409c3136cda45ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:30 +0000
Subject: [PATCH 18/37] fix: ending a session sent a second disconnect command

---
 src/modem/vara.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/modem/vara.rs b/src/modem/vara.rs
index 267f4ed..6fe240d 100644
--- a/src/modem/vara.rs
+++ b/src/modem/vara.rs
@@ -811,12 +811,16 @@ pub struct VaraStream<'a> {
 }
 
 impl<'a> VaraStream<'a> {
-    pub async fn disconnect(self) -> color_eyre::Result<()> {
-        self.tnc.send_disconnect().await
+    pub async fn disconnect(mut self) -> color_eyre::Result<()> {
+        self.tnc.send_disconnect().await?;
+        self.force_disconnect.take();
+        Ok(())
     }
 
-    pub async fn abort(self) -> color_eyre::Result<()> {
-        self.tnc.send_abort().await
+    pub async fn abort(mut self) -> color_eyre::Result<()> {
+        self.tnc.send_abort().await?;
+        self.force_disconnect.take();
+        Ok(())
     }
 }
 
-- 
2.43.0


From 6740d29e905045edae6f5804431911b87e727152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:50 +0000
Subject: [PATCH 19/37] fix: using a session again after its end panicked

---
 src/modem/vara.rs | 43 ++++++++++++++++++++++++++++---------------
 1 file changed, 28 insertions(+), 15 deletions(-)

diff --git a/src/modem/vara.rs b/src/modem/vara.rs
index 6fe240d..e69eeab 100644
--- a/src/modem/vara.rs
+++ b/src/modem/vara.rs
@@ -789,6 +789,7 @@ impl VaraTnc {
                 tnc: self,
                 force_disconnect: Some(force_dc),
                 remote_disconnect: remote_disconnect,
+                remote_disconnected: false,
             })
         } else if self.status.connection.borrow().is_disconnected() {
             Err(color_eyre::eyre::eyre!("failed to connect"))
@@ -808,9 +809,21 @@ pub struct VaraStream<'a> {
     tnc: &'a mut VaraTnc,
     force_disconnect: Option<tokio::sync::oneshot::Sender<()>>,
     remote_disconnect: tokio::sync::oneshot::Receiver<()>,
+    remote_disconnected: bool,
 }
 
 impl<'a> VaraStream<'a> {
+    /// Ready once the remote end has disconnected, however often it is asked.
+    fn poll_remote_disconnect(&mut self, cx: &mut Context<'_>) -> Poll<()> {
+        if !self.remote_disconnected {
+            if Pin::new(&mut self.remote_disconnect).poll(cx).is_pending() {
+                return Poll::Pending;
+            }
+            self.remote_disconnected = true;
+        }
+        Poll::Ready(())
+    }
+
     pub async fn disconnect(mut self) -> color_eyre::Result<()> {
         self.tnc.send_disconnect().await?;
         self.force_disconnect.take();
@@ -839,65 +852,65 @@ impl<'a> PinnedDrop for VaraStream<'a> {
 
 impl<'a> AsyncRead for VaraStream<'a> {
     fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<std::io::Result<()>> {
-        let this = self.project();
-        match Pin::new(this.remote_disconnect).poll(cx) {
+        let this = self.get_mut();
+        match this.poll_remote_disconnect(cx) {
             Poll::Pending => {}
             Poll::Ready(_) => {
                 return Poll::Ready(Ok(()));
             }
         }
 
-        Pin::new(&mut **this.tnc).pinned_data().poll_read(cx, buf)
+        Pin::new(&mut *this.tnc).pinned_data().poll_read(cx, buf)
     }
 }
 
 impl<'a> AsyncWrite for VaraStream<'a> {
     fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<Result<usize, Error>> {
-        let this = self.project();
-        match Pin::new(this.remote_disconnect).poll(cx) {
+        let this = self.get_mut();
+        match this.poll_remote_disconnect(cx) {
             Poll::Pending => {}
             Poll::Ready(_) => {
                 return Poll::Ready(Err(std::io::Error::new(std::io::ErrorKind::ConnectionAborted, "connection closed on remote end")));
             }
         }
 
-        Pin::new(&mut **this.tnc).pinned_data().poll_write(cx, buf)
+        Pin::new(&mut *this.tnc).pinned_data().poll_write(cx, buf)
     }
 
     fn poll_flush(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<(), Error>> {
-        let this = self.project();
-        match Pin::new(this.remote_disconnect).poll(cx) {
+        let this = self.get_mut();
+        match this.poll_remote_disconnect(cx) {
             Poll::Pending => {}
             Poll::Ready(_) => {
                 return Poll::Ready(Err(std::io::Error::new(std::io::ErrorKind::ConnectionAborted, "connection closed on remote end")));
             }
         }
 
-        Pin::new(&mut **this.tnc).pinned_data().poll_flush(cx)
+        Pin::new(&mut *this.tnc).pinned_data().poll_flush(cx)
     }
 
     fn poll_shutdown(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<(), Error>> {
-        let this = self.project();
-        match Pin::new(this.remote_disconnect).poll(cx) {
+        let this = self.get_mut();
+        match this.poll_remote_disconnect(cx) {
             Poll::Pending => {}
             Poll::Ready(_) => {
                 return Poll::Ready(Err(std::io::Error::new(std::io::ErrorKind::ConnectionAborted, "connection closed on remote end")));
             }
         }
 
-        Pin::new(&mut **this.tnc).pinned_data().poll_shutdown(cx)
+        Pin::new(&mut *this.tnc).pinned_data().poll_shutdown(cx)
     }
 
     fn poll_write_vectored(self: Pin<&mut Self>, cx: &mut Context<'_>, bufs: &[IoSlice<'_>]) -> Poll<Result<usize, Error>> {
-        let this = self.project();
-        match Pin::new(this.remote_disconnect).poll(cx) {
+        let this = self.get_mut();
+        match this.poll_remote_disconnect(cx) {
             Poll::Pending => {}
             Poll::Ready(_) => {
                 return Poll::Ready(Err(std::io::Error::new(std::io::ErrorKind::ConnectionAborted, "connection closed on remote end")));
             }
         }
 
-        Pin::new(&mut **this.tnc).pinned_data().poll_write_vectored(cx, bufs)
+        Pin::new(&mut *this.tnc).pinned_data().poll_write_vectored(cx, bufs)
     }
 
     fn is_write_vectored(&self) -> bool {
-- 
2.43.0


From 30ba4c48b4012ecbb2ea52ca46d676949e517dfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:50 +0000
Subject: [PATCH 20/37] fix: data delivered before the remote end disconnected
 could not be read

---
 src/modem/vara.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/modem/vara.rs b/src/modem/vara.rs
index e69eeab..0d057f4 100644
--- a/src/modem/vara.rs
+++ b/src/modem/vara.rs
@@ -790,6 +790,7 @@ impl VaraTnc {
                 force_disconnect: Some(force_dc),
                 remote_disconnect: remote_disconnect,
                 remote_disconnected: false,
+                end_of_stream: false,
             })
         } else if self.status.connection.borrow().is_disconnected() {
             Err(color_eyre::eyre::eyre!("failed to connect"))
@@ -810,6 +811,7 @@ pub struct VaraStream<'a> {
     force_disconnect: Option<tokio::sync::oneshot::Sender<()>>,
     remote_disconnect: tokio::sync::oneshot::Receiver<()>,
     remote_disconnected: bool,
+    end_of_stream: bool,
 }
 
 impl<'a> VaraStream<'a> {
@@ -853,14 +855,20 @@ impl<'a> PinnedDrop for VaraStream<'a> {
 impl<'a> AsyncRead for VaraStream<'a> {
     fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<std::io::Result<()>> {
         let this = self.get_mut();
+        // What has been delivered comes before the end.
+        if !this.end_of_stream {
+            if let Poll::Ready(result) = Pin::new(&mut *this.tnc).pinned_data().poll_read(cx, buf) {
+                return Poll::Ready(result);
+            }
+        }
+
         match this.poll_remote_disconnect(cx) {
-            Poll::Pending => {}
+            Poll::Pending => Poll::Pending,
             Poll::Ready(_) => {
-                return Poll::Ready(Ok(()));
+                this.end_of_stream = true;
+                Poll::Ready(Ok(()))
             }
         }
-
-        Pin::new(&mut *this.tnc).pinned_data().poll_read(cx, buf)
     }
 }
 
-- 
2.43.0


From 9492414650fd8855c93809ed17ba2ba5cd74952d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:50 +0000
Subject: [PATCH 21/37] fix: the outcome and the teardown of one session leaked
 into the next

---
 src/modem/vara.rs | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/modem/vara.rs b/src/modem/vara.rs
index 0d057f4..5568f20 100644
--- a/src/modem/vara.rs
+++ b/src/modem/vara.rs
@@ -569,6 +569,7 @@ pub struct VaraTnc {
     control_channel: Sender<(Command, tokio::sync::oneshot::Sender<CommandResult>)>,
     status: TncStatusReceiver,
     managing_thread: tokio::task::JoinHandle<color_eyre::Result<()>>,
+    teardown: Option<tokio::task::JoinHandle<()>>,
 }
 
 fn channel() -> (TncStatusSender, TncStatusReceiver) {
@@ -654,6 +655,7 @@ impl VaraTncBuilder {
             control_channel: control_tx,
             status: status_rx,
             managing_thread,
+            teardown: None,
         })
     }
 
@@ -753,8 +755,25 @@ impl VaraTnc {
         *self.status.busy_state.borrow()
     }
 
+    /// Waits until the previous session, if any, is over: until its teardown has been answered and
+    /// the modem has reported it disconnected.
+    async fn end_previous_session(&mut self) -> color_eyre::Result<()> {
+        if let Some(teardown) = self.teardown.as_mut() {
+            let _ = teardown.await;
+            self.teardown = None;
+        }
+
+        while self.status.connection.borrow_and_update().is_connected() {
+            self.status.connection.changed().await?;
+        }
+
+        Ok(())
+    }
+
     #[tracing::instrument(skip(self), err)]
     pub async fn connect<'a>(&'a mut self, from: StationId, to: StationId) -> color_eyre::Result<VaraStream<'a>> {
+        self.end_previous_session().await?;
+
         self.send_command(Command::Connect(ConnectCommand {
             origin: from,
             target: to,
@@ -763,13 +782,13 @@ impl VaraTnc {
 
         let (force_dc, force_disconnect) = tokio::sync::oneshot::channel();
         let cloned_control = self.control_channel.clone();
-        let _force_dc = tokio::spawn(async move {
+        self.teardown = Some(tokio::spawn(async move {
             if let Ok(()) = force_disconnect.await {
                 let (tx, rx) = tokio::sync::oneshot::channel();
                 let _ = cloned_control.send((Command::Disconnect, tx)).await;
                 let _ = rx.await;
             }
-        });
+        }));
 
         self.status.connection.changed().await?;
 
-- 
2.43.0


From 8820d5c11006aef1f83d8fcf88881452ffc05c22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:19 +0000
Subject: [PATCH 22/37] fix: an empty response ended the rig task

---
 src/rig/elecraft/kx3.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rig/elecraft/kx3.rs b/src/rig/elecraft/kx3.rs
index c2575d3..3792aee 100644
--- a/src/rig/elecraft/kx3.rs
+++ b/src/rig/elecraft/kx3.rs
@@ -40,7 +40,7 @@ pub enum Update<'a> {
 }
 
 fn line(data: &[u8]) -> IResult<&[u8], &[u8]> {
-    nom::sequence::terminated(nom::bytes::streaming::take_until1(";"), nom::bytes::streaming::tag(";"))(data)
+    nom::sequence::terminated(nom::bytes::streaming::take_until(";"), nom::bytes::streaming::tag(";"))(data)
 }
 
 #[tracing::instrument(skip(rx, stream), err)]
-- 
2.43.0


From b9b5beccfb87556eaf08e116605b9487dbe10fee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:19 +0000
Subject: [PATCH 23/37] fix: a rig that hung up was polled forever

---
 src/rig/elecraft/kx3.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/rig/elecraft/kx3.rs b/src/rig/elecraft/kx3.rs
index 3792aee..404aa3c 100644
--- a/src/rig/elecraft/kx3.rs
+++ b/src/rig/elecraft/kx3.rs
@@ -64,6 +64,7 @@ pub async fn manage_rig_thread<D: AsyncRead + AsyncWrite + Unpin + 'static>(mut
             result = stream.read_buf(&mut upd_buffer) => {
                 match result {
                     Err(err) => return Err(err.into()),
+                    Ok(0) => return Err(std::io::Error::from(std::io::ErrorKind::UnexpectedEof).into()),
                     Ok(bytes) => {
                         tracing::trace!(bytes, "received bytes from command port");
                     }
-- 
2.43.0


From 316ac05029419b3593f10c3df796d4b04e68a0f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:19 +0000
Subject: [PATCH 24/37] fix: tracing rig responses that are not UTF-8 panicked

---
 src/rig/elecraft/kx3.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rig/elecraft/kx3.rs b/src/rig/elecraft/kx3.rs
index 404aa3c..0659863 100644
--- a/src/rig/elecraft/kx3.rs
+++ b/src/rig/elecraft/kx3.rs
@@ -74,7 +74,7 @@ pub async fn manage_rig_thread<D: AsyncRead + AsyncWrite + Unpin + 'static>(mut
                     while data.len() > 0 {
                         match line(&data) {
                             Ok((remaining, line)) => {
-                                tracing::trace!(line = std::str::from_utf8(line).unwrap(), remaining = std::str::from_utf8(remaining).unwrap(), "received complete line");
+                                tracing::trace!(line = &*String::from_utf8_lossy(line), remaining = &*String::from_utf8_lossy(remaining), "received complete line");
                                 data = remaining;
                                 //
                                 // match nom::combinator::all_consuming(update)(line).map_err(|e| e.map_input(|i| String::from_utf8(i.into()).unwrap())).finish() {
@@ -103,7 +103,7 @@ pub async fn manage_rig_thread<D: AsyncRead + AsyncWrite + Unpin + 'static>(mut
                                 // }
                             },
                             Err(err) if err.is_incomplete() => {
-                                tracing::trace!(buffer = std::str::from_utf8(data).unwrap(), "incomplete");
+                                tracing::trace!(buffer = &*String::from_utf8_lossy(data), "incomplete");
                                 break
                             },
                             Err(err) => {
-- 
2.43.0


From e239e1c2ee8066b5bbe7bc406711f4b77c5534c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:19 +0000
Subject: [PATCH 25/37] fix: tracing lines of the remote station that are not
 UTF-8 panicked

---
 src/main.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index e7f0714..9a89790 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -114,7 +114,7 @@ async fn main() -> color_eyre::Result<()> {
             while data.len() > 0 {
                 match line(&data) {
                     Ok((remaining, line)) => {
-                        tracing::trace!(line = std::str::from_utf8(line).unwrap(), remaining = std::str::from_utf8(remaining).unwrap(), "received complete line");
+                        tracing::trace!(line = &*String::from_utf8_lossy(line), remaining = &*String::from_utf8_lossy(remaining), "received complete line");
                         data = remaining;
                         println!("{}", String::from_utf8_lossy(line));
                         if line.ends_with(&[b'>']) {
@@ -122,7 +122,7 @@ async fn main() -> color_eyre::Result<()> {
                         }
                     },
                     Err(err) if err.is_incomplete() => {
-                        tracing::trace!(buffer = std::str::from_utf8(data).unwrap(), "incomplete");
+                        tracing::trace!(buffer = &*String::from_utf8_lossy(data), "incomplete");
                         break
                     },
                     Err(err) => {
@@ -165,12 +165,12 @@ async fn main() -> color_eyre::Result<()> {
             while data.len() > 0 {
                 match line(&data) {
                     Ok((remaining, line)) => {
-                        tracing::trace!(line = std::str::from_utf8(line).unwrap(), remaining = std::str::from_utf8(remaining).unwrap(), "received complete line");
+                        tracing::trace!(line = &*String::from_utf8_lossy(line), remaining = &*String::from_utf8_lossy(remaining), "received complete line");
                         data = remaining;
                         println!("{}", String::from_utf8_lossy(line));
                     },
                     Err(err) if err.is_incomplete() => {
-                        tracing::trace!(buffer = std::str::from_utf8(data).unwrap(), "incomplete");
+                        tracing::trace!(buffer = &*String::from_utf8_lossy(data), "incomplete");
                         break
                     },
                     Err(err) => {
-- 
2.43.0


From 1376d048acc429c656ca74abdaa799ee49514883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:19 +0000
Subject: [PATCH 26/37] fix: a blank line from the remote station ended the
 program

---
 src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index 9a89790..0da4cfd 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -104,7 +104,7 @@ async fn main() -> color_eyre::Result<()> {
     let mut read = bytes::BytesMut::new();
 
     fn line(data: &[u8]) -> nom::IResult<&[u8], &[u8]> {
-        nom::sequence::terminated(nom::bytes::streaming::take_until1("\r"), nom::bytes::streaming::tag("\r"))(data)
+        nom::sequence::terminated(nom::bytes::streaming::take_until("\r"), nom::bytes::streaming::tag("\r"))(data)
     }
 
     'out: loop {
-- 
2.43.0


From 4e0e4cac52f7d2ea5b562c20a13d382958f36a24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:19 +0000
Subject: [PATCH 27/37] fix: the program spun when disconnected before the
 prompt

---
 src/main.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index 0da4cfd..c78bcd2 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -108,7 +108,10 @@ async fn main() -> color_eyre::Result<()> {
     }
 
     'out: loop {
-        vara_stream.read_buf(&mut read).await?;
+        let count = vara_stream.read_buf(&mut read).await?;
+        if count == 0 {
+            return Err(color_eyre::eyre::eyre!("disconnected before the remote station's prompt"));
+        }
         let retain_after = {
             let mut data = &read[..];
             while data.len() > 0 {
-- 
2.43.0


From 8568b205069c5dbfd2c1583f3f6c1bc13a4b23d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:19 +0000
Subject: [PATCH 28/37] fix: the rig was left transmitting when the modem link
 was lost

---
 src/main.rs | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index c78bcd2..8151b67 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -68,7 +68,7 @@ async fn main() -> color_eyre::Result<()> {
         builder.data_port(port);
     }
 
-    let mut tnc = builder.build().await?;
+    let tnc = builder.build().await?;
 
     tnc.send_callsign(opt.my_call.clone()).await?;
     tnc.send_compression(plusendi::modem::vara::CompressionMode::Text).await?;
@@ -81,8 +81,9 @@ async fn main() -> color_eyre::Result<()> {
     #[cfg(unix)]
         rig.set_exclusive(true)?;
 
-    let _thread2 = tokio::spawn(plusendi::rig::elecraft::kx3::manage_rig_thread(rig_rx, rig));
-    let _thread3 = tokio::spawn(async move {
+    let rig_task = tokio::spawn(plusendi::rig::elecraft::kx3::manage_rig_thread(rig_rx, rig));
+    let ptt_task = tokio::spawn(async move {
+        let mut transmitting = false;
         while let Ok(()) = transceiver_cmd.changed().await {
             let request = {
                 let cmd = *transceiver_cmd.borrow();
@@ -93,12 +94,27 @@ async fn main() -> color_eyre::Result<()> {
                 }
             };
             rig_tx.send(plusendi::rig::elecraft::kx3::Command::SetTransmitState(request)).await?;
+            transmitting = request == plusendi::rig::elecraft::kx3::TransmitState::Transmit;
+        }
+        if transmitting {
+            // Nobody is left to end this transmission.
+            rig_tx.send(plusendi::rig::elecraft::kx3::Command::SetTransmitState(plusendi::rig::elecraft::kx3::TransmitState::Receive)).await?;
         }
         tracing::info!("all done with automatic rig control");
         color_eyre::Result::<_, color_eyre::Report>::Ok(())
     });
 
-    let mut vara_stream = tnc.connect(opt.my_call, opt.target).await?;
+    let outcome = session(tnc, opt.my_call, opt.target).await;
+
+    // With the modem gone these come to an end, leaving the rig in receive.
+    let _ = ptt_task.await;
+    let _ = rig_task.await;
+
+    outcome
+}
+
+async fn session(mut tnc: plusendi::modem::vara::VaraTnc, my_call: StationId, target: StationId) -> color_eyre::Result<()> {
+    let mut vara_stream = tnc.connect(my_call, target).await?;
 
     tracing::info!("sleep time");
     let mut read = bytes::BytesMut::new();
-- 
2.43.0


From 96636f642ea68a008b0ddd03004877d2b2331646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:51 +0000
Subject: [PATCH 29/37] fix: reports of an incoming call hid the outcome or the
 end of a session

---
 src/modem/vara.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/modem/vara.rs b/src/modem/vara.rs
index 5568f20..5f4cf39 100644
--- a/src/modem/vara.rs
+++ b/src/modem/vara.rs
@@ -523,6 +523,8 @@ fn do_a_thing(stream: &mut TcpStream, upd_buffer: &mut bytes::BytesMut, tx: &mut
                                             tx.calls.insert(my_call.to_owned());
                                             tx.registered_calls.send_replace(tx.calls.clone());
                                         }
+                                        // An incoming call that is not, or not yet, a connection.
+                                        Update::Connection(ConnectionState::Pending | ConnectionState::Canceled) => {}
                                         Update::Connection(state) => {
                                             tx.connection.send_replace(state.into_owned());
                                         }
-- 
2.43.0


From 879c63e411286bdd8690a2c5ac56f97f210cd55b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:01 +0000
Subject: [PATCH 30/37] fix: a command accepted while the modem link was being
 lost waited forever

---
 src/modem/vara.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/modem/vara.rs b/src/modem/vara.rs
index 5f4cf39..6c93de0 100644
--- a/src/modem/vara.rs
+++ b/src/modem/vara.rs
@@ -422,7 +422,17 @@ fn line(data: &[u8]) -> IResult<&[u8], &[u8], VerboseError<&[u8]>> {
 }
 
 #[tracing::instrument(skip(rx, tx, stream), err)]
-async fn manage_modem_thread(mut rx: Receiver<(Command, tokio::sync::oneshot::Sender<CommandResult>)>, mut tx: TncStatusSender, mut stream: TcpStream) -> color_eyre::Result<()> {
+async fn manage_modem_thread(mut rx: Receiver<(Command, tokio::sync::oneshot::Sender<CommandResult>)>, tx: TncStatusSender, stream: TcpStream) -> color_eyre::Result<()> {
+    let result = manage_modem_link(&mut rx, tx, stream).await;
+
+    // A command accepted while the link was being lost would otherwise wait for its answer forever.
+    rx.close();
+    while rx.recv().await.is_some() {}
+
+    result
+}
+
+async fn manage_modem_link(rx: &mut Receiver<(Command, tokio::sync::oneshot::Sender<CommandResult>)>, mut tx: TncStatusSender, mut stream: TcpStream) -> color_eyre::Result<()> {
     let mut cmd_buffer = String::with_capacity(32);
     let mut upd_buffer = bytes::BytesMut::with_capacity(32);
     let mut response_queue = VecDeque::with_capacity(4);
-- 
2.43.0


From 7e97921c02bc41116d9e445c78c49a4d0a0e6437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:36 +0000
Subject: [PATCH 31/37] fix: bytes delivered just before the remote end
 disconnected could be lost to a race

---
 src/modem/vara.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/modem/vara.rs b/src/modem/vara.rs
index 6c93de0..1de4aa7 100644
--- a/src/modem/vara.rs
+++ b/src/modem/vara.rs
@@ -886,20 +886,20 @@ impl<'a> PinnedDrop for VaraStream<'a> {
 impl<'a> AsyncRead for VaraStream<'a> {
     fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<std::io::Result<()>> {
         let this = self.get_mut();
-        // What has been delivered comes before the end.
         if !this.end_of_stream {
+            // What has been delivered comes before the end: the end is looked for first, so that
+            // nothing can be delivered between looking for data and looking for the end.
+            let ended = this.poll_remote_disconnect(cx).is_ready();
             if let Poll::Ready(result) = Pin::new(&mut *this.tnc).pinned_data().poll_read(cx, buf) {
                 return Poll::Ready(result);
             }
-        }
-
-        match this.poll_remote_disconnect(cx) {
-            Poll::Pending => Poll::Pending,
-            Poll::Ready(_) => {
-                this.end_of_stream = true;
-                Poll::Ready(Ok(()))
+            if !ended {
+                return Poll::Pending;
             }
+            this.end_of_stream = true;
         }
+
+        Poll::Ready(Ok(()))
     }
 }
 
-- 
2.43.0


From 496f06fe57d574987519bb6ccec29fc53d71594a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:58 +0000
Subject: [PATCH 32/37] fix: text arriving together with the remote station's
 prompt was lost

---
 src/main.rs | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 8151b67..877d821 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -123,7 +123,8 @@ async fn session(mut tnc: plusendi::modem::vara::VaraTnc, my_call: StationId, ta
         nom::sequence::terminated(nom::bytes::streaming::take_until("\r"), nom::bytes::streaming::tag("\r"))(data)
     }
 
-    'out: loop {
+    let mut prompted = false;
+    while !prompted {
         let count = vara_stream.read_buf(&mut read).await?;
         if count == 0 {
             return Err(color_eyre::eyre::eyre!("disconnected before the remote station's prompt"));
@@ -137,7 +138,9 @@ async fn session(mut tnc: plusendi::modem::vara::VaraTnc, my_call: StationId, ta
                         data = remaining;
                         println!("{}", String::from_utf8_lossy(line));
                         if line.ends_with(&[b'>']) {
-                            break 'out;
+                            // What follows the prompt is kept for the exchange below.
+                            prompted = true;
+                            break;
                         }
                     },
                     Err(err) if err.is_incomplete() => {
@@ -173,12 +176,7 @@ async fn session(mut tnc: plusendi::modem::vara::VaraTnc, my_call: StationId, ta
     let ident = format!("{}-{}", env!("CARGO_BIN_NAME"), env!("CARGO_PKG_VERSION"));
     let to_be_sent = format!("[{}-B2FWIHJM$]\rFF\r", ident);
     vara_stream.write_all(to_be_sent.as_bytes()).await?;
-    read.clear();
     loop {
-        let count = vara_stream.read_buf(&mut read).await?;
-        if count == 0 {
-            break;
-        }
         let retain_after = {
             let mut data = &read[..];
             while data.len() > 0 {
@@ -206,6 +204,10 @@ async fn session(mut tnc: plusendi::modem::vara::VaraTnc, my_call: StationId, ta
             read = new;
             tracing::trace!(bytes = read.len(), "retained incomplete parts");
         }
+        let count = vara_stream.read_buf(&mut read).await?;
+        if count == 0 {
+            break;
+        }
     }
 
     // data.write_all(b"[Plusendi-0.0.1-B2FWIHJM$]\rFF\r");
-- 
2.43.0


From c674c23433934c353742222a61f0537d619af689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:17 +0000
Subject: [PATCH 33/37] Revert "fix: rebuilding the code table moved twice as
 many entries as it should"

The surplus entries lie above the one being placed and are placed anew later, and never reach
past the end of the table: at most T - 1 - j entries below j are larger than the new one. So the
doubled length was harmless and there was nothing to fix.
---
 src/lzhuf.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lzhuf.rs b/src/lzhuf.rs
index fd3733f..8777db5 100644
--- a/src/lzhuf.rs
+++ b/src/lzhuf.rs
@@ -81,7 +81,7 @@ impl LzHufState {
                 k -= 1;
             }
             k += 1;
-            let l = j - k;
+            let l = (j - k) * 2;
             self.frequency_table.copy_within((k as usize)..((k+l) as usize), k as usize + 1);
             self.frequency_table[k as usize] = f;
             self.children.copy_within((k as usize)..((k+l) as usize), k as usize + 1);
-- 
2.43.0


From 74853f1355f742e2dc01dd6c1be75f041e5b6e05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:15 +0000
Subject: [PATCH 34/37] fix: a session could read what an earlier one left
 unread

---
 src/modem/vara.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/modem/vara.rs b/src/modem/vara.rs
index 1de4aa7..9211a10 100644
--- a/src/modem/vara.rs
+++ b/src/modem/vara.rs
@@ -782,9 +782,16 @@ impl VaraTnc {
         Ok(())
     }
 
+    /// Discards what an earlier session left unread, which is not for the next one to read.
+    fn discard_unread(&self) {
+        let mut unread = [0; 1024];
+        while matches!(self.data.try_read(&mut unread), Ok(count) if count > 0) {}
+    }
+
     #[tracing::instrument(skip(self), err)]
     pub async fn connect<'a>(&'a mut self, from: StationId, to: StationId) -> color_eyre::Result<VaraStream<'a>> {
         self.end_previous_session().await?;
+        self.discard_unread();
 
         self.send_command(Command::Connect(ConnectCommand {
             origin: from,
-- 
2.43.0


From 72dd7520282a7e7c84e1de2b068bb494e6aaa095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:15 +0000
Subject: [PATCH 35/37] fix: shutting a session down closed the data connection
 for later sessions

---
 src/modem/vara.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/modem/vara.rs b/src/modem/vara.rs
index 9211a10..c48d6da 100644
--- a/src/modem/vara.rs
+++ b/src/modem/vara.rs
@@ -944,7 +944,8 @@ impl<'a> AsyncWrite for VaraStream<'a> {
             }
         }
 
-        Pin::new(&mut *this.tnc).pinned_data().poll_shutdown(cx)
+        // The data connection itself stays open for the sessions to come.
+        Pin::new(&mut *this.tnc).pinned_data().poll_flush(cx)
     }
 
     fn poll_write_vectored(self: Pin<&mut Self>, cx: &mut Context<'_>, bufs: &[IoSlice<'_>]) -> Poll<Result<usize, Error>> {
-- 
2.43.0


From 05e2ec601bf65e726a6991967514e543b7c0a5ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:52 +0000
Subject: [PATCH 36/37] fix: an invalid log filter is reported instead of
 panicking

---
 src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index 877d821..273325b 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -43,7 +43,7 @@ async fn main() -> color_eyre::Result<()> {
 
     let opt: Opt = Opt::from_args();
 
-    let env_filter = EnvFilter::try_new(&opt.log).unwrap();
+    let env_filter = EnvFilter::try_new(&opt.log)?;
     let fmt_layer = tracing_subscriber::fmt::layer();
 
     tracing_subscriber::registry()
-- 
2.43.0


From b7abf4d737bf269de411ef669b88c7abbd43ad93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:54 +0000
Subject: [PATCH 37/37] fix: standard output that cannot be written to ends the
 session instead of panicking

---
 src/main.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 273325b..22eefef 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -1,3 +1,4 @@
+use std::io::Write as _;
 use std::num::NonZeroU16;
 use tracing_subscriber::EnvFilter;
 use tracing_subscriber::layer::SubscriberExt;
@@ -136,7 +137,7 @@ async fn session(mut tnc: plusendi::modem::vara::VaraTnc, my_call: StationId, ta
                     Ok((remaining, line)) => {
                         tracing::trace!(line = &*String::from_utf8_lossy(line), remaining = &*String::from_utf8_lossy(remaining), "received complete line");
                         data = remaining;
-                        println!("{}", String::from_utf8_lossy(line));
+                        writeln!(std::io::stdout(), "{}", String::from_utf8_lossy(line))?;
                         if line.ends_with(&[b'>']) {
                             // What follows the prompt is kept for the exchange below.
                             prompted = true;
@@ -184,7 +185,7 @@ async fn session(mut tnc: plusendi::modem::vara::VaraTnc, my_call: StationId, ta
                     Ok((remaining, line)) => {
                         tracing::trace!(line = &*String::from_utf8_lossy(line), remaining = &*String::from_utf8_lossy(remaining), "received complete line");
                         data = remaining;
-                        println!("{}", String::from_utf8_lossy(line));
+                        writeln!(std::io::stdout(), "{}", String::from_utf8_lossy(line))?;
                     },
                     Err(err) if err.is_incomplete() => {
                         tracing::trace!(buffer = &*String::from_utf8_lossy(data), "incomplete");
-- 
2.43.0

