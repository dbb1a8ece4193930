From d023ee5ada1dddfeb3765342d14e3a4146b8a881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:59 +0000
Subject: [PATCH 01/33] Trust a model-checking root key behind
 cfg(dnssec_prover_mc)

---
 src/validation.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/validation.rs b/src/validation.rs
index c7f0450..9e198db 100644
--- a/src/validation.rs
+++ b/src/validation.rs
@@ -30,6 +30,12 @@ pub fn root_hints() -> Vec<DS> {
 		name: ".".try_into().unwrap(), key_tag: 47005, alg: 13, digest_type: 2,
 		digest: hex_lit::hex!("2eb6e9f2480126691594d649a5a613de3052e37861634641bb568746f2ffc4d4").to_vec(),
 	});
+	// When model checking, also trust a root key whose private key is known to the checks.
+	#[cfg(dnssec_prover_mc)]
+	res.push(DS {
+		name: ".".try_into().unwrap(), key_tag: 17219, alg: 15, digest_type: 2,
+		digest: hex_lit::hex!("83eb47300e4dc663538a3d18899b92ca446246e38b3a75cd320d7573b2ead030").to_vec(),
+	});
 	res
 }
 
-- 
2.43.0


From e1696a8fe46ba000968e05b8474fb5df87243d75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:27 +0000
Subject: [PATCH 02/33] fix: reject names with empty labels

Empty labels made distinct names such as "a.." encode with an early root label, so that the
written record or query no longer parsed.
---
 src/rr.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/rr.rs b/src/rr.rs
index fbe8f65..fde58ee 100644
--- a/src/rr.rs
+++ b/src/rr.rs
@@ -61,8 +61,10 @@ impl TryFrom<String> for Name {
 		if *s.as_bytes().last().unwrap_or(&0) != b"."[0] { return Err(()); }
 		if s.len() > 255 { return Err(()); }
 		if s.chars().any(|c| !c.is_ascii_graphic() || c == '"') { return Err(()); }
-		for label in s.split(".") {
-			if label.len() > 63 { return Err(()); }
+		if s != "." {
+			for label in s[..s.len() - 1].split(".") {
+				if label.is_empty() || label.len() > 63 { return Err(()); }
+			}
 		}
 
 		Ok(Name(s.to_ascii_lowercase()))
-- 
2.43.0


From 1becf4f2da78dbefc7d08e046a5d6929fc768ae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:49 +0000
Subject: [PATCH 03/33] fix: reject wire names with a dot inside a label

They were read as if the dot separated two labels, so that distinct wire names became equal.
---
 src/ser.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ser.rs b/src/ser.rs
index dfd8993..c4de772 100644
--- a/src/ser.rs
+++ b/src/ser.rs
@@ -87,7 +87,10 @@ fn do_read_wire_packet_labels(inp: &mut &[u8], wire_packet: &[u8], name: &mut St
 			break;
 		}
 		if inp.len() <= len { return Err(()); }
-		*name += core::str::from_utf8(&inp[..len]).map_err(|_| ())?;
+		let label = core::str::from_utf8(&inp[..len]).map_err(|_| ())?;
+		// We store names in text form, so a "." inside a label would look like a label boundary.
+		if label.contains('.') { return Err(()); }
+		*name += label;
 		*name += ".";
 		*inp = &inp[len..];
 		if name.len() > 255 { return Err(()); }
-- 
2.43.0


From 735148e23476a814aff3ded380dfc0e2f871464a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:13 +0000
Subject: [PATCH 04/33] fix: reject bytes after the name in CNAME, DNAME and NS
 data

Such data panicked in debug builds and was otherwise accepted with the extra bytes ignored.
---
 src/rr.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/rr.rs b/src/rr.rs
index fde58ee..8ec114b 100644
--- a/src/rr.rs
+++ b/src/rr.rs
@@ -384,7 +384,7 @@ impl StaticRecord for CName {
 	}
 	fn read_from_data(name: Name, mut data: &[u8], wire_packet: &[u8]) -> Result<Self, ()> {
 		let res = CName { name, canonical_name: read_wire_packet_name(&mut data, wire_packet)? };
-		debug_assert!(data.is_empty());
+		if !data.is_empty() { return Err(()); }
 		Ok(res)
 	}
 	fn write_u16_len_prefixed_data(&self, out: &mut Vec<u8>) {
@@ -415,7 +415,7 @@ impl StaticRecord for DName {
 	}
 	fn read_from_data(name: Name, mut data: &[u8], wire_packet: &[u8]) -> Result<Self, ()> {
 		let res = DName { name, delegation_name: read_wire_packet_name(&mut data, wire_packet)? };
-		debug_assert!(data.is_empty());
+		if !data.is_empty() { return Err(()); }
 		Ok(res)
 	}
 	fn write_u16_len_prefixed_data(&self, out: &mut Vec<u8>) {
@@ -860,7 +860,7 @@ impl StaticRecord for NS {
 	}
 	fn read_from_data(name: Name, mut data: &[u8], wire_packet: &[u8]) -> Result<Self, ()> {
 		let res = NS { name, name_server: read_wire_packet_name(&mut data, wire_packet)? };
-		debug_assert!(data.is_empty());
+		if !data.is_empty() { return Err(()); }
 		Ok(res)
 	}
 	fn write_u16_len_prefixed_data(&self, out: &mut Vec<u8>) {
-- 
2.43.0


From 7a0b2621d425155ad21eae190fa897b06205f513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:40 +0000
Subject: [PATCH 05/33] fix: reject malformed NSEC type bitmaps

Windows of more than 32 bytes spilled into the following windows' types (and panicked in the last
one), and empty, repeated or misordered windows were accepted.
---
 src/ser.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ser.rs b/src/ser.rs
index c4de772..b41df4f 100644
--- a/src/ser.rs
+++ b/src/ser.rs
@@ -62,10 +62,15 @@ pub(crate) fn nsec_types_bitmap_len(types: &[u8; 8192]) -> u16 {
 
 pub(crate) fn read_nsec_types_bitmap(inp: &mut &[u8]) -> Result<[u8; 8192], ()> {
 	let mut res = [0; 8192];
+	let mut next_block = 0;
 	while !inp.is_empty() {
 		let block = *inp.get(0).ok_or(())?;
 		let len = *inp.get(1).ok_or(())?;
 		*inp = &inp[2..];
+		// RFC 4034 section 4.1.2 requires blocks be in increasing order with 1 to 32 bytes each.
+		if u16::from(block) < next_block { return Err(()); }
+		next_block = u16::from(block) + 1;
+		if len == 0 || len > 32 { return Err(()); }
 		if inp.len() < len as usize { return Err(()); }
 		res[block as usize * 32..block as usize * 32 + len as usize]
 			.copy_from_slice(&inp[..len as usize]);
-- 
2.43.0


From 38e23dcdb562533d97e3ca01ab37d967342c1a41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:55 +0000
Subject: [PATCH 06/33] fix: make TXT's Ord agree with its PartialOrd

The derived Ord compared the data as plain bytes while PartialOrd compares it in wire form.
---
 src/rr.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/rr.rs b/src/rr.rs
index 8ec114b..c015c2b 100644
--- a/src/rr.rs
+++ b/src/rr.rs
@@ -245,7 +245,7 @@ impl Record for RR {
 	}
 }
 
-#[derive(Debug, Clone, PartialEq, Eq, Ord)]
+#[derive(Debug, Clone, PartialEq, Eq)]
 /// A text resource record, containing arbitrary text data
 pub struct Txt {
 	/// The name this record is at.
@@ -258,9 +258,9 @@ pub struct Txt {
 }
 /// The wire type for TXT records
 pub const TXT_TYPE: u16 = 16;
-impl PartialOrd for Txt {
-	fn partial_cmp(&self, o: &Txt) -> Option<Ordering> {
-		Some(self.name.cmp(&o.name)
+impl Ord for Txt {
+	fn cmp(&self, o: &Txt) -> Ordering {
+		self.name.cmp(&o.name)
 			.then_with(|| {
 				// Compare in wire encoding form, i.e. compare in 255-byte chunks
 				for i in 1..(self.data.len() / 255) + 2 {
@@ -272,9 +272,12 @@ impl PartialOrd for Txt {
 					if !slice_cmp.is_eq() { return slice_cmp; }
 				}
 				Ordering::Equal
-			}))
+			})
 	}
 }
+impl PartialOrd for Txt {
+	fn partial_cmp(&self, o: &Txt) -> Option<Ordering> { Some(self.cmp(o)) }
+}
 impl StaticRecord for Txt {
 	const TYPE: u16 = TXT_TYPE;
 	fn name(&self) -> &Name { &self.name }
-- 
2.43.0


From 8cf2096e65fa9b079ab04201be5e6b788b32169d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:54 +0000
Subject: [PATCH 07/33] fix: write the right length for empty TXT records

An empty TXT record was written with data length 0 followed by one byte of data, making the stream
unparsable.
---
 src/rr.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/rr.rs b/src/rr.rs
index c015c2b..9317599 100644
--- a/src/rr.rs
+++ b/src/rr.rs
@@ -301,7 +301,9 @@ impl StaticRecord for Txt {
 		Ok(Txt { name, data: parsed_data })
 	}
 	fn write_u16_len_prefixed_data(&self, out: &mut Vec<u8>) {
-		let len = (self.data.len() + (self.data.len() + 254) / 255) as u16;
+		// There is always at least one (possibly empty) character-string
+		let chunks = cmp::max((self.data.len() + 254) / 255, 1);
+		let len = (self.data.len() + chunks) as u16;
 		out.extend_from_slice(&len.to_be_bytes());
 
 		let mut data_write = &self.data[..];
-- 
2.43.0


From b3cfdf369c537bcaef3f69a37131c2c12c1df23f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:23 +0000
Subject: [PATCH 08/33] fix: check all four bits of the response code

Responses with codes 8 to 15 (with the low bits clear, e.g. 8, NXRRSet) were taken for successes.
---
 src/query.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/query.rs b/src/query.rs
index 1e02e2b..1003c36 100644
--- a/src/query.rs
+++ b/src/query.rs
@@ -128,7 +128,7 @@ fn handle_response(resp: &[u8], proof: &mut Vec<u8>, rrsig_key_names: &mut Vec<N
 	if flags & 0b1000_0000_0000_0000 == 0 {
 		return Err(());
 	}
-	if flags & 0b0111_1010_0000_0111 != 0 {
+	if flags & 0b0111_1010_0000_1111 != 0 {
 		return Err(());
 	}
 	if flags & 0b10_0000 == 0 {
-- 
2.43.0


From 4b95d82a00ff580805c6b0ae52c95de0d4c8c377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:54 +0000
Subject: [PATCH 09/33] fix: keep records of rejected responses out of the
 proof

A response which failed to parse part-way left its earlier records in the proof being built.
---
 src/query.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/query.rs b/src/query.rs
index 1003c36..e36134e 100644
--- a/src/query.rs
+++ b/src/query.rs
@@ -250,7 +250,15 @@ impl ProofBuilder {
 		if self.pending_queries == 0 { return Err(()); }
 
 		let mut rrsig_key_names = Vec::new();
-		let min_ttl = handle_response(&resp, &mut self.proof, &mut rrsig_key_names)?;
+		let proof_len = self.proof.len();
+		let min_ttl = match handle_response(&resp, &mut self.proof, &mut rrsig_key_names) {
+			Ok(min_ttl) => min_ttl,
+			Err(()) => {
+				// Don't leave the start of a bad response in our proof.
+				self.proof.truncate(proof_len);
+				return Err(());
+			},
+		};
 		self.min_ttl = cmp::min(self.min_ttl, min_ttl);
 		self.pending_queries -= 1;
 
-- 
2.43.0


From 19060c78dd855138a793ee03fce9abb8da0f64a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:33 +0000
Subject: [PATCH 10/33] fix: compare query buffers by their contents

The derived comparison included the stale inline bytes of buffers which had moved to the heap.
---
 src/query.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/query.rs b/src/query.rs
index e36134e..b5cbf3a 100644
--- a/src/query.rs
+++ b/src/query.rs
@@ -27,7 +27,7 @@ const STACK_BUF_LIMIT: u16 = 32;
 const STACK_BUF_LIMIT: u16 = 2048;
 
 /// A buffer for storing queries and responses.
-#[derive(Clone, PartialEq, Eq)]
+#[derive(Clone)]
 pub struct QueryBuf {
 	buf: [u8; STACK_BUF_LIMIT as usize],
 	heap_buf: Vec<u8>,
@@ -73,6 +73,11 @@ impl QueryBuf {
 		}
 	}
 }
+impl PartialEq for QueryBuf {
+	// Only the contents count, not what is left in a buffer no longer (or not yet) in use.
+	fn eq(&self, o: &QueryBuf) -> bool { self[..] == o[..] }
+}
+impl Eq for QueryBuf {}
 impl ops::Deref for QueryBuf {
 	type Target = [u8];
 	fn deref(&self) -> &[u8] {
-- 
2.43.0


From d8a84f5f33e7be5d4b57ae85be4f297e787c1f1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:45 +0000
Subject: [PATCH 11/33] fix: don't panic when extending a query buffer beyond
 65535 bytes

The documentation promises that this doesn't panic; the excess is now dropped.
---
 src/query.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/query.rs b/src/query.rs
index b5cbf3a..e64d83e 100644
--- a/src/query.rs
+++ b/src/query.rs
@@ -48,7 +48,8 @@ impl QueryBuf {
 	/// If the total length of this buffer exceeds [`u16::MAX`] after appending, the buffer's state
 	/// is undefined, however pushing data beyond [`u16::MAX`] will not panic.
 	pub fn extend_from_slice(&mut self, sl: &[u8]) {
-		let new_len = self.len.saturating_add(sl.len() as u16);
+		let new_len = cmp::min(self.len as usize + sl.len(), u16::MAX as usize) as u16;
+		let sl = &sl[..(new_len - self.len) as usize];
 		let was_heap = self.len > STACK_BUF_LIMIT;
 		let is_heap = new_len > STACK_BUF_LIMIT;
 		if was_heap != is_heap {
-- 
2.43.0


From cf04b26578d2a9bfb526f60247ed470c08008a4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:05 +0000
Subject: [PATCH 12/33] fix: produce valid JSON with the right type for RRSIG
 records

---
 src/rr.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rr.rs b/src/rr.rs
index 9317599..52f5d3a 100644
--- a/src/rr.rs
+++ b/src/rr.rs
@@ -597,7 +597,7 @@ impl StaticRecord for RRSig {
 	fn json(&self) -> String {
 		let mut out = String::with_capacity(256 + self.signature.len()*2);
 		write!(&mut out,
-			"{{\"type\":\"ds\",\"name\":\"{}\",\"signed_record_type\":{},\"alg\":{},\"signed_labels\":{},\"orig_ttl\":{},\"expiration\"{},\"inception\":{},\"key_tag\":{},\"key_name\":\"{}\",\"signature\":\"",
+			"{{\"type\":\"rrsig\",\"name\":\"{}\",\"signed_record_type\":{},\"alg\":{},\"signed_labels\":{},\"orig_ttl\":{},\"expiration\":{},\"inception\":{},\"key_tag\":{},\"key_name\":\"{}\",\"signature\":\"",
 			self.name.0, self.ty, self.alg, self.labels, self.orig_ttl, self.expiration, self.inception, self.key_tag, self.key_name.0
 		).expect("Write to a String shouldn't fail");
 		for c in self.signature.iter() {
-- 
2.43.0


From fa5ac2ce177694f4d08577b7c9d3b5397248a2f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:33 +0000
Subject: [PATCH 13/33] fix: escape backslashes in names in JSON

---
 src/rr.rs | 32 +++++++++++++++++++-------------
 1 file changed, 19 insertions(+), 13 deletions(-)

diff --git a/src/rr.rs b/src/rr.rs
index 52f5d3a..1f07c0c 100644
--- a/src/rr.rs
+++ b/src/rr.rs
@@ -77,6 +77,12 @@ impl TryFrom<&str> for Name {
 	}
 }
 
+/// Escapes a [`Name`] for use in a JSON string. Of the characters which have to be escaped there,
+/// a [`Name`] can only contain backslashes.
+fn json_name(name: &Name) -> String {
+	name.0.replace('\\', "\\\\")
+}
+
 #[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord)]
 /// A supported Resource Record
 ///
@@ -284,10 +290,10 @@ impl StaticRecord for Txt {
 	fn json(&self) -> String {
 		if let Ok(s) = core::str::from_utf8(&self.data) {
 			if s.chars().all(|c| !c.is_control() && c != '"' && c != '\\') {
-				return format!("{{\"type\":\"txt\",\"name\":\"{}\",\"contents\":\"{}\"}}", self.name.0, s);
+				return format!("{{\"type\":\"txt\",\"name\":\"{}\",\"contents\":\"{}\"}}", json_name(&self.name), s);
 			}
 		}
-		format!("{{\"type\":\"txt\",\"name\":\"{}\",\"contents\":{:?}}}", self.name.0, &self.data[..])
+		format!("{{\"type\":\"txt\",\"name\":\"{}\",\"contents\":{:?}}}", json_name(&self.name), &self.data[..])
 	}
 	fn read_from_data(name: Name, mut data: &[u8], _wire_packet: &[u8]) -> Result<Self, ()> {
 		let mut parsed_data = Vec::with_capacity(data.len().saturating_sub(1));
@@ -347,7 +353,7 @@ impl StaticRecord for TLSA {
 		let mut out = String::with_capacity(128+self.data.len()*2);
 		write!(&mut out,
 			"{{\"type\":\"tlsa\",\"name\":\"{}\",\"usage\":{},\"selector\":{},\"data_ty\":{},\"data\":\"",
-			self.name.0, self.cert_usage, self.selector, self.data_ty
+			json_name(&self.name), self.cert_usage, self.selector, self.data_ty
 		).expect("Write to a String shouldn't fail");
 		for c in self.data.iter() {
 			write!(&mut out, "{:02X}", c)
@@ -385,7 +391,7 @@ impl StaticRecord for CName {
 	fn name(&self) -> &Name { &self.name }
 	fn json(&self) -> String {
 		format!("{{\"type\":\"cname\",\"name\":\"{}\",\"canonical_name\":\"{}\"}}",
-			self.name.0, self.canonical_name.0)
+			json_name(&self.name), json_name(&self.canonical_name))
 	}
 	fn read_from_data(name: Name, mut data: &[u8], wire_packet: &[u8]) -> Result<Self, ()> {
 		let res = CName { name, canonical_name: read_wire_packet_name(&mut data, wire_packet)? };
@@ -416,7 +422,7 @@ impl StaticRecord for DName {
 	fn name(&self) -> &Name { &self.name }
 	fn json(&self) -> String {
 		format!("{{\"type\":\"dname\",\"name\":\"{}\",\"delegation_name\":\"{}\"}}",
-			self.name.0, self.delegation_name.0)
+			json_name(&self.name), json_name(&self.delegation_name))
 	}
 	fn read_from_data(name: Name, mut data: &[u8], wire_packet: &[u8]) -> Result<Self, ()> {
 		let res = DName { name, delegation_name: read_wire_packet_name(&mut data, wire_packet)? };
@@ -452,7 +458,7 @@ impl StaticRecord for DnsKey {
 		let mut out = String::with_capacity(128+self.pubkey.len()*2);
 		write!(&mut out,
 			"{{\"type\":\"dnskey\",\"name\":\"{}\",\"flags\":{},\"protocol\":{},\"alg\":{},\"pubkey\":\"",
-			self.name.0, self.flags, self.protocol, self.alg
+			json_name(&self.name), self.flags, self.protocol, self.alg
 		).expect("Write to a String shouldn't fail");
 		for c in self.pubkey.iter() {
 			write!(&mut out, "{:02X}", c)
@@ -523,7 +529,7 @@ impl StaticRecord for DS {
 		let mut out = String::with_capacity(128+self.digest.len()*2);
 		write!(&mut out,
 			"{{\"type\":\"ds\",\"name\":\"{}\",\"key_tag\":{},\"alg\":{},\"digest_type\":{},\"digest\":\"",
-			self.name.0, self.key_tag, self.alg, self.digest_type
+			json_name(&self.name), self.key_tag, self.alg, self.digest_type
 		).expect("Write to a String shouldn't fail");
 		for c in self.digest.iter() {
 			write!(&mut out, "{:02X}", c)
@@ -598,7 +604,7 @@ impl StaticRecord for RRSig {
 		let mut out = String::with_capacity(256 + self.signature.len()*2);
 		write!(&mut out,
 			"{{\"type\":\"rrsig\",\"name\":\"{}\",\"signed_record_type\":{},\"alg\":{},\"signed_labels\":{},\"orig_ttl\":{},\"expiration\":{},\"inception\":{},\"key_tag\":{},\"key_name\":\"{}\",\"signature\":\"",
-			self.name.0, self.ty, self.alg, self.labels, self.orig_ttl, self.expiration, self.inception, self.key_tag, self.key_name.0
+			json_name(&self.name), self.ty, self.alg, self.labels, self.orig_ttl, self.expiration, self.inception, self.key_tag, json_name(&self.key_name)
 		).expect("Write to a String shouldn't fail");
 		for c in self.signature.iter() {
 			write!(&mut out, "{:02X}", c)
@@ -701,7 +707,7 @@ impl StaticRecord for NSec {
 		let mut out = String::with_capacity(256 + self.next_name.len());
 		write!(&mut out,
 			"{{\"type\":\"nsec\",\"name\":\"{}\",\"next_name\":\"{}\",\"types\":",
-			self.name.0, self.next_name.0,
+			json_name(&self.name), json_name(&self.next_name),
 		).expect("Write to a String shouldn't fail");
 		self.types.write_json(&mut out);
 		out += "}";
@@ -757,7 +763,7 @@ impl StaticRecord for NSec3 {
 		let mut out = String::with_capacity(256);
 		write!(&mut out,
 			"{{\"type\":\"nsec3\",\"name\":\"{}\",\"hash_algo\":{},\"flags\":{},\"hash_iterations\":{},\"salt\":{:?},\"next_name_hash\":{:?},\"types\":",
-			self.name.0, self.hash_algo, self.flags, self.hash_iterations, &self.salt[..], &self.next_name_hash[..]
+			json_name(&self.name), self.hash_algo, self.flags, self.hash_iterations, &self.salt[..], &self.next_name_hash[..]
 		).expect("Write to a String shouldn't fail");
 		self.types.write_json(&mut out);
 		out += "}";
@@ -802,7 +808,7 @@ impl StaticRecord for A {
 	const TYPE: u16 = A_TYPE;
 	fn name(&self) -> &Name { &self.name }
 	fn json(&self) -> String {
-		format!("{{\"type\":\"a\",\"name\":\"{}\",\"address\":{:?}}}", self.name.0, self.address)
+		format!("{{\"type\":\"a\",\"name\":\"{}\",\"address\":{:?}}}", json_name(&self.name), self.address)
 	}
 	fn read_from_data(name: Name, data: &[u8], _wire_packet: &[u8]) -> Result<Self, ()> {
 		if data.len() != 4 { return Err(()); }
@@ -830,7 +836,7 @@ impl StaticRecord for AAAA {
 	const TYPE: u16 = AAAA_TYPE;
 	fn name(&self) -> &Name { &self.name }
 	fn json(&self) -> String {
-		format!("{{\"type\":\"aaaa\",\"name\":\"{}\",\"address\":{:?}}}", self.name.0, self.address)
+		format!("{{\"type\":\"aaaa\",\"name\":\"{}\",\"address\":{:?}}}", json_name(&self.name), self.address)
 	}
 	fn read_from_data(name: Name, data: &[u8], _wire_packet: &[u8]) -> Result<Self, ()> {
 		if data.len() != 16 { return Err(()); }
@@ -861,7 +867,7 @@ impl StaticRecord for NS {
 	const TYPE: u16 = 2;
 	fn name(&self) -> &Name { &self.name }
 	fn json(&self) -> String {
-		format!("{{\"type\":\"ns\",\"name\":\"{}\",\"ns\":\"{}\"}}", self.name.0, self.name_server.0)
+		format!("{{\"type\":\"ns\",\"name\":\"{}\",\"ns\":\"{}\"}}", json_name(&self.name), json_name(&self.name_server))
 	}
 	fn read_from_data(name: Name, mut data: &[u8], wire_packet: &[u8]) -> Result<Self, ()> {
 		let res = NS { name, name_server: read_wire_packet_name(&mut data, wire_packet)? };
-- 
2.43.0


From 3542d66af03b0dd6986d49548cb3620a2bc99f2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:18 +0000
Subject: [PATCH 14/33] fix: only let zones sign records on a label boundary
 below their name

---
 src/validation.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/validation.rs b/src/validation.rs
index 9e198db..849a175 100644
--- a/src/validation.rs
+++ b/src/validation.rs
@@ -296,6 +296,15 @@ fn resolve_time(time: u32) -> u64 {
 	}
 }
 
+/// Whether the given name is the given zone's name or, on a label boundary, ends with it.
+fn is_at_or_below(name: &str, zone: &str) -> bool {
+	if zone == "." { return true; }
+	match name.strip_suffix(zone) {
+		Some(prefix) => prefix.is_empty() || prefix.ends_with('.'),
+		None => false,
+	}
+}
+
 fn nsec_ord(a: &str, b: &str) -> Ordering {
 	let mut a_label_iter = a.rsplit(".");
 	let mut b_label_iter = b.rsplit(".");
@@ -392,7 +401,7 @@ pub fn verify_rr_stream<'a>(inp: &'a [RR]) -> Result<VerifiedRRStream<'a>, Valid
 			.filter_map(|rr| if let RR::RRSig(sig) = rr { Some(sig) } else { None })
 			.filter(move |rrsig| rrsig.key_name.as_str() == zone && rrsig.ty != DnsKey::TYPE)
 		{
-			if !rrsig.name.ends_with(zone) { return Err(ValidationError::Invalid); }
+			if !is_at_or_below(&rrsig.name, zone) { return Err(ValidationError::Invalid); }
 			let signed_records = inp.iter()
 				.filter(|rr| rr.name() == &rrsig.name && rr.ty() == rrsig.ty);
 			match verify_rrsig(rrsig, dnskeys.clone(), signed_records.clone().collect()) {
-- 
2.43.0


From 95c5e804f0e0e1f779d6a07622c9811748ab96ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:26 +0000
Subject: [PATCH 15/33] fix: only accept denial records signed by the
 wildcard's zone

---
 src/validation.rs | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/validation.rs b/src/validation.rs
index 849a175..cde14ce 100644
--- a/src/validation.rs
+++ b/src/validation.rs
@@ -365,6 +365,7 @@ fn rfc4034_sort_test() {
 pub fn verify_rr_stream<'a>(inp: &'a [RR]) -> Result<VerifiedRRStream<'a>, ValidationError> {
 	let mut zone = ".";
 	let mut res = Vec::new();
+	let mut denial_rrs: Vec<(&Name, &RR)> = Vec::new();
 	let mut rrs_needing_non_existence_proofs = Vec::new();
 	let mut pending_ds_sets = Vec::with_capacity(1);
 	let mut latest_inception = 0;
@@ -446,6 +447,9 @@ pub fn verify_rr_stream<'a>(inp: &'a [RR]) -> Result<VerifiedRRStream<'a>, Valid
 						rrs_needing_non_existence_proofs.push((proof_name, &rrsig.key_name, rrsig.ty));
 					}
 					for record in signed_records {
+						if rrsig.ty == NSec::TYPE || rrsig.ty == NSec3::TYPE {
+							denial_rrs.push((&rrsig.key_name, record));
+						}
 						if !res.contains(&record) { res.push(record); }
 					}
 				},
@@ -459,22 +463,23 @@ pub fn verify_rr_stream<'a>(inp: &'a [RR]) -> Result<VerifiedRRStream<'a>, Valid
 	// First sort the proofs we're looking for so that the retains below avoid shifting.
 	rrs_needing_non_existence_proofs.sort_unstable_by(nsec_ord_extra);
 	'proof_search_loop: while let Some((name, zone, ty)) = rrs_needing_non_existence_proofs.pop() {
-		let nsec_search = res.iter()
-			.filter_map(|rr| if let RR::NSec(nsec) = rr { Some(nsec) } else { None })
-			.filter(|nsec| nsec.name.ends_with(zone.as_str()));
+		// Only records signed by the zone which has the wildcard tell what exists in that zone.
+		let nsec_search = denial_rrs.iter()
+			.filter(|(signer, _)| *signer == zone)
+			.filter_map(|(_, rr)| if let RR::NSec(nsec) = rr { Some(nsec) } else { None });
 		for nsec in nsec_search {
 			let name_matches = nsec.name.as_str() == name;
 			let name_contained = nsec_ord(&nsec.name,  &name) != Ordering::Greater &&
 				nsec_ord(&nsec.next_name, name) == Ordering::Greater;
 			if (name_matches && !nsec.types.contains_type(ty)) || name_contained {
 				rrs_needing_non_existence_proofs
-					.retain(|(n, _, t)| *n != name || (name_matches && nsec.types.contains_type(*t)));
+					.retain(|(n, z, t)| *n != name || *z != zone || (name_matches && nsec.types.contains_type(*t)));
 				continue 'proof_search_loop;
 			}
 		}
-		let nsec3_search = res.iter()
-			.filter_map(|rr| if let RR::NSec3(nsec3) = rr { Some(nsec3) } else { None })
-			.filter(|nsec3| nsec3.name.ends_with(zone.as_str()));
+		let nsec3_search = denial_rrs.iter()
+			.filter(|(signer, _)| *signer == zone)
+			.filter_map(|(_, rr)| if let RR::NSec3(nsec3) = rr { Some(nsec3) } else { None });
 
 		// Because we will only ever have two entries, a Vec is simpler than a map here.
 		let mut nsec3params_to_name_hash = Vec::new();
@@ -532,7 +537,7 @@ pub fn verify_rr_stream<'a>(inp: &'a [RR]) -> Result<VerifiedRRStream<'a>, Valid
 				&start_hash[..] <= name_hash.as_ref() && &nsec3.next_name_hash[..] > name_hash.as_ref();
 			if (hash_matches && !nsec3.types.contains_type(ty)) || hash_contained {
 				rrs_needing_non_existence_proofs
-					.retain(|(n, _, t)| *n != name || (hash_matches && nsec3.types.contains_type(*t)));
+					.retain(|(n, z, t)| *n != name || *z != zone || (hash_matches && nsec3.types.contains_type(*t)));
 				continue 'proof_search_loop;
 			}
 		}
-- 
2.43.0


From ee46d7ada94a25f4d05601bc3ec5e99c61e37528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:07 +0000
Subject: [PATCH 16/33] fix: don't take names which exist with other types or
 empty non-terminals as non-existent

---
 src/validation.rs | 30 ++++++++++++++++--------------
 1 file changed, 16 insertions(+), 14 deletions(-)

diff --git a/src/validation.rs b/src/validation.rs
index cde14ce..f97317b 100644
--- a/src/validation.rs
+++ b/src/validation.rs
@@ -336,7 +336,7 @@ fn nsec_ord(a: &str, b: &str) -> Ordering {
 		}
 	}
 }
-fn nsec_ord_extra<T, U>(a: &(&str, T, U), b: &(&str, T, U)) -> Ordering {
+fn nsec_ord_extra<T>(a: &(&str, T), b: &(&str, T)) -> Ordering {
 	nsec_ord(a.0, b.0)
 }
 
@@ -444,7 +444,7 @@ pub fn verify_rr_stream<'a>(inp: &'a [RR]) -> Result<VerifiedRRStream<'a>, Valid
 						// a.b.c.
 						let proof_name = rrsig.name.trailing_n_labels(rrsig.labels + 1)
 							.ok_or(ValidationError::Invalid)?;
-						rrs_needing_non_existence_proofs.push((proof_name, &rrsig.key_name, rrsig.ty));
+						rrs_needing_non_existence_proofs.push((proof_name, &rrsig.key_name));
 					}
 					for record in signed_records {
 						if rrsig.ty == NSec::TYPE || rrsig.ty == NSec3::TYPE {
@@ -462,18 +462,20 @@ pub fn verify_rr_stream<'a>(inp: &'a [RR]) -> Result<VerifiedRRStream<'a>, Valid
 
 	// First sort the proofs we're looking for so that the retains below avoid shifting.
 	rrs_needing_non_existence_proofs.sort_unstable_by(nsec_ord_extra);
-	'proof_search_loop: while let Some((name, zone, ty)) = rrs_needing_non_existence_proofs.pop() {
+	'proof_search_loop: while let Some((name, zone)) = rrs_needing_non_existence_proofs.pop() {
 		// Only records signed by the zone which has the wildcard tell what exists in that zone.
 		let nsec_search = denial_rrs.iter()
 			.filter(|(signer, _)| *signer == zone)
 			.filter_map(|(_, rr)| if let RR::NSec(nsec) = rr { Some(nsec) } else { None });
 		for nsec in nsec_search {
-			let name_matches = nsec.name.as_str() == name;
-			let name_contained = nsec_ord(&nsec.name,  &name) != Ordering::Greater &&
-				nsec_ord(&nsec.next_name, name) == Ordering::Greater;
-			if (name_matches && !nsec.types.contains_type(ty)) || name_contained {
-				rrs_needing_non_existence_proofs
-					.retain(|(n, z, t)| *n != name || *z != zone || (name_matches && nsec.types.contains_type(*t)));
+			// If the NSEC is at the name, or if the next name is below it, the name does exist (in
+			// the second case as an empty non-terminal), no matter with what types, and thus the
+			// wildcard does not apply to it.
+			let name_contained = nsec_ord(&nsec.name,  &name) == Ordering::Less &&
+				nsec_ord(&nsec.next_name, name) == Ordering::Greater &&
+				!is_at_or_below(&nsec.next_name, name);
+			if name_contained {
+				rrs_needing_non_existence_proofs.retain(|(n, z)| *n != name || *z != zone);
 				continue 'proof_search_loop;
 			}
 		}
@@ -532,12 +534,12 @@ pub fn verify_rr_stream<'a>(inp: &'a [RR]) -> Result<VerifiedRRStream<'a>, Valid
 			} else { continue };
 			if start_hash.len() != 20 || nsec3.next_name_hash.len() != 20 { continue; }
 
-			let hash_matches = &start_hash[..] == name_hash.as_ref();
+			// If the NSEC3 is at the name's hash, the name does exist, no matter with what types,
+			// and thus the wildcard does not apply to it.
 			let hash_contained =
-				&start_hash[..] <= name_hash.as_ref() && &nsec3.next_name_hash[..] > name_hash.as_ref();
-			if (hash_matches && !nsec3.types.contains_type(ty)) || hash_contained {
-				rrs_needing_non_existence_proofs
-					.retain(|(n, z, t)| *n != name || *z != zone || (hash_matches && nsec3.types.contains_type(*t)));
+				&start_hash[..] < name_hash.as_ref() && &nsec3.next_name_hash[..] > name_hash.as_ref();
+			if hash_contained {
+				rrs_needing_non_existence_proofs.retain(|(n, z)| *n != name || *z != zone);
 				continue 'proof_search_loop;
 			}
 		}
-- 
2.43.0


From a50caca21af8208d500c39dcd7170b7183ff8517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:15 +0000
Subject: [PATCH 17/33] fix: accept the NSEC3 which covers the end of the
 zone's hash order

---
 src/validation.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/validation.rs b/src/validation.rs
index f97317b..cdb61ab 100644
--- a/src/validation.rs
+++ b/src/validation.rs
@@ -536,8 +536,14 @@ pub fn verify_rr_stream<'a>(inp: &'a [RR]) -> Result<VerifiedRRStream<'a>, Valid
 
 			// If the NSEC3 is at the name's hash, the name does exist, no matter with what types,
 			// and thus the wildcard does not apply to it.
-			let hash_contained =
-				&start_hash[..] < name_hash.as_ref() && &nsec3.next_name_hash[..] > name_hash.as_ref();
+			let after_start = &start_hash[..] < name_hash.as_ref();
+			let before_next = name_hash.as_ref() < &nsec3.next_name_hash[..];
+			let hash_contained = if start_hash < nsec3.next_name_hash {
+				after_start && before_next
+			} else {
+				// This is the last NSEC3 in the zone, which wraps around to the first.
+				after_start || before_next
+			};
 			if hash_contained {
 				rrs_needing_non_existence_proofs.retain(|(n, z)| *n != name || *z != zone);
 				continue 'proof_search_loop;
-- 
2.43.0


From c3dcfe94a8832a82b0dc027b1ef9cb8a222339d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:59 +0000
Subject: [PATCH 18/33] fix: visit each delegated zone only once

---
 src/validation.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/validation.rs b/src/validation.rs
index cdb61ab..11d5e38 100644
--- a/src/validation.rs
+++ b/src/validation.rs
@@ -368,6 +368,7 @@ pub fn verify_rr_stream<'a>(inp: &'a [RR]) -> Result<VerifiedRRStream<'a>, Valid
 	let mut denial_rrs: Vec<(&Name, &RR)> = Vec::new();
 	let mut rrs_needing_non_existence_proofs = Vec::new();
 	let mut pending_ds_sets = Vec::with_capacity(1);
+	let mut found_zones: Vec<&Name> = Vec::new();
 	let mut latest_inception = 0;
 	let mut earliest_expiry = u64::MAX;
 	let mut min_ttl = u32::MAX;
@@ -420,7 +421,10 @@ pub fn verify_rr_stream<'a>(inp: &'a [RR]) -> Result<VerifiedRRStream<'a>, Valid
 				// RRSigs shouldn't cover child `DnsKey`s or other `RRSig`s
 				RRSig::TYPE|DnsKey::TYPE => return Err(ValidationError::Invalid),
 				DS::TYPE => {
-					if !pending_ds_sets.iter().any(|(pending_zone, _)| pending_zone == &rrsig.name.as_str()) {
+					// Visit each zone only once, and never delegate from a zone to itself, so that
+					// redundant or circular delegations don't cause extra work.
+					if rrsig.name != rrsig.key_name && !found_zones.contains(&&rrsig.name) {
+						found_zones.push(&rrsig.name);
 						pending_ds_sets.push((
 							&rrsig.name,
 							signed_records.filter_map(|rr|
-- 
2.43.0


From ec4ee60aa04715aaa0978aa753e04d3a5dc6dcdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:06 +0000
Subject: [PATCH 19/33] fix: reject delegations from wildcards

---
 src/validation.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/validation.rs b/src/validation.rs
index 11d5e38..123d548 100644
--- a/src/validation.rs
+++ b/src/validation.rs
@@ -421,6 +421,12 @@ pub fn verify_rr_stream<'a>(inp: &'a [RR]) -> Result<VerifiedRRStream<'a>, Valid
 				// RRSigs shouldn't cover child `DnsKey`s or other `RRSig`s
 				RRSig::TYPE|DnsKey::TYPE => return Err(ValidationError::Invalid),
 				DS::TYPE => {
+					if rrsig.labels != rrsig.name.labels() {
+						// We'd need a proof that there's no (non-)delegation at the name itself,
+						// but wildcards never create a delegation, so treat the whole proof as
+						// invalid
+						return Err(ValidationError::Invalid);
+					}
 					// Visit each zone only once, and never delegate from a zone to itself, so that
 					// redundant or circular delegations don't cause extra work.
 					if rrsig.name != rrsig.key_name && !found_zones.contains(&&rrsig.name) {
-- 
2.43.0


From 8ad73df140945480fdd18b82425a5c5d5490710e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:14 +0000
Subject: [PATCH 20/33] fix: don't require a denial for the literal wildcard
 name

---
 src/validation.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/validation.rs b/src/validation.rs
index 123d548..c0986ef 100644
--- a/src/validation.rs
+++ b/src/validation.rs
@@ -440,7 +440,11 @@ pub fn verify_rr_stream<'a>(inp: &'a [RR]) -> Result<VerifiedRRStream<'a>, Valid
 					}
 				},
 				_ => {
-					if rrsig.labels != rrsig.name.labels() && rrsig.ty != NSec::TYPE {
+					// The label count in an RRSig does not include a leading "*", so the wildcard
+					// itself has one more than its RRSig says, but is no expansion.
+					let is_wildcard = rrsig.name.starts_with("*.") &&
+						rrsig.labels as u16 + 1 == rrsig.name.labels() as u16;
+					if rrsig.labels != rrsig.name.labels() && !is_wildcard && rrsig.ty != NSec::TYPE {
 						if rrsig.ty == NSec3::TYPE {
 							// NSEC3 records should never appear on wildcards, so treat the
 							// whole proof as invalid
-- 
2.43.0


From aa03a94596b9982780021924e25f07d4e178febf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:24 +0000
Subject: [PATCH 21/33] fix: sign NS records in canonical order

---
 src/validation.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/validation.rs b/src/validation.rs
index c0986ef..1cdb4d0 100644
--- a/src/validation.rs
+++ b/src/validation.rs
@@ -98,7 +98,13 @@ where Keys: IntoIterator<Item = &'a DnsKey> {
 			signed_data.extend_from_slice(&sig.key_tag.to_be_bytes());
 			write_name(&mut signed_data, &sig.key_name);
 
-			records.sort_unstable();
+			// Sort the records by their canonical data, as RFC 4034 section 6.3 requires. The `Ord`
+			// of the records doesn't always match that, as for records with names in their data.
+			records.sort_by_cached_key(|record| {
+				let mut data = Vec::new();
+				record.write_u16_len_prefixed_data(&mut data);
+				data.split_off(2)
+			});
 
 			for record in records.iter() {
 				let record_labels = record.name().labels() as usize;
-- 
2.43.0


From edc00c9381745eb9f1002033b5b9feec2a646d17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:32 +0000
Subject: [PATCH 22/33] fix: ignore DNSKEY signatures by keys which have no DS

---
 src/validation.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/validation.rs b/src/validation.rs
index 1cdb4d0..bf083a5 100644
--- a/src/validation.rs
+++ b/src/validation.rs
@@ -233,6 +233,8 @@ where RI: IntoIterator<IntoIter = R>, R: Iterator<Item = &'r RRSig>,
 
 	let mut found_unsupported_alg = false;
 	for sig in sigs {
+		// The DNSKEYs may also be signed by keys which have no DS, which we have to ignore.
+		if !validated_dnskeys.iter().any(|k| k.key_tag() == sig.key_tag && k.alg == sig.alg) { continue; }
 		match verify_rrsig(sig, validated_dnskeys.iter().map(|k| *k), records.clone()) {
 			Ok(()) => return Ok(sig),
 			Err(ValidationError::UnsupportedAlgorithm) => {
-- 
2.43.0


From 5be3b91999a0a61a10f938b03f17a366bf8ca00c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:39 +0000
Subject: [PATCH 23/33] fix: don't put timestamps past 2106 a second early

---
 src/validation.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/validation.rs b/src/validation.rs
index bf083a5..72e611f 100644
--- a/src/validation.rs
+++ b/src/validation.rs
@@ -298,7 +298,7 @@ fn resolve_time(time: u32) -> u64 {
 	// any timestamps before then are actually past 2106 instead.
 	// We ignore leap years for simplicity.
 	if time < 60*60*24*365*27 {
-		(time as u64) + (u32::MAX as u64)
+		(time as u64) + (1u64 << 32)
 	} else {
 		time.into()
 	}
-- 
2.43.0


From c99991443f393f0f1013183bece357e4b9cc8f99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:46 +0000
Subject: [PATCH 24/33] fix: only apply DNAMEs to the names below them

---
 src/validation.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/validation.rs b/src/validation.rs
index 72e611f..f5c2022 100644
--- a/src/validation.rs
+++ b/src/validation.rs
@@ -605,11 +605,16 @@ impl<'a> VerifiedRRStream<'a> {
 			}
 
 			let mut dname_search = self.verified_rrs.iter()
-				.filter(|rr| name.ends_with(&**rr.name()))
+				.filter(|rr| name != rr.name() && is_at_or_below(name, rr.name()))
 				.filter_map(|rr| if let RR::DName(dn) = rr { Some(dn) } else { None });
 			if let Some(dname) = dname_search.next() {
-				let prefix = name.strip_suffix(&*dname.name).expect("We just filtered for this");
-				let resolved_name = prefix.to_owned() + &dname.delegation_name;
+				// The root's name is the only one which isn't preceded by another label's dot.
+				let prefix = if dname.name.as_str() == "." { name.as_str() } else {
+					name.strip_suffix(&*dname.name).expect("We just filtered for this")
+				};
+				let resolved_name = if dname.delegation_name.as_str() == "." { prefix.to_owned() } else {
+					prefix.to_owned() + &dname.delegation_name
+				};
 				dname_name = if let Ok(name) = resolved_name.try_into() {
 					name
 				} else {
-- 
2.43.0


From a434bd99d8c4b9be9bf48045ae5f115ee431a835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:53 +0000
Subject: [PATCH 25/33] fix: don't loop forever on circular CNAMEs or DNAMEs

---
 src/validation.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/validation.rs b/src/validation.rs
index f5c2022..57ccd67 100644
--- a/src/validation.rs
+++ b/src/validation.rs
@@ -582,6 +582,9 @@ pub fn verify_rr_stream<'a>(inp: &'a [RR]) -> Result<VerifiedRRStream<'a>, Valid
 	})
 }
 
+/// The maximum number of [`CName`]s and [`DName`]s which are followed when resolving a name.
+const MAX_REDIRECTS: usize = 255;
+
 impl<'a> VerifiedRRStream<'a> {
 	/// Given a name, resolve any [`CName`] records and return any verified records which were
 	/// pointed to by the original name.
@@ -589,13 +592,16 @@ impl<'a> VerifiedRRStream<'a> {
 	/// Note that because of [`CName`]s, the [`RR::name`] in the returned records may or may not be
 	/// equal to `name`.
 	///
+	/// If the [`CName`]s and [`DName`]s form a loop (or there are more than 255 of them to follow),
+	/// nothing is returned.
+	///
 	/// You MUST still check that the current UNIX time is between
 	/// [`VerifiedRRStream::valid_from`] and [`VerifiedRRStream::expires`] before
 	/// using any records returned here.
 	pub fn resolve_name<'b>(&self, name_param: &'b Name) -> Vec<&'a RR> where 'a: 'b {
 		let mut dname_name;
 		let mut name = name_param;
-		loop {
+		for _ in 0..=MAX_REDIRECTS {
 			let mut cname_search = self.verified_rrs.iter()
 				.filter(|rr| rr.name() == name)
 				.filter_map(|rr| if let RR::CName(cn) = rr { Some(cn) } else { None });
@@ -627,6 +633,7 @@ impl<'a> VerifiedRRStream<'a> {
 
 			return self.verified_rrs.iter().filter(|rr| rr.name() == name).map(|rr| *rr).collect();
 		}
+		Vec::new()
 	}
 }
 
-- 
2.43.0


From 8a5833640a24ccb44c10ba1cd78b0a39a1baeb96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:41 +0000
Subject: [PATCH 26/33] fix: don't loop forever if there are no delegations
 from the root

---
 src/validation.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/validation.rs b/src/validation.rs
index 57ccd67..c124cc4 100644
--- a/src/validation.rs
+++ b/src/validation.rs
@@ -380,7 +380,9 @@ pub fn verify_rr_stream<'a>(inp: &'a [RR]) -> Result<VerifiedRRStream<'a>, Valid
 	let mut latest_inception = 0;
 	let mut earliest_expiry = u64::MAX;
 	let mut min_ttl = u32::MAX;
-	'next_zone: while zone == "." || !pending_ds_sets.is_empty() {
+	let mut checked_root = false;
+	'next_zone: while !checked_root || !pending_ds_sets.is_empty() {
+		checked_root = true;
 		let next_ds_set;
 		if let Some((next_zone, ds_set)) = pending_ds_sets.pop() {
 			next_ds_set = Some(ds_set);
-- 
2.43.0


From d7c3383878e1ece069824c66db66fe9da511ec9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:35:48 +0000
Subject: [PATCH 27/33] fix: don't report zones with supported keys as using
 unsupported algorithms

---
 src/validation.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/validation.rs b/src/validation.rs
index c124cc4..71ea316 100644
--- a/src/validation.rs
+++ b/src/validation.rs
@@ -194,12 +194,13 @@ where RI: IntoIterator<IntoIter = R>, R: Iterator<Item = &'r RRSig>,
 	let dses = dses.into_iter();
 
 	let mut had_known_digest_type = false;
+	let mut had_supported_alg = false;
 	let mut had_ds = false;
 	for ds in dses.clone() {
 		had_ds = true;
 		if ds.digest_type == 1 || ds.digest_type == 2 || ds.digest_type == 4 {
 			had_known_digest_type = true;
-			break;
+			if let 8|10|13|14|15 = ds.alg { had_supported_alg = true; }
 		}
 	}
 	if !had_ds { return Err(ValidationError::Invalid); }
@@ -250,7 +251,9 @@ where RI: IntoIterator<IntoIter = R>, R: Iterator<Item = &'r RRSig>,
 		}
 	}
 
-	if found_unsupported_alg {
+	// If the zone also has keys which use an algorithm we do support, they should have been here as
+	// well, and leaving them out must not make the zone look like we cannot verify it.
+	if found_unsupported_alg && !had_supported_alg {
 		Err(ValidationError::UnsupportedAlgorithm)
 	} else {
 		Err(ValidationError::Invalid)
-- 
2.43.0


From e4ef4aa275a30dd5ccd29c1f4e5c7ec695a9b1f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:39:17 +0000
Subject: [PATCH 28/33] fix: don't overflow on RRSIGs which claim to cover 255
 labels

---
 src/validation.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/validation.rs b/src/validation.rs
index 71ea316..152059a 100644
--- a/src/validation.rs
+++ b/src/validation.rs
@@ -469,7 +469,8 @@ pub fn verify_rr_stream<'a>(inp: &'a [RR]) -> Result<VerifiedRRStream<'a>, Valid
 						// signed as *.c, we want a proof for nothing being in b.c.
 						// Alternatively, if it was signed as *.b.c, we'd want a proof for
 						// a.b.c.
-						let proof_name = rrsig.name.trailing_n_labels(rrsig.labels + 1)
+						let proof_name = rrsig.labels.checked_add(1)
+							.and_then(|labels| rrsig.name.trailing_n_labels(labels))
 							.ok_or(ValidationError::Invalid)?;
 						rrs_needing_non_existence_proofs.push((proof_name, &rrsig.key_name));
 					}
-- 
2.43.0


From 4974b0bc00241a09189f770c37655b0b237c7742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:02:58 +0000
Subject: [PATCH 29/33] fix: ignore bytes after the request line in HTTP
 requests

---
 src/http.rs | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/src/http.rs b/src/http.rs
index 51a6c20..1a30bf8 100644
--- a/src/http.rs
+++ b/src/http.rs
@@ -52,6 +52,7 @@ mod imp {
 				'ret_err: loop { // goto label
 					let mut buf = [0; 4096];
 					let mut buf_pos = 0;
+					let line_len;
 					'read_req: loop {
 						if buf_pos == buf.len() { response.1 = "Request Too Large"; break 'ret_err; }
 						let read_res = { socket.read(&mut buf[buf_pos..]).await };
@@ -59,22 +60,18 @@ mod imp {
 							Ok(0) => return,
 							Ok(len) => {
 								buf_pos += len;
-								for window in buf[..buf_pos].windows(2) {
-									if window == b"\r\n" { break 'read_req; }
-								}
+								let line_end = buf[..buf_pos].windows(2).position(|window| window == b"\r\n");
+								if let Some(pos) = line_end { line_len = pos; break 'read_req; }
 							}
 							Err(e) if e.kind() == std::io::ErrorKind::WouldBlock => {},
 							Err(_) => return,
 						}
 					}
+					// Only look at the request line, what of the headers (or body) we happened to have
+					// read doesn't matter.
 					let request;
-					if let Ok(s) = std::str::from_utf8(&buf[..buf_pos]) {
-						if let Some((r, _)) = s.split_once("\r\n") {
-							request = r;
-						} else {
-							debug_assert!(false);
-							break 'ret_err;
-						}
+					if let Ok(s) = std::str::from_utf8(&buf[..line_len]) {
+						request = s;
 					} else {
 						break 'ret_err;
 					}
-- 
2.43.0


From ee7a7a45ede4b12e082ed9df4690959ce28b9550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:04:25 +0000
Subject: [PATCH 30/33] fix: don't reset connections before the response is
 read

---
 src/http.rs | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/http.rs b/src/http.rs
index 1a30bf8..e94bb32 100644
--- a/src/http.rs
+++ b/src/http.rs
@@ -41,7 +41,7 @@ mod imp {
 
 	use std::net::SocketAddr;
 
-	use tokio::net::TcpListener;
+	use tokio::net::{TcpListener, TcpStream};
 	use tokio::io::{AsyncReadExt, AsyncWriteExt};
 
 	pub(super) async fn run_server(listener: TcpListener, resolver_sockaddr: SocketAddr) {
@@ -129,15 +129,31 @@ mod imp {
 						).as_bytes()
 					).await;
 					let _ = socket.write_all(&proof).await;
+					finish_connection(socket).await;
 					return;
 				}
 				let _ = socket.write_all(format!(
 					"HTTP/1.1 {}\r\nContent-Length: {}\r\nContent-Type: text/plain\r\nAccess-Control-Allow-Origin: *\r\n\r\n{}",
 					response.0, response.1.len(), response.1,
 				).as_bytes()).await;
+				finish_connection(socket).await;
 			});
 		}
 	}
+
+	/// Tells the client that the response is complete, and reads what it still has to send until it
+	/// closes the connection. Closing a connection with unread data resets it, which may cost the
+	/// client our response.
+	async fn finish_connection(mut socket: TcpStream) {
+		if socket.shutdown().await.is_err() { return; }
+		let mut buf = [0; 1024];
+		loop {
+			match socket.read(&mut buf).await {
+				Ok(0) | Err(_) => return,
+				Ok(_) => {},
+			}
+		}
+	}
 }
 
 #[cfg(all(feature = "tokio", feature = "validation", test))]
-- 
2.43.0


From dc520c6462c9623e18ddeca0d88b1c743526ac10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:30 +0000
Subject: [PATCH 31/33] fix: keep serving when accepting a connection fails

---
 src/http.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/http.rs b/src/http.rs
index e94bb32..5dfd38c 100644
--- a/src/http.rs
+++ b/src/http.rs
@@ -46,7 +46,15 @@ mod imp {
 
 	pub(super) async fn run_server(listener: TcpListener, resolver_sockaddr: SocketAddr) {
 		loop {
-			let (mut socket, _) = listener.accept().await.expect("Failed to accept new TCP connection");
+			let mut socket = match listener.accept().await {
+				Ok((socket, _)) => socket,
+				Err(_) => {
+					// Whatever is wrong with this connection (or for now, e.g. when out of file
+					// descriptors), we should keep on serving others.
+					tokio::task::yield_now().await;
+					continue;
+				},
+			};
 			tokio::spawn(async move {
 				let mut response = ("400 Bad Request", "Bad Request");
 				'ret_err: loop { // goto label
-- 
2.43.0


From 298e3bc251727fa687ee18a4d2d61667304c0dc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:46 +0000
Subject: [PATCH 32/33] fix: take responses of 65535 bytes in the WASM builder

---
 wasmpack/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wasmpack/src/lib.rs b/wasmpack/src/lib.rs
index 57fe0a0..e949a50 100644
--- a/wasmpack/src/lib.rs
+++ b/wasmpack/src/lib.rs
@@ -40,7 +40,7 @@ pub fn init_proof_builder(mut name: String, ty: u16) -> Option<WASMProofBuilder>
 /// After calling this, [`get_next_query`] should be called until pending queries are exhausted and
 /// no more pending queries exist, at which point [`get_unverified_proof`] should be called.
 pub fn process_query_response(proof_builder: &mut WASMProofBuilder, response: Vec<u8>) {
-	if response.len() < u16::MAX as usize {
+	if response.len() <= u16::MAX as usize {
 		let mut answer = QueryBuf::new_zeroed(response.len() as u16);
 		answer.copy_from_slice(&response);
 		if let Ok(queries) = proof_builder.0.process_response(&answer) {
-- 
2.43.0


From 02d1ede05d92da7dd0df8cf2aafc4822dc4c1133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:55 +0000
Subject: [PATCH 33/33] fix: produce valid JSON whatever made a DoH query fail

---
 wasmpack/doh_lookup.js | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wasmpack/doh_lookup.js b/wasmpack/doh_lookup.js
index 17c5bbf..233208a 100644
--- a/wasmpack/doh_lookup.js
+++ b/wasmpack/doh_lookup.js
@@ -40,7 +40,7 @@ export async function lookup_doh(domain, ty, doh_endpoint) {
 						wasm.process_query_response(builder, buf);
 						queries_pending -= 1;
 					} catch (e) {
-						return "{\"error\":\"DoH Query failed: " + e + "\"}";
+						return JSON.stringify({"error": "DoH Query failed: " + e});
 					}
 					return await send_next_query();
 				} else if (queries_pending == 0) {
-- 
2.43.0

