//! A strict RFC 8259 parser (the oracle for JSON output) and string quoting for the evidence files.

#[derive(Debug, Clone, PartialEq)]
pub enum J { Null, Bool(bool), Num(String), Str(String), Arr(Vec<J>), Obj(Vec<(String, J)>) }
impl J {
	/// Looks a member up; duplicate members make the lookup fail.
	pub fn get(&self, k: &str) -> Option<&J> {
		if let J::Obj(o) = self {
			let mut it = o.iter().filter(|(kk, _)| kk == k);
			let r = it.next().map(|(_, v)| v);
			if it.next().is_some() { None } else { r }
		} else { None }
	}
	pub fn str(&self) -> Option<&str> { if let J::Str(s) = self { Some(s) } else { None } }
	pub fn u64(&self) -> Option<u64> { if let J::Num(s) = self { s.parse().ok() } else { None } }
	pub fn arr(&self) -> Option<&[J]> { if let J::Arr(a) = self { Some(a) } else { None } }
}

struct P<'a> { s: &'a [u8], i: usize }
pub fn parse(s: &str) -> Result<J, String> {
	let mut p = P { s: s.as_bytes(), i: 0 };
	let v = p.value(0)?;
	p.ws();
	if p.i != p.s.len() { return Err(format!("trailing text at {}", p.i)); }
	Ok(v)
}
impl P<'_> {
	fn ws(&mut self) { while matches!(self.s.get(self.i), Some(b' ' | b'\t' | b'\n' | b'\r')) { self.i += 1; } }
	fn err<T>(&self, m: &str) -> Result<T, String> { Err(format!("{} at byte {}", m, self.i)) }
	fn lit(&mut self, l: &str, v: J) -> Result<J, String> {
		if self.s[self.i..].starts_with(l.as_bytes()) { self.i += l.len(); Ok(v) } else { self.err("bad literal") }
	}
	fn value(&mut self, depth: usize) -> Result<J, String> {
		if depth > 100 { return self.err("too deep"); }
		self.ws();
		match self.s.get(self.i) {
			Some(b'n') => self.lit("null", J::Null),
			Some(b't') => self.lit("true", J::Bool(true)),
			Some(b'f') => self.lit("false", J::Bool(false)),
			Some(b'"') => Ok(J::Str(self.string()?)),
			Some(b'[') => {
				self.i += 1;
				let mut a = Vec::new();
				self.ws();
				if self.s.get(self.i) == Some(&b']') { self.i += 1; return Ok(J::Arr(a)); }
				loop {
					a.push(self.value(depth + 1)?);
					self.ws();
					match self.s.get(self.i) {
						Some(b',') => self.i += 1,
						Some(b']') => { self.i += 1; return Ok(J::Arr(a)); },
						_ => return self.err("expected , or ]"),
					}
				}
			},
			Some(b'{') => {
				self.i += 1;
				let mut o = Vec::new();
				self.ws();
				if self.s.get(self.i) == Some(&b'}') { self.i += 1; return Ok(J::Obj(o)); }
				loop {
					self.ws();
					if self.s.get(self.i) != Some(&b'"') { return self.err("expected member name"); }
					let k = self.string()?;
					self.ws();
					if self.s.get(self.i) != Some(&b':') { return self.err("expected :"); }
					self.i += 1;
					let v = self.value(depth + 1)?;
					o.push((k, v));
					self.ws();
					match self.s.get(self.i) {
						Some(b',') => self.i += 1,
						Some(b'}') => { self.i += 1; return Ok(J::Obj(o)); },
						_ => return self.err("expected , or }"),
					}
				}
			},
			Some(b'-' | b'0'..=b'9') => self.number(),
			_ => self.err("expected a value"),
		}
	}
	fn digits(&mut self) -> usize { let s = self.i; while matches!(self.s.get(self.i), Some(b'0'..=b'9')) { self.i += 1; } self.i - s }
	fn number(&mut self) -> Result<J, String> {
		let start = self.i;
		if self.s[self.i] == b'-' { self.i += 1; }
		let z = self.i;
		let n = self.digits();
		if n == 0 || (n > 1 && self.s[z] == b'0') { return self.err("bad number"); }
		if self.s.get(self.i) == Some(&b'.') { self.i += 1; if self.digits() == 0 { return self.err("bad fraction"); } }
		if matches!(self.s.get(self.i), Some(b'e' | b'E')) {
			self.i += 1;
			if matches!(self.s.get(self.i), Some(b'+' | b'-')) { self.i += 1; }
			if self.digits() == 0 { return self.err("bad exponent"); }
		}
		Ok(J::Num(String::from_utf8(self.s[start..self.i].to_vec()).unwrap()))
	}
	fn hex4(&mut self) -> Result<u32, String> {
		if self.i + 4 > self.s.len() { return self.err("short \\u"); }
		let t = std::str::from_utf8(&self.s[self.i..self.i + 4]).map_err(|_| "bad \\u".to_string())?;
		if !t.bytes().all(|b| b.is_ascii_hexdigit()) { return self.err("bad \\u"); }
		self.i += 4;
		Ok(u32::from_str_radix(t, 16).unwrap())
	}
	fn string(&mut self) -> Result<String, String> {
		self.i += 1;
		let mut out: Vec<u8> = Vec::new();
		loop {
			match self.s.get(self.i) {
				None => return self.err("unterminated string"),
				Some(b'"') => { self.i += 1; return String::from_utf8(out).map_err(|_| "not UTF-8".into()); },
				Some(b'\\') => {
					self.i += 1;
					let c = *self.s.get(self.i).ok_or("unterminated escape")?;
					self.i += 1;
					let ch = match c {
						b'"' => '"', b'\\' => '\\', b'/' => '/', b'b' => '\x08', b'f' => '\x0c', b'n' => '\n', b'r' => '\r', b't' => '\t',
						b'u' => {
							let a = self.hex4()?;
							let cp = if (0xd800..0xdc00).contains(&a) {
								if self.s.get(self.i) != Some(&b'\\') || self.s.get(self.i + 1) != Some(&b'u') { return self.err("lone surrogate"); }
								self.i += 2;
								let b = self.hex4()?;
								if !(0xdc00..0xe000).contains(&b) { return self.err("lone surrogate"); }
								0x10000 + ((a - 0xd800) << 10) + (b - 0xdc00)
							} else { a };
							char::from_u32(cp).ok_or("lone surrogate")?
						},
						_ => return self.err("bad escape"),
					};
					let mut b = [0; 4];
					out.extend_from_slice(ch.encode_utf8(&mut b).as_bytes());
				},
				Some(c) if *c < 0x20 => return self.err("raw control character"),
				Some(c) => { out.push(*c); self.i += 1; },
			}
		}
	}
}

/// A JSON string literal for the given text.
pub fn quote(s: &str) -> String {
	let mut o = String::with_capacity(s.len() + 2);
	o.push('"');
	for c in s.chars() {
		match c {
			'"' => o += "\\\"", '\\' => o += "\\\\", '\n' => o += "\\n", '\t' => o += "\\t", '\r' => o += "\\r",
			c if (c as u32) < 0x20 => o += &format!("\\u{:04x}", c as u32),
			c => o.push(c),
		}
	}
	o.push('"');
	o
}
