//! Independent reference reader for KDL 2.0, written from the specification's
//! grammar (not from kdl-rs).  Where the published revisions of the
//! specification disagree, `loose` is set and acceptance is not compared.

#[derive(Debug, Clone, PartialEq)]
pub enum RVal { Str(String), Int(i128), Float(f64), Bool(bool), Null }
#[derive(Debug, Clone, PartialEq)]
pub struct REntry { pub name: Option<String>, pub ty: Option<String>, pub val: RVal }
#[derive(Debug, Clone, PartialEq)]
pub struct RNode { pub ty: Option<String>, pub name: String, pub entries: Vec<REntry>, pub children: Option<Vec<RNode>> }

pub struct P { c: Vec<char>, i: usize, pub loose: bool }
pub type R<T> = Result<T, ()>;

fn isc(c: char, l: &[u32]) -> bool { let mut r = false; for &x in l { r |= c as u32 == x; } r }
fn within(c: char, a: u32, b: u32) -> bool { (c as u32).wrapping_sub(a) <= b - a }
pub fn is_nl(c: char) -> bool { within(c, 0xa, 0xd) | isc(c, &[0x85, 0x2028, 0x2029]) }
pub fn is_sp(c: char) -> bool { isc(c, &[9, 0x20, 0xa0, 0x1680, 0x202f, 0x205f, 0x3000]) | within(c, 0x2000, 0x200a) }
pub fn is_bad(c: char) -> bool {
    within(c, 0, 8) | within(c, 0xe, 0x1f) | (c as u32 == 0x7f) | within(c, 0x200e, 0x200f) | within(c, 0x202a, 0x202e) | within(c, 0x2066, 0x2069) | (c as u32 == 0xfeff)
}
pub fn is_ident(c: char) -> bool {
    let mut x = is_nl(c) | is_sp(c) | is_bad(c);
    for k in ['\\', '/', '(', ')', '{', '}', ';', '[', ']', '"', '#', '='] { x |= c == k; }
    !x
}
fn is_dig(c: char) -> bool { within(c, 48, 57) }
fn is_sign(c: char) -> bool { (c == '+') | (c == '-') }
fn hexv(c: char) -> Option<u32> {
    if is_dig(c) { return Some(c as u32 - 48); }
    let l = c as u32 | 0x20;
    if (c as u32) < 128 && within(char::from_u32(l).unwrap_or('\0'), 97, 102) { Some(l - 97 + 10) } else { None }
}
/// a plain (unquoted) string is one of the three identifier forms and no reserved word
pub fn ident_ok(w: &[char]) -> bool {
    if w.is_empty() { return false; }
    for &c in w { if !is_ident(c) { return false; } }
    let mut k = 0;
    if is_sign(w[0]) { k = 1; }
    if k < w.len() {
        if is_dig(w[k]) { return false; }
        if w[k] == '.' && k + 1 < w.len() && is_dig(w[k + 1]) { return false; }
    }
    for kw in ["true", "false", "null", "inf", "-inf", "nan"] {
        if w.len() == kw.len() {
            let mut eq = true;
            for (a, b) in w.iter().zip(kw.chars()) { eq &= *a == b; }
            if eq { return false; }
        }
    }
    true
}

impl P {
    pub fn new(s: &str) -> P { P { c: s.chars().collect(), i: 0, loose: false } }
    fn pk(&self) -> Option<char> { self.c.get(self.i).copied() }
    fn at(&self, k: usize) -> Option<char> { self.c.get(self.i + k).copied() }
    fn is(&self, c: char) -> bool { self.pk() == Some(c) }
    fn is2(&self, a: char, b: char) -> bool { self.pk() == Some(a) && self.at(1) == Some(b) }
    fn eof(&self) -> bool { self.i >= self.c.len() }
    fn eat(&mut self, c: char) -> bool { if self.is(c) { self.i += 1; true } else { false } }

    fn newline(&mut self) -> bool {
        match self.pk() {
            Some(c) if is_nl(c) => {
                self.i += 1;
                if c == '\r' && self.is('\n') { self.i += 1; }
                true
            }
            _ => false,
        }
    }
    fn mlc(&mut self) -> R<()> {
        self.i += 2;
        let mut d = 1;
        while d > 0 {
            if self.is2('*', '/') { d -= 1; self.i += 2; }
            else if self.is2('/', '*') { d += 1; self.i += 2; }
            else { match self.pk() { None => return Err(()), Some(c) => { if is_bad(c) { self.loose = true; } self.i += 1; } } }
        }
        Ok(())
    }
    fn ws(&mut self) -> R<bool> {
        match self.pk() {
            Some(c) if is_sp(c) => { self.i += 1; Ok(true) }
            Some('/') if self.at(1) == Some('*') => { self.mlc()?; Ok(true) }
            _ => Ok(false),
        }
    }
    fn slc(&mut self) -> bool {
        if !self.is2('/', '/') { return false; }
        self.i += 2;
        loop {
            match self.pk() {
                None => return true,
                Some(c) if is_nl(c) => { self.newline(); return true; }
                Some(c) => { if is_bad(c) { self.loose = true; } self.i += 1; }
            }
        }
    }
    fn nsp1(&mut self) -> R<bool> {
        if self.ws()? { return Ok(true); }
        if self.is('\\') {
            self.i += 1;
            while self.ws()? {}
            if self.eof() || self.slc() || self.newline() { return Ok(true); }
            return Err(());
        }
        Ok(false)
    }
    fn nsp(&mut self) -> R<bool> { let mut r = false; while self.nsp1()? { r = true; } Ok(r) }
    fn lsp(&mut self) -> R<()> { while self.nsp1()? || self.newline() || self.slc() {} Ok(()) }
    fn slashdash(&mut self) -> R<bool> {
        if self.is2('/', '-') { self.i += 2; self.lsp()?; Ok(true) } else { Ok(false) }
    }

    pub fn document(&mut self) -> R<Vec<RNode>> {
        self.eat('\u{feff}');
        let n = self.nodes(false)?;
        if self.eof() { Ok(n) } else { Err(()) }
    }
    fn nodes(&mut self, inner: bool) -> R<Vec<RNode>> {
        let mut out = vec![];
        loop {
            self.lsp()?;
            if self.eof() { return if inner { Err(()) } else { Ok(out) }; }
            if inner && self.is('}') { return Ok(out); }
            let sd = self.slashdash()?;
            let n = self.base_node()?;
            if !sd { out.push(n); }
            if self.eof() || self.slc() || self.newline() || self.eat(';') { continue; }
            if inner && self.is('}') { continue; }
            return Err(());
        }
    }
    /// a whole text holding exactly one node, with surrounding space
    pub fn single_node(&mut self) -> R<RNode> {
        self.lsp()?;
        // as for single entries: slashdashed nodes in front
        if self.is2('/', '-') { self.loose = true; }
        let n = self.base_node()?;
        let _ = self.slc() || self.newline() || self.eat(';');
        self.lsp()?;
        if self.eof() { Ok(n) } else { Err(()) }
    }
    pub fn single_entry(&mut self) -> R<REntry> {
        self.lsp()?;
        // the library also takes slashdashed entries in front of a lone entry; the specification says nothing about lone entries
        if self.is2('/', '-') { self.loose = true; }
        let e = self.entry()?;
        self.lsp()?;
        if self.eof() { Ok(e) } else { Err(()) }
    }
    pub fn single_ident(&mut self) -> R<String> {
        let e = self.string()?;
        if self.eof() { Ok(e) } else { Err(()) }
    }
    fn children(&mut self) -> R<Vec<RNode>> {
        self.i += 1;
        let n = self.nodes(true)?;
        self.i += 1;
        Ok(n)
    }
    fn ty(&mut self) -> R<Option<String>> {
        if !self.eat('(') { return Ok(None); }
        self.nsp()?;
        let s = self.string()?;
        self.nsp()?;
        if !self.eat(')') { return Err(()); }
        self.nsp()?;
        Ok(Some(s))
    }
    fn base_node(&mut self) -> R<RNode> {
        let ty = self.ty()?;
        let name = self.string()?;
        let mut entries = vec![];
        let mut children = None;
        let mut stage = 0; // 0 entries, 1 discarded children before, 2 children seen
        loop {
            let sp = self.nsp()?;
            if self.is2('/', '-') {
                if !sp { self.loose = true; }
                self.slashdash()?;
                if self.is('{') { self.children()?; if stage == 0 { stage = 1; } }
                else {
                    if stage > 0 { return Err(()); }
                    self.entry()?;
                }
                continue;
            }
            match self.pk() {
                None => break,
                Some('{') => {
                    if !sp { self.loose = true; }
                    if stage == 2 { return Err(()); }
                    children = Some(self.children()?);
                    stage = 2;
                }
                Some(c) if is_nl(c) || c == ';' || c == '}' || self.is2('/', '/') => break,
                Some(_) => {
                    if !sp || stage > 0 { return Err(()); }
                    entries.push(self.entry()?);
                }
            }
        }
        Ok(RNode { ty, name, entries, children })
    }
    fn is_string(&self) -> bool {
        match self.pk() {
            None => false,
            Some('"') => true,
            Some('#') => {
                let mut k = 1;
                while self.at(k) == Some('#') { k += 1; }
                self.at(k) == Some('"')
            }
            Some(c) => {
                if !is_ident(c) || is_dig(c) { return false; }
                let mut k = 0;
                if is_sign(c) { k = 1; }
                if let Some(d) = self.at(k) {
                    if is_dig(d) && k == 1 { return false; }
                    if d == '.' { if let Some(e) = self.at(k + 1) { if is_dig(e) { return false; } } }
                }
                true
            }
        }
    }
    fn entry(&mut self) -> R<REntry> {
        if self.is('(') { let (ty, val) = self.value()?; return Ok(REntry { name: None, ty, val }); }
        if self.is_string() {
            let s = self.string()?;
            let m = self.i;
            let ok = self.nsp();
            if ok.is_ok() && self.is('=') {
                self.i += 1;
                self.nsp()?;
                let (ty, val) = self.value()?;
                return Ok(REntry { name: Some(s), ty, val });
            }
            self.i = m;
            return Ok(REntry { name: None, ty: None, val: RVal::Str(s) });
        }
        let (ty, val) = self.value()?;
        Ok(REntry { name: None, ty, val })
    }
    fn value(&mut self) -> R<(Option<String>, RVal)> {
        let ty = self.ty()?;
        if self.is_string() { return Ok((ty, RVal::Str(self.string()?))); }
        if self.is('#') {
            for (k, v) in [("#true", RVal::Bool(true)), ("#false", RVal::Bool(false)), ("#null", RVal::Null), ("#inf", RVal::Float(f64::INFINITY)), ("#-inf", RVal::Float(f64::NEG_INFINITY)), ("#nan", RVal::Float(f64::NAN))] {
                let mut ok = true;
                for (j, ch) in k.chars().enumerate() { if self.at(j) != Some(ch) { ok = false; break; } }
                if ok { self.i += k.len(); return Ok((ty, v)); }
            }
            return Err(());
        }
        let v = self.number()?;
        Ok((ty, v))
    }

    // ----- numbers -----
    fn number(&mut self) -> R<RVal> {
        let st = self.i;
        let mut neg = false;
        if let Some(c) = self.pk() { if is_sign(c) { neg = c == '-'; self.i += 1; } }
        if self.is('0') {
            let radix = match self.at(1) { Some('x') => 16, Some('o') => 8, Some('b') => 2, Some('X') => { self.loose = true; 16 } Some('O') => { self.loose = true; 8 } Some('B') => { self.loose = true; 2 } _ => 0 };
            if radix != 0 {
                self.i += 2;
                let mut n = 0;
                let mut v: Option<u128> = Some(0);
                while let Some(c) = self.pk() {
                    if c == '_' && n > 0 { self.i += 1; continue; }
                    match hexv(c) {
                        Some(d) if d < radix => { v = v.and_then(|v| v.checked_mul(radix as u128)).and_then(|v| v.checked_add(d as u128)); n += 1; self.i += 1; }
                        _ => break,
                    }
                }
                if n == 0 { return Err(()); }
                return self.int(v, neg);
            }
        }
        let mut t = String::new();
        if neg { t.push('-'); }
        self.digits(&mut t)?;
        let mut float = false;
        if self.is('.') { self.i += 1; t.push('.'); float = true; self.digits(&mut t)?; }
        if let Some(c) = self.pk() {
            if (c == 'e') | (c == 'E') {
                self.i += 1;
                float = true;
                t.push('e');
                if let Some(c) = self.pk() { if is_sign(c) { self.i += 1; t.push(c); } }
                self.digits(&mut t)?;
            }
        }
        let _ = st;
        if float { return t.parse::<f64>().map(RVal::Float).map_err(|_| ()); }
        let mut v: Option<u128> = Some(0);
        for b in t.bytes() { if b != b'-' { v = v.and_then(|v| v.checked_mul(10)).and_then(|v| v.checked_add((b - 48) as u128)); } }
        self.int(v, neg)
    }
    fn int(&mut self, v: Option<u128>, neg: bool) -> R<RVal> {
        match v {
            Some(v) if !neg && v <= i128::MAX as u128 => Ok(RVal::Int(v as i128)),
            Some(v) if neg && v <= 1u128 << 127 => Ok(RVal::Int((v as i128).wrapping_neg())),
            // does not fit: the specification leaves the range to the implementation, but a wrong value is never right
            _ => Err(()),
        }
    }
    fn digits(&mut self, t: &mut String) -> R<()> {
        match self.pk() { Some(c) if is_dig(c) => {} _ => return Err(()) }
        while let Some(c) = self.pk() {
            if c == '_' { self.i += 1; } else if is_dig(c) { t.push(c); self.i += 1; } else { break; }
        }
        Ok(())
    }

    // ----- strings -----
    fn string(&mut self) -> R<String> {
        match self.pk() {
            None => Err(()),
            Some('"') => if self.is2('"', '"') && self.at(2) == Some('"') { self.i += 3; self.multi(0) } else { self.quoted() },
            Some('#') => {
                let mut k = 0;
                while self.at(k) == Some('#') { k += 1; }
                if self.at(k) != Some('"') { return Err(()); }
                if self.at(k + 1) == Some('"') && self.at(k + 2) == Some('"') { self.i += k + 3; return self.multi(k); }
                self.i += k + 1;
                let st = self.i;
                loop {
                    match self.pk() {
                        None => return Err(()),
                        Some('"') if self.hashes(1) >= k => {
                            let s: String = self.c[st..self.i].iter().collect();
                            self.i += 1 + k;
                            return Ok(s);
                        }
                        Some(c) => { if is_nl(c) | is_bad(c) { return Err(()); } self.i += 1; }
                    }
                }
            }
            Some(_) => {
                let st = self.i;
                while let Some(c) = self.pk() { if is_ident(c) { self.i += 1; } else { break; } }
                if !ident_ok(&self.c[st..self.i]) { return Err(()); }
                Ok(self.c[st..self.i].iter().collect())
            }
        }
    }
    fn hashes(&self, from: usize) -> usize { let mut n = 0; while self.at(from + n) == Some('#') { n += 1; } n }
    /// an escape other than a whitespace escape; positioned after the backslash
    fn escape(c: &[char], i: &mut usize) -> R<char> {
        let Some(&e) = c.get(*i) else { return Err(()) };
        *i += 1;
        Ok(match e {
            '"' => '"', '\\' => '\\', 'b' => '\u{8}', 'f' => '\u{c}', 'n' => '\n', 'r' => '\r', 't' => '\t', 's' => ' ',
            'u' => {
                if c.get(*i) != Some(&'{') { return Err(()); }
                *i += 1;
                let mut n = 0;
                let mut v = 0u32;
                loop {
                    let Some(&d) = c.get(*i) else { return Err(()) };
                    *i += 1;
                    if d == '}' { break; }
                    let Some(h) = hexv(d) else { return Err(()) };
                    n += 1;
                    if n > 6 { return Err(()); }
                    v = v * 16 + h;
                }
                if n == 0 { return Err(()); }
                char::from_u32(v).ok_or(())?
            }
            _ => return Err(()),
        })
    }
    fn quoted(&mut self) -> R<String> {
        self.i += 1;
        let mut s = String::new();
        loop {
            match self.pk() {
                None => return Err(()),
                Some('"') => { self.i += 1; return Ok(s); }
                Some('\\') => {
                    self.i += 1;
                    let mut w = 0;
                    while let Some(c) = self.pk() { if is_sp(c) | is_nl(c) { self.i += 1; w += 1; } else { break; } }
                    if w > 0 { continue; }
                    let mut k = self.i;
                    let ch = Self::escape(&self.c, &mut k)?;
                    self.i = k;
                    s.push(ch);
                }
                Some(c) => { if is_nl(c) | is_bad(c) { return Err(()); } s.push(c); self.i += 1; }
            }
        }
    }
    /// after the opening quotes; `h` hashes (0 = not raw)
    fn multi(&mut self, h: usize) -> R<String> {
        if !self.newline() { return Err(()); }
        // body up to the closing quotes, newlines normalised, whitespace escapes removed
        let mut lines: Vec<Vec<char>> = vec![vec![]];
        loop {
            match self.pk() {
                None => return Err(()),
                Some('"') if self.at(1) == Some('"') && self.at(2) == Some('"') && (h == 0 || self.hashes(3) >= h) => { self.i += 3 + h; break; }
                Some('\\') if h == 0 => {
                    self.i += 1;
                    let mut w = 0;
                    while let Some(c) = self.pk() { if is_sp(c) | is_nl(c) { self.i += 1; w += 1; } else { break; } }
                    if w > 0 { continue; }
                    let Some(c) = self.pk() else { return Err(()) };
                    let l = lines.last_mut().unwrap();
                    l.push('\\');
                    l.push(c);
                    if is_bad(c) { return Err(()); }
                    self.i += 1;
                }
                Some(c) if is_nl(c) => { self.newline(); lines.push(vec![]); }
                Some(c) => { if is_bad(c) { return Err(()); } lines.last_mut().unwrap().push(c); self.i += 1; }
            }
        }
        let prefix = lines.pop().unwrap();
        for &c in &prefix { if !is_sp(c) { return Err(()); } }
        let mut out = String::new();
        for (k, l) in lines.iter().enumerate() {
            if k > 0 { out.push('\n'); }
            let mut blank = true;
            for &c in l { if !is_sp(c) { blank = false; break; } }
            if blank { continue; }
            if l.len() < prefix.len() { return Err(()); }
            for (a, b) in l.iter().zip(prefix.iter()) { if a != b { return Err(()); } }
            let mut i = prefix.len();
            while i < l.len() {
                let c = l[i];
                i += 1;
                if c == '\\' && h == 0 { out.push(Self::escape(l, &mut i)?); } else { out.push(c); }
            }
        }
        Ok(out)
    }
}
