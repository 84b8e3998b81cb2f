//! Byte-level encoder and decoder with selectable byte order. Deliberately shares
//! nothing with the crate under test.
#[derive(Clone, Default, Debug)]
pub struct B {
    pub be: bool,
    pub is64: bool,
    pub v: Vec<u8>,
}
impl B {
    pub fn new(be: bool, is64: bool) -> B {
        B { be, is64, v: vec![] }
    }
    pub fn int(&mut self, n: usize, x: u64) -> &mut Self {
        for i in 0..n {
            let sh = if self.be { 8 * (n - 1 - i) } else { 8 * i };
            self.v.push((x >> sh) as u8);
        }
        self
    }
    pub fn u8(&mut self, x: u8) -> &mut Self {
        self.int(1, x as u64)
    }
    pub fn u16(&mut self, x: u16) -> &mut Self {
        self.int(2, x as u64)
    }
    pub fn u32(&mut self, x: u32) -> &mut Self {
        self.int(4, x as u64)
    }
    pub fn u64(&mut self, x: u64) -> &mut Self {
        self.int(8, x)
    }
    /// 4 or 8 byte value depending on the class.
    pub fn w(&mut self, x: u64) -> &mut Self {
        self.int(if self.is64 { 8 } else { 4 }, x)
    }
    pub fn bytes(&mut self, x: &[u8]) -> &mut Self {
        self.v.extend_from_slice(x);
        self
    }
    pub fn cstr(&mut self, x: &[u8]) -> &mut Self {
        self.v.extend_from_slice(x);
        self.v.push(0);
        self
    }
    pub fn zeros(&mut self, n: usize) -> &mut Self {
        self.v.resize(self.v.len() + n, 0);
        self
    }
    pub fn align(&mut self, a: usize) -> &mut Self {
        while a > 1 && self.v.len() % a != 0 {
            self.v.push(0)
        }
        self
    }
    /// Fixed-width name field, zero padded.
    pub fn fixed(&mut self, x: &[u8], n: usize) -> &mut Self {
        assert!(x.len() <= n);
        self.v.extend_from_slice(x);
        self.zeros(n - x.len())
    }
    pub fn len(&self) -> usize {
        self.v.len()
    }
    pub fn is_empty(&self) -> bool {
        self.v.is_empty()
    }
    pub fn put(&mut self, off: usize, n: usize, x: u64) {
        let mut t = B::new(self.be, self.is64);
        t.int(n, x);
        self.v[off..off + n].copy_from_slice(&t.v);
    }
    pub fn uleb(&mut self, mut x: u64) -> &mut Self {
        loop {
            let b = (x & 0x7f) as u8;
            x >>= 7;
            if x == 0 {
                self.v.push(b);
                return self;
            }
            self.v.push(b | 0x80);
        }
    }
    pub fn sleb(&mut self, mut x: i64) -> &mut Self {
        loop {
            let b = (x & 0x7f) as u8;
            x >>= 7;
            if (x == 0 && b & 0x40 == 0) || (x == -1 && b & 0x40 != 0) {
                self.v.push(b);
                return self;
            }
            self.v.push(b | 0x80);
        }
    }
}

/// Independent decoder: every read is checked and yields `None` outside the data.
#[derive(Clone, Copy, Debug)]
pub struct D<'a> {
    pub be: bool,
    pub is64: bool,
    pub v: &'a [u8],
    pub p: usize,
}
impl<'a> D<'a> {
    pub fn new(be: bool, is64: bool, v: &'a [u8]) -> D<'a> {
        D { be, is64, v, p: 0 }
    }
    pub fn at(&self, p: usize) -> D<'a> {
        D { p, ..*self }
    }
    pub fn int(&mut self, n: usize) -> Option<u64> {
        let s = self.v.get(self.p..self.p.checked_add(n)?)?;
        self.p += n;
        let mut x = 0u64;
        for i in 0..n {
            x = x << 8 | s[if self.be { i } else { n - 1 - i }] as u64;
        }
        Some(x)
    }
    pub fn u8(&mut self) -> Option<u8> {
        self.int(1).map(|x| x as u8)
    }
    pub fn u16(&mut self) -> Option<u16> {
        self.int(2).map(|x| x as u16)
    }
    pub fn u32(&mut self) -> Option<u32> {
        self.int(4).map(|x| x as u32)
    }
    pub fn u64(&mut self) -> Option<u64> {
        self.int(8)
    }
    pub fn w(&mut self) -> Option<u64> {
        self.int(if self.is64 { 8 } else { 4 })
    }
    pub fn bytes(&mut self, n: usize) -> Option<&'a [u8]> {
        let s = self.v.get(self.p..self.p.checked_add(n)?)?;
        self.p += n;
        Some(s)
    }
    pub fn cstr(&mut self) -> Option<&'a [u8]> {
        let s = self.v.get(self.p..)?;
        let n = s.iter().position(|&b| b == 0)?;
        self.p += n + 1;
        Some(&s[..n])
    }
    pub fn rest(&self) -> &'a [u8] {
        self.v.get(self.p..).unwrap_or(&[])
    }
    pub fn uleb(&mut self) -> Option<u64> {
        let (mut x, mut s) = (0u64, 0);
        loop {
            let b = self.u8()?;
            if s < 64 {
                x |= ((b & 0x7f) as u64) << s;
            }
            s += 7;
            if b & 0x80 == 0 {
                return Some(x);
            }
        }
    }
    pub fn sleb(&mut self) -> Option<i64> {
        let (mut x, mut s) = (0i64, 0);
        loop {
            let b = self.u8()?;
            if s < 64 {
                x |= ((b & 0x7f) as i64) << s;
            }
            s += 7;
            if b & 0x80 == 0 {
                if s < 64 && b & 0x40 != 0 {
                    x |= -1i64 << s;
                }
                return Some(x);
            }
        }
    }
}

/// NUL-terminated string at an offset.
pub fn cstr_at(v: &[u8], off: usize) -> Option<&[u8]> {
    let s = v.get(off..)?;
    let n = s.iter().position(|&b| b == 0)?;
    Some(&s[..n])
}

/// String table builder. With `merge`, strings may be placed inside existing ones.
#[derive(Clone, Default, Debug)]
pub struct StrTab {
    pub v: Vec<u8>,
    pub merge: bool,
    /// Leading bytes that are never shared.
    pub skip: usize,
}
impl StrTab {
    pub fn new(prefix: &[u8], merge: bool) -> StrTab {
        StrTab { v: prefix.to_vec(), merge, skip: 0 }
    }
    /// A table that starts with a 32-bit length.
    pub fn with_length(merge: bool) -> StrTab {
        StrTab { v: vec![0; 4], merge, skip: 4 }
    }
    pub fn add(&mut self, s: &[u8]) -> u32 {
        if self.merge {
            let mut t = s.to_vec();
            t.push(0);
            if let Some(p) = self.v[self.skip..].windows(t.len()).position(|w| w == t) {
                return (p + self.skip) as u32;
            }
        }
        let o = self.v.len() as u32;
        self.v.extend_from_slice(s);
        self.v.push(0);
        o
    }
}
