//! Enough of tar: regular entries with ustar headers, read in order from a stream.
use std::{borrow::Cow, cell::RefCell, io, io::Read, path::Path};

struct Stream<R> {
    inner: R,
    /// bytes of the current entry that were not read yet, padding included
    left: u64,
}
pub struct Archive<R: Read> {
    s: RefCell<Stream<R>>,
}
pub struct Entries<'a, R: Read> {
    s: &'a RefCell<Stream<R>>,
    done: bool,
}
pub struct Entry<'a, R: Read> {
    s: &'a RefCell<Stream<R>>,
    path: Vec<u8>,
    size: u64,
    left: u64,
}
impl<R: Read> Archive<R> {
    pub fn new(r: R) -> Self {
        Archive { s: RefCell::new(Stream { inner: r, left: 0 }) }
    }
    pub fn entries(&mut self) -> io::Result<Entries<'_, R>> {
        Ok(Entries { s: &self.s, done: false })
    }
}
fn other(m: &str) -> io::Error {
    io::Error::new(io::ErrorKind::Other, m)
}
impl<'a, R: Read> Entries<'a, R> {
    fn advance(&mut self) -> io::Result<Option<Entry<'a, R>>> {
        let mut s = self.s.borrow_mut();
        let skip = s.left;
        if io::copy(&mut (&mut s.inner).take(skip), &mut io::sink())? != skip {
            return Err(other("unexpected EOF during skip"));
        }
        s.left = 0;
        let mut h = [0u8; 512];
        let mut n = 0;
        while n < 512 {
            match s.inner.read(&mut h[n..])? {
                0 if n == 0 => return Ok(None),
                0 => return Err(other("failed to read entire block")),
                k => n += k,
            }
        }
        if h.iter().all(|b| *b == 0) {
            return Ok(None);
        }
        let text = |r: std::ops::Range<usize>| h[r].split(|b| *b == 0).next().unwrap().to_vec();
        let octal = |r: std::ops::Range<usize>| {
            std::str::from_utf8(&text(r)).ok().and_then(|x| u64::from_str_radix(x.trim(), 8).ok()).ok_or_else(|| other("numeric field was not a number"))
        };
        let sum: u64 = h.iter().enumerate().map(|(i, b)| if (148..156).contains(&i) { 32 } else { *b as u64 }).sum();
        if octal(148..156)? != sum {
            return Err(other("archive header checksum mismatch"));
        }
        let size = octal(124..136)?;
        s.left = (size + 511) / 512 * 512;
        Ok(Some(Entry { s: self.s, path: text(0..100), size, left: size }))
    }
}
impl<'a, R: Read> Iterator for Entries<'a, R> {
    type Item = io::Result<Entry<'a, R>>;
    fn next(&mut self) -> Option<Self::Item> {
        if self.done {
            return None;
        }
        let r = self.advance();
        if !matches!(r, Ok(Some(_))) {
            self.done = true;
        }
        r.transpose()
    }
}
impl<'a, R: Read> Entry<'a, R> {
    pub fn path(&self) -> io::Result<Cow<'_, Path>> {
        use std::os::unix::ffi::OsStrExt;
        Ok(Cow::Borrowed(Path::new(std::ffi::OsStr::from_bytes(&self.path))))
    }
    pub fn size(&self) -> u64 {
        self.size
    }
}
impl<'a, R: Read> Read for Entry<'a, R> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let mut s = self.s.borrow_mut();
        let n = buf.len().min(self.left as usize);
        if n == 0 {
            return Ok(0);
        }
        let k = s.inner.read(&mut buf[..n])?;
        self.left -= k as u64;
        s.left -= k as u64;
        Ok(k)
    }
}
