//! Stand-in for memmap2 with which the address sanitizer sees every access outside a map: each map is a
//! heap block of exactly the requested length.
use std::alloc::{alloc_zeroed, dealloc, Layout};
use std::fs::File;
use std::io::{Read, Result};
use std::ops::{Deref, DerefMut};

#[derive(Debug)]
struct Block {
    at: *mut u8,
    len: usize,
}
unsafe impl Send for Block {}
unsafe impl Sync for Block {}
impl Block {
    fn layout(len: usize) -> Layout {
        Layout::from_size_align(len.max(1), 4096).unwrap()
    }
    fn new(len: usize) -> Result<Block> {
        if len > 1 << 30 {
            return Err(std::io::ErrorKind::OutOfMemory.into());
        }
        let at = unsafe { alloc_zeroed(Self::layout(len)) };
        assert!(!at.is_null());
        Ok(Block { at, len })
    }
}
impl Drop for Block {
    fn drop(&mut self) {
        unsafe { dealloc(self.at, Self::layout(self.len)) }
    }
}

#[derive(Debug)]
pub struct Mmap(Block);
pub struct MmapMut(Block);
impl Mmap {
    /// # Safety
    /// the real one asks that nobody changes the file
    pub unsafe fn map(mut f: &File) -> Result<Mmap> {
        let mut m = MmapMut::map_anon(f.metadata()?.len() as usize)?;
        f.read_exact(&mut m)?;
        m.make_read_only()
    }
}
impl MmapMut {
    pub fn map_anon(len: usize) -> Result<MmapMut> {
        Block::new(len).map(MmapMut)
    }
    pub fn make_read_only(self) -> Result<Mmap> {
        Ok(Mmap(self.0))
    }
}
impl Deref for Mmap {
    type Target = [u8];
    fn deref(&self) -> &[u8] {
        unsafe { std::slice::from_raw_parts(self.0.at, self.0.len) }
    }
}
impl AsRef<[u8]> for Mmap {
    fn as_ref(&self) -> &[u8] {
        self
    }
}
impl Deref for MmapMut {
    type Target = [u8];
    fn deref(&self) -> &[u8] {
        unsafe { std::slice::from_raw_parts(self.0.at, self.0.len) }
    }
}
impl DerefMut for MmapMut {
    fn deref_mut(&mut self) -> &mut [u8] {
        unsafe { std::slice::from_raw_parts_mut(self.0.at, self.0.len) }
    }
}
impl AsMut<[u8]> for MmapMut {
    fn as_mut(&mut self) -> &mut [u8] {
        self
    }
}
