//! Controlled input sources: every read decision is made by the checker.
use std::io::{self, BufRead, Read};

#[derive(Clone, Debug, PartialEq)]
pub enum Cut {
    /// Everything in one buffer.
    Whole,
    /// One character (UTF-8 sequence) per buffer, so a consumer that errors
    /// before asking for more has provably not looked further ahead.
    Char,
    /// Fixed-size buffers.
    Fixed(usize),
    /// Explicit ascending cut positions.
    At(Vec<usize>),
}

pub fn u8len(b: u8) -> usize {
    match b {
        0..=0x7f => 1,
        0xc0..=0xdf => 2,
        0xe0..=0xef => 3,
        0xf0..=0xf7 => 4,
        _ => 1,
    }
}

pub struct Feed<'a> {
    pub data: &'a [u8],
    pub pos: usize,
    pub cut: Cut,
    pub saw_eof: bool,
    cur_end: usize,
}

impl<'a> Feed<'a> {
    pub fn new(data: &'a [u8], cut: Cut) -> Self {
        Feed { data, pos: 0, cut, saw_eof: false, cur_end: 0 }
    }
    fn next_end(&self) -> usize {
        let n = self.data.len();
        if self.pos >= n {
            return n;
        }
        match &self.cut {
            Cut::Whole => n,
            Cut::Char => (self.pos + u8len(self.data[self.pos])).min(n),
            Cut::Fixed(k) => (self.pos + k).min(n),
            Cut::At(v) => v.iter().copied().find(|x| *x > self.pos).unwrap_or(n).min(n),
        }
    }
    pub fn chunk(&mut self) -> &'a [u8] {
        if self.pos >= self.cur_end {
            self.cur_end = self.next_end();
        }
        if self.pos >= self.data.len() {
            self.saw_eof = true;
        }
        &self.data[self.pos..self.cur_end]
    }
}

impl Read for Feed<'_> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let c = self.chunk();
        let n = c.len().min(buf.len());
        buf[..n].copy_from_slice(&c[..n]);
        self.pos += n;
        Ok(n)
    }
}
impl BufRead for Feed<'_> {
    fn fill_buf(&mut self) -> io::Result<&[u8]> {
        Ok(self.chunk())
    }
    fn consume(&mut self, amt: usize) {
        self.pos += amt;
        assert!(self.pos <= self.data.len(), "consume() past the end of the buffer");
    }
}
