//! Sources and sinks under the simulator's control.
use crate::core::*;
use prost::bytes::{buf::UninitSlice, Buf, BufMut, Bytes};
use std::fmt;
use std::io;

/// A buffer that hands out its bytes in arbitrary chunks.
pub struct SimBuf {
    data: Vec<u8>,
    ends: Vec<usize>,
    pos: usize,
    at: usize,
    /// panics when this position is reached
    pub panic_at: Option<usize>,
}
impl SimBuf {
    pub fn new(data: &[u8], ends: Vec<usize>) -> SimBuf {
        SimBuf { data: data.to_vec(), ends, pos: 0, at: 0, panic_at: None }
    }
    /// Cuts at arbitrary places.
    pub fn random(src: &mut Src, data: &[u8]) -> SimBuf {
        SimBuf::new(data, cuts(src, data.len()))
    }
}
/// Increasing positions, the last of which is the length.
pub fn cuts(src: &mut Src, len: usize) -> Vec<usize> {
    let mut ends = Vec::new();
    match src.below(4) {
        0 => {
            let n = src.len(4);
            for _ in 0..n {
                ends.push(src.below(len + 1));
            }
        }
        1 => ends.extend(1..len),
        2 => {
            let k = 2 + src.below(9);
            ends.extend((1..len).filter(|i| i % k == 0));
        }
        _ => {
            let mut at = 0;
            while at < len {
                at += 1 + src.len(20);
                ends.push(at.min(len));
            }
        }
    }
    ends.retain(|&e| e > 0 && e < len);
    ends.push(len);
    ends.sort();
    ends.dedup();
    ends
}
impl Buf for SimBuf {
    fn remaining(&self) -> usize {
        self.data.len() - self.pos
    }
    fn chunk(&self) -> &[u8] {
        let end = self.ends.get(self.at).copied().unwrap_or(self.data.len());
        &self.data[self.pos..end]
    }
    fn advance(&mut self, n: usize) {
        assert!(n <= self.remaining(), "advance past the end of the buffer");
        self.pos += n;
        while self.at < self.ends.len() && self.ends[self.at] <= self.pos {
            self.at += 1;
        }
        if self.panic_at.is_some_and(|p| self.pos >= p) {
            std::panic::panic_any("simulated buffer panic");
        }
    }
}

/// A buffer of separate `Bytes`, from which slices can be shared.
pub struct Rope(pub std::collections::VecDeque<Bytes>);
impl Rope {
    pub fn new(data: &[u8], ends: &[usize]) -> Rope {
        let mut q = std::collections::VecDeque::new();
        let mut at = 0;
        for &e in ends {
            if e > at {
                q.push_back(Bytes::copy_from_slice(&data[at..e]));
                at = e;
            }
        }
        Rope(q)
    }
}
impl Buf for Rope {
    fn remaining(&self) -> usize {
        self.0.iter().map(|b| b.len()).sum()
    }
    fn chunk(&self) -> &[u8] {
        self.0.front().map_or(&[], |b| &b[..])
    }
    fn advance(&mut self, mut n: usize) {
        while n > 0 {
            let f = self.0.front_mut().expect("advance past the end of the buffer");
            let k = n.min(f.len());
            f.advance(k);
            n -= k;
            if f.is_empty() {
                self.0.pop_front();
            }
        }
    }
    fn copy_to_bytes(&mut self, n: usize) -> Bytes {
        if let Some(f) = self.0.front_mut() {
            if f.len() > n {
                return f.split_to(n);
            }
            if f.len() == n {
                return self.0.pop_front().unwrap();
            }
        }
        let mut v = vec![0; n];
        self.copy_to_slice(&mut v);
        Bytes::from(v)
    }
}

/// A sink that takes its bytes in arbitrary chunks and has a fixed amount of room.
pub struct SimBufMut {
    data: Vec<u8>,
    ends: Vec<usize>,
    pos: usize,
    at: usize,
}
impl SimBufMut {
    pub fn new(room: usize, ends: Vec<usize>) -> SimBufMut {
        SimBufMut { data: vec![0xa5; room], ends, pos: 0, at: 0 }
    }
    pub fn written(&self) -> &[u8] {
        &self.data[..self.pos]
    }
}
unsafe impl BufMut for SimBufMut {
    fn remaining_mut(&self) -> usize {
        self.data.len() - self.pos
    }
    unsafe fn advance_mut(&mut self, n: usize) {
        assert!(n <= self.remaining_mut(), "advance past the end of the sink");
        self.pos += n;
        while self.at < self.ends.len() && self.ends[self.at] <= self.pos {
            self.at += 1;
        }
    }
    fn chunk_mut(&mut self) -> &mut UninitSlice {
        let end = self.ends.get(self.at).copied().unwrap_or(self.data.len());
        UninitSlice::new(&mut self.data[self.pos..end])
    }
}

#[derive(Clone, Debug)]
pub enum IoFault {
    None,
    /// a hard error after so many bytes
    Error(usize),
    /// the stream ends after so many bytes
    Eof(usize),
}

pub const IO_ERROR: &str = "simulated i/o error";

/// A reader that returns short pieces, is interrupted, and may fail or end early.
pub struct SimRead {
    data: Vec<u8>,
    pos: usize,
    lens: Vec<usize>,
    call: usize,
    fault: IoFault,
    pub fired: bool,
    pub short: u64,
    pub eintr: u64,
}
impl SimRead {
    pub fn new(src: &mut Src, data: &[u8], fault: IoFault) -> SimRead {
        // 0 stands for an interruption
        let n = 1 + src.len(6);
        let mut lens: Vec<usize> = (0..n).map(|_| [usize::MAX, 0, 1, 2, 3, 7, 64][src.below(7)]).collect();
        if lens.iter().all(|&l| l == 0) {
            lens.push(5);
        }
        SimRead { data: data.to_vec(), pos: 0, lens, call: 0, fault, fired: false, short: 0, eintr: 0 }
    }
}
impl io::Read for SimRead {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        if buf.is_empty() {
            return Ok(0);
        }
        let want = self.lens[self.call % self.lens.len()];
        self.call += 1;
        if want == 0 {
            self.eintr += 1;
            return Err(io::ErrorKind::Interrupted.into());
        }
        let mut end = self.data.len();
        match self.fault {
            IoFault::Error(k) => {
                end = end.min(k);
                if self.pos >= k {
                    self.fired = true;
                    return Err(io::Error::new(io::ErrorKind::Other, IO_ERROR));
                }
            }
            IoFault::Eof(k) => {
                end = end.min(k);
                if self.pos >= k {
                    self.fired = true;
                    return Ok(0);
                }
            }
            IoFault::None => {}
        }
        let n = buf.len().min(want).min(end - self.pos);
        if n < buf.len() {
            self.short += 1;
        }
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}

/// A writer that accepts short pieces, is interrupted, and may fail or run out of room.
pub struct SimWrite {
    pub data: Vec<u8>,
    lens: Vec<usize>,
    call: usize,
    pub room: Option<usize>,
    /// refuses by accepting nothing instead of with an error
    pub zero: bool,
    pub refused: u64,
    pub calls_after_refusal: u64,
    pub short: u64,
    pub eintr: u64,
}
impl SimWrite {
    pub fn new(src: &mut Src, room: Option<usize>) -> SimWrite {
        let n = 1 + src.len(6);
        let mut lens: Vec<usize> = (0..n).map(|_| [usize::MAX, 0, 1, 2, 3, 7, 64][src.below(7)]).collect();
        if lens.iter().all(|&l| l == 0) {
            lens.push(5);
        }
        SimWrite {
            data: Vec::new(),
            lens,
            call: 0,
            room,
            zero: src.chance(1, 4),
            refused: 0,
            calls_after_refusal: 0,
            short: 0,
            eintr: 0,
        }
    }
}
impl io::Write for SimWrite {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        if buf.is_empty() {
            return Ok(0);
        }
        if self.refused > 0 {
            self.calls_after_refusal += 1;
        }
        let want = self.lens[self.call % self.lens.len()];
        self.call += 1;
        if want == 0 {
            self.eintr += 1;
            return Err(io::ErrorKind::Interrupted.into());
        }
        let mut n = buf.len().min(want);
        if let Some(r) = self.room {
            n = n.min(r - self.data.len());
            if n == 0 {
                self.refused += 1;
                return if self.zero { Ok(0) } else { Err(io::Error::new(io::ErrorKind::Other, IO_ERROR)) };
            }
        }
        if n < buf.len() {
            self.short += 1;
        }
        self.data.extend_from_slice(&buf[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

/// A formatting sink that fails once it has taken a number of bytes.
pub struct SimFmt {
    pub out: String,
    pub room: Option<usize>,
    pub refused: u64,
    /// takes the part that fits before failing
    pub partial: bool,
    /// fails only once, then accepts again
    pub once: bool,
}
impl SimFmt {
    pub fn new(room: Option<usize>, partial: bool, once: bool) -> SimFmt {
        SimFmt { out: String::new(), room, refused: 0, partial, once }
    }
}
impl fmt::Write for SimFmt {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        if self.once && self.refused > 0 {
            self.out.push_str(s);
            return Ok(());
        }
        if let Some(r) = self.room {
            let left = r.saturating_sub(self.out.len());
            if s.len() > left {
                self.refused += 1;
                if self.partial {
                    let mut k = left;
                    while !s.is_char_boundary(k) {
                        k -= 1;
                    }
                    self.out.push_str(&s[..k]);
                }
                return Err(fmt::Error);
            }
        }
        self.out.push_str(s);
        Ok(())
    }
}
