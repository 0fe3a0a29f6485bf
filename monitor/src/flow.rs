//! Readers and writers with injected behaviour: chunking, interruptions, errors.

use std::io::{self, BufReader, Read, Write};

use crate::rng::Rng;

/// Any of them ends the reading or writing, none stands for success.
const KINDS: &[io::ErrorKind] = &[
    io::ErrorKind::Other,
    io::ErrorKind::UnexpectedEof,
    io::ErrorKind::InvalidData,
    io::ErrorKind::BrokenPipe,
    io::ErrorKind::TimedOut,
    io::ErrorKind::WouldBlock,
    io::ErrorKind::PermissionDenied,
    io::ErrorKind::ConnectionReset,
    io::ErrorKind::NotFound,
    io::ErrorKind::InvalidInput,
    io::ErrorKind::WriteZero,
];

pub struct Chunky {
    data: Vec<u8>,
    pos: usize,
    rng: Rng,
    max: usize,
    interrupts: bool,
    /// position of a read error, reported once, followed by the end of the input
    pub fail_at: Option<usize>,
    failed: bool,
    kind: io::ErrorKind,
}

impl Chunky {
    pub fn new(data: impl Into<Vec<u8>>, rng: &mut Rng) -> Self {
        let max = *rng.pick(&[1, 2, 3, 7, 16, 64, 4096]);
        let r = Rng::new(rng.next());
        Chunky {
            data: data.into(),
            pos: 0,
            interrupts: rng.chance(1, 3),
            rng: r,
            max,
            fail_at: None,
            failed: false,
            kind: *rng.pick(KINDS),
        }
    }
    pub fn buffered(self, rng: &mut Rng) -> BufReader<Chunky> {
        BufReader::with_capacity(*rng.pick(&[1, 2, 5, 17, 64, 8192]), self)
    }
}

impl Read for Chunky {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        if self.failed {
            return Ok(0);
        }
        if self.interrupts && self.rng.chance(1, 8) {
            return Err(io::Error::new(io::ErrorKind::Interrupted, "interrupted"));
        }
        let mut end = self.data.len();
        if let Some(f) = self.fail_at {
            if self.pos >= f {
                self.failed = true;
                return Err(io::Error::new(self.kind, "injected read error"));
            }
            end = end.min(f);
        }
        let n = (1 + self.rng.below(self.max)).min(buf.len()).min(end - self.pos);
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}

/// Accepts a number of bytes, in pieces, then fails, for good or only once.
pub struct Choking {
    left: usize,
    once: bool,
    kind: io::ErrorKind,
}

impl Choking {
    pub fn new(left: usize, rng: &mut Rng) -> Self {
        Choking {
            left,
            once: rng.chance(1, 2),
            kind: *rng.pick(KINDS),
        }
    }
}

impl Write for Choking {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        if self.left == 0 {
            if self.once {
                self.left = usize::max_value();
            }
            return Err(io::Error::new(self.kind, "injected write error"));
        }
        let n = buf.len().min(self.left).min(7);
        self.left -= n;
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
