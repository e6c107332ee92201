//! Readers that watch, and disturb, every read and seek the library makes.
use crate::rng::{mix, Rng};
use std::cell::RefCell;
use std::io::{Error, ErrorKind, Read, Result, Seek, SeekFrom};
use std::rc::Rc;

/// How many bytes a read gives
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Chunk {
    Full,
    Fixed(usize),
    /// 1 to n
    Random(usize),
    /// Mostly full with sometimes one byte
    Spiky,
    /// Reads never cross multiples of n (like a block device or a buffer of that size)
    Aligned(usize),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Fault {
    /// The operation fails with an error, the next ones work
    Once,
    /// Fails from then on
    Sticky,
    /// Reads give 0 byte from then on
    Eof,
}

#[derive(Clone, Debug)]
pub struct Plan {
    pub chunk: Chunk,
    /// One read in n is interrupted, 0: never
    pub interrupt: u64,
    /// Operation number at which a fault strikes
    pub fault: Option<(u64, Fault)>,
    /// Panic (caught by the case) after that many operations
    pub budget: u64,
    pub seed: u64,
}
impl Plan {
    pub fn plain() -> Self {
        Plan { chunk: Chunk::Full, interrupt: 0, fault: None, budget: 50_000_000, seed: 0 }
    }
    pub fn random(rng: &mut Rng) -> Self {
        let chunk = match rng.below(7) {
            0 => Chunk::Full,
            1 => Chunk::Fixed(1),
            2 => Chunk::Fixed(1 + rng.us(9)),
            3 => Chunk::Random(1 + rng.us(100)),
            4 => Chunk::Spiky,
            5 => Chunk::Aligned(*rng.pick(&[3, 7, 80, 128, 512, 2880, 4096])),
            _ => Chunk::Random(5000),
        };
        let interrupt = *rng.pick(&[0, 0, 2, 3, 10, 50]);
        Plan { chunk, interrupt, fault: None, budget: 50_000_000, seed: rng.u64() }
    }
}

#[derive(Default, Debug, Clone)]
pub struct Log {
    pub reads: u64,
    pub seeks: u64,
    pub bytes: u64,
    pub interrupts: u64,
    pub short_reads: u64,
    pub faults: u64,
    pub eofs: u64,
    pub max_pos: u64,
}
impl Log {
    pub fn ops(&self) -> u64 {
        self.reads + self.seeks
    }
}

/// A file too large to exist: patches of bytes laid over bytes that are a function of their position
#[derive(Debug, Default)]
pub struct Virt {
    pub len: u64,
    pub seed: u64,
    pub patches: std::collections::BTreeMap<u64, Vec<u8>>,
}
impl Virt {
    pub fn byte(&self, pos: u64) -> u8 {
        if let Some((o, p)) = self.patches.range(..=pos).next_back() {
            if pos - o < p.len() as u64 {
                return p[(pos - o) as usize];
            }
        }
        (mix(self.seed ^ (pos >> 3)) >> ((pos & 7) * 8)) as u8
    }
    pub fn fill(&self, pos: u64, buf: &mut [u8]) {
        for (i, b) in buf.iter_mut().enumerate() {
            *b = self.byte(pos + i as u64);
        }
    }
    pub fn get(&self, pos: u64, n: usize) -> Vec<u8> {
        let mut v = vec![0; n];
        self.fill(pos, &mut v);
        v
    }
}

#[derive(Clone)]
pub enum Src {
    Mem(Rc<Vec<u8>>),
    Virt(Rc<Virt>),
}

#[derive(Clone)]
pub struct MonReader {
    src: Src,
    pos: u64,
    plan: Plan,
    rng: Rng,
    was_interrupted: bool,
    pub log: Rc<RefCell<Log>>,
}
impl std::fmt::Debug for MonReader {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "MonReader@{}", self.pos)
    }
}

pub const BUDGET: &str = "operation budget exhausted: the library keeps calling the reader";

impl MonReader {
    pub fn new(src: Src, plan: Plan) -> Self {
        let rng = Rng::new(plan.seed);
        MonReader { src, pos: 0, plan, rng, was_interrupted: false, log: Default::default() }
    }
    pub fn mem(b: &[u8], plan: Plan) -> Self {
        Self::new(Src::Mem(Rc::new(b.to_vec())), plan)
    }
    fn len(&self) -> u64 {
        match &self.src {
            Src::Mem(m) => m.len() as u64,
            Src::Virt(v) => v.len,
        }
    }
    /// Some(Err) if a fault strikes at this operation, Some(Ok) for a premature end
    fn fault(&mut self, is_read: bool) -> Option<Result<()>> {
        let mut log = self.log.borrow_mut();
        let op = log.ops();
        if is_read {
            log.reads += 1;
        } else {
            log.seeks += 1;
        }
        if op >= self.plan.budget {
            drop(log);
            panic!("{}", BUDGET);
        }
        let (at, kind) = self.plan.fault?;
        let hit = match kind {
            Fault::Once => op == at,
            Fault::Sticky => op >= at,
            Fault::Eof => op >= at && is_read,
        };
        if !hit {
            return None;
        }
        log.faults += 1;
        Some(if kind == Fault::Eof { Ok(()) } else { Err(Error::new(ErrorKind::Other, "injected")) })
    }
}

impl Read for MonReader {
    fn read(&mut self, buf: &mut [u8]) -> Result<usize> {
        match self.fault(true) {
            Some(Err(e)) => return Err(e),
            Some(Ok(())) => return Ok(0),
            None => (),
        }
        if self.plan.interrupt > 0 && !self.was_interrupted && self.rng.one_in(self.plan.interrupt) {
            self.was_interrupted = self.rng.bool();
            self.log.borrow_mut().interrupts += 1;
            return Err(ErrorKind::Interrupted.into());
        }
        self.was_interrupted = false;
        let left = self.len().saturating_sub(self.pos);
        let full = (buf.len() as u64).min(left) as usize;
        let n = match self.plan.chunk {
            Chunk::Full => full,
            Chunk::Fixed(n) => full.min(n),
            Chunk::Random(n) => full.min(1 + self.rng.us(n)),
            Chunk::Spiky => {
                if self.rng.one_in(3) {
                    full.min(1 + self.rng.us(3))
                } else {
                    full
                }
            }
            Chunk::Aligned(n) => full.min(n - (self.pos % n as u64) as usize),
        };
        match &self.src {
            Src::Mem(m) => {
                let s = (self.pos.min(m.len() as u64)) as usize;
                buf[..n].copy_from_slice(&m[s..s + n]);
            }
            Src::Virt(v) => v.fill(self.pos, &mut buf[..n]),
        }
        self.pos += n as u64;
        let mut log = self.log.borrow_mut();
        log.bytes += n as u64;
        if n < full {
            log.short_reads += 1;
        }
        if n == 0 && !buf.is_empty() {
            log.eofs += 1;
        }
        log.max_pos = log.max_pos.max(self.pos);
        Ok(n)
    }
}

impl Seek for MonReader {
    fn seek(&mut self, pos: SeekFrom) -> Result<u64> {
        if let Some(Err(e)) = self.fault(false) {
            return Err(e);
        }
        let p = match pos {
            SeekFrom::Start(p) => Some(p),
            SeekFrom::End(o) => self.len().checked_add_signed(o),
            SeekFrom::Current(o) => self.pos.checked_add_signed(o),
        };
        match p {
            Some(p) if p <= i64::MAX as u64 => {
                self.pos = p;
                Ok(p)
            }
            _ => Err(ErrorKind::InvalidInput.into()),
        }
    }
}
