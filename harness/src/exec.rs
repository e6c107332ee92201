//! A single-threaded executor that decides when the reader is ready, and notices lost wake-ups.
use crate::mon::{Chunk, Fault};
use crate::rng::Rng;
use futures::io::AsyncRead;
use std::cell::RefCell;
use std::future::Future;
use std::io::{Error, ErrorKind};
use std::pin::Pin;
use std::rc::Rc;
use std::sync::atomic::{AtomicBool, Ordering::SeqCst};
use std::sync::Arc;
use std::task::{Context, Poll, Wake, Waker};

#[derive(Clone, Debug)]
pub struct APlan {
    pub chunk: Chunk,
    /// One read in n is not ready, 0: never, 1: every one is preceded by a 'not ready'
    pub pending: u64,
    /// Up to that many times in a row
    pub streak: u64,
    pub fault: Option<(u64, Fault)>,
    pub seed: u64,
}
impl APlan {
    pub fn random(rng: &mut Rng) -> Self {
        let p = crate::mon::Plan::random(rng);
        APlan {
            chunk: p.chunk,
            pending: *rng.pick(&[0, 1, 1, 2, 3, 10]),
            streak: 1 + rng.below(3),
            fault: None,
            seed: rng.u64(),
        }
    }
}

#[derive(Default, Debug)]
pub struct AState {
    pub reads: u64,
    pub pendings: u64,
    pub late_wakes: u64,
    pub bytes: u64,
    pub faults: u64,
    parked: Option<Waker>,
}

pub struct AReader {
    data: Rc<Vec<u8>>,
    pos: usize,
    plan: APlan,
    rng: Rng,
    streak: u64,
    /// Bytes of any value between those stored: where, how many are left
    gap: (usize, u64),
    pub st: Rc<RefCell<AState>>,
}
impl std::fmt::Debug for AReader {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "AReader@{}", self.pos)
    }
}
impl AReader {
    pub fn new(data: &[u8], plan: APlan) -> Self {
        let rng = Rng::new(plan.seed);
        AReader { data: Rc::new(data.to_vec()), pos: 0, plan, rng, streak: 0, gap: (0, 0), st: Default::default() }
    }
    /// With n bytes of any value inserted
    pub fn with_gap(data: &[u8], plan: APlan, at: usize, n: u64) -> Self {
        AReader { gap: (at, n), ..Self::new(data, plan) }
    }
}
impl AsyncRead for AReader {
    fn poll_read(mut self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut [u8]) -> Poll<std::io::Result<usize>> {
        let me = &mut *self;
        let mut st = me.st.borrow_mut();
        let op = st.reads;
        if me.plan.pending > 0 && me.streak < me.plan.streak && me.rng.one_in(me.plan.pending) {
            me.streak += 1;
            st.pendings += 1;
            if me.rng.bool() {
                cx.waker().wake_by_ref();
            } else {
                // ready later: only the last waker given is woken
                st.late_wakes += 1;
                st.parked = Some(cx.waker().clone());
            }
            return Poll::Pending;
        }
        me.streak = 0;
        st.reads += 1;
        if let Some((at, kind)) = me.plan.fault {
            let hit = if kind == Fault::Once { op == at } else { op >= at };
            if hit {
                st.faults += 1;
                return Poll::Ready(if kind == Fault::Eof { Ok(0) } else { Err(Error::new(ErrorKind::Other, "injected")) });
            }
        }
        if me.gap.1 > 0 && me.pos == me.gap.0 {
            let n = (buf.len() as u64).min(me.gap.1);
            me.gap.1 -= n;
            st.bytes += n;
            return Poll::Ready(Ok(n as usize));
        }
        let end = if me.gap.1 > 0 { me.gap.0 } else { me.data.len() };
        let full = buf.len().min(end - me.pos);
        let n = match me.plan.chunk {
            Chunk::Full => full,
            Chunk::Fixed(n) => full.min(n),
            Chunk::Random(n) => full.min(1 + me.rng.us(n)),
            Chunk::Spiky => {
                if me.rng.one_in(3) {
                    full.min(1 + me.rng.us(3))
                } else {
                    full
                }
            }
            Chunk::Aligned(n) => full.min(n - me.pos % n),
        };
        buf[..n].copy_from_slice(&me.data[me.pos..me.pos + n]);
        me.pos += n;
        st.bytes += n as u64;
        Poll::Ready(Ok(n))
    }
}

struct Flag(AtomicBool);
impl Wake for Flag {
    fn wake(self: Arc<Self>) {
        self.0.store(true, SeqCst);
    }
}

#[derive(Debug, PartialEq)]
pub enum Stuck {
    /// Not ready, but nothing will ever wake the task up
    LostWakeup,
    /// Polled too many times
    Endless,
}

/// Runs a future, polling it only when it was woken up
pub fn block_on<F: Future>(mut f: Pin<&mut F>, st: &Rc<RefCell<AState>>, max: u64) -> Result<F::Output, Stuck> {
    let flag = Arc::new(Flag(AtomicBool::new(false)));
    let waker = Waker::from(flag.clone());
    let mut cx = Context::from_waker(&waker);
    for _ in 0..max {
        if let Poll::Ready(v) = f.as_mut().poll(&mut cx) {
            return Ok(v);
        }
        if !flag.0.swap(false, SeqCst) {
            let parked = st.borrow_mut().parked.take();
            match parked {
                Some(w) => w.wake(),
                None => return Err(Stuck::LostWakeup),
            }
            if !flag.0.swap(false, SeqCst) {
                return Err(Stuck::LostWakeup);
            }
        }
    }
    Err(Stuck::Endless)
}

/// Polls once, then gives up on the future
pub fn poll_once<F: Future>(f: Pin<&mut F>) -> Option<F::Output> {
    let flag = Arc::new(Flag(AtomicBool::new(false)));
    let waker = Waker::from(flag);
    match f.poll(&mut Context::from_waker(&waker)) {
        Poll::Ready(v) => Some(v),
        Poll::Pending => None,
    }
}
