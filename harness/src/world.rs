//! Simulated world: event queue, clock, byte pipes with faults, and the record of each run.
use crate::rng::Rng;
use crate::scenario::*;
use crate::server::Server;
use std::cell::RefCell;
use std::cmp::Reverse;
use std::collections::{BTreeMap, BinaryHeap, VecDeque};
use std::io;
use std::rc::Rc;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Arc;
use std::task::{Context, Poll, Wake, Waker};

pub type W = Rc<RefCell<World>>;

pub const MAX_CALLS_PER_POLL: u64 = 3_000_000;
pub const MAX_EVENTS: u64 = 6_000_000;
/// Socket calls in a row that move no byte. A task gets here by retrying a call that cannot succeed.
pub const MAX_IDLE_CALLS: u64 = 50_000;
pub const SPIN_MSG: &str = "simulation: task spins without suspending";

pub struct Flag(pub AtomicBool);
impl Wake for Flag {
    fn wake(self: Arc<Self>) {
        self.0.store(true, Ordering::Relaxed);
    }
    fn wake_by_ref(self: &Arc<Self>) {
        self.0.store(true, Ordering::Relaxed);
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Ev {
    Poll,
    Spurious,
    DeliverC2S,
    DeliverS2C,
    ServerStep,
    ServerDo,
    Timer(u32),
}

type Item = Reverse<(u64, u64, usize, u64, Ev)>;

pub struct World {
    pub now: u64,
    pub seq: u64,
    pub heap: BinaryHeap<Item>,
    pub ss: Vec<Sess>,
    pub events: u64,
    pub counters: BTreeMap<&'static str, u64>,
    pub trace: u64,
    pub shape: u64,
    pub verbose: Option<Vec<String>>,
}

pub enum Seg {
    Bytes(Vec<u8>),
    Fin,
}

pub struct Pipe {
    pub cap: usize,
    pub inflight: VecDeque<Seg>,
    pub ready: VecDeque<u8>,
    pub written: u64,
    pub read: u64,
    pub last_at: u64,
    pub fin_sent: bool,
    pub fin: bool,
}

impl Pipe {
    pub fn new(cap: usize) -> Pipe {
        Pipe {
            cap: cap.max(1),
            inflight: VecDeque::new(),
            ready: VecDeque::new(),
            written: 0,
            read: 0,
            last_at: 0,
            fin_sent: false,
            fin: false,
        }
    }
    pub fn free(&self) -> usize {
        self.cap.saturating_sub((self.written - self.read) as usize)
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Outcome {
    Pending,
    Ok(Option<(u16, Vec<String>)>),
    Transient(u16, Vec<String>),
    Permanent(u16, Vec<String>),
    Io(String),
    Parsing,
    Client(String),
    Other(String),
    Cancelled,
    Panicked(String),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum OpKind {
    New,
    New2,
    Send,
    Login,
    Quit,
    Starttls,
}

#[derive(Clone, Debug)]
pub struct OpRec {
    pub kind: OpKind,
    /// Index into the plan's ops (for New: usize::MAX).
    pub plan: usize,
    pub start_seq: u64,
    pub end_seq: u64,
    pub start_us: u64,
    pub end_us: u64,
    pub out_start: u64,
    pub out_end: u64,
    pub cons_start: u64,
    pub cons_end: u64,
    pub polls: u32,
    pub unflushed: u64,
    pub outcome: Outcome,
    /// Strings the library refused to build the operation from.
    pub refused_inputs: Vec<String>,
    /// The operation was not run because its inputs were refused.
    pub skipped: bool,
}

#[derive(Clone, Copy, Debug)]
pub struct WriteSeg {
    pub start: u64,
    pub end: u64,
    pub op: usize,
    pub consumed: u64,
    pub us: u64,
}

pub struct TimerSlot {
    pub fired: bool,
    pub waker: Option<Waker>,
}

pub struct Sess {
    pub id: usize,
    pub plan: Rc<Session>,
    pub rng: Rng,
    pub srng: Rng,
    pub c2s: Pipe,
    pub s2c: Pipe,
    pub reset: bool,
    pub local_eof: bool,
    pub wbuf: Vec<u8>,
    pub rd_waker: Option<Waker>,
    pub wr_waker: Option<Waker>,
    pub flag: Arc<Flag>,
    pub poll_pending: bool,
    pub done: bool,
    pub out_off: u64,
    pub consumed: u64,
    pub discard_until: u64,
    pub calls_this_poll: u64,
    pub idle_calls: u64,
    pub polls: u64,
    pub segs: Vec<WriteSeg>,
    pub ops: Vec<OpRec>,
    pub timers: Vec<TimerSlot>,
    pub faults_left: Vec<Fault>,
    /// Event number of the first link fault / server-side close that struck.
    pub fault_seq: Option<u64>,
    pub server: Server,
    /// Where calls of write began.
    pub write_starts: Vec<u64>,
    pub raw_c2s: Vec<u8>,
    pub raw_s2c: Vec<u8>,
    pub server_step_pending: bool,
    pub outlog: Vec<u8>,
}

impl World {
    pub fn new(sc: &Scenario, verbose: bool) -> World {
        let ss = sc
            .sessions
            .iter()
            .enumerate()
            .map(|(i, p)| Sess::new(i, p, sc.seed))
            .collect();
        World {
            now: 0,
            seq: 0,
            heap: BinaryHeap::new(),
            ss,
            events: 0,
            counters: BTreeMap::new(),
            trace: 0xcbf2_9ce4_8422_2325,
            shape: 0xcbf2_9ce4_8422_2325,
            verbose: if verbose { Some(vec![]) } else { None },
        }
    }

    pub fn count(&mut self, k: &'static str) {
        *self.counters.entry(k).or_insert(0) += 1;
    }

    /// Logging draws nothing and reads no clock but the simulated one.
    pub fn note(&mut self, sid: usize, f: impl FnOnce() -> String) {
        if let Some(v) = &mut self.verbose {
            v.push(format!("{:>10}us s{} {}", self.now, sid, f()));
        }
    }

    pub fn mix(&mut self, sid: usize, a: u64, b: u64) {
        for x in [sid as u64, a, b, self.now] {
            self.trace = (self.trace ^ x).wrapping_mul(0x0000_0100_0000_01B3).rotate_left(17);
        }
    }
    pub fn mix_shape(&mut self, sid: usize, a: u64, b: u64) {
        for x in [sid as u64, a, b] {
            self.shape = (self.shape ^ x).wrapping_mul(0x0000_0100_0000_01B3).rotate_left(17);
        }
    }

    pub fn push(&mut self, sid: usize, delay: u64, ev: Ev) {
        let at = self.now + delay;
        self.push_at(sid, at, ev);
    }
    pub fn push_at(&mut self, sid: usize, at: u64, ev: Ev) {
        let tie = self.ss[sid].rng.next();
        self.seq += 1;
        self.heap.push(Reverse((at, tie, sid, self.seq, ev)));
    }

    /// Turn a raised wake flag into one future poll of the session's task.
    pub fn settle_wake(&mut self, sid: usize) {
        let s = &mut self.ss[sid];
        if s.done || s.poll_pending || !s.flag.0.swap(false, Ordering::Relaxed) {
            return;
        }
        s.poll_pending = true;
        let jit = s.plan.link.sched_jit;
        let d = if jit == 0 { 0 } else { s.rng.range(0, jit) };
        self.push(sid, d, Ev::Poll);
    }

    // ---- network -------------------------------------------------------------------------

    fn take_stall(&mut self, sid: usize, dir: Dir, upto: u64) -> u64 {
        let s = &mut self.ss[sid];
        let mut extra = 0;
        let mut hit = 0u64;
        s.faults_left.retain(|f| match f.what {
            FaultKind::Stall(d) if f.dir == dir && f.at < upto => {
                extra += d;
                hit += 1;
                false
            }
            _ => true,
        });
        for _ in 0..hit {
            self.count("stall");
        }
        extra
    }

    /// Put bytes on the wire (the caller checked capacity).
    fn transmit(&mut self, sid: usize, dir: Dir, bytes: &[u8]) {
        let mut rest = bytes;
        while !rest.is_empty() {
            let (n, lat) = {
                let s = &mut self.ss[sid];
                let l = &s.plan.link;
                let n = s.rng.range(1, l.seg_max.max(1) as u64) as usize;
                (n.min(rest.len()), l.lat_min + s.rng.range(0, l.lat_jit))
            };
            let upto = {
                let p = self.pipe(sid, dir);
                p.written += n as u64;
                p.written
            };
            let stall = self.take_stall(sid, dir, upto);
            let now = self.now;
            let p = self.pipe(sid, dir);
            p.inflight.push_back(Seg::Bytes(rest[..n].to_vec()));
            let at = (now + lat + stall).max(p.last_at);
            p.last_at = at;
            let ev = if dir == Dir::C2S { Ev::DeliverC2S } else { Ev::DeliverS2C };
            self.push_at(sid, at, ev);
            rest = &rest[n..];
        }
    }

    pub fn pipe(&mut self, sid: usize, dir: Dir) -> &mut Pipe {
        match dir {
            Dir::C2S => &mut self.ss[sid].c2s,
            Dir::S2C => &mut self.ss[sid].s2c,
        }
    }

    pub fn send_fin(&mut self, sid: usize) {
        let lat = {
            let s = &mut self.ss[sid];
            if s.s2c.fin_sent {
                return;
            }
            s.s2c.fin_sent = true;
            s.plan.link.lat_min + s.rng.range(0, s.plan.link.lat_jit)
        };
        let now = self.now;
        let p = &mut self.ss[sid].s2c;
        p.inflight.push_back(Seg::Fin);
        let at = (now + lat).max(p.last_at);
        p.last_at = at;
        self.push_at(sid, at, Ev::DeliverS2C);
    }

    pub fn mark_fault(&mut self, sid: usize) {
        let e = self.events;
        self.ss[sid].fault_seq.get_or_insert(e);
    }

    pub fn do_reset(&mut self, sid: usize) {
        self.mark_fault(sid);
        let s = &mut self.ss[sid];
        s.reset = true;
        s.c2s.inflight.clear();
        s.s2c.inflight.clear();
        s.s2c.ready.clear();
        s.c2s.ready.clear();
        s.server.die();
        self.wake_both(sid);
    }

    pub fn wake_both(&mut self, sid: usize) {
        let s = &mut self.ss[sid];
        if let Some(w) = s.rd_waker.take() {
            w.wake();
        }
        if let Some(w) = s.wr_waker.take() {
            w.wake();
        }
    }

    pub fn deliver(&mut self, sid: usize, dir: Dir) {
        let seg = self.pipe(sid, dir).inflight.pop_front();
        let Some(seg) = seg else { return };
        match seg {
            Seg::Fin => {
                self.ss[sid].s2c.fin = true;
                self.note(sid, || "end of stream delivered".to_string());
                self.wake_both(sid);
            }
            Seg::Bytes(b) => {
                self.mix(sid, 3 + dir as u64, b.len() as u64);
                self.mix_shape(sid, 3 + dir as u64, b.len() as u64);
                self.note(sid, || format!("{:?} delivered {} bytes", dir, b.len()));
                self.pipe(sid, dir).ready.extend(b);
            }
        }
        match dir {
            Dir::C2S => self.kick_server(sid, 0),
            Dir::S2C => {
                if let Some(w) = self.ss[sid].rd_waker.take() {
                    w.wake();
                }
            }
        }
    }

    pub fn kick_server(&mut self, sid: usize, delay: u64) {
        if !self.ss[sid].server_step_pending {
            self.ss[sid].server_step_pending = true;
            self.push(sid, delay, Ev::ServerStep);
        }
    }

    // ---- client socket -------------------------------------------------------------------

    fn spurious_pending(&mut self, sid: usize, cx: &mut Context<'_>) -> bool {
        let s = &mut self.ss[sid];
        s.calls_this_poll += 1;
        s.idle_calls += 1;
        if s.calls_this_poll > MAX_CALLS_PER_POLL || s.idle_calls > MAX_IDLE_CALLS {
            panic!("{}", SPIN_MSG);
        }
        let p = s.plan.link.pend;
        if p > 0 && s.rng.permille(p) {
            cx.waker().wake_by_ref();
            self.count("spurious_pending");
            return true;
        }
        false
    }

    fn io_err(k: u8) -> io::Error {
        io::Error::new(IO_KINDS[k as usize % IO_KINDS.len()], "injected")
    }

    /// Move up to `buf.len()` bytes into the c2s pipe.
    fn raw_push(&mut self, sid: usize, cx: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
        if self.ss[sid].reset {
            return Poll::Ready(Err(io::Error::new(io::ErrorKind::ConnectionReset, "reset")));
        }
        if self.ss[sid].s2c.fin {
            // The peer closed both directions and answered with a reset.
            self.mark_fault(sid);
            return Poll::Ready(Err(io::Error::new(io::ErrorKind::BrokenPipe, "closed by peer")));
        }
        let written = self.ss[sid].c2s.written;
        let starts = &mut self.ss[sid].write_starts;
        if starts.len() < 2000 && starts.last() != Some(&written) {
            starts.push(written);
        }
        let mut limit = buf.len().min(self.ss[sid].plan.link.wr_max.max(1));
        let pos = self.ss[sid].faults_left.iter().position(|f| {
            f.dir == Dir::C2S
                && f.at < written + limit as u64
                && matches!(f.what, FaultKind::ErrOnce(_) | FaultKind::WriteZero | FaultKind::Reset | FaultKind::Dead(_))
        });
        if let Some(i) = pos {
            let f = self.ss[sid].faults_left[i].clone();
            if f.at > written {
                limit = (f.at - written) as usize;
            } else {
                if !matches!(f.what, FaultKind::Dead(_)) {
                    self.ss[sid].faults_left.remove(i);
                }
                self.mark_fault(sid);
                self.note(sid, || format!("fault on write at {}: {:?}", written, f.what));
                return match f.what {
                    FaultKind::ErrOnce(k) => {
                        self.count("write_error_once");
                        Poll::Ready(Err(Self::io_err(k)))
                    }
                    FaultKind::Dead(0) => {
                        self.count("write_zero_forever");
                        Poll::Ready(Ok(0))
                    }
                    FaultKind::Dead(k) => {
                        self.count("write_error_forever");
                        Poll::Ready(Err(Self::io_err(k - 1)))
                    }
                    FaultKind::WriteZero => {
                        self.count("write_zero");
                        Poll::Ready(Ok(0))
                    }
                    _ => {
                        self.count("reset_c2s");
                        self.do_reset(sid);
                        Poll::Ready(Err(io::Error::new(io::ErrorKind::ConnectionReset, "reset")))
                    }
                };
            }
        }
        let free = self.ss[sid].c2s.free();
        if free == 0 {
            self.count("write_blocked");
            self.ss[sid].wr_waker = Some(cx.waker().clone());
            return Poll::Pending;
        }
        let mut n = limit.min(free);
        if n > 1 && self.ss[sid].rng.permille(150) {
            n = self.ss[sid].rng.range(1, n as u64) as usize;
        }
        if n < buf.len() {
            self.count("short_write");
        }
        self.ss[sid].idle_calls = 0;
        self.ss[sid].raw_c2s.extend_from_slice(&buf[..n]);
        self.transmit(sid, Dir::C2S, &buf[..n]);
        Poll::Ready(Ok(n))
    }

    fn drain_wbuf(&mut self, sid: usize, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        while !self.ss[sid].wbuf.is_empty() {
            let b = std::mem::take(&mut self.ss[sid].wbuf);
            let r = self.raw_push(sid, cx, &b);
            match r {
                Poll::Ready(Ok(0)) => {
                    self.ss[sid].wbuf = b;
                    return Poll::Ready(Err(io::ErrorKind::WriteZero.into()));
                }
                Poll::Ready(Ok(n)) => self.ss[sid].wbuf = b[n..].to_vec(),
                Poll::Ready(Err(e)) => {
                    self.ss[sid].wbuf = b;
                    return Poll::Ready(Err(e));
                }
                Poll::Pending => {
                    self.ss[sid].wbuf = b;
                    return Poll::Pending;
                }
            }
        }
        Poll::Ready(Ok(()))
    }

    pub fn sock_write(&mut self, sid: usize, cx: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
        if buf.is_empty() {
            return Poll::Ready(Ok(0));
        }
        if self.spurious_pending(sid, cx) {
            return Poll::Pending;
        }
        let cap = self.ss[sid].plan.link.wbuf;
        if cap == 0 {
            return self.raw_push(sid, cx, buf);
        }
        if self.ss[sid].wbuf.len() >= cap {
            match self.drain_wbuf(sid, cx) {
                Poll::Ready(Ok(())) => {}
                Poll::Ready(Err(e)) => return Poll::Ready(Err(e)),
                Poll::Pending => return Poll::Pending,
            }
        }
        let s = &mut self.ss[sid];
        let n = buf.len().min(cap - s.wbuf.len()).min(s.plan.link.wr_max.max(1));
        s.idle_calls = 0;
        s.wbuf.extend_from_slice(&buf[..n]);
        Poll::Ready(Ok(n))
    }

    pub fn sock_flush(&mut self, sid: usize, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        if self.spurious_pending(sid, cx) {
            return Poll::Pending;
        }
        let written = self.ss[sid].c2s.written + self.ss[sid].wbuf.len() as u64;
        if let Some(i) = self.ss[sid]
            .faults_left
            .iter()
            .position(|f| f.what == FaultKind::FlushErr && f.at <= written)
        {
            self.ss[sid].faults_left.remove(i);
            self.mark_fault(sid);
            self.count("flush_error");
            self.note(sid, || "fault on flush".to_string());
            return Poll::Ready(Err(Self::io_err(1)));
        }
        self.drain_wbuf(sid, cx)
    }

    /// Read up to `max` bytes; an empty result is end of stream.
    pub fn sock_read(&mut self, sid: usize, cx: &mut Context<'_>, max: usize) -> Poll<io::Result<Vec<u8>>> {
        if self.spurious_pending(sid, cx) {
            return Poll::Pending;
        }
        if self.ss[sid].reset {
            return Poll::Ready(Err(io::Error::new(io::ErrorKind::ConnectionReset, "reset")));
        }
        if self.ss[sid].local_eof {
            return Poll::Ready(Ok(vec![]));
        }
        let read = self.ss[sid].s2c.read;
        let avail = self.ss[sid].s2c.ready.len();
        let mut limit = max.min(self.ss[sid].plan.link.rd_max.max(1)).min(avail);
        let pos = self.ss[sid].faults_left.iter().position(|f| {
            f.dir == Dir::S2C
                && f.at <= read + limit as u64
                && matches!(f.what, FaultKind::ErrOnce(_) | FaultKind::Reset | FaultKind::Eof | FaultKind::Dead(_))
        });
        if let Some(i) = pos {
            let f = self.ss[sid].faults_left[i].clone();
            if f.at > read {
                limit = (f.at - read) as usize;
            } else {
                if !matches!(f.what, FaultKind::Dead(_)) {
                    self.ss[sid].faults_left.remove(i);
                }
                self.mark_fault(sid);
                self.note(sid, || format!("fault on read at {}: {:?}", read, f.what));
                return match f.what {
                    FaultKind::ErrOnce(k) => {
                        self.count("read_error_once");
                        Poll::Ready(Err(Self::io_err(k)))
                    }
                    FaultKind::Dead(k) => {
                        self.count("read_error_forever");
                        Poll::Ready(Err(Self::io_err(k)))
                    }
                    FaultKind::Eof => {
                        self.count("eof");
                        self.ss[sid].local_eof = true;
                        self.ss[sid].s2c.fin = true;
                        self.ss[sid].server.die();
                        Poll::Ready(Ok(vec![]))
                    }
                    _ => {
                        self.count("reset_s2c");
                        self.do_reset(sid);
                        Poll::Ready(Err(io::Error::new(io::ErrorKind::ConnectionReset, "reset")))
                    }
                };
            }
        }
        if avail == 0 {
            if self.ss[sid].s2c.fin {
                self.mark_fault(sid);
                return Poll::Ready(Ok(vec![]));
            }
            self.ss[sid].rd_waker = Some(cx.waker().clone());
            return Poll::Pending;
        }
        let s = &mut self.ss[sid];
        let mut n = limit.max(1);
        if n > 1 && s.rng.permille(150) {
            n = s.rng.range(1, n as u64) as usize;
        }
        let out: Vec<u8> = s.s2c.ready.drain(..n).collect();
        s.s2c.read += n as u64;
        s.idle_calls = 0;
        if s.server.wants_output_space() {
            self.kick_server(sid, 0);
        }
        Poll::Ready(Ok(out))
    }

    /// The server takes everything it can use from the c2s pipe.
    pub fn server_take(&mut self, sid: usize, n: usize) -> Vec<u8> {
        let s = &mut self.ss[sid];
        let out: Vec<u8> = s.c2s.ready.drain(..n).collect();
        s.c2s.read += n as u64;
        if n > 0 {
            if let Some(w) = s.wr_waker.take() {
                w.wake();
            }
        }
        out
    }

    /// Server output: as much as fits. Returns bytes accepted.
    pub fn server_put(&mut self, sid: usize, bytes: &[u8]) -> usize {
        let n = bytes.len().min(self.ss[sid].s2c.free());
        if n < bytes.len() {
            self.count("server_blocked_on_output");
        }
        self.ss[sid].raw_s2c.extend_from_slice(&bytes[..n]);
        self.transmit(sid, Dir::S2C, &bytes[..n]);
        n
    }

    // ---- client bookkeeping --------------------------------------------------------------

    pub fn client_wrote(&mut self, sid: usize, bytes: &[u8]) {
        let now = self.now;
        let s = &mut self.ss[sid];
        let op = s.ops.len().wrapping_sub(1);
        let (a, b) = (s.out_off, s.out_off + bytes.len() as u64);
        s.out_off = b;
        s.outlog.extend_from_slice(bytes);
        let consumed = s.consumed;
        match s.segs.last_mut() {
            Some(l) if l.op == op && l.consumed == consumed => l.end = b,
            _ => s.segs.push(WriteSeg { start: a, end: b, op, consumed, us: now }),
        }
        self.mix(sid, 1, bytes.len() as u64);
    }
    pub fn client_consumed(&mut self, sid: usize, n: usize) {
        self.ss[sid].consumed += n as u64;
        self.mix(sid, 2, n as u64);
    }

    pub fn begin_op(&mut self, sid: usize, kind: OpKind, plan: usize) {
        let (events, now) = (self.events, self.now);
        let s = &mut self.ss[sid];
        let rec = OpRec {
            kind,
            plan,
            start_seq: events,
            end_seq: 0,
            start_us: now,
            end_us: now,
            out_start: s.out_off,
            out_end: s.out_off,
            cons_start: s.consumed,
            cons_end: s.consumed,
            polls: 0,
            unflushed: 0,
            outcome: Outcome::Pending,
            refused_inputs: vec![],
            skipped: false,
        };
        s.ops.push(rec);
        self.note(sid, || format!("op {:?} (plan {}) begins", kind, plan as isize));
    }
    pub fn end_op(&mut self, sid: usize, outcome: Outcome) {
        let (events, now) = (self.events, self.now);
        self.note(sid, || format!("op ends: {:?}", outcome));
        let s = &mut self.ss[sid];
        let (out, cons, un) = (s.out_off, s.consumed, s.out_off.saturating_sub(s.c2s.written));
        if let Some(r) = s.ops.last_mut() {
            r.end_seq = events;
            r.end_us = now;
            r.out_end = out;
            r.cons_end = cons;
            r.unflushed = un;
            r.outcome = outcome;
        }
        self.mix(sid, 9, out);
        self.mix_shape(sid, 9, out);
    }
}

impl Sess {
    pub fn new(i: usize, p: &Session, seed: u64) -> Sess {
        Sess {
            id: i,
            plan: Rc::new(p.clone()),
            // Streams depend on the seed and on nothing another session does.
            rng: Rng::new(seed, p.server.texts.wrapping_add(1000)),
            srng: Rng::new(p.server.texts, 77),
            c2s: Pipe::new(p.link.c2s_cap),
            s2c: Pipe::new(p.link.s2c_cap),
            reset: false,
            local_eof: false,
            wbuf: vec![],
            rd_waker: None,
            wr_waker: None,
            flag: Arc::new(Flag(AtomicBool::new(true))),
            poll_pending: false,
            done: false,
            out_off: 0,
            consumed: 0,
            discard_until: 0,
            calls_this_poll: 0,
            idle_calls: 0,
            polls: 0,
            segs: vec![],
            ops: vec![],
            timers: vec![],
            faults_left: p.faults.clone(),
            fault_seq: None,
            server: Server::new(),
            write_starts: vec![],
            raw_c2s: vec![],
            raw_s2c: vec![],
            server_step_pending: false,
            outlog: vec![],
        }
    }
}
