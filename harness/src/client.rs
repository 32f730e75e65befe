//! The caller: one task per session that drives the real library through the plan's operations,
//! dropping operations where the plan says so. Also the run loop.
use crate::scenario::*;
use crate::stream::{SimReader, SimStream};
use crate::world::*;
use async_smtp::authentication::{Credentials, IntoCredentials, Mechanism, DEFAULT_ENCRYPTED_MECHANISMS, DEFAULT_UNENCRYPTED_MECHANISMS};
use async_smtp::error::Error;
use async_smtp::extension::ClientId;
use async_smtp::response::Response;
use async_smtp::{EmailAddress, Envelope, SendableEmail, SmtpClient, SmtpTransport};
use std::cell::RefCell;
use std::future::Future;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::pin::Pin;
use std::rc::Rc;
use std::sync::atomic::Ordering;
use std::task::{Context, Poll, Waker};

thread_local! {
    pub static LOG_ON: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}

/// Formats every record of the library and throws it away.
pub struct Sink;
impl log::Log for Sink {
    fn enabled(&self, _: &log::Metadata<'_>) -> bool {
        true
    }
    fn log(&self, r: &log::Record<'_>) {
        if LOG_ON.with(|l| l.get()) {
            let _ = format!("{}", r.args());
        }
    }
    fn flush(&self) {}
}

fn parts(r: &Response) -> (u16, Vec<String>) {
    let code = r.code.to_string().parse().unwrap_or(0);
    let mut lines = r.message.clone();
    // The accessors tell the same story.
    let first = lines.first().map(|l| l.as_str());
    let word = first.and_then(|l| l.split_whitespace().next());
    if !r.has_code(code) || r.is_positive() != (code < 400) || r.first_line() != first || r.first_word() != word {
        lines.push(format!("(accessors disagree: {} {:?} {:?})", r.is_positive(), r.first_line(), r.first_word()));
    }
    (code, lines)
}

fn error_outcome(e: Error) -> Outcome {
    let _ = e.to_string();
    match e {
        Error::Transient(r) => {
            let (c, l) = parts(&r);
            Outcome::Transient(c, l)
        }
        Error::Permanent(r) => {
            let (c, l) = parts(&r);
            Outcome::Permanent(c, l)
        }
        Error::Io(e) => Outcome::Io(format!("{:?}: {}", e.kind(), e)),
        Error::Parsing(_) => Outcome::Parsing,
        Error::Client(s) => Outcome::Client(s.to_string()),
        e => Outcome::Other(e.to_string()),
    }
}

/// Resolves when the simulated clock passed `us` from its first poll.
struct Sleep {
    w: W,
    sid: usize,
    us: u64,
    id: Option<usize>,
}

fn timer_start(w: &W, sid: usize, us: u64) -> usize {
    let mut g = w.borrow_mut();
    let id = g.ss[sid].timers.len();
    g.ss[sid].timers.push(TimerSlot { fired: false, waker: None });
    g.push(sid, us, Ev::Timer(id as u32));
    id
}

fn timer_poll(w: &W, sid: usize, id: usize, waker: &Waker) -> bool {
    let mut g = w.borrow_mut();
    let t = &mut g.ss[sid].timers[id];
    if !t.fired {
        t.waker = Some(waker.clone());
    }
    t.fired
}

impl Future for Sleep {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        if self.us == 0 {
            return Poll::Ready(());
        }
        if self.id.is_none() {
            self.id = Some(timer_start(&self.w, self.sid, self.us));
        }
        if timer_poll(&self.w, self.sid, self.id.unwrap(), cx.waker()) {
            Poll::Ready(())
        } else {
            Poll::Pending
        }
    }
}

/// Runs an operation, possibly dropping it at the planned point. None: dropped.
struct Guarded<'a, T> {
    w: W,
    sid: usize,
    fut: Option<Pin<Box<dyn Future<Output = T> + 'a>>>,
    cancel: Option<Cancel>,
    polls: u32,
    timer: Option<usize>,
    out0: u64,
    cons0: u64,
}

fn guarded<'a, T>(w: &W, sid: usize, cancel: Option<Cancel>, fut: impl Future<Output = T> + 'a) -> Guarded<'a, T> {
    let (out0, cons0) = {
        let g = w.borrow();
        (g.ss[sid].out_off, g.ss[sid].consumed)
    };
    Guarded { w: w.clone(), sid, fut: Some(Box::pin(fut)), cancel, polls: 0, timer: None, out0, cons0 }
}

impl<'a, T> Guarded<'a, T> {
    fn drop_op(&mut self) -> Poll<Option<T>> {
        self.fut = None;
        let mut g = self.w.borrow_mut();
        g.count("cancel");
        let (sid, polls) = (self.sid, self.polls);
        g.note(sid, || format!("caller drops the operation after {} polls", polls));
        Poll::Ready(None)
    }
}

impl<'a, T> Future for Guarded<'a, T> {
    type Output = Option<T>;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<T>> {
        let me = self.get_mut();
        if let Some(Cancel::Micros(us)) = me.cancel {
            if me.timer.is_none() {
                me.timer = Some(timer_start(&me.w, me.sid, us.max(1)));
            }
            if timer_poll(&me.w, me.sid, me.timer.unwrap(), cx.waker()) {
                return me.drop_op();
            }
        }
        if let Some(Cancel::Polls(n)) = me.cancel {
            if me.polls >= n {
                return me.drop_op();
            }
        }
        me.polls += 1;
        if let Some(r) = me.w.borrow_mut().ss[me.sid].ops.last_mut() {
            r.polls += 1;
        }
        match me.fut.as_mut().expect("polled after completion").as_mut().poll(cx) {
            Poll::Ready(v) => {
                me.fut = None;
                Poll::Ready(Some(v))
            }
            Poll::Pending => {
                let (out, cons) = {
                    let g = me.w.borrow();
                    (g.ss[me.sid].out_off - me.out0, g.ss[me.sid].consumed - me.cons0)
                };
                let drop_now = match me.cancel {
                    Some(Cancel::Written(n)) => out >= n,
                    Some(Cancel::Consumed(n)) => cons >= n,
                    _ => false,
                };
                if drop_now {
                    return me.drop_op();
                }
                Poll::Pending
            }
        }
    }
}

fn client_id(h: &Hello) -> Option<ClientId> {
    match h {
        Hello::Default => None,
        Hello::Domain(d) if d.len() % 2 == 0 => Some(ClientId::new(d.clone())),
        Hello::Domain(d) => Some(ClientId::Domain(d.clone())),
        Hello::V4(a) => Some(ClientId::Ipv4((*a).into())),
        Hello::V6(a) => Some(ClientId::Ipv6((*a).into())),
        Hello::Host(h) => {
            crate::seams::set_host(h);
            Some(ClientId::hostname())
        }
    }
}

pub fn hello_text(h: &Hello) -> String {
    match h {
        Hello::Default => "[127.0.0.1]".to_string(),
        Hello::Domain(d) => d.clone(),
        Hello::V4(a) => format!("[{}]", std::net::Ipv4Addr::from(*a)),
        Hello::V6(a) => format!("[IPv6:{}]", std::net::Ipv6Addr::from(*a)),
        Hello::Host(h) => h
            .clone()
            .and_then(|h| String::from_utf8(h).ok())
            .unwrap_or_else(|| "localhost.localdomain".to_string()),
    }
}

/// The same configuration, built in one of several ways: setters in any order, called twice, or
/// left out where the default is what is wanted.
fn make_client(c: &Client, greeting: bool) -> SmtpClient {
    let st = c.style;
    let mut b = if st & 1 == 0 { SmtpClient::new() } else { SmtpClient::default() };
    let mut id = client_id(&c.hello);
    if st & 2 != 0 {
        b = b.smtp_utf8(!c.utf8).pipelining(!c.pipelining).hello_name(ClientId::new("earlier.example".into()));
        id.get_or_insert_with(ClientId::default);
    }
    for step in 0..4 {
        match (step + (st >> 2)) % 4 {
            // The defaults are no SMTPUTF8 and pipelining.
            0 if st & 18 == 16 && !c.utf8 => {}
            0 => b = b.smtp_utf8(c.utf8),
            1 if st & 34 == 32 && c.pipelining => {}
            1 => b = b.pipelining(c.pipelining),
            2 => {
                if let Some(id) = id.take() {
                    b = b.hello_name(id);
                }
            }
            _ => {
                if !greeting {
                    b = b.without_greeting();
                }
            }
        }
    }
    b
}

fn mech(m: &Mech) -> Mechanism {
    match m {
        Mech::Plain => Mechanism::Plain,
        Mech::Login => Mechanism::Login,
        Mech::Xoauth2 => Mechanism::Xoauth2,
    }
}

type Transport = SmtpTransport<SimStream>;

async fn open(w: &W, sid: usize, kind: OpKind, cancel: Option<Cancel>, greeting: bool, s: SimStream) -> Option<Transport> {
    let plan = w.borrow().ss[sid].plan.clone();
    w.borrow_mut().begin_op(sid, kind, usize::MAX);
    let fut = SmtpTransport::new(make_client(&plan.client, greeting), s);
    let r = guarded(w, sid, cancel, fut).await;
    let (o, t) = match r {
        None => (Outcome::Cancelled, None),
        Some(Err(e)) => (error_outcome(e), None),
        Some(Ok(t)) => (Outcome::Ok(None), Some(t)),
    };
    w.borrow_mut().end_op(sid, o);
    t
}

async fn session(w: W, sid: usize) {
    let plan = w.borrow().ss[sid].plan.clone();
    Sleep { w: w.clone(), sid, us: plan.start_us, id: None }.await;
    w.borrow_mut().server_start(sid);
    let stream = SimStream::new(w.clone(), sid);
    let mut tr = match open(&w, sid, OpKind::New, plan.connect_cancel, plan.server.greeting, stream).await {
        Some(t) => t,
        None => return,
    };
    for (ix, op) in plan.ops.iter().enumerate() {
        Sleep { w: w.clone(), sid, us: op.think_us, id: None }.await;
        match &op.what {
            What::Send { from, to, body, source } => {
                w.borrow_mut().begin_op(sid, OpKind::Send, ix);
                let mut refused = vec![];
                let style = plan.client.style >> 6;
                let mut addr = |s: &String| match if style & 1 == 0 { s.parse::<EmailAddress>() } else { EmailAddress::new(s.clone()) } {
                    Ok(a) => Some(a),
                    Err(_) => {
                        refused.push(s.clone());
                        None
                    }
                };
                let f = from.as_ref().map(&mut addr);
                let t: Vec<Option<EmailAddress>> = to.iter().map(&mut addr).collect();
                let bad = matches!(f, Some(None)) || t.iter().any(|x| x.is_none());
                if bad {
                    let mut g = w.borrow_mut();
                    let r = g.ss[sid].ops.last_mut().unwrap();
                    r.refused_inputs = refused;
                    r.skipped = true;
                    g.end_op(sid, Outcome::Client("inputs refused".into()));
                    continue;
                }
                let env = Envelope::new(f.flatten(), t.into_iter().flatten().collect());
                let env = match env {
                    Ok(e) => e,
                    Err(_) => {
                        let mut g = w.borrow_mut();
                        g.ss[sid].ops.last_mut().unwrap().skipped = true;
                        g.end_op(sid, Outcome::Client("envelope refused".into()));
                        continue;
                    }
                };
                let email = match source {
                    Source::Bytes => match String::from_utf8(body.clone()) {
                        Ok(s) if style & 2 != 0 => SendableEmail::new(env, s),
                        _ if style & 4 != 0 => SendableEmail::new(env, &body[..]),
                        _ => SendableEmail::new(env, body.clone()),
                    },
                    Source::Reader { seed, max, pend, fail_at } => SendableEmail::new_with_reader(
                        env,
                        Box::new(SimReader {
                            data: body.clone(),
                            pos: 0,
                            rng: crate::rng::Rng::new(*seed, 5),
                            max: *max,
                            pend: *pend,
                            fail_at: *fail_at,
                            fail_kind: *seed >> 8,
                        }),
                    ),
                };
                let r = guarded(&w, sid, op.cancel, tr.send(email)).await;
                let o = match r {
                    None => Outcome::Cancelled,
                    Some(Ok(r)) => Outcome::Ok(Some(parts(&r))),
                    Some(Err(e)) => error_outcome(e),
                };
                w.borrow_mut().end_op(sid, o);
            }
            What::Login { user, pass, mechs, direct } => {
                w.borrow_mut().begin_op(sid, OpKind::Login, ix);
                let style = plan.client.style >> 6;
                let cred = if style & 1 == 0 {
                    Credentials::new(user.clone(), pass.clone())
                } else {
                    (user.as_str(), pass.as_str()).into_credentials().into_credentials()
                };
                let own: Vec<Mechanism> = mechs.iter().map(mech).collect();
                let ms = match &mechs[..] {
                    [] if style & 2 != 0 => DEFAULT_UNENCRYPTED_MECHANISMS,
                    [Mech::Plain, Mech::Login] if style & 2 != 0 => DEFAULT_ENCRYPTED_MECHANISMS,
                    _ => &own[..],
                };
                let o = if *direct {
                    match guarded(&w, sid, op.cancel, tr.auth(ms[0], &cred)).await {
                        None => Outcome::Cancelled,
                        Some(Ok(r)) => Outcome::Ok(Some(parts(&r))),
                        Some(Err(e)) => error_outcome(e),
                    }
                } else {
                    match guarded(&w, sid, op.cancel, tr.try_login(&cred, ms)).await {
                        None => Outcome::Cancelled,
                        Some(Ok(())) => Outcome::Ok(None),
                        Some(Err(e)) => error_outcome(e),
                    }
                };
                w.borrow_mut().end_op(sid, o);
            }
            What::Quit => {
                w.borrow_mut().begin_op(sid, OpKind::Quit, ix);
                let o = match guarded(&w, sid, op.cancel, tr.quit()).await {
                    None => Outcome::Cancelled,
                    Some(Ok(())) => Outcome::Ok(None),
                    Some(Err(e)) => error_outcome(e),
                };
                w.borrow_mut().end_op(sid, o);
            }
            What::Starttls => {
                w.borrow_mut().begin_op(sid, OpKind::Starttls, ix);
                let r = guarded(&w, sid, op.cancel, tr.starttls()).await;
                let (o, s) = match r {
                    None => (Outcome::Cancelled, None),
                    Some(Ok(s)) => (Outcome::Ok(None), Some(s)),
                    Some(Err(e)) => (error_outcome(e), None),
                };
                w.borrow_mut().end_op(sid, o);
                let Some(s) = s else { return };
                {
                    // The TLS layer throws away plaintext left in the buffers.
                    let mut g = w.borrow_mut();
                    g.count("tls_upgrade");
                    let end = g.ss[sid].server.units.last().and_then(|u| u.reply.clone());
                    if let Some(r) = end {
                        if r.extra {
                            let x = extra_len(&g.ss[sid].plan, ix_of_starttls(&g.ss[sid].server.units));
                            g.ss[sid].discard_until = r.end + x;
                        }
                    }
                }
                match open(&w, sid, OpKind::New2, None, false, s).await {
                    Some(t) => tr = t,
                    None => return,
                }
            }
        }
    }
    drop(tr);
}

fn ix_of_starttls(us: &[crate::server::Unit]) -> u32 {
    us.iter().filter(|u| u.kind == Kind::Starttls).count().saturating_sub(1) as u32
}

fn extra_len(p: &Session, nth: u32) -> u64 {
    p.server
        .rules
        .iter()
        .find_map(|r| match &r.act {
            Act::Extra { bytes } if r.on == Kind::Starttls && r.nth == nth => Some(bytes.len() as u64),
            _ => None,
        })
        .unwrap_or(0)
}

pub struct Run {
    pub world: World,
    pub spin: bool,
    /// How often the operating system was asked for the time or randomness.
    pub clock_reads: u64,
    pub random_reads: u64,
}

/// Execute one scenario to quiescence under simulated clocks and randomness.
pub fn execute(sc: &Scenario, verbose: bool) -> Run {
    crate::seams::enter(sc.seed);
    let mut r = run_loop(sc, verbose);
    (r.clock_reads, r.random_reads) = crate::seams::leave();
    r
}

fn run_loop(sc: &Scenario, verbose: bool) -> Run {
    LOG_ON.with(|l| l.set(sc.logging));
    let w: W = Rc::new(RefCell::new(World::new(sc, verbose)));
    let n = sc.sessions.len();
    let mut tasks: Vec<Option<Pin<Box<dyn Future<Output = ()>>>>> = (0..n)
        .map(|i| Some(Box::pin(session(w.clone(), i)) as Pin<Box<dyn Future<Output = ()>>>))
        .collect();
    for i in 0..n {
        w.borrow_mut().settle_wake(i);
    }
    let mut spin = false;
    loop {
        let item = w.borrow_mut().heap.pop();
        let Some(std::cmp::Reverse((at, _, sid, _, ev))) = item else { break };
        {
            let mut g = w.borrow_mut();
            g.now = at;
            crate::seams::set_now(at);
            g.events += 1;
            if g.events > MAX_EVENTS {
                spin = true;
                break;
            }
        }
        match ev {
            Ev::Poll => {
                let flag = {
                    let mut g = w.borrow_mut();
                    let s = &mut g.ss[sid];
                    s.poll_pending = false;
                    s.calls_this_poll = 0;
                    s.polls += 1;
                    s.flag.clone()
                };
                if let Some(t) = tasks[sid].as_mut() {
                    let waker: Waker = flag.into();
                    let mut cx = Context::from_waker(&waker);
                    let r = catch_unwind(AssertUnwindSafe(|| t.as_mut().poll(&mut cx)));
                    match r {
                        Ok(Poll::Pending) => {}
                        Ok(Poll::Ready(())) => {
                            tasks[sid] = None;
                            w.borrow_mut().ss[sid].done = true;
                        }
                        Err(p) => {
                            let m = p
                                .downcast_ref::<String>()
                                .cloned()
                                .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
                                .unwrap_or_else(|| "panic".into());
                            // The task is poisoned; never touch it again.
                            std::mem::forget(tasks[sid].take());
                            let mut g = w.borrow_mut();
                            g.ss[sid].done = true;
                            g.end_op(sid, Outcome::Panicked(m));
                        }
                    }
                }
                let mut g = w.borrow_mut();
                let sp = g.ss[sid].plan.link.spurious;
                if sp > 0 && !g.ss[sid].done && g.ss[sid].rng.permille(sp) {
                    let d = g.ss[sid].rng.range(1, 50);
                    g.push(sid, d, Ev::Spurious);
                }
            }
            Ev::Spurious => {
                let mut g = w.borrow_mut();
                g.count("spurious_wake");
                g.ss[sid].flag.0.store(true, Ordering::Relaxed);
            }
            Ev::DeliverC2S => w.borrow_mut().deliver(sid, Dir::C2S),
            Ev::DeliverS2C => w.borrow_mut().deliver(sid, Dir::S2C),
            Ev::ServerStep => w.borrow_mut().server_step(sid),
            Ev::ServerDo => w.borrow_mut().server_do(sid),
            Ev::Timer(id) => {
                let mut g = w.borrow_mut();
                let t = &mut g.ss[sid].timers[id as usize];
                t.fired = true;
                if let Some(k) = t.waker.take() {
                    k.wake();
                }
            }
        }
        w.borrow_mut().settle_wake(sid);
    }
    for t in tasks.iter_mut() {
        if let Some(t) = t.take() {
            drop(t);
        }
    }
    let mut world = match Rc::try_unwrap(w) {
        Ok(c) => c.into_inner(),
        // A panicked task was leaked together with its handles.
        Err(rc) => std::mem::replace(&mut *rc.borrow_mut(), World::new(&Scenario { seed: 0, logging: false, sessions: vec![] }, false)),
    };
    // An operation that never ended wrote and read what came last.
    for s in world.ss.iter_mut() {
        let (out, cons) = (s.out_off, s.consumed);
        if let Some(r) = s.ops.last_mut().filter(|r| r.outcome == Outcome::Pending) {
            r.out_end = out;
            r.cons_end = cons;
        }
    }
    Run { world, spin, clock_reads: 0, random_reads: 0 }
}
