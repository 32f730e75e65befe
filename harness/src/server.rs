//! Simulated SMTP server: a strict RFC 5321/2920/4954 command parser and transaction state
//! machine, driven by the plan's rules. It records what it parsed, what it answered and which
//! messages it took responsibility for. It knows nothing about the client's source.
use crate::rng::Rng;
use crate::scenario::*;
use crate::world::{Ev, World};
use std::collections::BTreeMap;

#[derive(Clone, Debug)]
pub struct Reply {
    pub code: u16,
    pub lines: Vec<String>,
    /// A valid reply, sent completely.
    pub valid: bool,
    pub start: u64,
    pub end: u64,
    /// Unsolicited bytes were sent right after it.
    pub extra: bool,
}

#[derive(Clone, Debug)]
pub struct Unit {
    pub kind: Kind,
    /// Command line without CRLF, or unstuffed message content.
    pub text: Vec<u8>,
    pub start: u64,
    pub end: u64,
    pub reply: Option<Reply>,
    /// Refused because it came in the wrong order.
    pub seq_error: bool,
    pub path: Option<String>,
    pub params: Vec<String>,
    /// For SASL answers: the challenge (decoded if text).
    pub challenge: Option<Challenge>,
    pub mech: Option<String>,
    pub adv: Option<usize>,
    pub us: u64,
}

#[derive(Clone, Debug)]
pub struct Commit {
    pub unit: usize,
    pub from: String,
    pub to: Vec<String>,
    pub mail_unit: usize,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum St {
    Cmd,
    Data,
    Sasl(String),
}

#[derive(Clone, Debug)]
struct Txn {
    from: String,
    to: Vec<String>,
    mail_unit: usize,
}

pub struct Server {
    pub st: St,
    pub units: Vec<Unit>,
    pub commits: Vec<Commit>,
    pub part: Vec<u8>,
    pub part_start: u64,
    pub taken: u64,
    pub data_line_start: bool,
    pub content: Vec<u8>,
    counts: BTreeMap<Kind, u32>,
    txn: Option<Txn>,
    outq: Vec<u8>,
    out_written: u64,
    pub closing: bool,
    pub closed: bool,
    pub blackhole: bool,
    busy: Option<(Kind, Vec<u8>, u64, u64)>,
    pub ehlo_plan: usize,
    pub ehlo_done: bool,
    pub tls_expected: bool,
    pub authed: bool,
    challenge_ix: usize,
    /// The challenge that the next line of an exchange answers.
    asked: Option<Challenge>,
    group_held: bool,
    nth_reply: u32,
}

impl Server {
    pub fn new() -> Server {
        Server {
            st: St::Cmd,
            units: vec![],
            commits: vec![],
            part: vec![],
            part_start: 0,
            taken: 0,
            data_line_start: true,
            content: vec![],
            counts: BTreeMap::new(),
            txn: None,
            outq: vec![],
            out_written: 0,
            closing: false,
            closed: false,
            blackhole: false,
            busy: None,
            ehlo_plan: 0,
            ehlo_done: false,
            tls_expected: false,
            authed: false,
            challenge_ix: 0,
            asked: None,
            group_held: false,
            nth_reply: 0,
        }
    }
    pub fn die(&mut self) {
        self.closed = true;
        self.outq.clear();
        self.busy = None;
    }
    pub fn wants_output_space(&self) -> bool {
        !self.outq.is_empty()
    }
}

fn utf8(b: &[u8]) -> String {
    String::from_utf8_lossy(b).into_owned()
}

/// Well-formed reply bytes.
pub fn format_reply(code: u16, lines: &[String], bare: bool) -> Vec<u8> {
    let mut out = vec![];
    let n = lines.len().max(1);
    for i in 0..n {
        let t = lines.get(i).map(String::as_str).unwrap_or("");
        let last = i + 1 == n;
        out.extend_from_slice(code.to_string().as_bytes());
        if !last {
            out.push(b'-');
        } else if !(bare && t.is_empty()) {
            out.push(b' ');
        }
        out.extend_from_slice(t.as_bytes());
        out.extend_from_slice(b"\r\n");
    }
    out
}

pub fn has_keyword(e: &EhloPlan, kw: &str) -> bool {
    e.lines
        .iter()
        .any(|l| l.split(' ').next().map(|w| w.eq_ignore_ascii_case(kw)).unwrap_or(false))
}

pub fn auth_mechs(e: &EhloPlan) -> Vec<String> {
    e.lines
        .iter()
        .filter(|l| l.split(' ').next().map(|w| w.eq_ignore_ascii_case("AUTH")).unwrap_or(false))
        .flat_map(|l| l.split(' ').skip(1).map(str::to_string).collect::<Vec<_>>())
        .collect()
}

fn challenge_line(c: &Challenge) -> String {
    match c {
        Challenge::Text(t) => base64::encode(t),
        Challenge::Raw(r) => r.clone(),
    }
}

/// Parse "<path> params" strictly; None if malformed.
fn parse_path(rest: &[u8]) -> Option<(String, Vec<String>)> {
    if rest.first() != Some(&b'<') {
        return None;
    }
    let close = rest.iter().position(|&b| b == b'>')?;
    let path = &rest[1..close];
    if path.iter().any(|&b| b <= b' ' || b == 127 || b == b'<') {
        return None;
    }
    let tail = &rest[close + 1..];
    let mut params = vec![];
    if !tail.is_empty() {
        if tail[0] != b' ' {
            return None;
        }
        for p in tail[1..].split(|&b| b == b' ') {
            if p.is_empty() || p.iter().any(|&b| b < 33 || b == b'<' || b == b'>') {
                return None;
            }
            params.push(utf8(p));
        }
    }
    Some((utf8(path), params))
}

fn strip_ci<'a>(l: &'a [u8], p: &[u8]) -> Option<&'a [u8]> {
    if l.len() >= p.len() && l[..p.len()].eq_ignore_ascii_case(p) {
        Some(&l[p.len()..])
    } else {
        None
    }
}

impl World {
    /// Start of the connection on the server side.
    pub fn server_start(&mut self, sid: usize) {
        self.ss[sid].server.part_start = 0;
        if self.ss[sid].plan.server.greeting {
            let d = {
                let s = &mut self.ss[sid];
                let extra: u64 = s
                    .plan
                    .server
                    .rules
                    .iter()
                    .map(|r| match r.act {
                        Act::Delay(x) if r.on == Kind::Greet => x,
                        _ => 0,
                    })
                    .sum();
                extra + s.plan.server.proc_min + s.rng.range(0, s.plan.server.proc_jit)
            };
            self.ss[sid].server.busy = Some((Kind::Greet, vec![], 0, 0));
            self.push(sid, d, Ev::ServerDo);
        }
    }

    pub fn server_step(&mut self, sid: usize) {
        self.ss[sid].server_step_pending = false;
        loop {
            if self.ss[sid].reset {
                return;
            }
            if self.ss[sid].server.closed || self.ss[sid].server.blackhole {
                let n = self.ss[sid].c2s.ready.len();
                let b = self.server_take(sid, n);
                self.ss[sid].server.taken += b.len() as u64;
                return;
            }
            // Output first: a server that cannot write does not read.
            let flush_ok = {
                let s = &self.ss[sid];
                let batch = s.plan.server.batch && s.server.outq.len() < 1 << 16 && s.server.busy.is_none() && self.has_line(sid) && !s.server.closing;
                !(batch || s.server.group_held)
            };
            if !self.ss[sid].server.outq.is_empty() && flush_ok {
                let q = std::mem::take(&mut self.ss[sid].server.outq);
                let n = self.server_put(sid, &q);
                if n < q.len() {
                    let mut q = q;
                    q.drain(..n);
                    self.ss[sid].server.outq = q;
                    return; // resumed when the client reads
                }
            }
            if self.ss[sid].server.closing {
                self.ss[sid].server.closed = true;
                self.send_fin(sid);
                continue;
            }
            if self.ss[sid].server.busy.is_some() {
                return;
            }
            let Some((kind, text, a, b)) = self.assemble(sid) else { return };
            let d = {
                let s = &mut self.ss[sid];
                let mut d = s.plan.server.proc_min + s.rng.range(0, s.plan.server.proc_jit);
                let nth = s.server.counts.get(&kind).copied().unwrap_or(0);
                for r in &s.plan.server.rules {
                    if let (true, Act::Delay(x)) = (r.on == kind && r.nth == nth, &r.act) {
                        d += *x;
                    }
                }
                d
            };
            self.ss[sid].server.busy = Some((kind, text, a, b));
            if d > 0 {
                self.push(sid, d, Ev::ServerDo);
                return;
            }
            self.server_do(sid);
        }
    }

    fn has_line(&self, sid: usize) -> bool {
        self.ss[sid].server.st != St::Data && self.ss[sid].c2s.ready.contains(&b'\n')
    }

    /// Consume input up to the end of the next complete unit.
    fn assemble(&mut self, sid: usize) -> Option<(Kind, Vec<u8>, u64, u64)> {
        if self.ss[sid].server.st == St::Data {
            let avail = self.ss[sid].c2s.ready.len();
            for _ in 0..avail {
                let b = self.ss[sid].c2s.ready.pop_front().unwrap();
                let s = &mut self.ss[sid];
                s.c2s.read += 1;
                let sv = &mut s.server;
                sv.taken += 1;
                sv.part.push(b);
                if sv.part.ends_with(b"\r\n") {
                    let line = std::mem::take(&mut sv.part);
                    if line == b".\r\n" {
                        let a = sv.part_start;
                        sv.part_start = sv.taken;
                        let text = std::mem::take(&mut sv.content);
                        let end = sv.taken;
                        if let Some(w) = s.wr_waker.take() {
                            w.wake();
                        }
                        return Some((Kind::Eod, text, a, end));
                    }
                    let body = if line[0] == b'.' { &line[1..] } else { &line[..] };
                    sv.content.extend_from_slice(body);
                }
            }
            if avail > 0 {
                if let Some(w) = self.ss[sid].wr_waker.take() {
                    w.wake();
                }
            }
            return None;
        }
        let pos = self.ss[sid].c2s.ready.iter().position(|&b| b == b'\n');
        let n = pos.map(|p| p + 1).unwrap_or(self.ss[sid].c2s.ready.len());
        let b = self.server_take(sid, n);
        let sv = &mut self.ss[sid].server;
        sv.taken += n as u64;
        sv.part.extend(b);
        pos?;
        let line = std::mem::take(&mut sv.part);
        let a = sv.part_start;
        sv.part_start = sv.taken;
        let end = sv.taken;
        let kind = if matches!(sv.st, St::Sasl(_)) {
            Kind::Sasl
        } else {
            classify(&line)
        };
        let text = line[..line.len() - 1].strip_suffix(b"\r").map(|l| l.to_vec());
        Some(match text {
            Some(t) => (kind, t, a, end),
            None => (if kind == Kind::Sasl { Kind::Sasl } else { Kind::Unknown }, line, a, end),
        })
    }

    fn default_lines(&mut self, sid: usize, word: &str) -> Vec<String> {
        let s = &mut self.ss[sid];
        s.server.nth_reply += 1;
        let tag = format!("#{:x}.{}", s.plan.server.texts % 65521, s.server.nth_reply);
        if s.plan.server.plain_texts {
            return vec![format!("{} {}", word, tag)];
        }
        let mut v = gen_lines(&mut s.srng, word);
        if !v[0].is_empty() {
            v[0].push_str(&tag);
        }
        v
    }

    pub fn server_do(&mut self, sid: usize) {
        let Some((kind, text, a, b)) = self.ss[sid].server.busy.take() else { return };
        if self.ss[sid].server.closed || self.ss[sid].reset {
            return;
        }
        let plan = self.ss[sid].plan.clone();
        let now = self.now;
        let nth = {
            let c = self.ss[sid].server.counts.entry(kind).or_insert(0);
            *c += 1;
            *c - 1
        };
        let rule = plan
            .server
            .rules
            .iter()
            .find(|r| r.on == kind && r.nth == nth && !matches!(r.act, Act::Delay(_)))
            .map(|r| r.act.clone());
        if plan.server.rules.iter().any(|r| r.on == kind && r.nth == nth && matches!(r.act, Act::Delay(_))) {
            self.count("slow_reply");
        }
        let adv = if self.ss[sid].server.ehlo_done { Some(self.ss[sid].server.ehlo_plan) } else { None };
        let mut u = Unit {
            kind,
            text: text.clone(),
            start: a,
            end: b,
            reply: None,
            seq_error: false,
            path: None,
            params: vec![],
            challenge: None,
            mech: None,
            adv,
            us: now,
        };
        // Natural verdict.
        let (mut code, mut word, mut seq) = (250u16, "ok", false);
        let clean = !text.iter().any(|&c| c == b'\r' || c == 0 || c == b'\n');
        match kind {
            Kind::Greet => {
                code = 220;
                word = "service ready"
            }
            Kind::Ehlo => {
                if self.ss[sid].server.tls_expected {
                    self.ss[sid].server.tls_expected = false;
                }
            }
            Kind::Mail | Kind::Rcpt => {
                let rest = strip_ci(&text, if kind == Kind::Mail { b"MAIL FROM:" } else { b"RCPT TO:" }).unwrap_or(b"");
                match (clean, parse_path(rest)) {
                    (true, Some((p, params))) => {
                        u.path = Some(p);
                        u.params = params;
                        let sv = &self.ss[sid].server;
                        if !sv.ehlo_done || (kind == Kind::Mail && sv.txn.is_some() && plan.server.strict_nested) {
                            seq = true;
                        }
                        if kind == Kind::Rcpt && sv.txn.is_none() {
                            seq = true;
                        }
                        word = if kind == Kind::Mail { "sender ok" } else { "recipient ok" };
                    }
                    _ => {
                        code = 501;
                        word = "syntax";
                    }
                }
            }
            Kind::Data => {
                let ok = self.ss[sid].server.txn.as_ref().map(|t| !t.to.is_empty()).unwrap_or(false);
                if ok {
                    code = 354;
                    word = "go ahead";
                } else if self.ss[sid].server.txn.is_some() {
                    code = 554;
                    word = "no valid recipients";
                } else {
                    seq = true;
                }
            }
            Kind::Eod => word = "queued",
            Kind::Auth => {
                let mut it = text.split(|&c| c == b' ');
                it.next();
                let mech = it.next().map(utf8).unwrap_or_default();
                let initial = it.next().is_some();
                u.mech = Some(mech.clone());
                code = 235;
                word = "authenticated";
                if !self.ss[sid].server.ehlo_done || self.ss[sid].server.txn.is_some() {
                    seq = true;
                } else if !auth_mechs(&plan.server.ehlo[self.ss[sid].server.ehlo_plan]).contains(&mech) {
                    code = 504;
                    word = "mechanism not offered";
                } else if !initial {
                    code = 334;
                }
                self.ss[sid].server.challenge_ix = 0;
                if code == 334 && plan.server.challenges.is_empty() {
                    code = 235;
                }
            }
            Kind::Sasl => {
                let ix = self.ss[sid].server.challenge_ix;
                u.challenge = self.ss[sid].server.asked.take();
                if let St::Sasl(m) = &self.ss[sid].server.st {
                    u.mech = Some(m.clone());
                }
                self.ss[sid].server.challenge_ix += 1;
                if text == b"*" {
                    code = 501;
                    word = "cancelled";
                } else if ix + 1 < plan.server.challenges.len() {
                    code = 334;
                } else {
                    code = 235;
                    word = "authenticated";
                }
            }
            Kind::Starttls => {
                code = 220;
                word = "go";
                let sv = &self.ss[sid].server;
                if !sv.ehlo_done || sv.txn.is_some() {
                    seq = true;
                } else if !has_keyword(&plan.server.ehlo[sv.ehlo_plan], "STARTTLS") {
                    code = 502;
                }
            }
            Kind::Quit => {
                code = 221;
                word = "bye"
            }
            Kind::Rset | Kind::Noop => {}
            Kind::Unknown => {
                code = 500;
                word = "what";
            }
        }
        if seq {
            code = 503;
            word = "bad sequence";
        }
        u.seq_error = seq;
        // Reply text.
        let mut lines = if code == 334 {
            vec![]
        } else if kind == Kind::Ehlo && code == 250 {
            let ix = self.ss[sid].server.ehlo_plan.min(plan.server.ehlo.len() - 1);
            let e = &plan.server.ehlo[ix];
            let mut v = vec![e.name_line.clone()];
            v.extend(e.lines.iter().cloned());
            v
        } else {
            self.default_lines(sid, word)
        };
        let (mut close, mut bare) = (kind == Kind::Quit && code == 221, false);
        if lines.last().map(|l| l.is_empty()).unwrap_or(false) && !plan.server.plain_texts {
            bare = self.ss[sid].srng.permille(500);
        }
        let mut bytes: Option<Vec<u8>> = None;
        let mut valid = true;
        let mut extra = false;
        let mut truncate = None;
        let overridable = !seq && (code < 400 || kind == Kind::Unknown || kind == Kind::Data);
        if let Some(act) = rule {
            match act {
                Act::Reply { code: c, lines: l, bare: br, close: cl } if overridable => {
                    self.count(if c >= 500 {
                        "refusal_permanent"
                    } else if c >= 400 {
                        "refusal_transient"
                    } else {
                        "custom_reply"
                    });
                    code = c;
                    lines = l;
                    bare = br;
                    if cl {
                        self.count("reply_then_close");
                    }
                    close |= cl;
                }
                Act::Raw { bytes: rb, close: cl } => {
                    self.count("malformed_reply");
                    bytes = Some(rb);
                    valid = false;
                    close |= cl;
                }
                Act::Extra { bytes: x } => {
                    self.count("unsolicited_bytes");
                    extra = true;
                    bytes = Some(x);
                }
                Act::Truncate(n) => {
                    self.count("truncated_reply");
                    truncate = Some(n);
                    valid = false;
                    close = true;
                }
                Act::CloseNoReply => {
                    self.count("close_without_reply");
                    self.ss[sid].server.units.push(u);
                    self.ss[sid].server.closing = true;
                    self.kick_server(sid, 0);
                    return;
                }
                Act::ResetNoReply => {
                    self.count("server_crash");
                    self.ss[sid].server.units.push(u);
                    self.do_reset(sid);
                    return;
                }
                Act::Blackhole => {
                    self.count("blackhole");
                    self.ss[sid].server.units.push(u);
                    self.ss[sid].server.blackhole = true;
                    let sv = &mut self.ss[sid].server;
                    sv.outq.clear();
                    self.kick_server(sid, 0);
                    return;
                }
                _ => {}
            }
        }
        // The tag makes rule-made texts unique; bare/empty ones stay as they are.
        let accepted = valid && (200..300).contains(&code);
        let uix = self.ss[sid].server.units.len();
        // Effects.
        {
            let sv = &mut self.ss[sid].server;
            match kind {
                Kind::Ehlo if accepted => {
                    sv.ehlo_done = true;
                    sv.txn = None;
                    u.adv = Some(sv.ehlo_plan);
                }
                Kind::Mail if accepted => {
                    sv.txn = Some(Txn { from: u.path.clone().unwrap_or_default(), to: vec![], mail_unit: uix });
                }
                Kind::Rcpt if accepted => {
                    if let Some(t) = sv.txn.as_mut() {
                        t.to.push(u.path.clone().unwrap_or_default());
                    }
                }
                Kind::Data if valid && (300..400).contains(&code) => {
                    sv.st = St::Data;
                    sv.data_line_start = true;
                    sv.content.clear();
                }
                Kind::Eod => {
                    sv.st = St::Cmd;
                    if let Some(t) = sv.txn.take() {
                        if accepted {
                            sv.commits.push(Commit { unit: uix, from: t.from, to: t.to, mail_unit: t.mail_unit });
                        }
                    }
                }
                Kind::Auth | Kind::Sasl => {
                    if valid && code == 334 {
                        let m = u.mech.clone().unwrap_or_default();
                        sv.st = St::Sasl(m);
                    } else {
                        sv.st = St::Cmd;
                        sv.authed |= accepted;
                    }
                }
                Kind::Rset if accepted => sv.txn = None,
                Kind::Starttls if accepted => {
                    sv.tls_expected = true;
                    sv.ehlo_done = false;
                    sv.txn = None;
                    sv.ehlo_plan = (sv.ehlo_plan + 1).min(plan.server.ehlo.len() - 1);
                }
                _ => {}
            }
        }
        if valid && code == 334 && matches!(kind, Kind::Auth | Kind::Sasl) && lines.is_empty() {
            let ix = self.ss[sid].server.challenge_ix;
            let c = plan.server.challenges.get(ix).cloned().unwrap_or(Challenge::Raw(String::new()));
            lines = vec![challenge_line(&c)];
            self.ss[sid].server.asked = Some(c);
        } else if valid && code == 334 && matches!(kind, Kind::Auth | Kind::Sasl) {
            let word = lines[0].split_whitespace().next().unwrap_or("");
            let text = base64::decode(word).ok().and_then(|t| String::from_utf8(t).ok());
            self.ss[sid].server.asked = Some(match text {
                Some(t) if !t.is_empty() => Challenge::Text(t),
                _ => Challenge::Raw(word.to_string()),
            });
        }
        let mut wire = match (&bytes, extra) {
            (Some(b), false) => b.clone(),
            _ => format_reply(code, &lines, bare),
        };
        if lines.is_empty() {
            lines.push(String::new());
        }
        if let Some(n) = truncate {
            wire.truncate(n.min(wire.len().saturating_sub(1)));
        }
        let start = self.ss[sid].server.out_written;
        let end = start + wire.len() as u64;
        if extra {
            wire.extend_from_slice(bytes.as_ref().unwrap());
        }
        u.reply = Some(Reply { code, lines, valid, start, end, extra });
        self.note(sid, || {
            format!(
                "server {:?} {:?} [{}..{}] -> {}",
                kind,
                utf8(&text[..text.len().min(120)]),
                a,
                b,
                utf8(&wire[..wire.len().min(120)]).escape_default()
            )
        });
        self.mix(sid, 20 + kind as u64, code as u64);
        self.mix_shape(sid, 20 + kind as u64, code as u64);
        let held = plan.server.hold_to_data && matches!(kind, Kind::Mail | Kind::Rcpt);
        let s = &mut self.ss[sid];
        s.server.out_written += wire.len() as u64;
        s.server.outq.extend_from_slice(&wire);
        s.server.units.push(u);
        s.server.group_held = held;
        if close {
            s.server.closing = true;
            s.server.group_held = false;
        }
        self.kick_server(sid, 0);
    }
}

fn classify(line: &[u8]) -> Kind {
    let l = line.strip_suffix(b"\n").unwrap_or(line);
    let l = l.strip_suffix(b"\r").unwrap_or(l);
    for (p, k) in [
        (&b"MAIL FROM:"[..], Kind::Mail),
        (b"RCPT TO:", Kind::Rcpt),
        (b"EHLO ", Kind::Ehlo),
        (b"AUTH ", Kind::Auth),
    ] {
        if strip_ci(l, p).is_some() {
            return k;
        }
    }
    for (p, k) in [
        (&b"DATA"[..], Kind::Data),
        (b"STARTTLS", Kind::Starttls),
        (b"QUIT", Kind::Quit),
        (b"RSET", Kind::Rset),
        (b"NOOP", Kind::Noop),
    ] {
        if l.eq_ignore_ascii_case(p) {
            return k;
        }
    }
    Kind::Unknown
}

/// Reply text lines of every legal shape; the caller may append a tag to the first.
pub fn gen_lines(r: &mut Rng, word: &str) -> Vec<String> {
    let n = match r.below(40) {
        0..=27 => 1,
        28..=35 => 2,
        36..=38 => r.range(3, 6),
        _ => r.range(20, 60),
    };
    (0..n).map(|_| gen_text(r, word)).collect()
}

pub fn gen_text(r: &mut Rng, word: &str) -> String {
    match r.below(16) {
        0..=5 => format!("2.1.0 {} ", word),
        6 => String::new(),
        7 => format!(" leading and  double  {} ", word),
        8 => format!("250 {} 354-550 ", word),
        9 => format!("- {} ", word),
        10 => format!("naïve ünïcode ✉ {} ", word),
        11 => format!("\ttab {}\t", word),
        12 => {
            let n = if r.below(4) == 0 { r.range(900, 5000) } else { r.range(60, 600) };
            let mut s = String::new();
            for _ in 0..n {
                s.push((b'!' + r.below(94) as u8) as char);
            }
            s
        }
        13 => {
            let n = if r.below(6) == 0 { r.range(200, 3000) } else { r.range(1, 80) };
            let pad = &"abc"[..r.below(4) as usize];
            format!("{}{}", pad, r.pick(&["é", "漢", "😀"]).repeat(n as usize))
        }
        14 if r.below(4) == 0 => {
            let c = *r.pick(&["\0", "\x07", "\x1b[31m", "\x7f", "\x08", "\u{85}", "\u{2028}", "\u{feff}", "\u{a0}", "\x0b", "\x0c"]);
            match r.below(3) {
                0 => format!("{}{}", c, word),
                1 => format!("{} {}", word, c),
                _ => format!("a{}b {}", c, word),
            }
        }
        14 => format!("{}. . {}", r.below(1000), word),
        _ => word.to_string(),
    }
}
