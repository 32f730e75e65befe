//! Judges the record of one run against the properties. The reference is the simulated server's
//! strict reading of the byte stream plus the caller's inputs; nothing here looks at the
//! client's internals.
use crate::client::{hello_text, Run};
use crate::gen::{envelope_len, is_ordinary_address};
use crate::scenario::*;
use crate::server::{auth_mechs, has_keyword, St, Unit};
use crate::stream::READER_ERROR;
use crate::world::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Viol {
    pub props: Vec<String>,
    pub tag: String,
    pub msg: String,
}

#[derive(Default)]
pub struct Verdict {
    pub viols: Vec<Viol>,
    /// How often each property's antecedent was met in this run.
    pub hit: BTreeMap<&'static str, u64>,
}

impl Verdict {
    fn bad(&mut self, props: &[&'static str], tag: &'static str, msg: String) {
        self.viols.push(Viol { props: props.iter().map(|p| p.to_string()).collect(), tag: tag.to_string(), msg });
    }
    fn hit(&mut self, p: &'static str) {
        *self.hit.entry(p).or_insert(0) += 1;
    }
}

/// Upper bound on SASL answers one login may give.
pub const MAX_ROUNDS: usize = 32;

fn show(b: &[u8]) -> String {
    let s: String = b.iter().take(200).map(|&c| c as char).collect();
    format!("{:?}{}", s, if b.len() > 200 { "..." } else { "" })
}

/// Is `c` the message `m`, with at most a line ending added?
pub fn canonical(m: &[u8], c: &[u8]) -> bool {
    if c == m {
        return m.is_empty() || m.ends_with(b"\r\n");
    }
    if m.ends_with(b"\r\n") {
        return false;
    }
    let Some(rest) = c.strip_prefix(m) else { return false };
    rest == b"\r\n" || (m.ends_with(b"\r") && rest == b"\n")
}

/// Could `c` be the beginning of what `canonical` allows?
fn canonical_prefix(m: &[u8], c: &[u8]) -> bool {
    if c.len() <= m.len() {
        return m.starts_with(c);
    }
    match c.strip_prefix(m) {
        Some(rest) => rest == b"\r" || rest == b"\n" || rest == b"\r\n",
        None => false,
    }
}

struct S<'a> {
    s: &'a Sess,
    plan: &'a Session,
    /// Operation that wrote the first byte of each unit.
    uop: Vec<usize>,
    /// Indices of the units of each operation.
    ou: Vec<Vec<usize>>,
    /// Operations from here on are not judged (the server sent bytes nobody asked for).
    off: usize,
}

impl<'a> S<'a> {
    fn new(s: &'a Sess, plan: &'a Session) -> S<'a> {
        let mut me = S { s, plan, uop: vec![], ou: vec![vec![]; s.ops.len()], off: usize::MAX };
        for (i, u) in s.server.units.iter().enumerate() {
            let op = if u.kind == Kind::Greet { 0 } else { me.seg_at(u.start).map(|g| g.op).unwrap_or(0) };
            me.uop.push(op);
            if op < me.ou.len() {
                me.ou[op].push(i);
            }
        }
        for (i, u) in s.server.units.iter().enumerate() {
            let extra = u.reply.as_ref().map(|r| r.extra).unwrap_or(false);
            let dropped_by_tls = u.kind == Kind::Starttls
                && s.ops.get(me.uop[i]).map(|o| o.outcome == Outcome::Ok(None)).unwrap_or(false);
            if extra && !dropped_by_tls {
                me.off = me.off.min(me.uop[i] + 1);
            }
        }
        me
    }
    fn seg_at(&self, off: u64) -> Option<&WriteSeg> {
        let v = &self.s.segs;
        let i = v.partition_point(|g| g.end <= off);
        v.get(i).filter(|g| g.start <= off)
    }
    fn u(&self, i: usize) -> &Unit {
        &self.s.server.units[i]
    }
    fn code(&self, i: usize) -> Option<u16> {
        self.u(i).reply.as_ref().filter(|r| r.valid).map(|r| r.code)
    }
    fn first_neg(&self, k: usize) -> Option<usize> {
        // Housekeeping behind the operation's own commands is no part of its verdict.
        let mut begun = false;
        self.ou[k].iter().copied().find(|&i| {
            let house = matches!(self.u(i).kind, Kind::Rset | Kind::Noop);
            begun |= !house;
            !(house && begun) && self.code(i).map(|c| c >= 400).unwrap_or(false)
        })
    }
    fn ehlo_for(&self, u: &Unit) -> Option<&EhloPlan> {
        u.adv.and_then(|a| self.plan.server.ehlo.get(a))
    }
    /// EHLO plan in force for operation k.
    fn ehlo_of_op(&self, k: usize) -> &EhloPlan {
        let n = self.s.ops[..=k].iter().filter(|o| o.kind == OpKind::New2).count();
        &self.plan.server.ehlo[n.min(self.plan.server.ehlo.len() - 1)]
    }
    /// A property of extension use; after an upgrade C11 speaks about it, too.
    fn ext(&self, k: usize, p: &'static str) -> Vec<&'static str> {
        if self.s.ops[..=k].iter().any(|o| o.kind == OpKind::New2) {
            vec![p, "C11"]
        } else {
            vec![p]
        }
    }
    fn is_refusal(o: &Outcome) -> bool {
        matches!(o, Outcome::Transient(..) | Outcome::Permanent(..))
    }
    /// DATA was accepted and its content never ended, within operation k.
    fn left_in_data(&self, k: usize) -> bool {
        let v = &self.ou[k];
        match v.iter().position(|&i| self.u(i).kind == Kind::Data && self.code(i).map(|c| c / 100 == 3).unwrap_or(false)) {
            Some(p) => !v[p..].iter().any(|&i| self.u(i).kind == Kind::Eod),
            None => false,
        }
    }
}

fn verdict_of(code: u16, lines: &[String]) -> Outcome {
    if code < 500 {
        Outcome::Transient(code, lines.to_vec())
    } else {
        Outcome::Permanent(code, lines.to_vec())
    }
}

fn op_props(k: OpKind) -> &'static [&'static str] {
    match k {
        OpKind::New | OpKind::New2 => &["C13"],
        OpKind::Send => &[],
        OpKind::Login => &["C10"],
        OpKind::Quit => &[],
        OpKind::Starttls => &["C11"],
    }
}

fn with(a: &[&'static str], b: &[&'static str]) -> Vec<&'static str> {
    let mut v = a.to_vec();
    for x in b {
        if !v.contains(x) {
            v.push(x);
        }
    }
    v
}

pub fn judge(sc: &Scenario, run: &Run) -> Verdict {
    let mut v = Verdict::default();
    if run.spin {
        v.bad(&["C12"], "endless", "the run does not come to rest (event limit reached)".into());
    }
    for (sid, plan) in sc.sessions.iter().enumerate() {
        let Some(s) = run.world.ss.get(sid) else { continue };
        session(sid, plan, s, run.spin, &mut v);
    }
    v
}

fn session(sid: usize, plan: &Session, s: &Sess, spin: bool, v: &mut Verdict) {
    let x = S::new(s, plan);
    if x.off != usize::MAX {
        v.hit("C06");
    }
    let n = s.ops.len();
    // Pass 1: what holds whatever happened.
    let mut suspect = false;
    let mut awaiting = false;
    let mut refused_before = false;
    let mut tail_ready = true;
    for k in 0..n {
        let op = &s.ops[k];
        let what = plan.ops.get(op.plan).map(|o| &o.what);
        let at = format!("session {} op {} ({:?})", sid, k, op.kind);
        let judged = k < x.off;
        for a in &op.refused_inputs {
            v.hit("C15");
            if is_ordinary_address(a) {
                v.bad(&["C15"], "ordinary-refused", format!("{}: ordinary address {:?} refused", at, a));
            }
        }
        if op.skipped {
            if let (true, Some(What::Send { from, to, .. })) = (op.refused_inputs.is_empty(), what) {
                if !to.is_empty() && to.iter().chain(from).all(|a| is_ordinary_address(a)) {
                    v.bad(&["C15", "C05"], "envelope-refused", format!("{}: envelope with {} ordinary recipients refused", at, to.len()));
                }
            }
            continue;
        }
        if let Outcome::Panicked(m) = &op.outcome {
            let mut p = with(&["C12", "C05"], op_props(op.kind));
            if x.ou[k].iter().any(|&i| x.u(i).kind == Kind::Data && x.code(i).map(|c| c / 100 == 3).unwrap_or(false)) {
                // What was accepted is never transmitted.
                p.push("C02");
                p.push("C17");
            }
            v.bad(&p, if m.contains(SPIN_MSG) { "spin" } else { "panic" }, format!("{}: {}", at, m));
            continue;
        }
        if !judged {
            continue;
        }
        let pending = op.outcome == Outcome::Pending;
        if pending && !spin {
            let env_fits = match what {
                Some(What::Send { from, to, .. }) => envelope_len(from, to, x.ehlo_of_op(k), plan.client.utf8) <= 4096,
                _ => true,
            };
            let pipe = plan.client.pipelining && has_keyword(x.ehlo_of_op(k), "PIPELINING");
            let hold = plan.server.hold_to_data && op.kind == OpKind::Send;
            if s.server.blackhole || (hold && !(pipe && env_fits)) {
                // The peer never answers; nothing is promised.
            } else {
                let mut p = with(&["C12", "C05"], op_props(op.kind));
                if hold && !s.server.closed && !s.reset {
                    p = with(&p, &["C09", "C08"]);
                }
                if refused_before {
                    p = with(&p, &["C16"]);
                }
                if matches!(what, Some(What::Send { source: Source::Reader { .. }, .. })) {
                    p = with(&p, &["C17"]);
                }
                if s.fault_seq.is_none() {
                    p = with(&p, &["C06"]);
                }
                v.bad(&p, "stuck", format!("{}: never finishes (server state {:?}, closed {})", at, s.server.st, s.server.closed || s.reset));
            }
        }
        if !pending {
            v.hit("C12");
        }

        contamination(&x, k, &at, suspect || awaiting, v, &mut tail_ready);
        verdict_match(&x, k, &at, v);
        sequence(&x, k, &at, what, v);
        sync_points(&x, k, &at, v);
        framing(&x, k, &at, v);
        match op.kind {
            OpKind::Send => send_checks(&x, k, &at, what, v),
            OpKind::Login => login_checks(&x, k, &at, what, v),
            OpKind::New | OpKind::New2 => opening(&x, k, &at, v),
            OpKind::Starttls => tls_checks(&x, k, &at, v),
            OpKind::Quit => {}
        }

        // Exact prediction in an undisturbed session.
        let disturbed = s.fault_seq.map(|f| f <= op.end_seq || pending).unwrap_or(false)
            || x.ou[k].iter().any(|&i| x.u(i).reply.as_ref().map(|r| !r.valid).unwrap_or(true));
        let polled_cancel = op.outcome == Outcome::Cancelled && op.polls > 0;
        if awaiting {
            if op.out_end > op.out_start {
                v.bad(&["C16", "C07"], "writes-into-data", format!("{}: sends {} while the server waits for message content", at, show(&s.outlog[op.out_start as usize..op.out_end as usize])));
            }
            if matches!(op.outcome, Outcome::Ok(_)) && !login_without_mech(&x, k, what) {
                v.bad(&["C16"], "ok-while-in-data", format!("{}: succeeds while the server waits for message content", at));
            }
        } else if !suspect && !disturbed && op.outcome != Outcome::Cancelled && !pending {
            exact(&x, k, &at, what, refused_before, v);
        }
        if !suspect && !awaiting && refused_before && !disturbed && matches!(op.kind, OpKind::Send | OpKind::Login) && !pending {
            v.hit("C16");
            // A command after a refused one of the same group is rightly out of sequence.
            if let Some(&i) = x.ou[k].first().filter(|&&i| x.u(i).seq_error) {
                v.bad(&["C16"], "bad-sequence", format!("{}: {} refused as out of sequence after an earlier refusal", at, show(&x.u(i).text)));
            }
        }
        // State for what follows.
        let unsettled = match &op.outcome {
            Outcome::Ok(_) | Outcome::Transient(..) | Outcome::Permanent(..) => false,
            Outcome::Cancelled => op.polls > 0,
            _ => true,
        };
        if unsettled || disturbed || polled_cancel {
            suspect = true;
        }
        if S::is_refusal(&op.outcome) {
            refused_before = true;
            if x.left_in_data(k) {
                awaiting = true;
            }
        }
    }
    tail(&x, sid, v);
    leak(&x, sid, v);
}

fn login_without_mech(x: &S, k: usize, what: Option<&What>) -> bool {
    match what {
        Some(What::Login { mechs, direct: false, .. }) => common(x, k, mechs).is_none(),
        _ => false,
    }
}

fn mech_name(m: Mech) -> &'static str {
    match m {
        Mech::Plain => "PLAIN",
        Mech::Login => "LOGIN",
        Mech::Xoauth2 => "XOAUTH2",
    }
}

fn common(x: &S, k: usize, mechs: &[Mech]) -> Option<Mech> {
    let adv = auth_mechs(x.ehlo_of_op(k));
    mechs.iter().copied().find(|m| adv.iter().any(|a| a == mech_name(*m)))
}

/// C07: the first byte of an operation meets a server at rest.
fn contamination(x: &S, k: usize, at: &str, after_trouble: bool, v: &mut Verdict, _t: &mut bool) {
    let op = &x.s.ops[k];
    if k == 0 {
        return;
    }
    if after_trouble {
        v.hit("C07");
    }
    if op.out_end == op.out_start {
        return;
    }
    let o = op.out_start;
    let sv = &x.s.server;
    let mut p = vec!["C07"];
    if op.kind == OpKind::Send {
        p.push("C03");
        p.push("C04");
    }
    match sv.units.iter().find(|u| u.kind != Kind::Greet && u.start <= o && o < u.end) {
        Some(u) => {
            if u.start != o || matches!(u.kind, Kind::Sasl | Kind::Eod) {
                v.bad(&["C07", "C15"], "joined", format!("{}: its first byte is read as part of {:?} {}", at, u.kind, show(&u.text)));
                return;
            }
        }
        None => {
            if !(sv.closed || x.s.reset || sv.blackhole) {
                if o > sv.part_start || sv.st != St::Cmd {
                    v.bad(&["C07"], "joined", format!("{}: its first byte meets the server in state {:?} with {} unfinished bytes", at, sv.st, o - sv.part_start.min(o)));
                    return;
                }
            }
            if sv.blackhole && o > sv.part_start {
                // The server read the command of an earlier operation and owes its reply.
                v.bad(&["C07"], "reply-owed", format!("{}: starts while an earlier command is unanswered", at));
                return;
            }
        }
    }
    let consumed = x.seg_at(o).map(|g| g.consumed).unwrap_or(0);
    for u in sv.units.iter().filter(|u| u.end <= o) {
        match &u.reply {
            Some(r) if r.end <= consumed => {}
            Some(r) => {
                v.bad(&["C07", "C05"], "reply-unread", format!("{}: starts before the reply {} to the earlier {:?} {} was read", at, r.code, u.kind, show(&u.text)));
                return;
            }
            None => {
                if sv.closed || x.s.reset {
                    continue;
                }
                v.bad(&["C07"], "reply-owed", format!("{}: starts while the earlier {:?} {} is unanswered", at, u.kind, show(&u.text)));
                return;
            }
        }
    }
}

/// C05: a reported refusal is the first negative reply to the operation's own commands.
fn verdict_match(x: &S, k: usize, at: &str, v: &mut Verdict) {
    let op = &x.s.ops[k];
    let neg = x.first_neg(k);
    match &op.outcome {
        Outcome::Transient(c, l) | Outcome::Permanent(c, l) => {
            v.hit("C05");
            let want = neg.map(|i| {
                let r = x.u(i).reply.as_ref().unwrap();
                verdict_of(r.code, &r.lines)
            });
            if want.as_ref() != Some(&op.outcome) {
                let mut p = with(&["C05"], op_props(op.kind));
                if neg.is_none() || matches!(&want, Some(Outcome::Transient(wc, wl) | Outcome::Permanent(wc, wl)) if wc == c && wl != l) {
                    p.push("C06");
                }
                v.bad(&p, "wrong-verdict", format!("{}: reports {:?}, but the first negative reply to its commands is {:?}", at, op.outcome, want));
            }
        }
        Outcome::Ok(_) => {
            v.hit("C05");
            if let Some(i) = neg {
                let mut p = with(&["C05"], op_props(op.kind));
                if op.kind == OpKind::Send {
                    p.push("C01");
                }
                v.bad(&p, "refusal-lost", format!("{}: succeeds although {:?} {} was refused", at, x.u(i).kind, show(&x.u(i).text)));
            }
            if let Some(&i) = x.ou[k].iter().find(|&&i| x.u(i).reply.as_ref().map(|r| !r.valid).unwrap_or(true)) {
                v.bad(&["C06", "C05"], "malformed-accepted", format!("{}: succeeds although {:?} {} got no valid reply", at, x.u(i).kind, show(&x.u(i).text)));
            }
        }
        _ => {}
    }
}

fn expected_mail_params(x: &S, u: &Unit) -> Option<Vec<String>> {
    let e = x.ehlo_for(u)?;
    let mut w = vec![];
    if has_keyword(e, "8BITMIME") {
        w.push("BODY=8BITMIME".to_string());
    }
    if has_keyword(e, "SMTPUTF8") && x.plan.client.utf8 {
        w.push("SMTPUTF8".to_string());
    }
    w.sort();
    Some(w)
}

/// C15 (and C02, C08, C04): the units are those of the operation requested, arguments verbatim.
fn sequence(x: &S, k: usize, at: &str, what: Option<&What>, v: &mut Verdict) {
    let op = &x.s.ops[k];
    let mut stage = 0;
    let mut turned_down = false;
    let mut rcpts: Vec<String> = vec![];
    for &i in &x.ou[k] {
        let u = x.u(i);
        let next = match (op.kind, u.kind, stage) {
            (OpKind::New, Kind::Greet, 0) => 0,
            (OpKind::New | OpKind::New2, Kind::Ehlo, 0) => 9,
            (OpKind::Quit, Kind::Quit, 0) => 9,
            (OpKind::Starttls, Kind::Starttls, 0) => 9,
            (OpKind::Login, Kind::Auth, 0) => 1,
            (OpKind::Login, Kind::Sasl, 1) => 1,
            (OpKind::Send, Kind::Mail, 0) => 1,
            (OpKind::Send, Kind::Rcpt, 1) => 1,
            (OpKind::Send, Kind::Data, 1) => 2,
            (OpKind::Send, Kind::Eod, 2) => 9,
            // Housekeeping is allowed in front of any operation.
            (OpKind::Send | OpKind::Login | OpKind::Starttls | OpKind::Quit, Kind::Rset | Kind::Noop, 0) => 0,
            // So is giving up a transaction the server did not go along with.
            (OpKind::Send, Kind::Rset | Kind::Noop, _) if turned_down => 9,
            _ => -1,
        };
        turned_down |= match (u.kind, x.code(i)) {
            (_, None) => false,
            (Kind::Data, Some(c)) => c / 100 != 3,
            (_, Some(c)) => c / 100 != 2,
        };
        if next < 0 {
            let mut p = vec!["C15"];
            if stage == 9 && op.kind == OpKind::Send {
                p.push("C02");
            }
            if stage == 2 {
                p.push("C09");
                p.push("C02");
            }
            v.bad(&p, "alien-command", format!("{}: the server parsed {:?} {}, which is none of the operation's commands", at, u.kind, show(&u.text)));
            return;
        }
        stage = next;
        match u.kind {
            Kind::Ehlo => {
                let want = format!("EHLO {}", hello_text(&x.plan.client.hello));
                if u.text != want.as_bytes() {
                    v.bad(&["C15", "C13"], "hello-changed", format!("{}: sent {} instead of {:?}", at, show(&u.text), want));
                }
            }
            Kind::Mail => {
                if let Some(What::Send { from, .. }) = what {
                    let want = from.clone().unwrap_or_default();
                    if u.path.as_deref() != Some(want.as_str()) {
                        v.bad(&["C15", "C04"], "sender-changed", format!("{}: sender {:?} arrived as {}", at, want, show(&u.text)));
                    } else if let Some(w) = expected_mail_params(x, u) {
                        v.hit("C08");
                        let mut got = u.params.clone();
                        got.sort();
                        if got != w {
                            let extra = got.iter().any(|g| !w.contains(g));
                            let p = if extra { x.ext(k, "C08") } else { vec!["C08"] };
                            v.bad(&p, "parameters", format!("{}: MAIL parameters {:?}, expected {:?} (server advertised {:?}, SMTPUTF8 enabled: {})", at, u.params, w, x.ehlo_for(u).map(|e| &e.lines), x.plan.client.utf8));
                        }
                    }
                }
            }
            Kind::Rcpt => {
                if let Some(What::Send { to, .. }) = what {
                    let p = u.path.clone();
                    let ok = p.as_ref().map(|p| to.contains(p)).unwrap_or(false) && u.params.is_empty();
                    if !ok {
                        v.bad(&["C15", "C04"], "recipient-changed", format!("{}: the server parsed {} which is not a recipient of the envelope", at, show(&u.text)));
                    } else {
                        let p = p.unwrap();
                        rcpts.push(p.clone());
                        if rcpts.iter().filter(|r| **r == p).count() > to.iter().filter(|t| **t == p).count() {
                            v.bad(&["C04", "C15"], "recipient-twice", format!("{}: recipient {:?} sent more often than in the envelope", at, p));
                        }
                    }
                }
            }
            Kind::Starttls => {
                v.hit("C08");
                if let Some(e) = x.ehlo_for(u) {
                    if !has_keyword(e, "STARTTLS") {
                        v.bad(&["C08", "C11"], "starttls-unadvertised", format!("{}: STARTTLS sent but not advertised in {:?}", at, e.lines));
                    }
                }
            }
            _ => {}
        }
    }
    if let Some(What::Send { body, .. }) = what {
        if x.ou[k].iter().any(|&i| x.u(i).kind == Kind::Eod) && body.windows(2).any(|w| w == b"\n." || w == b".\r") {
            v.hit("C15");
        }
    }
    if let Some(What::Login { user, pass, .. }) = what {
        if !x.ou[k].is_empty() && (user.chars().any(|c| c.is_control()) || pass.chars().any(|c| c.is_control())) {
            v.hit("C15");
        }
    }
}

/// C09.
fn sync_points(x: &S, k: usize, at: &str, v: &mut Verdict) {
    let op = &x.s.ops[k];
    let pipe = x.plan.client.pipelining && has_keyword(x.ehlo_of_op(k), "PIPELINING");
    let us = &x.ou[k];
    for (n, &i) in us.iter().enumerate() {
        let u = x.u(i);
        if u.kind == Kind::Greet || u.end >= op.out_end {
            continue;
        }
        // A following byte of the same operation exists.
        let Some(g) = x.seg_at(u.end) else { continue };
        if g.op != k {
            continue;
        }
        let groupable = matches!(u.kind, Kind::Mail | Kind::Rcpt | Kind::Rset);
        if u.kind == Kind::Data {
            v.hit("C09");
            let ok = x.code(i).map(|c| c / 100 == 3).unwrap_or(false);
            if !ok {
                let rest = &x.s.outlog[u.end as usize..op.out_end as usize];
                if b"RSET\r\n".starts_with(rest) || b"NOOP\r\n".starts_with(rest) {
                    continue; // no content but the end of a transaction
                }
                v.bad(&["C09"], "content-without-go-ahead", format!("{}: sends content although DATA was answered {:?}", at, x.code(i)));
                return;
            }
            for &j in &us[..=n] {
                let r = x.u(j).reply.as_ref();
                if r.map(|r| r.end > g.consumed).unwrap_or(true) {
                    v.bad(&["C09"], "content-too-early", format!("{}: sends content before the reply to {:?} {} was read", at, x.u(j).kind, show(&x.u(j).text)));
                    return;
                }
            }
            continue;
        }
        if groupable && pipe {
            continue;
        }
        if !groupable || !pipe {
            v.hit("C09");
        }
        let early = u.reply.as_ref().map(|r| r.end > g.consumed).unwrap_or(true);
        if early {
            let mut p = vec!["C09"];
            if groupable {
                p = with(&p, &x.ext(k, "C08"));
            }
            v.bad(&p, "not-waited", format!("{}: sends more before the reply to {:?} {} was read (pipelining in effect: {})", at, u.kind, show(&u.text), pipe));
            return;
        }
    }
    if pipe && x.plan.server.hold_to_data && us.iter().any(|&i| x.u(i).kind == Kind::Data) {
        v.hit("C09");
    }
}

/// C06: consumption stops exactly at the end of the reply.
fn framing(x: &S, k: usize, at: &str, v: &mut Verdict) {
    let op = &x.s.ops[k];
    let Some(&last) = x.ou[k].last() else { return };
    let u = x.u(last);
    let Some(r) = &u.reply else { return };
    let multi = x.ou[k].iter().any(|&i| x.u(i).reply.as_ref().map(|r| r.lines.len() > 1 || r.lines[0].is_empty() || !r.valid).unwrap_or(false));
    if multi {
        v.hit("C06");
    }
    if !r.valid && !r.extra {
        return;
    }
    if op.cons_end > r.end {
        v.bad(&["C06", "C11"][..if op.kind == OpKind::Starttls { 2 } else { 1 }], "over-read", format!("{}: consumed {} bytes past the end of its last reply", at, op.cons_end - r.end));
    }
    if matches!(op.outcome, Outcome::Ok(_)) && op.cons_end < r.end {
        v.bad(&["C06", "C05"], "under-read", format!("{}: succeeds {} bytes before the end of its last reply", at, r.end - op.cons_end));
    }
}

fn send_checks(x: &S, k: usize, at: &str, what: Option<&What>, v: &mut Verdict) {
    let op = &x.s.ops[k];
    let Some(What::Send { from, to, body, source }) = what else { return };
    let reader = matches!(source, Source::Reader { .. });
    let failing = matches!(source, Source::Reader { fail_at: Some(_), .. });
    let us = &x.ou[k];
    // The content belongs to the operation that sent its DATA.
    let eods: Vec<usize> = x
        .s
        .server
        .units
        .iter()
        .enumerate()
        .filter(|(i, u)| u.kind == Kind::Eod && x.uop[x.s.server.units[..*i].iter().rposition(|d| d.kind == Kind::Data).unwrap_or(*i)] == k)
        .map(|(i, _)| i)
        .collect();
    if !us.is_empty() {
        v.hit("C03");
    }
    if to.is_empty() && us.iter().any(|&i| matches!(x.u(i).kind, Kind::Mail | Kind::Data)) {
        v.bad(&["C04"], "no-recipient", format!("{}: a transaction is opened for an envelope without recipients", at));
    }
    for &e in &eods {
        let u = x.u(e);
        v.hit("C02");
        if reader {
            v.hit("C17");
        }
        if !canonical(body, &u.text) {
            let mut p = vec!["C02"];
            if reader {
                p.push("C17");
            }
            if canonical_prefix(body, &u.text) || body.starts_with(&u.text) || op.outcome == Outcome::Cancelled || matches!(op.outcome, Outcome::Io(_)) {
                p.push("C03");
            }
            v.bad(&p, "content", format!("{}: message {} arrived as {}", at, show(body), show(&u.text)));
        }
        if failing {
            v.bad(&["C17", "C03"], "failed-source-sent", format!("{}: the message source failed, yet the server got a complete message", at));
        }
        if x.seg_at(u.end - 1).map(|g| g.op) != Some(k) {
            v.bad(&["C03", "C07", "C02"], "completed-by-other", format!("{}: its content was completed by a later operation", at));
        }
        let mails: Vec<usize> = us.iter().copied().filter(|&i| x.u(i).kind == Kind::Mail).collect();
        let rc: Vec<usize> = us.iter().copied().filter(|&i| x.u(i).kind == Kind::Rcpt).collect();
        let ok = |i: usize| x.code(i).map(|c| c / 100 == 2).unwrap_or(false);
        if mails.len() != 1 || !ok(mails[0]) || rc.len() != to.len() || !rc.iter().all(|&i| ok(i)) {
            v.bad(&["C03"], "partial-envelope", format!("{}: a complete message was sent though only {} of {} recipients (sender accepted: {}) were accepted", at, rc.iter().filter(|&&i| ok(i)).count(), to.len(), mails.len() == 1 && ok(mails[0])));
        }
    }
    if eods.len() > 1 {
        v.bad(&["C03"], "twice", format!("{}: {} complete messages", at, eods.len()));
    }
    // Commits made by this operation.
    let commits: Vec<_> = x.s.server.commits.iter().filter(|c| eods.contains(&c.unit)).collect();
    for c in &commits {
        v.hit("C04");
        let mut a = c.to.clone();
        let mut b = to.clone();
        a.sort();
        b.sort();
        if c.from != from.clone().unwrap_or_default() || a != b || x.uop[c.mail_unit] != k {
            v.bad(&["C04"], "envelope", format!("{}: accepted with sender {:?} and recipients {:?}; the envelope is {:?} {:?}", at, c.from, c.to, from, to));
        }
    }
    match &op.outcome {
        Outcome::Ok(r) => {
            v.hit("C01");
            let reply = commits.last().and_then(|c| x.u(c.unit).reply.as_ref());
            match (reply, r) {
                (Some(w), Some((c, l))) if w.code == *c && w.lines == *l => {}
                (Some(w), got) => v.bad(&["C01", "C05", "C06"], "other-reply", format!("{}: the content was answered {} {:?}, the send returned {:?}", at, w.code, w.lines, got)),
                (None, _) => v.bad(&["C01", "C05"], "false-success", format!("{}: succeeds, but the server did not accept the message (content ended: {})", at, !eods.is_empty())),
            }
        }
        Outcome::Transient(..) | Outcome::Permanent(..) => {
            v.hit("C01");
            if !commits.is_empty() {
                v.bad(&["C03", "C05"], "refused-but-delivered", format!("{}: reports {:?}, but the message was delivered", at, op.outcome));
            }
        }
        _ => v.hit("C01"),
    }
    if failing {
        v.hit("C17");
    }
}

/// RSET and NOOP, which are allowed in front of any operation; the last one maybe cut off.
fn only_housekeeping(mut bytes: &[u8]) -> bool {
    while let Some(rest) = bytes.strip_prefix(b"RSET\r\n").or_else(|| bytes.strip_prefix(b"NOOP\r\n")) {
        bytes = rest;
    }
    b"RSET\r\n".starts_with(bytes) || b"NOOP\r\n".starts_with(bytes)
}

fn login_checks(x: &S, k: usize, at: &str, what: Option<&What>, v: &mut Verdict) {
    let op = &x.s.ops[k];
    let Some(What::Login { user, pass, mechs, direct }) = what else { return };
    v.hit("C10");
    let want = if *direct { Some(mechs[0]) } else { common(x, k, mechs) };
    let us = &x.ou[k];
    if want.is_none() && !only_housekeeping(&x.s.outlog[op.out_start as usize..op.out_end as usize]) {
        v.bad(&with(&["C10"], &x.ext(k, "C08")), "no-common-mechanism", format!("{}: no accepted mechanism is advertised, yet {} was sent", at, show(&x.s.outlog[op.out_start as usize..op.out_end as usize])));
        return;
    }
    let b64 = |s: &str| base64::encode(s);
    let mut rounds = 0;
    for &i in us {
        let u = x.u(i);
        match u.kind {
            Kind::Auth => {
                let m = want.unwrap_or(Mech::Plain);
                let expect = match m {
                    Mech::Plain => format!("AUTH PLAIN {}", b64(&format!("\0{}\0{}", user, pass))),
                    Mech::Login => "AUTH LOGIN".to_string(),
                    Mech::Xoauth2 => format!("AUTH XOAUTH2 {}", b64(&format!("user={}\x01auth=Bearer {}\x01\x01", user, pass))),
                };
                if u.text != expect.as_bytes() {
                    v.bad(&with(&["C15"], &x.ext(k, "C10")), "auth-command", format!("{}: sent {}, expected {:?}", at, show(&u.text), expect));
                }
            }
            Kind::Sasl => {
                rounds += 1;
                let kind = match &u.challenge {
                    Some(Challenge::Text(t)) => {
                        let l = t.to_lowercase();
                        match (l.find("user"), l.find("pass")) {
                            (Some(_), None) => 1,
                            (None, Some(_)) => 2,
                            // A password prompt may name the user and the other way round.
                            (Some(u), Some(p)) if p > 0 && u == 0 && !l.contains("user password") => 1,
                            (Some(_), Some(_)) => 2,
                            _ => 0,
                        }
                    }
                    _ => 0,
                };
                let login = want == Some(Mech::Login);
                let ok = u.text == b"*"
                    || (login && kind == 1 && u.text == b64(user).as_bytes())
                    || (login && kind == 2 && u.text == b64(pass).as_bytes())
                    // Unreadable challenges (e.g. stray base64 of a name) may only be cancelled.
                    || (login && raw_kind(&u.challenge) == 1 && u.text == b64(user).as_bytes());
                if !ok {
                    v.bad(&["C10"], "challenge-answer", format!("{}: challenge {:?} answered with {}", at, u.challenge, show(&u.text)));
                }
            }
            _ => {}
        }
    }
    if rounds > MAX_ROUNDS {
        v.bad(&["C10"], "unbounded", format!("{}: answered {} challenges", at, rounds));
    }
    if let Outcome::Ok(_) = op.outcome {
        if want.is_some() {
            let last = us.last().and_then(|&i| x.code(i));
            if last.map(|c| c / 100 != 2).unwrap_or(true) {
                v.bad(&["C10", "C05"], "false-login", format!("{}: succeeds although the last reply is {:?}", at, last));
            }
        }
    }
}

fn raw_kind(c: &Option<Challenge>) -> u8 {
    match c {
        Some(Challenge::Raw(r)) if base64::decode(r).ok().as_deref() == Some(b"Username:") => 1,
        _ => 0,
    }
}

fn answerable(c: &Challenge) -> bool {
    matches!(c, Challenge::Text(t) if ["Username:", "User Name", "Username", "Password:", "Password"].contains(&t.as_str()))
}

fn opening(x: &S, k: usize, at: &str, v: &mut Verdict) {
    let op = &x.s.ops[k];
    v.hit("C13");
    let greet = x.ou[k].iter().copied().find(|&i| x.u(i).kind == Kind::Greet);
    if op.kind == OpKind::New && x.plan.server.greeting && op.out_end > op.out_start {
        let consumed = x.seg_at(op.out_start).map(|g| g.consumed).unwrap_or(0);
        let ok = greet.and_then(|i| x.u(i).reply.as_ref()).map(|r| r.valid && r.code < 400 && r.end <= consumed).unwrap_or(false);
        if !ok {
            v.bad(&["C13", "C09"], "speaks-first", format!("{}: sends {} before a positive greeting was read", at, show(&x.s.outlog[..op.out_end as usize])));
        }
    }
    // Anything but one EHLO line (or the beginning of it).
    let sent = &x.s.outlog[op.out_start as usize..op.out_end as usize];
    let want = format!("EHLO {}\r\n", hello_text(&x.plan.client.hello));
    if !want.as_bytes().starts_with(sent) {
        v.bad(if op.kind == OpKind::New2 { &["C13", "C11"] } else { &["C13"] }, "not-ehlo", format!("{}: opening sends {}, expected {:?}", at, show(sent), want));
    }
    let hello = hello_text(&x.plan.client.hello);
    if hello.bytes().any(|b| b < 32 || b == 127) {
        v.hit("C15");
        if hello.contains('\n') && !sent.is_empty() {
            v.bad(&["C15"], "hello-injection", format!("{}: EHLO name {:?} was sent as {}", at, hello, show(sent)));
        }
    }
}

fn tls_checks(x: &S, k: usize, at: &str, v: &mut Verdict) {
    let op = &x.s.ops[k];
    v.hit("C11");
    if op.outcome != Outcome::Ok(None) {
        return;
    }
    let last = x.ou[k].last().copied().filter(|&i| x.u(i).kind == Kind::Starttls);
    let Some(i) = last else {
        v.bad(&["C11", "C05"], "no-starttls", format!("{}: hands over the stream without STARTTLS", at));
        return;
    };
    let u = x.u(i);
    match &u.reply {
        Some(r) if r.valid && r.code / 100 == 2 => {
            if op.cons_end != r.end {
                v.bad(&["C11", "C06"], "handover-position", format!("{}: the stream is handed over at byte {} of the input, the reply ends at {}", at, op.cons_end, r.end));
            }
        }
        r => v.bad(&["C11", "C05"], "starttls-refused", format!("{}: hands over the stream although STARTTLS was answered {:?}", at, r.as_ref().map(|r| (r.code, r.valid)))),
    }
    if op.out_end != u.end {
        v.bad(&["C11"], "plaintext-after", format!("{}: wrote {} after STARTTLS", at, show(&x.s.outlog[u.end as usize..op.out_end as usize])));
    }
    if op.unflushed != 0 {
        v.bad(&["C11"], "unflushed", format!("{}: {} bytes still in the write buffer", at, op.unflushed));
    }
    // Nothing may follow but the next session's EHLO (checked there).
    let next_start = x.s.ops.get(k + 1).map(|o| o.out_start).unwrap_or(x.s.out_off);
    if next_start != op.out_end {
        v.bad(&["C11"], "plaintext-after", format!("{}: {} bytes written after the handover", at, next_start - op.out_end));
    }
}

/// The outcome an undisturbed operation must have.
fn exact(x: &S, k: usize, at: &str, what: Option<&What>, refused_before: bool, v: &mut Verdict) {
    let op = &x.s.ops[k];
    let us = &x.ou[k];
    let got = &op.outcome;
    let mut props = with(&["C05", "C06"], op_props(op.kind));
    if refused_before {
        props.push("C16");
    }
    if matches!(op.kind, OpKind::New | OpKind::New2)
        && hello_text(&x.plan.client.hello).chars().any(|c| c.is_control())
        && us.iter().all(|&i| x.u(i).kind == Kind::Greet)
    {
        return; // refused name
    }
    if let Some(What::Login { mechs, direct, .. }) = what {
        let m = if *direct { Some(mechs[0]) } else { common(x, k, mechs) };
        let star = us.iter().any(|&i| x.u(i).kind == Kind::Sasl && x.u(i).text == b"*");
        let answered = us.iter().filter(|&&i| x.u(i).kind == Kind::Sasl && x.u(i).text != b"*").count();
        let all_answerable = us.iter().all(|&i| x.u(i).kind != Kind::Sasl || x.u(i).challenge.as_ref().map(answerable).unwrap_or(false));
        if star && m == Some(Mech::Login) && all_answerable && answered < 4 {
            v.bad(&["C10"], "gives-up", format!("{}: cancels although every challenge can be answered", at));
            return;
        }
    }
    // Refusals are compared elsewhere; here they must be reported as such.
    if let Some(i) = x.first_neg(k) {
        let sasl_cancel = us.iter().any(|&i| x.u(i).kind == Kind::Sasl && x.u(i).text == b"*");
        if !S::is_refusal(got) && !sasl_cancel {
            v.bad(&props, "refusal-misreported", format!("{}: {:?} {} was answered {:?}, the operation reports {:?}", at, x.u(i).kind, show(&x.u(i).text), x.code(i), got));
        }
        return;
    }
    let last = us.last().copied();
    let last_code = last.and_then(|i| x.code(i));
    let okay = matches!(got, Outcome::Ok(_));
    match op.kind {
        OpKind::New | OpKind::New2 => {
            if !okay {
                v.bad(&props, "positive-misreported", format!("{}: every reply was positive, the operation reports {:?}", at, got));
            }
        }
        OpKind::Quit => {
            if !okay {
                v.bad(&props, "positive-misreported", format!("{}: answered {:?}, the operation reports {:?}", at, last_code, got));
            } else if us.is_empty() {
                v.bad(&props, "nothing-sent", format!("{}: succeeds without QUIT", at));
            }
        }
        OpKind::Starttls => {
            let adv = has_keyword(x.ehlo_of_op(k), "STARTTLS");
            if adv && us.iter().all(|&i| x.u(i).kind != Kind::Starttls) {
                props.push("C08");
                v.bad(&props, "starttls-withheld", format!("{}: STARTTLS is advertised in {:?} but was not sent; reports {:?}", at, x.ehlo_of_op(k).lines, got));
            } else if adv && last_code.map(|c| c / 100 == 2).unwrap_or(false) && !okay {
                v.bad(&props, "positive-misreported", format!("{}: answered {:?}, the operation reports {:?}", at, last_code, got));
            } else if !adv && okay {
                v.bad(&props, "starttls-unadvertised", format!("{}: succeeds although STARTTLS is not advertised", at));
            }
        }
        OpKind::Login => {
            let Some(What::Login { mechs, direct, .. }) = what else { return };
            let want = if *direct { Some(mechs[0]) } else { common(x, k, mechs) };
            let Some(m) = want else {
                if op.out_end == op.out_start && got != &Outcome::Ok(None) && !matches!(got, Outcome::Client(_)) {
                    v.bad(&["C10", "C05"], "no-common-mechanism", format!("{}: reports {:?}", at, got));
                }
                return;
            };
            let auth = us.iter().any(|&i| x.u(i).kind == Kind::Auth);
            if !auth {
                props.push("C08");
                v.bad(&props, "mechanism-withheld", format!("{}: {:?} is advertised in {:?} but AUTH was not sent; reports {:?}", at, m, x.ehlo_of_op(k).lines, got));
                return;
            }
            let star = us.iter().any(|&i| x.u(i).kind == Kind::Sasl && x.u(i).text == b"*");
            match last_code {
                Some(c) if c / 100 == 2 => {
                    if star {
                        return;
                    }
                    if !okay {
                        v.bad(&props, "positive-misreported", format!("{}: answered {}, the operation reports {:?}", at, c, got));
                    } else if let (true, Outcome::Ok(Some((gc, gl)))) = (*direct, got) {
                        let r = x.u(last.unwrap()).reply.as_ref().unwrap();
                        if r.code != *gc || r.lines != *gl {
                            v.bad(&props, "other-reply", format!("{}: answered {} {:?}, returned {} {:?}", at, r.code, r.lines, gc, gl));
                        }
                    }
                }
                Some(334) if !star => {
                    v.bad(&["C10"], "left-open", format!("{}: ends with {:?} while the server waits for an answer", at, got));
                }
                _ => {}
            }
        }
        OpKind::Send => {
            let Some(What::Send { source, .. }) = what else { return };
            let reader_fails = matches!(source, Source::Reader { fail_at: Some(_), .. });
            let data = us.iter().copied().find(|&i| x.u(i).kind == Kind::Data);
            let Some(data) = data else {
                if reader_fails && matches!(got, Outcome::Io(m) if m.contains(READER_ERROR)) {
                    return; // the source was read first
                }
                v.bad(&props, "not-sent", format!("{}: nothing was refused, yet DATA was never sent; reports {:?}", at, got));
                return;
            };
            if x.code(data).map(|c| c / 100 != 3).unwrap_or(true) {
                return; // must not succeed, checked as false success
            }
            if reader_fails {
                let right = matches!(got, Outcome::Io(m) if m.contains(READER_ERROR));
                if !right {
                    v.bad(&["C17", "C05"], "source-error-lost", format!("{}: the message source failed, the operation reports {:?}", at, got));
                }
                return;
            }
            if matches!(source, Source::Reader { .. }) {
                props.push("C17");
            }
            let eod = us.iter().copied().find(|&i| x.u(i).kind == Kind::Eod);
            match eod {
                None => v.bad(&with(&props, &["C02"]), "not-sent", format!("{}: DATA was accepted, the content never ended; reports {:?}", at, got)),
                Some(e) => {
                    if x.code(e).map(|c| c / 100 == 2).unwrap_or(false) && !okay {
                        v.bad(&props, "positive-misreported", format!("{}: the message was accepted ({:?}), the operation reports {:?}", at, x.code(e), got));
                    }
                }
            }
        }
    }
}

/// Unfinished content at the end of the run is a beginning of the right message.
fn tail(x: &S, sid: usize, v: &mut Verdict) {
    let sv = &x.s.server;
    if sv.st != St::Data || sv.closed || x.s.reset || sv.blackhole {
        return;
    }
    let Some(d) = sv.units.iter().rposition(|u| u.kind == Kind::Data) else { return };
    let k = x.uop[d];
    if k >= x.off {
        return;
    }
    let Some(What::Send { body, .. }) = x.plan.ops.get(x.s.ops[k].plan).map(|o| &o.what) else { return };
    let mut c = sv.content.clone();
    let part = &sv.part[..];
    if canonical(body, &c) && b".\r\n".starts_with(part) {
        return;
    }
    c.extend_from_slice(part.strip_prefix(b".").unwrap_or(part));
    if !canonical_prefix(body, &c) {
        v.bad(&["C02"], "content-prefix", format!("session {} op {}: message {} is arriving as {}", sid, k, show(body), show(&c)));
    }
}

/// C10: the secret appears nowhere but in the commands of its own login.
fn leak(x: &S, sid: usize, v: &mut Verdict) {
    for (k, op) in x.s.ops.iter().enumerate() {
        let Some(What::Login { pass, .. }) = x.plan.ops.get(op.plan).map(|o| &o.what) else { continue };
        if op.kind != OpKind::Login || pass.len() < 12 {
            continue;
        }
        let mut out = x.s.outlog.clone();
        // Another login of the session may use the same secret.
        for other in x.s.ops.iter().rev() {
            if matches!(x.plan.ops.get(other.plan).map(|o| &o.what), Some(What::Login { pass: p, .. }) if p == pass) && other.kind == OpKind::Login {
                out.drain(other.out_start as usize..other.out_end as usize);
            }
        }
        for needle in [pass.as_bytes().to_vec(), base64::encode(pass).into_bytes()] {
            if out.windows(needle.len()).any(|w| w == &needle[..]) {
                v.bad(&["C10"], "secret-leaked", format!("session {} op {}: the password appears outside its login", sid, k));
            }
        }
    }
}

/// C14: session `sid` of the concurrent run did exactly what it does alone.
/// What C14 compares of a session.
#[derive(Serialize, Deserialize)]
pub struct Alone {
    pub outlog: Vec<u8>,
    pub ops: Vec<String>,
}

pub fn alone(s: &Sess) -> Alone {
    let f = |o: &OpRec| format!("{:?} -> {:?} from {} us to {} us, {} bytes sent, {} consumed", o.kind, o.outcome, o.start_us, o.end_us, o.out_end, o.cons_end);
    Alone { outlog: s.outlog.clone(), ops: s.ops.iter().map(f).collect() }
}

pub fn compare_solo(sid: usize, both: &Alone, solo: &Alone, v: &mut Verdict) {
    v.hit("C14");
    if both.outlog != solo.outlog {
        let n = both.outlog.iter().zip(&solo.outlog).take_while(|(a, b)| a == b).count();
        v.bad(
            &["C14"],
            "bytes-differ",
            format!("session {}: among others it sends {} where alone it sends {} (at byte {})", sid, show(&both.outlog[n..]), show(&solo.outlog[n..]), n),
        );
        return;
    }
    let (a, b) = (&both.ops, &solo.ops);
    if a != b {
        let i = a.iter().zip(b).take_while(|(p, q)| p == q).count();
        v.bad(&["C14"], "outcome-differs", format!("session {}: op {}: among others {:?}, alone {:?}", sid, i, a.get(i), b.get(i)));
    }
}
