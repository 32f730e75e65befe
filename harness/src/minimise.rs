//! Greedy reduction of a failing scenario: keep any simplification under which the same property
//! is still violated in the same way.
use crate::scenario::*;
use std::time::Instant;

pub fn minimise(sc: &Scenario, secs: u64, mut fails: impl FnMut(&Scenario) -> bool) -> (Scenario, u64) {
    let t0 = Instant::now();
    let mut best = sc.clone();
    let mut tries = 0;
    loop {
        let mut progress = false;
        for change in candidates(&best) {
            if t0.elapsed().as_secs() >= secs {
                return (best, tries);
            }
            let mut cand = best.clone();
            change(&mut cand);
            if cand == best {
                continue;
            }
            tries += 1;
            if fails(&cand) {
                best = cand;
                progress = true;
                break;
            }
        }
        if !progress {
            return (best, tries);
        }
    }
}

fn plain_link() -> Link {
    Link {
        c2s_cap: 65536,
        s2c_cap: 65536,
        lat_min: 0,
        lat_jit: 0,
        seg_max: 1 << 40,
        wr_max: 1 << 40,
        rd_max: 1 << 40,
        wbuf: 0,
        wrap: 0,
        pend: 0,
        spurious: 0,
        sched_jit: 0,
    }
}

type Change = Box<dyn Fn(&mut Scenario)>;

/// Simplifications to try, coarse ones first.
fn candidates(s: &Scenario) -> Vec<Change> {
    let mut out: Vec<Change> = vec![];
    let mut add = |f: Change| out.push(f);
    if s.sessions.len() > 1 {
        for i in 0..s.sessions.len() {
            add(Box::new(move |c: &mut Scenario| {
                c.sessions.remove(i);
            }));
        }
    }
    add(Box::new(move |c: &mut Scenario| c.logging = false));
    for i in 0..s.sessions.len() {
        let p = &s.sessions[i];
        let n = p.ops.len();
        let mut many = n / 2;
        while many > 1 {
            for at in (0..n).step_by(many).rev() {
                let end = (at + many).min(n);
                add(Box::new(move |c: &mut Scenario| {
                    c.sessions[i].ops.drain(at..end);
                }));
            }
            many /= 2;
        }
        for j in (0..n).rev() {
            add(Box::new(move |c: &mut Scenario| {
                c.sessions[i].ops.remove(j);
            }));
        }
        for j in 0..p.faults.len() {
            add(Box::new(move |c: &mut Scenario| {
                c.sessions[i].faults.remove(j);
            }));
        }
        if p.server.rules.len() > 1 {
            let h = p.server.rules.len() / 2;
            add(Box::new(move |c: &mut Scenario| {
                c.sessions[i].server.rules.drain(..h);
            }));
            add(Box::new(move |c: &mut Scenario| c.sessions[i].server.rules.truncate(h)));
        }
        for j in 0..p.server.rules.len() {
            add(Box::new(move |c: &mut Scenario| {
                c.sessions[i].server.rules.remove(j);
            }));
        }
        for j in 0..p.ops.len() {
            let o = &p.ops[j];
            if o.cancel.is_some() {
                add(Box::new(move |c: &mut Scenario| c.sessions[i].ops[j].cancel = None));
            }
            add(Box::new(move |c: &mut Scenario| c.sessions[i].ops[j].think_us = 0));
            if let What::Send { from, to, body, source } = &o.what {
                for k in [to.len() / 2, to.len().saturating_sub(1), 1] {
                    if k >= 1 && k < to.len() {
                        add(Box::new(move |c: &mut Scenario| {
                            if let What::Send { to, .. } = &mut c.sessions[i].ops[j].what {
                                to.truncate(k);
                            }
                        }));
                    }
                }
                for k in 0..to.len().min(12) {
                    if to.len() > 1 {
                        add(Box::new(move |c: &mut Scenario| {
                            if let What::Send { to, .. } = &mut c.sessions[i].ops[j].what {
                                to.remove(k);
                            }
                        }));
                    }
                    if to[k].len() > 6 {
                        add(Box::new(move |c: &mut Scenario| {
                            if let What::Send { to, .. } = &mut c.sessions[i].ops[j].what {
                                to[k] = format!("r{}@x", k);
                            }
                        }));
                    }
                }
                if from.as_ref().map(|f| f != "s@x").unwrap_or(false) {
                    add(Box::new(move |c: &mut Scenario| {
                        if let What::Send { from, .. } = &mut c.sessions[i].ops[j].what {
                            *from = Some("s@x".into());
                        }
                    }));
                }
                if *source != Source::Bytes {
                    add(Box::new(move |c: &mut Scenario| {
                        if let What::Send { source, .. } = &mut c.sessions[i].ops[j].what {
                            *source = Source::Bytes;
                        }
                    }));
                }
                let n = body.len();
                let mut chunk = n;
                while chunk > 0 {
                    let mut at = 0;
                    let mut made = 0;
                    while at < n && made < 24 {
                        let end = (at + chunk).min(n);
                        add(Box::new(move |c: &mut Scenario| {
                            if let What::Send { body, .. } = &mut c.sessions[i].ops[j].what {
                                body.drain(at..end);
                            }
                        }));
                        at = end;
                        made += 1;
                    }
                    chunk /= 2;
                }
            }
            if let What::Login { .. } = &o.what {
                add(Box::new(move |c: &mut Scenario| {
                    if let What::Login { user, .. } = &mut c.sessions[i].ops[j].what {
                        *user = "u".into();
                    }
                }));
            }
        }
        add(Box::new(move |c: &mut Scenario| c.sessions[i].link = plain_link()));
        for f in 0..8 {
            add(Box::new(move |c: &mut Scenario| {
                let l = &mut c.sessions[i].link;
                let d = plain_link();
                match f {
                    0 => {
                        l.pend = 0;
                        l.spurious = 0;
                        l.sched_jit = 0;
                    }
                    1 => {
                        l.lat_min = 0;
                        l.lat_jit = 0;
                    }
                    2 => {
                        l.wbuf = 0;
                        l.wrap = 0;
                    }
                    3 => l.seg_max = d.seg_max,
                    4 => l.wr_max = d.wr_max,
                    5 => l.rd_max = d.rd_max,
                    6 => l.c2s_cap = l.c2s_cap.max(d.c2s_cap),
                    _ => l.s2c_cap = l.s2c_cap.max(d.s2c_cap),
                }
            }));
        }
        add(Box::new(move |c: &mut Scenario| {
            let v = &mut c.sessions[i].server;
            v.proc_min = 0;
            v.proc_jit = 0;
        }));
        add(Box::new(move |c: &mut Scenario| c.sessions[i].server.plain_texts = true));
        add(Box::new(move |c: &mut Scenario| c.sessions[i].server.batch = false));
        add(Box::new(move |c: &mut Scenario| c.sessions[i].server.hold_to_data = false));
        add(Box::new(move |c: &mut Scenario| c.sessions[i].connect_cancel = None));
        add(Box::new(move |c: &mut Scenario| c.sessions[i].start_us = 0));
        add(Box::new(move |c: &mut Scenario| c.sessions[i].client.hello = Hello::Default));
        add(Box::new(move |c: &mut Scenario| c.sessions[i].client.style = 0));
        for e in 0..p.server.ehlo.len() {
            for l in 0..p.server.ehlo[e].lines.len() {
                add(Box::new(move |c: &mut Scenario| {
                    c.sessions[i].server.ehlo[e].lines.remove(l);
                }));
            }
            add(Box::new(move |c: &mut Scenario| c.sessions[i].server.ehlo[e].name_line = "mx".into()));
        }
        for j in 0..p.server.challenges.len().min(12) {
            add(Box::new(move |c: &mut Scenario| {
                c.sessions[i].server.challenges.remove(j);
            }));
        }
        for j in 0..p.server.rules.len() {
            if let Act::Reply { lines, .. } = &p.server.rules[j].act {
                if lines.len() > 1 || lines.iter().any(|l| l.len() > 12) {
                    add(Box::new(move |c: &mut Scenario| {
                        if let Act::Reply { lines, .. } = &mut c.sessions[i].server.rules[j].act {
                            *lines = vec![format!("rule {}", j)];
                        }
                    }));
                }
            }
        }
    }
    out
}
