//! Deterministic simulation of async-smtp. See ../../DESIGN.md.
mod client;
mod gen;
mod minimise;
mod oracle;
mod procs;
mod rng;
mod scenario;
mod seams;
mod server;
mod stats;
mod stream;
mod world;

use crate::oracle::{Alone, Verdict, Viol};
use crate::procs::{forked, forked_for, pool, End, Shared, MAX_JOBS};
use crate::scenario::*;
use crate::stats::{outcome_name, Stats};
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::sync::atomic::Ordering;
use std::time::Instant;

/// Name of this build, see check.py.
const RUNTIME: &str = match (cfg!(feature = "rt-tokio"), cfg!(debug_assertions)) {
    (true, true) => "tokio",
    (true, false) => "tokio-plain",
    (false, true) => "async-std",
    (false, false) => "async-std-plain",
};
const HANG_SECS: u64 = 40;
/// Properties that promise an operation's end.
const HANG_PROPS: [&str; 6] = ["C05", "C06", "C10", "C12", "C16", "C17"];

struct Args(BTreeMap<String, String>, Vec<String>);
impl Args {
    fn get(&self, k: &str, d: &str) -> String {
        self.0.get(k).cloned().unwrap_or_else(|| d.to_string())
    }
    fn num(&self, k: &str, d: u64) -> u64 {
        self.0.get(k).and_then(|v| v.parse().ok()).unwrap_or(d)
    }
}

fn run_seed(seed: u64, prop: &str, ix: u64) -> u64 {
    let mut x = seed;
    for b in prop.bytes() {
        x = x.wrapping_mul(1_000_003).wrapping_add(b as u64);
    }
    x ^= ix.wrapping_mul(0x9E37_79B9_7F4A_7C15);
    rng::splitmix(&mut x)
}

/// Build the scenario of run `ix`, aiming faults with a fault-free rehearsal.
fn build(prop: &str, seed: u64) -> (Scenario, u64) {
    let mut d = gen::draft(prop, seed);
    let mut execs = 0;
    if d.wants_faults {
        let dry = client::execute(&d.sc, false);
        execs = 1;
        if !dry.spin {
            gen::place_faults(&mut d, &dry.world);
        }
    }
    (d.sc, execs)
}

/// A child that crashed takes this process with it.
fn or_die<T>(r: Result<T, i32>) -> T {
    match r {
        Ok(v) => v,
        Err(st) if libc::WIFSIGNALED(st) => unsafe {
            libc::raise(libc::SIGKILL);
            libc::_exit(70)
        },
        Err(_) => unsafe { libc::_exit(70) },
    }
}

/// Execute and judge, including the solo executions C14 needs. For C14 this process must not have
/// run the library before; each solo execution has a process of its own.
fn assess(prop: &str, sc: &Scenario, verbose: bool) -> (client::Run, Verdict) {
    let mut solos: Vec<Alone> = vec![];
    if prop == "C14" && sc.sessions.len() > 1 {
        for s in &sc.sessions {
            let solo = Scenario { seed: sc.seed, logging: sc.logging, sessions: vec![s.clone()] };
            let b = or_die(forked(|| {
                let r = client::execute(&solo, false);
                let a = r.world.ss.first().map(oracle::alone).unwrap_or(Alone { outlog: vec![], ops: vec![] });
                serde_json::to_vec(&a).unwrap()
            }));
            solos.push(serde_json::from_slice(&b).expect("solo"));
        }
    }
    let run = client::execute(sc, verbose);
    let mut v = oracle::judge(sc, &run);
    for (i, (s, b)) in run.world.ss.iter().zip(&solos).enumerate() {
        oracle::compare_solo(i, &oracle::alone(s), b, &mut v);
    }
    (run, v)
}

fn first_viol<'a>(v: &'a Verdict, prop: &str) -> Option<&'a Viol> {
    v.viols.iter().find(|x| concerns(x, prop))
}
fn concerns(x: &Viol, prop: &str) -> bool {
    prop == "ALL" || x.props.iter().any(|p| *p == prop)
}

fn sample(prop: &str, ix: u64, sc: &Scenario, r: &client::Run) -> Value {
    let ops: Vec<Value> = r
        .world
        .ss
        .iter()
        .flat_map(|s| {
            s.ops.iter().map(move |o| json!(format!("s{} {:?} -> {}", s.id, o.kind, outcome_name(&o.outcome))))
        })
        .collect();
    let text = serde_json::to_string(sc).unwrap_or_default();
    json!({
        "run": ix, "property": prop, "runtime": RUNTIME, "operations": ops,
        "faults": r.world.counters, "simulated_us": r.world.now, "events": r.world.events,
        "trace_hash": format!("{:016x}", r.world.trace),
        "scenario": if text.len() < 3000 { serde_json::to_value(sc).unwrap_or(Value::Null) } else { json!(format!("{} bytes of JSON", text.len())) },
    })
}

/// Everything a worker does for one run: build, execute, judge, now and then execute again.
fn one(prop: &str, seed: u64, ix: u64, redo_every: u64, st: &mut Stats) -> (Scenario, Verdict) {
    let (sc, extra) = build(prop, run_seed(seed, prop, ix));
    let (r, v) = assess(prop, &sc, false);
    finish(prop, ix, redo_every, st, &sc, &r, &v, extra);
    (sc, v)
}

#[allow(clippy::too_many_arguments)]
fn finish(prop: &str, ix: u64, redo_every: u64, st: &mut Stats, sc: &Scenario, r: &client::Run, v: &Verdict, extra: u64) {
    st.execs += 1 + extra + if prop == "C14" { sc.sessions.len() as u64 } else { 0 };
    st.add(prop, r, v);
    if ix % redo_every == 0 {
        st.redone += 1;
        st.execs += 1;
        let again = client::execute(sc, false);
        if again.world.trace != r.world.trace || again.world.shape != r.world.shape {
            st.nondet += 1;
        }
    }
    if st.samples.len() < 2 && v.hit.contains_key(prop) && ix > 10 {
        st.samples.push(sample(prop, ix, sc, r));
    }
}

/// `one` for C14: no execution sees a process another one ran in.
fn one_isolated(prop: &str, seed: u64, ix: u64, redo_every: u64, st: &mut Stats) -> (Scenario, Option<Viol>) {
    let b = or_die(forked(|| serde_json::to_vec(&build(prop, run_seed(seed, prop, ix))).unwrap()));
    let (sc, extra): (Scenario, u64) = serde_json::from_slice(&b).expect("scenario");
    let want_sample = st.samples.len() < 2;
    let b = or_die(forked(|| {
        let mut st = Stats::default();
        let (r, v) = assess(prop, &sc, false);
        finish(prop, ix, redo_every, &mut st, &sc, &r, &v, extra);
        if !want_sample {
            st.samples.clear();
        }
        serde_json::to_vec(&(st, first_viol(&v, prop))).unwrap()
    }));
    let (s, v): (Stats, Option<Viol>) = serde_json::from_slice(&b).expect("result");
    st.merge(s);
    (sc, v)
}

struct Search {
    prop: String,
    seed: u64,
    runs: u64,
    secs: u64,
    jobs: usize,
    redo: u64,
    /// Runs that hang or crash, for properties that say nothing about that.
    skip: Vec<u64>,
}

fn worker(c: &Search, j: usize, sh: &Shared) -> Vec<u8> {
    let t0 = Instant::now();
    let mut st = Stats::default();
    let mut found: Option<(u64, Scenario, Viol)> = None;
    let mut ix = j as u64;
    while ix < c.runs && ix < sh.found.load(Ordering::SeqCst) && t0.elapsed().as_secs() < c.secs {
        if c.skip.contains(&ix) {
            ix += c.jobs as u64;
            continue;
        }
        sh.at[j].store(ix + 1, Ordering::SeqCst);
        let (sc, viol) = if c.prop == "C14" {
            one_isolated(&c.prop, c.seed, ix, c.redo, &mut st)
        } else {
            let (sc, v) = one(&c.prop, c.seed, ix, c.redo, &mut st);
            let x = first_viol(&v, &c.prop).cloned();
            (sc, x)
        };
        if let Some(x) = viol {
            sh.found.fetch_min(ix, Ordering::SeqCst);
            found = Some((ix, sc, x));
            break;
        }
        ix += c.jobs as u64;
    }
    sh.at[j].store(0, Ordering::SeqCst);
    serde_json::to_vec(&(st, found)).unwrap()
}

/// In a clean process: does the scenario violate the property in that way?
fn fails_clean(prop: &str, sc: &Scenario, tag: &str) -> bool {
    let r = forked_for(HANG_SECS, || {
        let (_, v) = assess(prop, sc, false);
        vec![v.viols.iter().any(|x| x.tag == tag && concerns(x, prop)) as u8]
    });
    matches!(r, Some(Ok(b)) if b == [1])
}

/// The runs that the worker of that run executes before it.
fn earlier(c: &Search, ix: u64) -> Vec<u64> {
    let n = c.jobs as u64;
    (0..ix / n).map(|k| ix % n + k * n).filter(|ix| !c.skip.contains(ix)).collect()
}

/// Does that run hang or crash after these other runs? Being killed from outside is neither.
fn lost_again(c: &Search, before: &[u64], ix: u64) -> Option<&'static str> {
    let mut ends = pool(1, HANG_SECS, true, &mut |j, sh| {
        let mut st = Stats::default();
        for h in before {
            sh.at[j].store(h + 1, Ordering::SeqCst);
            one(&c.prop, c.seed, *h, c.redo, &mut st);
        }
        sh.at[j].store(ix + 1, Ordering::SeqCst);
        let (sc, _) = build(&c.prop, run_seed(c.seed, &c.prop, ix));
        assess(&c.prop, &sc, false);
        vec![]
    });
    match ends.pop() {
        Some(End::Hung(at)) if at == ix => Some("hang"),
        Some(End::Died(at, s)) if at == ix && libc::WIFSIGNALED(s) && libc::WTERMSIG(s) != libc::SIGKILL => Some("crash"),
        _ => None,
    }
}

/// What becomes of a lost run when it is repeated, and the earlier runs needed for that.
fn confirm(c: &Search, ix: u64) -> Option<(&'static str, Vec<u64>)> {
    if let Some(what) = lost_again(c, &[], ix) {
        return Some((what, vec![]));
    }
    let all = if c.prop == "C14" { vec![] } else { earlier(c, ix) };
    let mut n = 1;
    while n < all.len() * 4 {
        let l = all[all.len().saturating_sub(n)..].to_vec();
        if let Some(what) = lost_again(c, &l, ix) {
            return Some((what, l));
        }
        n *= 4;
    }
    None
}

/// Runs executed before the failing one in the same process.
struct History<'a> {
    c: &'a Search,
    ix: u64,
    tag: &'a str,
}

impl History<'_> {
    fn fails(&self, before: &[u64]) -> bool {
        let (c, tag) = (self.c, self.tag);
        let r = forked_for(300, || {
            let mut st = Stats::default();
            for h in before {
                one(&c.prop, c.seed, *h, c.redo, &mut st);
            }
            let (_, v) = one(&c.prop, c.seed, self.ix, c.redo, &mut st);
            vec![v.viols.iter().any(|x| x.tag == tag && concerns(x, &c.prop)) as u8]
        });
        matches!(r, Some(Ok(b)) if b == [1])
    }
    /// A short list of earlier runs of the same worker after which the run fails.
    fn find(&self) -> Option<Vec<u64>> {
        let all = earlier(self.c, self.ix);
        let mut n = 1;
        let mut list = loop {
            let l = all[all.len().saturating_sub(n)..].to_vec();
            if self.fails(&l) {
                break l;
            }
            if n >= all.len() {
                return None;
            }
            n *= 4;
        };
        let t0 = Instant::now();
        let mut chunk = list.len().div_ceil(2);
        while chunk > 0 && t0.elapsed().as_secs() < 40 {
            let mut at = 0;
            while at < list.len() && t0.elapsed().as_secs() < 40 {
                let mut l = list.clone();
                l.drain(at..(at + chunk).min(l.len()));
                if self.fails(&l) {
                    list = l;
                } else {
                    at += chunk;
                }
            }
            chunk /= 2;
        }
        Some(list)
    }
}

fn replay_value(c: &Search, ix: u64, sc: &Scenario, viol: &Viol, r: Option<&client::Run>) -> Value {
    json!({
        "property": c.prop,
        "runtime": RUNTIME,
        "violation": viol.msg,
        "tag": viol.tag,
        "verif_seed": c.seed,
        "run": ix,
        "run_seed": run_seed(c.seed, &c.prop, ix),
        "trace_hash": r.map(|r| format!("{:016x}", r.world.trace)),
        "scenario": sc,
        "schedule": r.and_then(|r| r.world.verbose.clone()),
    })
}

fn save(path: &str, v: &Value) {
    std::fs::write(path, serde_json::to_string_pretty(v).unwrap()).expect("write replay");
}

/// Reduce the failure and write its replay file.
fn report(c: &Search, path: &str, ix: u64, sc: &Scenario, viol: &Viol, reduce: bool) -> Value {
    let prop = &c.prop;
    if fails_clean(prop, sc, &viol.tag) {
        let stop = Instant::now();
        let (min, tries) = if reduce {
            minimise::minimise(sc, 20, |s| stop.elapsed().as_secs() <= 25 && fails_clean(prop, s, &viol.tag))
        } else {
            (sc.clone(), 0)
        };
        let original = serde_json::to_string(sc).map(|s| s.len()).unwrap_or(0);
        let b = forked(|| {
            let (run, v) = assess(prop, &min, true);
            let x = v.viols.iter().find(|x| x.tag == viol.tag && concerns(x, prop)).unwrap_or(viol);
            let mut val = replay_value(c, ix, &min, x, Some(&run));
            val["minimiser_executions"] = json!(tries);
            val["original_scenario_bytes"] = json!(original);
            serde_json::to_vec(&val).unwrap()
        });
        if let Ok(b) = b {
            let val: Value = serde_json::from_slice(&b).expect("replay");
            save(path, &val);
            return val;
        }
    } else if prop != "C14" {
        // Something outlives a run in this process.
        let h = History { c, ix, tag: &viol.tag };
        if let Some(before) = h.find() {
            let b = forked(|| {
                let mut st = Stats::default();
                for k in &before {
                    one(prop, c.seed, *k, c.redo, &mut st);
                }
                let (sc, _) = build(prop, run_seed(c.seed, prop, ix));
                let (run, v) = assess(prop, &sc, true);
                let x = first_viol(&v, prop).unwrap_or(viol);
                let mut val = replay_value(c, ix, &sc, x, Some(&run));
                val["earlier_runs_in_the_same_process"] = json!(before);
                val["redo_every"] = json!(c.redo);
                serde_json::to_vec(&val).unwrap()
            });
            if let Ok(b) = b {
                let val: Value = serde_json::from_slice(&b).expect("replay");
                save(path, &val);
                return val;
            }
        }
    }
    let mut val = replay_value(c, ix, sc, viol, None);
    val["note"] = json!("this failure did not come back when the run was repeated");
    save(path, &val);
    val
}

fn run(a: &Args) -> i32 {
    let mut c = Search {
        prop: a.get("prop", "C01"),
        seed: a.num("seed", 1),
        runs: a.num("runs", 2000),
        secs: a.num("secs", 60),
        jobs: (a.num("jobs", 8).max(1) as usize).min(MAX_JOBS),
        redo: a.num("redo", 50).max(1),
        skip: vec![],
    };
    let out = a.get("out", "/tmp");
    let t0 = Instant::now();
    let (mut st, mut found, mut lost, mut broken);
    let mut confirmed = None;
    let mut restarts = 0;
    loop {
        st = Stats::default();
        found = None::<(u64, Scenario, Viol)>;
        lost = None::<(u64, &str)>;
        broken = false;
        let ends = pool(c.jobs, HANG_SECS, false, &mut |j, sh| worker(&c, j, sh));
        for e in ends {
            match e {
                End::Done(b) => {
                    let (s, f): (Stats, Option<(u64, Scenario, Viol)>) = match serde_json::from_slice(&b) {
                        Ok(x) => x,
                        Err(_) => {
                            broken = true;
                            continue;
                        }
                    };
                    st.merge(s);
                    if let Some(f) = f {
                        if found.as_ref().map(|(i, _, _)| f.0 < *i).unwrap_or(true) {
                            found = Some(f);
                        }
                    }
                }
                End::Died(ix, s) if libc::WIFSIGNALED(s) => lost = Some((ix, "crash")),
                End::Died(..) => broken = true,
                End::Hung(ix) => lost = Some((ix, "hang")),
                End::Killed => {}
            }
        }
        if found.is_some() || broken {
            break;
        }
        if let Some((ix, _)) = lost {
            if !HANG_PROPS.contains(&c.prop.as_str()) && t0.elapsed().as_secs() < 100 {
                // Another run may still violate this property.
                c.skip.push(ix);
                continue;
            }
        } else {
            lost = c.skip.first().map(|ix| (*ix, "hang or crash"));
        }
        let Some((ix, _)) = lost else { break };
        confirmed = confirm(&c, ix);
        if confirmed.is_some() || restarts == 2 {
            break;
        }
        // Something else stopped that worker, say a machine short of memory.
        restarts += 1;
        c.skip.clear();
    }
    let search_s = t0.elapsed().as_secs_f64();
    st.samples.truncate(4);
    let mut result = json!({
        "runtime": RUNTIME, "property": c.prop, "seed": c.seed, "runs": st.runs, "executions": st.execs,
        "search_s": search_s, "sim_us": st.sim_us, "events": st.events, "operations": st.ops,
        "sessions": st.sessions, "bytes": st.bytes, "hits": st.hits, "outcomes": st.outcomes,
        "faults": st.faults, "fault_free_runs": st.fault_free, "distinct_shapes": st.shapes.len(),
        "nontrivial_runs": st.nontrivial_runs, "distinct_nontrivial": st.nontrivial.len(),
        "reexecuted": st.redone, "reexecuted_differently": st.nondet,
        "clock_reads": st.clock_reads, "random_reads": st.random_reads,
        "samples": st.samples, "digest": format!("{:016x}", st.hash),
    });
    let path = format!("{}/{}-{}.json", out, c.prop, RUNTIME);
    let mut code = 0;
    if broken {
        eprintln!("the simulator itself failed");
        code = 3;
    } else if let Some((ix, sc, viol)) = found {
        let val = report(&c, &path, ix, &sc, &viol, a.get("minimise", "1") == "1");
        result["violation"] = json!({"run": ix, "tag": val["tag"], "msg": val["violation"], "replay": path});
        code = 1;
    } else if let (Some((ix, what)), None) = (lost, &confirmed) {
        eprintln!("{} in run {}, but not when it is repeated", what, ix);
        code = 3;
    } else if let (Some((ix, _)), Some((what, before))) = (lost, confirmed) {
        if HANG_PROPS.contains(&c.prop.as_str()) {
            let msg = match what {
                "hang" => format!("one poll of the client does not return within {} s of wall-clock time", HANG_SECS),
                _ => "the client crashes the process".to_string(),
            };
            // Building the scenario may crash or hang as well, so the file names its seed.
            let val = json!({
                "property": c.prop, "runtime": RUNTIME, "violation": msg, "tag": what, "verif_seed": c.seed,
                "run": ix, "run_seed": run_seed(c.seed, &c.prop, ix), "lost": what,
                "redo_every": c.redo, "earlier_runs_in_the_same_process": before,
            });
            save(&path, &val);
            result["violation"] = json!({"run": ix, "tag": what, "msg": msg, "replay": path});
            code = 1;
        } else {
            eprintln!("{} in run {} of {}, which says nothing about that", what, ix, c.prop);
            code = 3;
        }
    }
    println!("{}", result);
    code
}

/// 1: reproduced exactly, 0: holds, 2: a different execution or unreadable file.
fn replay(a: &Args) -> i32 {
    let text = match std::fs::read_to_string(&a.1[0]) {
        Ok(t) => t,
        Err(e) => {
            eprintln!("{}", e);
            return 2;
        }
    };
    let v: Value = serde_json::from_str(&text).expect("json");
    let prop = v["property"].as_str().unwrap_or("C01").to_string();
    if v["runtime"].as_str() != Some(RUNTIME) {
        eprintln!("this file was recorded under {}", v["runtime"]);
        return 2;
    }
    let rs = v["run_seed"].as_u64().unwrap_or(0);
    if let Some(what) = v["lost"].as_str() {
        let before: Vec<u64> = v["earlier_runs_in_the_same_process"].as_array().map(|l| l.iter().filter_map(|k| k.as_u64()).collect()).unwrap_or_default();
        let c = Search {
            prop: prop.clone(),
            seed: v["verif_seed"].as_u64().unwrap_or(1),
            runs: 0,
            secs: 0,
            jobs: 1,
            redo: v["redo_every"].as_u64().unwrap_or(50),
            skip: vec![],
        };
        let now = lost_again(&c, &before, v["run"].as_u64().unwrap_or(0)).unwrap_or("");
        println!("{}: {}", v["violation"], if now == what { "reproduced" } else { "not reproduced" });
        return if now == what { 1 } else { 0 };
    }
    let mut sc: Scenario = serde_json::from_value(v["scenario"].clone()).expect("scenario");
    if let Some(before) = v["earlier_runs_in_the_same_process"].as_array() {
        let mut st = Stats::default();
        for k in before {
            one(&prop, v["verif_seed"].as_u64().unwrap_or(1), k.as_u64().unwrap_or(0), v["redo_every"].as_u64().unwrap_or(50), &mut st);
        }
        let again = build(&prop, rs).0;
        if again != sc {
            println!("the scenario is built differently");
            sc = again;
        }
    }
    let (r, verdict) = assess(&prop, &sc, true);
    if !a.0.contains_key("quiet") {
        for l in r.world.verbose.iter().flatten() {
            println!("{}", l);
        }
    }
    let hash = format!("{:016x}", r.world.trace);
    let same = Some(hash.as_str()) == v["trace_hash"].as_str();
    println!("trace {} ({})", hash, if same { "identical to the recorded one" } else { "DIFFERS from the recorded one" });
    match verdict.viols.iter().find(|x| concerns(x, &prop) && Some(x.tag.as_str()) == v["tag"].as_str()).or(first_viol(&verdict, &prop)) {
        Some(x) => {
            println!("violated: {} [{}]", x.msg, x.tag);
            if same && Some(x.tag.as_str()) == v["tag"].as_str() {
                1
            } else {
                2
            }
        }
        None => {
            println!("property {} holds in this run", prop);
            0
        }
    }
}

type Kinds = Vec<((String, String), (u64, u64, String))>;

/// Print every kind of violation found, with the first run showing it (for development).
fn survey(a: &Args) -> i32 {
    let prop = a.get("prop", "ALL");
    let runs = a.num("runs", 2000);
    let seed = a.num("seed", 1);
    let jobs = a.num("jobs", 8) as usize;
    let ends = pool(jobs, HANG_SECS, false, &mut |j, sh| {
        let mut all: BTreeMap<(String, String), (u64, u64, String)> = BTreeMap::new();
        let mut st = Stats::default();
        let mut ix = j as u64;
        while ix < runs {
            sh.at[j].store(ix + 1, Ordering::SeqCst);
            let viols: Vec<Viol> = if prop == "C14" {
                one_isolated(&prop, seed, ix, 1000, &mut st).1.into_iter().collect()
            } else {
                let (sc, _) = build(&prop, run_seed(seed, &prop, ix));
                assess(&prop, &sc, false).1.viols
            };
            for x in viols {
                let e = all.entry((x.tag.clone(), x.props.join(","))).or_insert((0, ix, x.msg.clone()));
                e.0 += 1;
            }
            ix += jobs as u64;
        }
        sh.at[j].store(0, Ordering::SeqCst);
        serde_json::to_vec(&all.into_iter().collect::<Kinds>()).unwrap()
    });
    let mut all: BTreeMap<(String, String), (u64, u64, String)> = BTreeMap::new();
    for e in ends {
        match e {
            End::Done(b) => {
                let k: Kinds = serde_json::from_slice(&b).unwrap();
                for (k, x) in k {
                    let e = all.entry(k).or_insert((0, u64::MAX, String::new()));
                    e.0 += x.0;
                    if x.1 < e.1 {
                        e.1 = x.1;
                        e.2 = x.2;
                    }
                }
            }
            End::Died(ix, st) => println!("worker died in run {} with status {}", ix, st),
            End::Hung(ix) => println!("worker hung in run {}", ix),
            End::Killed => {}
        }
    }
    for ((tag, props), (n, ix, msg)) in all.iter() {
        println!("{:>6} x {} [{}] first run {}: {}", n, tag, props, ix, msg);
    }
    0
}

/// Write the scenario of one run as a replay file (for development).
fn dump(a: &Args) -> i32 {
    let prop = a.get("prop", "ALL");
    let b = forked(|| serde_json::to_vec(&build(&prop, run_seed(a.num("seed", 1), &prop, a.num("run", 0))).0).unwrap());
    let sc: Scenario = serde_json::from_slice(&b.expect("build")).unwrap();
    let tag = a.get("tag", "");
    let sc = if tag.is_empty() { sc } else { minimise::minimise(&sc, 20, |c| fails_clean(&prop, c, &tag)).0 };
    let (r, v) = assess(&prop, &sc, true);
    println!("{}", serde_json::to_string_pretty(&sc).unwrap());
    for l in r.world.verbose.iter().flatten() {
        println!("{}", l);
    }
    for x in v.viols {
        println!("VIOL {:?} {} {}", x.props, x.tag, x.msg);
    }
    0
}

fn main() {
    static SINK: client::Sink = client::Sink;
    let _ = log::set_logger(&SINK);
    log::set_max_level(log::LevelFilter::Trace);
    std::panic::set_hook(Box::new(|_| {}));
    let mut it = std::env::args().skip(1);
    let cmd = it.next().unwrap_or_default();
    let (mut m, mut rest) = (BTreeMap::new(), vec![]);
    while let Some(x) = it.next() {
        match x.strip_prefix("--") {
            Some("quiet") => {
                m.insert("quiet".to_string(), "1".to_string());
            }
            Some(k) => {
                m.insert(k.to_string(), it.next().unwrap_or_default());
            }
            None => rest.push(x),
        }
    }
    let a = Args(m, rest);
    let code = match cmd.as_str() {
        "run" => run(&a),
        "replay" => replay(&a),
        "survey" => survey(&a),
        "dump" => dump(&a),
        _ => {
            eprintln!("usage: smtp-sim run|replay|survey|dump");
            3
        }
    };
    std::process::exit(code);
}
