//! The search: many seeded runs per property over several worker processes, minimisation of what
//! fails, replay files and evidence.
use crate::gen::{self, Vary};
use crate::judge::*;
use crate::plan::*;
use crate::rng::*;
use crate::rt::*;
use crate::run::*;
use crate::sys::real_now_ns;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::path::{Path, PathBuf};

fn secs() -> f64 {
    real_now_ns() as f64 / 1e9
}
pub fn verif() -> PathBuf {
    std::env::var_os("VERIF_DIR").map(PathBuf::from).unwrap_or_else(|| PathBuf::from("/verif"))
}

// ---------------------------------------------------------------- faults

/// How interesting faults are while an operation runs.
fn weight(prop: &str, k: Option<&K>) -> f64 {
    let Some(k) = k else { return if matches!(prop, "P06" | "P07" | "P22") { 1.0 } else { 0.25 } };
    match (prop, k) {
        ("P01", K::Score { .. } | K::RecScores(_) | K::Study { .. }) => 1.0,
        ("P02", K::BlAdd(_) | K::BlDel(_) | K::BlDelPrefix(_)) => 1.0,
        ("P03", K::RlAdd(_) | K::RlDel(_)) => 1.0,
        ("P04", K::TrimScores(_) | K::TrimDeltas(_) | K::TrimRewards(_) | K::DelScores(_) | K::DelDeltas(_) | K::DelRewards(_)) => 1.0,
        ("P05", K::RecRewards(_)) => 1.0,
        ("P07", K::SetPrefs { .. }) => 1.5,
        ("P25", K::Build { .. }) => 1.0,
        ("P08", K::Coherence) => 0.0,
        ("P08", _) => 0.7,
        (_, K::Dump | K::LibDump) => 0.03,
        _ => 0.3,
    }
}
pub struct Sites {
    /// Per operation that may fail: its weight and its I/O calls by kind.
    ops: Vec<(u32, u32, f64, BTreeMap<(u8, u8), Vec<u32>>)>,
    total: f64,
}
pub fn sites(case: &Case, outs: &[Out]) -> Sites {
    let mut ops = vec![];
    let mut total = 0.0;
    for (s, o) in case.plan.sessions.iter().zip(outs) {
        if !s.faulty {
            continue;
        }
        let ks: HashMap<u32, &K> = s.ops().map(|o| (o.id, &o.k)).collect();
        let mut by: BTreeMap<u32, (u32, BTreeMap<(u8, u8), Vec<u32>>)> = BTreeMap::new();
        for r in &o.io {
            if r.op >= crate::exec::OBS {
                continue;
            }
            let e = by.entry(r.op).or_default();
            e.1.entry((r.io, r.class)).or_default().push(e.0);
            e.0 += 1;
        }
        for (op, (_, kinds)) in by {
            let w = weight(&case.plan.prop, ks.get(&op).copied());
            if w > 0.0 {
                total += w;
                ops.push((s.id, op, w, kinds));
            }
        }
    }
    Sites { ops, total }
}
pub fn pick_faults(g: &mut Rng, st: &Sites) -> Vec<Fault> {
    let mut v = vec![];
    if st.ops.is_empty() {
        return v;
    }
    let n = if g.chance(0.3) { 2 } else { 1 };
    for _ in 0..n {
        let mut x = g.f() * st.total;
        let mut o = &st.ops[0];
        for c in &st.ops {
            o = c;
            x -= c.2;
            if x <= 0.0 {
                break;
            }
        }
        let mode = g.below(10);
        let pool: &[FaultKind] = match mode {
            0..=3 => &CRASHES,
            4 => &[FaultKind::Eintr, FaultKind::Short],
            _ => &ERRS,
        };
        for _ in 0..20 {
            let kind = *g.pick(pool);
            let fits: Vec<(&(u8, u8), &Vec<u32>)> = o.3.iter().filter(|(k, _)| kind.applies(IOS[k.0 as usize])).collect();
            if fits.is_empty() {
                continue;
            }
            let io = if g.chance(0.5) {
                // Any call, or any call of a kind of calls.
                let all: Vec<u32> = fits.iter().flat_map(|f| f.1.iter().copied()).collect();
                *g.pick(&all)
            } else {
                *g.pick(g.clone().pick(&fits).1)
            };
            let span = if kind.is_crash() || g.chance(0.7) { 0 } else { *g.pick(&[1, 2, 5, 20, 500]) };
            v.push(Fault { session: o.0, op: o.1, io, kind, span });
            break;
        }
    }
    v
}

/// A few hand-overs between the threads of a parallel phase, each within a random operation.
fn preemptions(g: &mut Rng, plan: &Plan, outs: &[Out]) -> Vec<Switch> {
    let mut v = vec![];
    for (s, o) in plan.sessions.iter().zip(outs) {
        for p in s.phases.iter().filter(|p| p.threads.len() > 1) {
            let ids: HashMap<u32, &K> = p.threads.iter().flatten().map(|o| (o.id, &o.k)).collect();
            let pts: Vec<Pt> = o.pts.iter().filter(|x| ids.contains_key(&x.op)).copied().collect();
            let tids: Vec<u8> = pts.iter().map(|x| x.tid).collect::<BTreeSet<_>>().into_iter().collect();
            if tids.is_empty() {
                continue;
            }
            // The last thread ran alone and has no decision points of its own.
            let all: Vec<u8> = tids.iter().copied().chain([tids[tids.len() - 1] + 1]).collect();
            let app: Vec<Pt> = pts.iter().filter(|x| x.app).copied().collect();
            let writes: Vec<Pt> = app.iter().filter(|x| matches!(ids[&x.op], K::Score { .. })).copied().collect();
            for _ in 0..1 + g.below(4) {
                let from = match g.below(4) {
                    0 if !pts.is_empty() => &pts,
                    1 if !app.is_empty() => &app,
                    _ if !writes.is_empty() => &writes,
                    _ => &pts,
                };
                let x = *g.pick(from);
                let to = *g.pick(&all);
                if to != x.tid {
                    v.push(Switch { session: s.id, tid: x.tid, op: x.op, at: x.at, to });
                }
            }
        }
    }
    v
}

// ---------------------------------------------------------------- known findings

#[derive(Clone, Debug)]
pub struct Known {
    pub prop: String,
    pub text: String,
    pub needle: String,
}
/// Lines `finding: property=<id> match="<text in the message>" <description>`.
pub fn known(prop: &str) -> Vec<Known> {
    let t = std::fs::read_to_string(verif().join("known-findings.txt")).unwrap_or_default();
    t.lines()
        .filter_map(|l| {
            let r = l.strip_prefix("finding: property=")?;
            let (p, r) = r.split_once(' ')?;
            let r = r.strip_prefix("match=\"")?;
            let (n, d) = r.split_once('"')?;
            if p == prop { Some(Known { prop: p.into(), text: d.trim().into(), needle: n.into() }) } else { None }
        })
        .collect()
}

// ---------------------------------------------------------------- minimisation

fn fails(h: &mut Host, c: &Case, kn: &[Known], runs: &mut u64) -> Option<Viol> {
    *runs += 1;
    let r = reference(h, c);
    let outs = h.run(c);
    let (v, _) = judge(c, &outs, r.as_ref());
    v.into_iter().find(|v| !kn.iter().any(|k| v.msg.contains(&k.needle)))
}
/// The library as a run of the plan without faults opens it; only properties comparing with it need it.
fn reference(h: &mut Host, c: &Case) -> Option<Value> {
    if !matches!(c.plan.prop.as_str(), "P06" | "P22") || c.faults.is_empty() {
        return None;
    }
    lib_of(&h.run(&Case { plan: c.plan.clone(), faults: vec![], switches: None }))
}
fn shrink<T: Clone>(v: &[T], mut test: impl FnMut(&[T]) -> bool) -> Vec<T> {
    let mut cur = v.to_vec();
    let mut chunk = (cur.len() + 1) / 2;
    while chunk > 0 && !cur.is_empty() {
        let mut i = 0;
        let mut any = false;
        while i < cur.len() {
            let mut next = cur[..i].to_vec();
            next.extend_from_slice(&cur[(i + chunk).min(cur.len())..]);
            if test(&next) {
                cur = next;
                any = true;
            } else {
                i += chunk;
            }
        }
        if chunk == 1 && !any {
            break;
        }
        chunk = if chunk == 1 { 1 } else { chunk / 2 };
    }
    cur
}
pub fn minimise(h: &mut Host, case: &Case, kn: &[Known], budget: f64) -> (Case, Viol, u64) {
    let t0 = secs();
    let mut runs = 0;
    let mut best = case.clone();
    let Some(mut viol) = fails(h, &best, kn, &mut runs) else {
        return (best, Viol { session: 0, op: 0, msg: "(not reproduced)".into() }, runs);
    };
    macro_rules! attempt {
        ($c:expr) => {{
            let c: Case = $c;
            if secs() - t0 > budget {
                false
            } else if let Some(v) = fails(h, &c, kn, &mut runs) {
                best = c;
                viol = v;
                true
            } else {
                false
            }
        }};
    }
    for _ in 0..2 {
        // Faults.
        let f = best.faults.clone();
        shrink(&f, |x| {
            let mut c = best.clone();
            c.faults = x.to_vec();
            attempt!(c)
        });
        for i in 0..best.faults.len() {
            let mut c = best.clone();
            if c.faults[i].span > 0 {
                c.faults[i].span = 0;
                attempt!(c);
            }
        }
        // Sessions, but the last.
        let mut i = 0;
        while i + 1 < best.plan.sessions.len() {
            let mut c = best.clone();
            let s = c.plan.sessions.remove(i);
            c.faults.retain(|f| f.session != s.id);
            if !attempt!(c) {
                i += 1;
            }
        }
        // Operations.
        for si in 0..best.plan.sessions.len() {
            for pi in 0..best.plan.sessions[si].phases.len() {
                for ti in 0..best.plan.sessions[si].phases[pi].threads.len() {
                    let ops = best.plan.sessions[si].phases[pi].threads[ti].clone();
                    shrink(&ops, |x| {
                        let mut c = best.clone();
                        c.plan.sessions[si].phases[pi].threads[ti] = x.to_vec();
                        attempt!(c)
                    });
                }
            }
        }
        // Records within an operation.
        let ids: Vec<(usize, usize, usize, usize)> = best.plan.sessions.iter().enumerate().flat_map(|(s, x)| x.phases.iter().enumerate().flat_map(move |(p, y)| y.threads.iter().enumerate().flat_map(move |(t, z)| (0..z.len()).map(move |o| (s, p, t, o))))).collect();
        for (s, p, t, o) in ids {
            match best.plan.sessions[s].phases[p].threads[t][o].k.clone() {
                K::RecScores(v) => {
                    shrink(&v, |x| {
                        let mut c = best.clone();
                        c.plan.sessions[s].phases[p].threads[t][o].k = K::RecScores(x.to_vec());
                        attempt!(c)
                    });
                }
                K::RecDeltas(v) => {
                    shrink(&v, |x| {
                        let mut c = best.clone();
                        c.plan.sessions[s].phases[p].threads[t][o].k = K::RecDeltas(x.to_vec());
                        attempt!(c)
                    });
                }
                K::RecRewards(v) => {
                    shrink(&v, |x| {
                        let mut c = best.clone();
                        c.plan.sessions[s].phases[p].threads[t][o].k = K::RecRewards(x.to_vec());
                        attempt!(c)
                    });
                }
                _ => {}
            }
        }
        if let Some(sw) = best.switches.clone() {
            shrink(&sw, |x| {
                let mut c = best.clone();
                c.switches = Some(x.to_vec());
                attempt!(c)
            });
        }
        if secs() - t0 > budget {
            break;
        }
    }
    (best, viol, runs)
}

// ---------------------------------------------------------------- replay files

#[derive(Serialize, Deserialize)]
pub struct Replay {
    pub property: String,
    pub seed: u64,
    pub variant: u64,
    pub message: String,
    pub session: u32,
    pub op: u32,
    pub digest: String,
    pub case: Case,
    /// What happened, for the reader: the calls, returns and faults of the minimised run.
    pub trace: Vec<String>,
}
fn trace(outs: &[Out]) -> Vec<String> {
    let mut v = vec![];
    for o in outs {
        v.push(format!("--- session {}: {:?}", o.id, o.end));
        for l in o.text.lines().take(400) {
            v.push(l.chars().take(400).collect());
        }
    }
    v
}

// ---------------------------------------------------------------- workers

#[derive(Default, Serialize, Deserialize)]
struct Res {
    seeds: u64,
    runs: u64,
    sessions: u64,
    sim_s: f64,
    steps: u64,
    yields: u64,
    ios: u64,
    evals: u64,
    batches: u64,
    presented: u64,
    probes: u64,
    rewards: u64,
    crashes: u64,
    calls: u64,
    errors: u64,
    inconclusive: u64,
    harness: u64,
    faults: BTreeMap<String, u64>,
    sched: BTreeSet<u64>,
    nontrivial: BTreeSet<u64>,
    histories: BTreeSet<u64>,
    checked: u64,
    mismatches: u64,
    samples: Vec<Value>,
    known: BTreeMap<String, u64>,
    violation: Option<(u64, String, String)>,
    fault_runs: u64,
}

struct Worker<'a> {
    prop: &'a str,
    h: Host,
    res: Res,
    kn: Vec<Known>,
    out: PathBuf,
}
impl Worker<'_> {
    fn one(&mut self, case: &Case, seed: u64, variant: u64, reference: Option<&Value>) -> (Vec<Out>, bool) {
        let mut outs = self.h.run(case);
        self.res.runs += 1;
        let (mut v, mut st) = judge(case, &outs, reference);
        // A machine too busy to run a session in time says nothing about the code.
        if outs.iter().any(|o| matches!(o.end, End::Harness(_))) {
            outs = self.h.run(case);
            (v, st) = judge(case, &outs, reference);
        }
        let r = &mut self.res;
        r.evals += st.evals;
        r.batches += st.batches;
        r.presented += st.presented;
        r.probes += st.probes;
        r.rewards += st.rewards;
        r.crashes += st.crashes;
        r.calls += st.calls;
        r.errors += st.errors;
        r.inconclusive += st.inconclusive;
        r.fault_runs += !st.faults.is_empty() as u64;
        for (k, n) in &st.faults {
            *r.faults.entry(k.clone()).or_default() += n;
        }
        let hist = outs.iter().fold(1, |h, o| mix(h ^ hash_bytes(o.text.as_bytes())));
        r.histories.insert(hist);
        if st.nontrivial {
            r.nontrivial.insert(hist);
        }
        for o in &outs {
            if o.yields > 0 {
                r.sched.insert(o.hash ^ hash_bytes(&[o.id as u8]));
            }
        }
        if r.samples.len() < 2 && st.nontrivial {
            let ops: Vec<String> = case.plan.sessions.iter().map(|s| format!("session {}: {}", s.id, s.ops().map(|o| format!("{:?}", o.k).chars().take(60).collect::<String>()).collect::<Vec<_>>().join("; "))).collect();
            r.samples.push(json!({"seed": seed, "variant": variant, "sessions": ops, "faults": case.faults, "ends": outs.iter().map(|o| format!("{:?}", o.end)).collect::<Vec<_>>(), "checks": st.evals}));
        }
        // The same run again must be the same run.
        if r.runs % 97 == 5 {
            let again = self.h.run(case);
            self.res.checked += 1;
            if digest(&again) != digest(&outs) {
                self.res.mismatches += 1;
                let _ = std::fs::write(self.out.join(format!("mismatch-{seed}-{variant}.txt")), format!("{}\n=====\n{}", trace(&outs).join("\n"), trace(&again).join("\n")));
            }
        }
        let mut found = None;
        for x in v {
            match self.kn.iter().find(|k| x.msg.contains(&k.needle)) {
                Some(k) => *self.res.known.entry(k.text.clone()).or_default() += 1,
                None => {
                    found = Some(x);
                    break;
                }
            }
        }
        if let Some(x) = found {
            self.report(case, &outs, seed, variant, x);
            return (outs, true);
        }
        (outs, false)
    }
    fn report(&mut self, case: &Case, outs: &[Out], seed: u64, variant: u64, x: Viol) {
        let mut c = case.clone();
        // From here on the schedule is a list of decisions.
        let sw: Vec<Switch> = outs.iter().flat_map(|o| o.sw.iter().copied()).collect();
        if !sw.is_empty() && sw.len() < MAX_SW && c.switches.is_none() {
            c.switches = Some(sw);
            let mut n = 0;
            if fails(&mut self.h, &c, &self.kn, &mut n).is_none() {
                c.switches = None;
            }
        }
        let budget = std::env::var("SIM_MIN").ok().and_then(|x| x.parse().ok()).unwrap_or(40.0);
        let (mut best, mut viol, runs) = minimise(&mut self.h, &c, &self.kn, budget);
        if viol.msg == "(not reproduced)" {
            best = case.clone();
            viol = x;
        }
        let outs = self.h.run(&best);
        let r = Replay { property: self.prop.into(), seed, variant, message: viol.msg.clone(), session: viol.session, op: viol.op, digest: format!("{:016x}", digest(&outs)), case: best, trace: trace(&outs) };
        let p = self.out.join(format!("{}-{seed}-{variant}.json", self.prop));
        let _ = std::fs::write(&p, serde_json::to_string_pretty(&r).unwrap());
        eprintln!("violation of {} in seed {seed} variant {variant} ({runs} runs to minimise): {}", self.prop, viol.msg);
        self.res.violation = Some((seed, p.to_str().unwrap().into(), viol.msg));
    }
    /// All runs of one seed; whether a violation was found.
    fn seed(&mut self, seed: u64) -> bool {
        let plan = gen::plan(self.prop, seed);
        let case = Case { plan, faults: vec![], switches: None };
        self.res.seeds += 1;
        let (outs, bad) = self.one(&case, seed, 0, None);
        if bad {
            return true;
        }
        match gen::vary(self.prop) {
            Vary::Nothing => {}
            Vary::Sched(n) => {
                for v in 1..n as u64 {
                    let mut c = case.clone();
                    c.plan.seed = mix(seed ^ (v << 40));
                    if self.one(&c, seed, v, None).1 {
                        return true;
                    }
                }
            }
            Vary::Preempt(n, k) => {
                for v in 1..n as u64 {
                    let mut c = case.clone();
                    c.plan.seed = mix(seed ^ (v << 40));
                    if self.one(&c, seed, v, None).1 {
                        return true;
                    }
                }
                let mut calm = case.clone();
                for s in calm.plan.sessions.iter_mut() {
                    s.sched = CALM;
                }
                calm.switches = Some(vec![]);
                let (outs, bad) = self.one(&calm, seed, n as u64, None);
                if bad {
                    return true;
                }
                for v in n as u64 + 1..(n + k) as u64 {
                    let mut c = calm.clone();
                    c.switches = Some(preemptions(&mut Rng::derive(seed, 78, v, 0), &calm.plan, &outs));
                    if self.one(&c, seed, v, None).1 {
                        return true;
                    }
                }
            }
            Vary::Faults(n) => {
                let st = sites(&case, &outs);
                let lib = if matches!(self.prop, "P06" | "P22") { lib_of(&outs) } else { None };
                drop(outs);
                for v in 1..=n as u64 {
                    let mut g = Rng::derive(seed, 77, v, 0);
                    let mut c = case.clone();
                    c.faults = pick_faults(&mut g, &st);
                    if self.prop == "P22" && c.plan.sessions.len() > 2 {
                        // Every session but the first may meet a fault of its own.
                        for _ in 0..3 {
                            c.faults.extend(pick_faults(&mut g, &st));
                        }
                        c.faults.retain(|f| !f.kind.is_crash());
                    }
                    if c.faults.is_empty() {
                        continue;
                    }
                    if self.one(&c, seed, v, lib.as_ref()).1 {
                        return true;
                    }
                }
            }
        }
        false
    }
}
fn lib_of(outs: &[Out]) -> Option<Value> {
    for o in outs {
        let mut dump = false;
        for e in parse(&o.text) {
            match e {
                Ev::I { k: K::LibDump, .. } => dump = true,
                Ev::R { res: Ok(v), .. } if dump => return Some(v),
                _ => {}
            }
        }
    }
    None
}

fn scratch() -> PathBuf {
    for d in ["/dev/shm", "/tmp"] {
        let p = Path::new(d).join(format!("trane-sim-{}", std::process::id()));
        if std::fs::create_dir_all(&p).is_ok() && std::fs::write(p.join("probe"), vec![0u8; 1 << 20]).is_ok() {
            return p;
        }
    }
    panic!("no scratch directory");
}

pub fn check(prop: &str) -> i32 {
    let t0 = secs();
    let tier = std::env::var("VERIF_TIER").unwrap_or("quick".into());
    let base: u64 = std::env::var("VERIF_SEED").ok().and_then(|x| x.parse().ok()).unwrap_or(1);
    let default = if tier == "thorough" { 1500.0 } else { 45.0 };
    let budget: f64 = std::env::var("SIM_SECONDS").ok().and_then(|x| x.parse().ok()).unwrap_or(default);
    let nw: u64 = std::env::var("SIM_WORKERS").ok().and_then(|x| x.parse().ok()).unwrap_or(8);
    // However slow the machine, this many seeds are run.
    let floor: u64 = 3;
    let dir = scratch();
    let mut pids = vec![];
    for w in 0..nw {
        let pid = unsafe { libc::fork() };
        if pid == 0 {
            unsafe { libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL) };
            let mut k = Worker { prop, h: Host::new(&dir.join(format!("k{w}"))), res: Res::default(), kn: known(prop), out: dir.clone() };
            let mut i = w;
            loop {
                let el = secs() - t0;
                if (el > budget && k.res.seeds >= floor) || el > 10.0 * budget + 300.0 || dir.join("stop").exists() {
                    break;
                }
                if k.seed(base.wrapping_mul(1_000_003).wrapping_add(i)) {
                    let _ = std::fs::write(dir.join("stop"), "");
                    break;
                }
                i += nw;
            }
            let h = &k.h;
            (k.res.sessions, k.res.sim_s, k.res.steps, k.res.yields, k.res.ios, k.res.harness) = (h.sessions, h.sim_s, h.steps, h.yields, h.ios, h.harness);
            let _ = std::fs::write(dir.join(format!("res{w}.json")), serde_json::to_string(&k.res).unwrap());
            unsafe { libc::_exit(0) };
        }
        pids.push(pid);
    }
    for p in pids {
        let mut st = 0;
        unsafe { libc::waitpid(p, &mut st, 0) };
    }
    let mut all = Res::default();
    let mut lost = 0;
    for w in 0..nw {
        let r: Option<Res> = std::fs::read_to_string(dir.join(format!("res{w}.json"))).ok().and_then(|t| serde_json::from_str(&t).ok());
        let Some(r) = r else {
            lost += 1;
            continue;
        };
        macro_rules! add { ($($f:ident),*) => { $(all.$f += r.$f;)* } }
        add!(seeds, runs, sessions, sim_s, steps, yields, ios, evals, batches, presented, probes, rewards, crashes, calls, errors, inconclusive, harness, checked, mismatches, fault_runs);
        for (k, n) in r.faults {
            *all.faults.entry(k).or_default() += n;
        }
        for (k, n) in r.known {
            *all.known.entry(k).or_default() += n;
        }
        all.sched.extend(r.sched);
        all.nontrivial.extend(r.nontrivial);
        all.histories.extend(r.histories);
        if all.samples.len() < 6 {
            all.samples.extend(r.samples);
        }
        if let Some(v) = r.violation {
            if all.violation.as_ref().is_none_or(|o| v.0 < o.0) {
                all.violation = Some(v);
            }
        }
    }
    let wall = secs() - t0;
    let mut code = 0;
    let mut viols = vec![];
    if let Some((seed, p, msg)) = &all.violation {
        let to = verif().join("replays");
        let _ = std::fs::create_dir_all(&to);
        let to = to.join(Path::new(p).file_name().unwrap());
        let _ = std::fs::copy(p, &to);
        println!("{msg}");
        println!("VIOLATION property={prop} replay={}", to.display());
        viols.push(json!({"seed": seed, "message": msg, "replay": to}));
        code = 1;
    }
    for k in known(prop) {
        println!("KNOWN-FINDING: property={prop} {} (met {} times in this run)", k.text, all.known.get(&k.text).copied().unwrap_or(0));
    }
    if std::env::var_os("SIM_KEEP").is_none() {
        let _ = std::fs::remove_dir_all(&dir);
    }
    evidence(prop, &tier, base, &all, wall, &viols);
    let hours = wall / 3600.0;
    println!(
        "{prop}: {} seeds, {} runs ({} with faults), {} sessions, {} checks, {} distinct histories, {} distinct schedules, {:.0} s simulated, {:.0} runs/h, faults {:?}, determinism {}/{} repeated runs identical, {:.0} s",
        all.seeds, all.runs, all.fault_runs, all.sessions, all.evals, all.histories.len(), all.sched.len(), all.sim_s, all.runs as f64 / hours, by_kind(&all.faults), all.checked - all.mismatches, all.checked, wall
    );
    if lost > 0 || all.runs == 0 || all.harness * 20 > all.sessions {
        println!("{prop}: harness trouble: {lost} workers lost, {} of {} sessions not run", all.harness, all.sessions);
        if code == 0 {
            code = 2;
        }
    }
    if all.mismatches > 0 {
        println!("{prop}: {} runs were not repeatable", all.mismatches);
    }
    code
}
fn by_kind(f: &BTreeMap<String, u64>) -> BTreeMap<String, u64> {
    let mut m = BTreeMap::new();
    for (k, n) in f {
        *m.entry(k.split('/').next().unwrap().to_string()).or_default() += n;
    }
    m
}
fn evidence(prop: &str, tier: &str, seed: u64, r: &Res, wall: f64, viols: &[Value]) {
    let hours = wall / 3600.0;
    let conc = matches!(gen::vary(prop), Vary::Sched(_) | Vary::Preempt(..));
    let rule = match prop {
        "P01" | "P02" | "P03" | "P04" | "P05" | "P06" | "P07" | "P22" => "distinct histories (hash of every call, return, fault and end of all sessions of a run) in which at least one injected fault fired and at least one check against the model was made",
        "P13" | "P14" | "P15" | "P16" | "P17" | "P18" | "P20" | "P27" => "distinct histories of runs in which batches presented at least one exercise that was checked against the model",
        "P35" => "distinct histories of runs in which the order of at least one batch was compared with the published blocks",
        "P34" => "distinct histories of runs in which the steps of every call were counted and bounded",
        "P33" => "distinct histories of runs in which a library opened by some spelling of its path was compared with the one opened by its plain path",
        "P32" => "distinct histories of runs in which what every unit of a library shows was compared with its files",
        "P31" => "distinct histories of runs in which at least one benchmark was compared with what its students left behind",
        "P30" => "distinct histories of runs in which the draws of at least one series of batches were compared with the published weights",
        "P28" => "distinct histories of runs in which at least one batch was compared with the composition the model allows",
        "P29" => "distinct histories of runs in which at least one answer was compared with what it left in storage",
        "P12" => "distinct histories of runs in which at least one reward was propagated and checked",
        "P26" => "distinct histories of runs in which at least one score was compared with the model",
        "P24" | "P25" => "distinct histories of runs with at least one comparison of twins or of a built course with its description",
        _ => "distinct histories of runs in which at least one check was made",
    };
    let v = json!({
        "property": prop, "tier": tier, "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": r.evals, "distinct_nontrivial": r.nontrivial.len(), "rule": rule, "samples": r.samples,
            "simulated_runs": r.runs, "seeds": r.seeds, "sessions": r.sessions,
            "runs_per_hour": (r.runs as f64 / hours) as u64, "seeds_per_hour": (r.seeds as f64 / hours) as u64,
            "simulated_seconds_of_execution": r.sim_s, "scheduling_points": r.yields, "steps": r.steps, "io_calls": r.ios,
            "faults_injected": r.faults, "runs_with_faults": r.fault_runs, "crashes": r.crashes,
            "distinct_schedules": r.sched.len(), "schedule_measure": "hash of all hand-overs between threads of a session (thread, operation, decision point)",
            "distinct_histories": r.histories.len(), "calls": r.calls, "calls_failed": r.errors,
            "batches": r.batches, "exercises_presented": r.presented, "probes": r.probes, "rewards_checked": r.rewards,
            "sessions_inconclusive": r.inconclusive, "adversarial_schedules": conc,
            "runs_repeated_for_determinism": r.checked, "repeats_that_differed": r.mismatches,
            "known_findings_met": r.known, "violation_details": viols,
            "real_components": "all of the trane crate (scheduler, scorers, caches, course library, graph, builders, managers), SQLite, rusqlite, rayon, walkdir, serde, the standard library",
            "stubbed_components": "kernel scheduling of threads, clocks and timers, entropy, directory order, file-system errors and process death are decided by the simulator below libc; parking_lot locks and the ustr interner are simulator-aware replacements of the same interface; file contents live on a real tmpfs"
        },
        "assumptions": [
            "a crash is the death of the process: what was written before survives, nothing is reordered or lost by the page cache (the code sets synchronous=OFF and promises nothing about power failure)",
            "one process uses a library at a time"
        ],
        "wall_s": wall, "violations": viols.len(),
    });
    let d = verif().join("evidence");
    let _ = std::fs::create_dir_all(&d);
    let _ = std::fs::write(d.join(format!("{prop}.json")), serde_json::to_string_pretty(&v).unwrap() + "\n");
}

/// Runs a replay file; whether it reproduces exactly.
pub fn replay(file: &str) -> i32 {
    let r: Replay = match std::fs::read_to_string(file).map_err(|e| e.to_string()).and_then(|t| serde_json::from_str(&t).map_err(|e| e.to_string())) {
        Ok(r) => r,
        Err(e) => {
            println!("{file}: {e}");
            return 2;
        }
    };
    let dir = scratch();
    let mut h = Host::new(&dir);
    let lib = reference(&mut h, &r.case);
    let outs = h.run(&r.case);
    let (v, _) = judge(&r.case, &outs, lib.as_ref());
    for l in trace(&outs) {
        println!("{l}");
    }
    let _ = std::fs::remove_dir_all(&dir);
    let same = format!("{:016x}", digest(&outs)) == r.digest;
    println!("digest {}", if same { "identical to the recorded run" } else { "differs from the recorded run" });
    for x in &v {
        println!("session {} op {}: {}", x.session, x.op, x.msg);
    }
    if v.is_empty() {
        println!("{}: not violated", r.property);
        0
    } else {
        println!("VIOLATION property={} replay={file}", r.property);
        1
    }
}
/// One seed, for looking into it.
pub fn one(prop: &str, seed: u64, variant: u64) -> i32 {
    let dir = scratch();
    let mut h = Host::new(&dir);
    let plan = gen::plan(prop, seed);
    let mut c = Case { plan, faults: vec![], switches: None };
    if variant > 0 {
        match gen::vary(prop) {
            Vary::Preempt(n, _) if variant >= n as u64 => {
                for s in c.plan.sessions.iter_mut() {
                    s.sched = CALM;
                }
                c.switches = Some(vec![]);
                if variant > n as u64 {
                    let outs = h.run(&c);
                    c.switches = Some(preemptions(&mut Rng::derive(seed, 78, variant, 0), &c.plan, &outs));
                }
            }
            Vary::Sched(_) | Vary::Preempt(..) => c.plan.seed = mix(seed ^ (variant << 40)),
            Vary::Faults(_) => {
                let outs = h.run(&c);
                let st = sites(&c, &outs);
                c.faults = pick_faults(&mut Rng::derive(seed, 77, variant, 0), &st);
            }
            _ => {}
        }
    }
    let t = secs();
    let outs = h.run(&c);
    let t = secs() - t;
    let (v, st) = judge(&c, &outs, None);
    println!("{}", serde_json::to_string(&c.plan.lib).unwrap());
    println!("{}", trace(&outs).join("\n"));
    println!("{v:#?}\n{st:?}\n{:.1} ms, digest {:x}", t * 1e3, digest(&outs));
    let again = h.run(&c);
    if digest(&again) != digest(&outs) {
        let _ = std::fs::write("/tmp/mm0", trace(&outs).join("\n"));
        let _ = std::fs::write("/tmp/mm1", trace(&again).join("\n"));
        println!("differs: {:?} {:?}", outs.iter().map(|o| (o.steps, o.hash, &o.end)).collect::<Vec<_>>(), again.iter().map(|o| (o.steps, o.hash, &o.end)).collect::<Vec<_>>());
    }
    println!("again {:x}; steps {:?}", digest(&again), outs.iter().map(|o| (o.steps, o.yields, o.io.len())).collect::<Vec<_>>());
    let _ = std::fs::remove_dir_all(&dir);
    0
}
