//! Judges a finished run: the histories logged by all its sessions, how each ended, and what they left
//! on disk, against small models of what the acknowledged calls allow.
use crate::oracle::{diff_model, json_diff};
use crate::plan::*;
use crate::rt::*;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};

#[derive(Clone, Debug)]
pub struct Viol {
    pub session: u32,
    pub op: u32,
    pub msg: String,
}
/// How a session's process ended.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum End {
    Ok,
    Crash,
    Deadlock,
    Steps,
    Hang,
    Signal(i32),
    Harness(i32),
}
pub struct Out {
    pub id: u32,
    pub end: End,
    pub text: String,
    pub io: Vec<IoRec>,
    pub sw: Vec<Switch>,
    pub pts: Vec<Pt>,
    pub steps: u64,
    pub yields: u64,
    pub hash: u64,
    pub sim_ns: u64,
    /// The preferences file after the session: absent, unreadable, or its value.
    pub prefs: Option<Option<Value>>,
    /// A digest of everything outside the working directory and the course being built.
    pub tree: u64,
}
#[derive(Clone, Debug)]
pub enum Ev {
    Open { op: u32, now: i64 },
    I { op: u32, sub: u32, k: K },
    R { op: u32, sub: u32, res: Result<Value, String> },
    Panic { op: u32, at: String, msg: String },
    V { kind: String, op: u32, msg: String },
    Fault { op: u32, kind: String, class: u64 },
    Close { n: Vec<u64> },
    Stuck(String),
    Deadlock(String),
}
pub fn parse(text: &str) -> Vec<Ev> {
    let mut v = vec![];
    for l in text.lines() {
        let Ok(j) = serde_json::from_str::<Value>(l) else { continue };
        let o = j.as_object().unwrap();
        let n = |x: &Value| x.as_u64().unwrap_or(0) as u32;
        let s = |x: &Value| x.as_str().unwrap_or("").to_string();
        if let Some(x) = o.get("Open") {
            v.push(Ev::Open { op: n(&x["op"]), now: x["now"].as_i64().unwrap_or(0) });
        } else if let Some(x) = o.get("I") {
            if let Ok(k) = serde_json::from_value(x["k"].clone()) {
                v.push(Ev::I { op: n(&x["op"]), sub: n(&x["sub"]), k });
            }
        } else if let Some(x) = o.get("R") {
            let res = match x.get("err") {
                Some(e) => Err(s(e)),
                None => Ok(x["ok"].clone()),
            };
            v.push(Ev::R { op: n(&x["op"]), sub: n(&x["sub"]), res });
        } else if let Some(x) = o.get("Panic") {
            v.push(Ev::Panic { op: n(&x["op"]) & 0xffffff, at: s(&x["at"]), msg: s(&x["msg"]) });
        } else if let Some(x) = o.get("V") {
            v.push(Ev::V { kind: s(&x["kind"]), op: n(&x["op"]), msg: s(&x["msg"]) });
        } else if let Some(x) = o.get("Fault") {
            v.push(Ev::Fault { op: n(&x["op"]), kind: s(&x["kind"]), class: x["class"].as_u64().unwrap_or(0) });
        } else if o.contains_key("Close") {
            v.push(Ev::Close { n: o.get("N").and_then(|x| x.as_array()).map(|a| a.iter().map(|x| x.as_u64().unwrap_or(0)).collect()).unwrap_or_default() });
        } else if let Some(x) = o.get("Stuck") {
            v.push(Ev::Stuck(s(&x["states"])));
        } else if let Some(x) = o.get("Deadlock") {
            v.push(Ev::Deadlock(s(&x["states"])));
        }
    }
    v
}

/// What a judged run covered.
#[derive(Default, Clone, Debug)]
pub struct Stats {
    /// Comparisons with the model that could have failed.
    pub evals: u64,
    pub batches: u64,
    pub presented: u64,
    pub probes: u64,
    pub rewards: u64,
    pub crashes: u64,
    pub inconclusive: u64,
    pub faults: BTreeMap<String, u64>,
    pub calls: u64,
    pub errors: u64,
    /// Whether the run exercised its property in a way that is not trivial.
    pub nontrivial: bool,
}

struct J<'a> {
    case: &'a Case,
    v: Vec<Viol>,
    st: Stats,
    s: u32,
    /// Operations of this session in which a fault fired, and whether any did.
    faulted: HashSet<u32>,
    any_fault: bool,
}
impl J<'_> {
    fn bad(&mut self, op: u32, msg: String) {
        if self.v.len() < 20 {
            self.v.push(Viol { session: self.s, op, msg });
        }
    }
}

/// `reference` is the library as opened by the first fault-free session of the fault-free run.
pub fn judge(case: &Case, outs: &[Out], reference: Option<&Value>) -> (Vec<Viol>, Stats) {
    let prop = case.plan.prop.as_str();
    let mut j = J { case, v: vec![], st: Stats::default(), s: 0, faulted: HashSet::new(), any_fault: false };
    let evs: Vec<Vec<Ev>> = outs.iter().map(|o| parse(&o.text)).collect();
    let mut led = Ledger::default();
    let mut bl = Sets::default();
    let mut rl = Sets::default();
    let mut tr = Trims::default();
    let mut rw = Rewards::default();
    let mut pf = Prefs::new(&case.plan);
    let mut lib: Option<Value> = reference.cloned();
    let model = case.plan.lib.model();
    for (o, ev) in outs.iter().zip(&evs) {
        j.s = o.id;
        j.faulted.clear();
        j.any_fault = false;
        let mut open_op = 0;
        let mut returned: HashSet<(u32, u32)> = HashSet::new();
        let mut called: Vec<(u32, u32)> = vec![];
        let mut ks: HashMap<(u32, u32), &K> = HashMap::new();
        rw.new_process();
        for e in ev {
            match e {
                Ev::Fault { op, kind, class } => {
                    *j.st.faults.entry(format!("{kind}/{}", crate::interpose::CLASS_NAMES.get(*class as usize).unwrap_or(&"?"))).or_default() += 1;
                    j.faulted.insert(*op);
                    j.any_fault = true;
                }
                Ev::Open { op, .. } => {
                    open_op = *op;
                    rw.new_process();
                }
                Ev::V { kind, op, msg } => {
                    if kind == prop || (kind == "P18" && prop == "P10") {
                        j.bad(*op, msg.clone());
                    }
                }
                Ev::Panic { op, at, msg } => {
                    if matches!(prop, "P10" | "P11" | "P16" | "P17" | "P19" | "P21" | "P22" | "P23") || (prop == "P06" && !j.faulted.contains(op)) {
                        j.bad(*op, format!("panic at {at}: {msg}"));
                    }
                }
                Ev::Close { n } => {
                    if n.len() == 4 {
                        j.st.batches += n[0];
                        j.st.presented += n[1];
                        j.st.probes += n[2];
                        j.st.rewards += n[3];
                    }
                }
                Ev::Stuck(s) | Ev::Deadlock(s) => {
                    if hang_counts(prop) {
                        j.bad(0, if prop == "P34" { format!("a call takes more steps than the size of the library allows ({s})") } else { format!("no progress: {s}") });
                    }
                }
                Ev::I { op, sub, k } => {
                    j.st.calls += 1;
                    called.push((*op, *sub));
                    ks.insert((*op, *sub), k);
                    match prop {
                        "P01" | "P10" => led.call(k),
                        "P02" => bl.call(&set_op_of(k, true)),
                        "P03" => rl.call(&set_op_of(k, false)),
                        "P04" => tr.call((*op, *sub), k),
                        "P05" => rw.call(k),
                        "P07" => pf.call(k),
                        _ => {}
                    }
                }
                Ev::R { op, sub, res } => {
                    returned.insert((*op, *sub));
                    if res.is_err() {
                        j.st.errors += 1;
                    }
                    let k = ks.get(&(*op, *sub)).copied();
                    if *op == open_op && (k.is_none() || k == Some(&K::Reopen)) {
                        on_open(&mut j, prop, *op, res);
                    }
                    let Some(k) = k else { continue };
                    match prop {
                        "P01" => led.ret(&mut j, *op, k, res),
                        "P02" => bl.ret(&mut j, *op, k, res, true),
                        "P03" => rl.ret(&mut j, *op, k, res, false),
                        "P04" => tr.ret(&mut j, (*op, *sub), k, res),
                        "P05" => rw.ret(&mut j, *op, k, res),
                        "P07" => pf.ret(&mut j, *op, k, res),
                        "P10" => {
                            led.ret(&mut j, *op, k, res);
                            j.st.evals += 1;
                            if let Err(x) = res {
                                // "nothing" stands for an exercise in libraries that have none.
                                if !j.any_fault && !name(k).contains("nothing") {
                                    j.bad(*op, format!("{} failed: {x}", name(k)));
                                }
                            }
                        }
                        "P06" => {
                            j.st.evals += 1;
                            if let (Err(x), false) = (res, j.any_fault) {
                                j.bad(*op, format!("{} failed on a healthy disk: {x}", name(k)));
                            }
                            same_lib(&mut j, *op, k, res, &mut lib, "P06");
                        }
                        "P19" => {
                            j.st.evals += 1;
                            if let (Err(x), false) = (res, j.any_fault) {
                                j.bad(*op, format!("{} failed on a healthy disk: {x}", name(k)));
                            }
                        }
                        "P21" => {
                            if let (K::LibDump, Ok(d)) = (k, res) {
                                j.st.evals += 1;
                                if let Some(x) = diff_model(d, &model).or_else(|| saved(&case.plan, d)) {
                                    j.bad(*op, x);
                                }
                            }
                            same_lib(&mut j, *op, k, res, &mut lib, "P21");
                        }
                        "P22" => {
                            if let (K::LibDump, Ok(d)) = (k, res) {
                                j.st.evals += 1;
                                if let Some(x) = diff_model(d, &model).or_else(|| saved(&case.plan, d)) {
                                    j.bad(*op, format!("opened although incomplete or altered: {x}"));
                                }
                            }
                            same_lib(&mut j, *op, k, res, &mut lib, "P22");
                        }
                        _ => {
                            if matches!(prop, "P08" | "P09" | "P11" | "P12" | "P13" | "P14" | "P15" | "P16" | "P17" | "P18" | "P20" | "P24" | "P25" | "P26" | "P27" | "P28" | "P29" | "P30" | "P31" | "P32" | "P33" | "P34" | "P35") {
                                j.st.evals += 1;
                            }
                            if prop == "P11" && !j.any_fault {
                                if let (K::Score { .. } | K::UnitScore { .. } | K::ScoreObs { .. } | K::Batch { .. }, Err(x)) = (k, res) {
                                    j.bad(*op, format!("{} failed: {x}", name(k)));
                                }
                            }
                            if matches!(prop, "P27" | "P28" | "P29" | "P30" | "P35") {
                                if let (Err(x), false) = (res, j.any_fault) {
                                    if !name(k).contains("nothing") {
                                        j.bad(*op, format!("{} failed: {x}", name(k)));
                                    }
                                }
                            }
                            if prop == "P33" {
                                if let (K::LibDump, Ok(d)) = (k, res) {
                                    if let Some(x) = diff_model(d, &model).or_else(|| saved(&case.plan, d)) {
                                        j.bad(*op, x);
                                    }
                                }
                                if let Err(x) = res {
                                    j.bad(*op, format!("{} failed: {x}", name(k)));
                                }
                            }
                            if prop == "P24" {
                                same_lib(&mut j, *op, k, res, &mut lib, "P24");
                                if let (Err(x), false) = (res, j.any_fault) {
                                    j.bad(*op, format!("{} failed: {x}", name(k)));
                                }
                            }
                        }
                    }
                }
            }
        }
        match o.end {
            End::Ok => {
                if prop == "P10" {
                    if let Some(c) = called.iter().find(|c| !returned.contains(c)) {
                        j.bad(c.0, "a call never returned".into());
                    }
                }
            }
            End::Crash => j.st.crashes += 1,
            End::Hang | End::Steps | End::Deadlock => {
                if hang_counts(prop) && j.v.is_empty() {
                    j.bad(0, format!("no progress within the step or time limit ({:?})", o.end));
                }
            }
            End::Signal(n) => {
                if hang_counts(prop) {
                    j.bad(0, format!("the process was killed by signal {n}"));
                }
            }
            End::Harness(_) => {}
        }
        if prop == "P07" {
            pf.between(&mut j, &o.prefs);
        }
        if prop == "P25" && o.tree != outs[0].tree {
            j.bad(0, "a file outside the directory of the course being built was changed".into());
        }
    }
    let st = &mut j.st;
    st.nontrivial = match prop {
        "P01" | "P02" | "P03" | "P04" | "P05" | "P06" | "P07" | "P22" => st.evals > 0 && !st.faults.is_empty(),
        "P13" | "P14" | "P15" | "P16" | "P17" | "P18" | "P20" | "P27" => st.presented > 0,
        "P12" => st.rewards > 0,
        "P24" | "P25" | "P26" | "P28" | "P29" | "P30" | "P31" | "P32" | "P33" | "P35" => st.probes > 0,
        _ => st.evals > 0,
    };
    (j.v, j.st)
}
fn hang_counts(p: &str) -> bool {
    matches!(p, "P06" | "P10" | "P11" | "P16" | "P17" | "P19" | "P21" | "P22" | "P23" | "P31" | "P32" | "P33" | "P34")
}
fn name(k: &K) -> String {
    let s = format!("{k:?}");
    s.chars().take(80).collect()
}
fn on_open(j: &mut J, prop: &str, op: u32, res: &Result<Value, String>) {
    let f = j.faulted.contains(&op);
    match (prop, res) {
        ("P06" | "P19" | "P24", Err(x)) if !f => j.bad(op, format!("the library does not open on a healthy disk: {x}")),
        ("P32", Err(x)) if !f && !j.any_fault => j.bad(op, format!("the library does not open: {x}")),
        ("P21" | "P33", Err(x)) => j.bad(op, format!("the library does not open: {x}")),
        ("P10", Err(x)) if !f => j.bad(op, format!("the library does not open: {x}")),
        ("P22", Err(x)) if !f => j.bad(op, format!("the library does not open on a healthy disk: {x}")),
        ("P23", r) => {
            j.st.evals += 1;
            match (&j.case.plan.lib.defect, r) {
                (Some(d), Ok(_)) => {
                    let w = d.what.clone();
                    j.bad(op, format!("an inconsistent library opens: {w}"));
                }
                (None, Err(x)) => j.bad(op, format!("a consistent library is rejected: {x}")),
                _ => {}
            }
        }
        ("P01" | "P02" | "P03" | "P04" | "P05" | "P07", Err(_)) if !f => j.st.inconclusive += 1,
        _ => {}
    }
    if prop == "P06" {
        j.st.evals += 1;
    }
}
fn same_lib(j: &mut J, op: u32, k: &K, res: &Result<Value, String>, lib: &mut Option<Value>, prop: &str) {
    if let (K::LibDump, Ok(d)) = (k, res) {
        j.st.evals += 1;
        match lib {
            None => *lib = Some(d.clone()),
            Some(l) if l != d => {
                let x = json_diff(l, d, "");
                j.bad(op, format!("{prop}: the library differs from the one opened otherwise: {x}"));
            }
            _ => {}
        }
    }
}
fn saved(p: &Plan, d: &Value) -> Option<String> {
    let want = |v: &[(String, Value)]| v.iter().map(|x| x.1["id"].as_str().unwrap().to_string()).collect::<BTreeSet<_>>();
    for (k, v) in [("filters", &p.lib.filters), ("sessions", &p.lib.sessions)] {
        let got: BTreeSet<String> = d[k].as_object().map(|o| o.keys().cloned().collect()).unwrap_or_default();
        if got != want(v) {
            return Some(format!("saved {k}: {got:?} instead of {:?}", want(v)));
        }
        for (_, v) in v {
            let (id, text) = (v["id"].as_str().unwrap(), v["description"].as_str().unwrap_or_default());
            let got = &d[k][id];
            if got[0] != json!(text) || got[1] != *v {
                return Some(format!("saved {k}: {got} instead of {v}"));
            }
        }
    }
    None
}

// ---------------------------------------------------------------- practice history

type Key = (u32, i64);
#[derive(Default)]
struct Ledger {
    /// Per exercise: how many entries of a value and time there must and may be.
    m: BTreeMap<String, BTreeMap<Key, (i64, i64)>>,
}
fn recs(k: &K) -> Vec<(String, f32, i64)> {
    match k {
        K::Score { ex, score, ts } | K::ScoreObs { ex, score, ts } => vec![(ex.clone(), *score as f32, *ts)],
        K::RecScores(v) => v.clone(),
        _ => vec![],
    }
}
impl Ledger {
    fn call(&mut self, k: &K) {
        for (id, s, ts) in recs(k) {
            self.m.entry(id).or_default().entry((s.to_bits(), ts)).or_default().1 += 1;
        }
    }
    fn ret(&mut self, j: &mut J, op: u32, k: &K, res: &Result<Value, String>) {
        if let Ok(v) = res {
            for (id, s, ts) in recs(k) {
                self.m.entry(id).or_default().entry((s.to_bits(), ts)).or_default().0 += 1;
            }
            match k {
                K::GetScores { id, n } if j.case.plan.prop == "P01" => self.read(j, op, id, *n as usize, &v["v"]),
                K::Dump => {
                    let mut ids: BTreeSet<String> = self.m.keys().cloned().collect();
                    ids.extend(v["scores"].as_object().unwrap().keys().cloned());
                    for id in ids {
                        self.read(j, op, &id, 100_000, &v["scores"][&id]);
                    }
                }
                _ => {}
            }
        } else if let (Err(x), K::GetScores { .. } | K::Dump, false) = (res, k, j.any_fault) {
            j.bad(op, format!("the history cannot be read on a healthy disk: {x}"));
        }
    }
    fn read(&mut self, j: &mut J, op: u32, id: &str, n: usize, v: &Value) {
        j.st.evals += 1;
        let got: Vec<(f32, i64)> = serde_json::from_value(v.clone()).unwrap_or_default();
        if got.windows(2).any(|w| w[0].1 < w[1].1) {
            j.bad(op, format!("the history of {id} is not newest first: {got:?}"));
        }
        let none = BTreeMap::new();
        let m = self.m.get(id).unwrap_or(&none);
        let mut cnt: BTreeMap<Key, i64> = BTreeMap::new();
        for (s, t) in &got {
            *cnt.entry((s.to_bits(), *t)).or_default() += 1;
        }
        for (k, c) in &cnt {
            let hi = m.get(k).map_or(0, |x| x.1);
            if *c > hi {
                j.bad(op, format!("the history of {id} holds {c} entries of score {} at {}, submitted {hi} times", f32::from_bits(k.0), k.1));
            }
        }
        if got.len() > n {
            j.bad(op, format!("{} entries of {id} returned, {n} asked for", got.len()));
        }
        // Everything acknowledged that belongs to the newest n must be there.
        let oldest = if got.len() >= n { got.last().map_or(i64::MAX, |x| x.1) } else { i64::MIN };
        for (k, (lo, _)) in m {
            let c = cnt.get(k).copied().unwrap_or(0);
            if c < *lo && (k.1 > oldest || (got.len() < n)) {
                j.bad(op, format!("{lo} acknowledged entries of score {} at {} in {id}, {c} found", f32::from_bits(k.0), k.1));
            }
        }
    }
}

// ---------------------------------------------------------------- blacklist and review list

#[derive(Default)]
struct Sets {
    /// Whether a unit may be in the set, and may be out of it. Units never heard of are out.
    m: BTreeMap<String, (bool, bool)>,
}
enum SetOp {
    Add(String),
    Del(String),
    Prefix(String),
    None,
}
fn set_op_of(k: &K, bl: bool) -> SetOp {
    match k {
        K::BlAdd(x) if bl => SetOp::Add(x.clone()),
        K::BlDel(x) if bl => SetOp::Del(x.clone()),
        K::BlDelPrefix(x) if bl => SetOp::Prefix(x.clone()),
        K::RlAdd(x) if !bl => SetOp::Add(x.clone()),
        K::RlDel(x) if !bl => SetOp::Del(x.clone()),
        _ => SetOp::None,
    }
}
impl Sets {
    /// From the call on, the new state is possible as well.
    fn call(&mut self, o: &SetOp) {
        match o {
            SetOp::Add(x) => self.m.entry(x.clone()).or_insert((false, true)).0 = true,
            SetOp::Del(x) => self.m.entry(x.clone()).or_insert((false, true)).1 = true,
            SetOp::Prefix(p) => self.m.iter_mut().filter(|(k, _)| k.starts_with(p.as_str())).for_each(|(_, v)| v.1 = true),
            SetOp::None => {}
        }
    }
    fn done(&mut self, o: &SetOp) {
        match o {
            SetOp::Add(x) => {
                self.m.insert(x.clone(), (true, false));
            }
            SetOp::Del(x) => {
                self.m.insert(x.clone(), (false, true));
            }
            SetOp::Prefix(p) => self.m.iter_mut().filter(|(k, _)| k.starts_with(p.as_str())).for_each(|(_, v)| *v = (false, true)),
            SetOp::None => {}
        }
    }
    fn ret(&mut self, j: &mut J, op: u32, k: &K, res: &Result<Value, String>, bl: bool) {
        let what = if bl { "blacklist" } else { "review list" };
        match (k, res) {
            (K::Dump | K::GetSets, Ok(v)) => {
                j.st.evals += 1;
                let list: Vec<String> = serde_json::from_value(v[if bl { "bl" } else { "rl" }].clone()).unwrap_or_default();
                let set: BTreeSet<&String> = list.iter().collect();
                if set.len() != list.len() {
                    j.bad(op, format!("the {what} lists an entry twice: {list:?}"));
                }
                let mut ids: BTreeSet<String> = self.m.keys().cloned().collect();
                ids.extend(list.iter().cloned());
                for id in ids {
                    let is = set.contains(&id);
                    let (may_in, may_out) = self.m.get(&id).copied().unwrap_or((false, true));
                    if (is && !may_in) || (!is && !may_out) {
                        j.bad(op, format!("{id} is {} the {what}, the acknowledged changes say otherwise", if is { "in" } else { "not in" }));
                    }
                    self.m.insert(id, (is, !is));
                }
                if bl {
                    if let Some(q) = v["blq"].as_object() {
                        let q: BTreeSet<&String> = q.keys().collect();
                        let known: BTreeSet<&String> = set.iter().filter(|x| j.case.plan.extra.contains(x) || j.case.plan.lib.model().u.contains_key(**x)).copied().collect();
                        if q != known {
                            j.bad(op, format!("membership answers {q:?} and listed entries {known:?} disagree"));
                        }
                    }
                }
            }
            (K::Dump | K::GetSets, Err(x)) if !j.any_fault => j.bad(op, format!("the {what} cannot be read on a healthy disk: {x}")),
            (_, Ok(_)) => self.done(&set_op_of(k, bl)),
            _ => {}
        }
    }
}

// ---------------------------------------------------------------- trimming

const PARTS: [&str; 3] = ["scores", "deltas", "rewards"];
type Rows = BTreeMap<String, Vec<Vec<f64>>>;
fn rows(d: &Value, part: &str) -> Rows {
    let mut r: Rows = serde_json::from_value(d[part].clone()).unwrap_or_default();
    for v in r.values_mut().flatten() {
        let n = v.len() - 1;
        v[..n].iter_mut().for_each(|x| *x = *x as f32 as f64);
    }
    r
}
fn ts(r: &[f64]) -> i64 {
    *r.last().unwrap() as i64
}
/// `a` without the entries of `b`; `None` if `b` has one that `a` lacks.
fn minus(a: &[Vec<f64>], b: &[Vec<f64>]) -> Option<Vec<Vec<f64>>> {
    let mut r = a.to_vec();
    for x in b {
        let i = r.iter().position(|y| y == x)?;
        r.swap_remove(i);
    }
    Some(r)
}
#[derive(Default)]
struct Trims {
    before: Option<Value>,
    pending: Vec<((u32, u32), K, bool)>,
}
impl Trims {
    fn call(&mut self, id: (u32, u32), k: &K) {
        if !matches!(k, K::Dump) {
            self.pending.push((id, k.clone(), false));
        }
    }
    fn ret(&mut self, j: &mut J, id: (u32, u32), k: &K, res: &Result<Value, String>) {
        let op = id.0;
        if *k != K::Dump {
            if let Some(p) = self.pending.iter_mut().find(|p| p.0 == id) {
                p.2 = res.is_ok();
            }
            return;
        }
        let d = match res {
            Ok(d) => d,
            Err(x) => {
                if !j.any_fault {
                    j.bad(op, format!("the stored data cannot be read on a healthy disk: {x}"));
                }
                return;
            }
        };
        if let Some(b) = &self.before {
            let ops: Vec<_> = self.pending.iter().filter(|p| !matches!(p.1, K::GetScores { .. } | K::GetSets | K::Batch { .. } | K::Clock(_))).collect();
            if ops.len() <= 1 {
                for part in PARTS {
                    let (b, a) = (rows(b, part), rows(d, part));
                    let ids: BTreeSet<&String> = b.keys().chain(a.keys()).collect();
                    for id in ids {
                        let none = vec![];
                        self.unit(j, op, part, id, b.get(id).unwrap_or(&none), a.get(id).unwrap_or(&none), ops.first().map(|p| (&p.1, p.2)));
                    }
                }
            }
        }
        self.before = Some(d.clone());
        self.pending.clear();
    }
    fn unit(&self, j: &mut J, op: u32, part: &str, id: &str, b: &[Vec<f64>], a: &[Vec<f64>], k: Option<(&K, bool)>) {
        j.st.evals += 1;
        let (keep, done) = match k {
            None => (b.len(), true),
            Some((k, done)) => {
                let n = match (k, part) {
                    (K::TrimScores(n), "scores") | (K::TrimDeltas(n), "deltas") | (K::TrimRewards(n), "rewards") => (*n as usize).min(b.len()),
                    (K::DelScores(p), "scores") | (K::DelDeltas(p), "deltas") | (K::DelRewards(p), "rewards") if id.starts_with(p.as_str()) => 0,
                    (K::TrimScores(_) | K::TrimDeltas(_) | K::TrimRewards(_) | K::DelScores(_) | K::DelDeltas(_) | K::DelRewards(_) | K::Reopen, _) => b.len(),
                    // Something else was written: nothing to compare with.
                    _ => return,
                };
                (n, done)
            }
        };
        let what = || format!("{part} of {id} around {k:?}: {} before, {} after", b.len(), a.len());
        let Some(gone) = minus(b, a) else {
            return j.bad(op, format!("an entry appeared in the {}", what()));
        };
        if a.len() < keep {
            return j.bad(op, format!("an entry that had to be kept is lost: {}", what()));
        }
        if done && a.len() > keep {
            return j.bad(op, format!("an entry that had to go is still there: {}", what()));
        }
        // Only the oldest may go.
        let mut all: Vec<i64> = b.iter().map(|r| ts(r)).collect();
        all.sort_by(|x, y| y.cmp(x));
        let limit = if keep == 0 { i64::MAX } else { all[keep - 1] };
        if keep > 0 && gone.iter().any(|r| ts(r) > limit) {
            j.bad(op, format!("a newer entry went although an older one stayed: {}", what()));
        }
    }
}

// ---------------------------------------------------------------- rewards

#[derive(Default)]
struct Rewards {
    before: Option<Rows>,
    /// Everything this process has stored since its start or the last removal.
    ever: Rows,
    /// What it stored by acknowledged recordings, with no failure, removal or restart since.
    recent: Rows,
    /// How many it said it stored in that time, those at once dropped for their age included.
    said: BTreeMap<String, usize>,
    /// The pending calls are of an earlier process.
    stale: bool,
    pending: Vec<(K, Option<Vec<String>>)>,
}
const LIMIT: usize = 20;
fn similar(a: &[f64], b: &[f64]) -> bool {
    a[0] == b[0] && (a[2] - b[2]).abs() < 86_400.0 && (a[1] - b[1]).abs() < 0.1 + 1e-6
}
impl Rewards {
    fn new_process(&mut self) {
        self.ever.clear();
        self.forget();
        self.stale = !self.pending.is_empty();
    }
    fn forget(&mut self) {
        self.recent.clear();
        self.said.clear();
    }
    fn call(&mut self, k: &K) {
        if matches!(k, K::RecRewards(_) | K::TrimRewards(_) | K::DelRewards(_) | K::Score { .. }) {
            self.pending.push((k.clone(), None));
        }
    }
    fn ret(&mut self, j: &mut J, op: u32, k: &K, res: &Result<Value, String>) {
        match (k, res) {
            (K::RecRewards(_), Ok(v)) => {
                if let Some(p) = self.pending.last_mut() {
                    p.1 = Some(serde_json::from_value(v["ids"].clone()).unwrap_or_default());
                }
            }
            (K::Dump, Ok(d)) => {
                let a = rows(d, "rewards");
                if let Some(b) = self.before.take() {
                    if self.pending.len() <= 1 {
                        self.compare(j, op, &b, &a);
                    }
                    match self.pending.first() {
                        None => {}
                        Some((K::RecRewards(_), Some(ids))) if self.pending.len() == 1 && !self.stale => {
                            for id in ids {
                                *self.said.entry(id.clone()).or_default() += 1;
                            }
                            for (id, v) in &a {
                                if let Some(new) = minus(v, b.get(id).unwrap_or(&vec![])) {
                                    self.recent.entry(id.clone()).or_default().extend(new);
                                }
                            }
                        }
                        _ => self.forget(),
                    }
                } else {
                    self.forget();
                }
                if self.pending.iter().any(|p| matches!(p.0, K::TrimRewards(_) | K::DelRewards(_))) {
                    self.ever.clear();
                }
                for (id, v) in &a {
                    let e = self.ever.entry(id.clone()).or_default();
                    for r in v {
                        if !e.contains(r) {
                            e.push(r.clone());
                        }
                    }
                }
                self.before = Some(a);
                self.stale = false;
                self.pending.clear();
            }
            (K::Dump, Err(x)) if !j.any_fault => j.bad(op, format!("the rewards cannot be read on a healthy disk: {x}")),
            _ => {}
        }
    }
    fn compare(&self, j: &mut J, op: u32, b: &Rows, a: &Rows) {
        let none = vec![];
        let Some((k, ok)) = self.pending.first() else {
            j.st.evals += 1;
            if a != b {
                j.bad(op, "the stored rewards changed although nothing was recorded".into());
            }
            return;
        };
        let K::RecRewards(sub) = k else { return };
        j.st.evals += 1;
        if ok.is_none() && a == b {
            return;
        }
        let partial = if ok.is_none() { " (the recording failed or was interrupted: all or nothing)" } else { "" };
        let mut ids: BTreeSet<&String> = b.keys().chain(a.keys()).collect();
        ids.extend(sub.iter().map(|s| &s.0));
        for id in ids {
            let (bu, au) = (b.get(id).unwrap_or(&none), a.get(id).unwrap_or(&none));
            let su: Vec<Vec<f64>> = sub.iter().filter(|s| s.0 == *id).map(|s| vec![s.1 as f64, s.2 as f64, s.3 as f64]).collect();
            let ever = self.ever.get(id).unwrap_or(&none);
            let mut new = vec![];
            let mut rest = bu.clone();
            for r in au {
                match rest.iter().position(|x| x == r) {
                    Some(i) => {
                        rest.swap_remove(i);
                    }
                    None => new.push(r.clone()),
                }
            }
            let again = |x: &Vec<f64>| self.recent.get(id).is_some_and(|v| self.said.get(id).is_some_and(|n| *n <= 10) && v.iter().any(|r| x[0] == r[0] && (x[2] - r[2]).abs() < 86_399.0 && (x[1] - r[1]).abs() < 0.099));
            if ok.is_some() && !new.is_empty() && su.iter().all(again) {
                return j.bad(op, format!("{id} holds {new:?} although equal rewards had just been stored"));
            }
            let full = au.len() >= LIMIT;
            let oldest = au.iter().map(|r| ts(r)).min().unwrap_or(i64::MIN);
            if minus(&su, &new).is_none() {
                return j.bad(op, format!("{id} holds a reward that was never recorded: {new:?}"));
            }
            if let Some(x) = rest.iter().find(|r| !(full && ts(r) <= oldest)) {
                return j.bad(op, format!("{id} lost the reward {x:?} although {} remain", au.len()));
            }
            if !new.is_empty() && au.len() > LIMIT {
                return j.bad(op, format!("{id} keeps {} rewards", au.len()));
            }
            let left = minus(&su, &new).unwrap();
            for x in &left {
                let skipped = bu.iter().chain(ever).any(|r| similar(r, x)) || su.iter().filter(|r| similar(r, x)).count() > 1;
                if !skipped && !(full && ts(x) <= oldest) {
                    return j.bad(op, format!("the reward {x:?} of {id} is neither stored nor equal to a stored one{partial}"));
                }
            }
            if let Some(w) = ok {
                let listed = w.contains(id);
                if !new.is_empty() && !listed {
                    return j.bad(op, format!("{id} was written but not reported"));
                }
                if listed && new.is_empty() && !left.iter().any(|x| full && ts(x) <= oldest) {
                    return j.bad(op, format!("{id} was reported as written but nothing was stored"));
                }
            }
        }
    }
}

// ---------------------------------------------------------------- preferences

struct Prefs {
    possible: Vec<Value>,
    maybe_absent: bool,
    instruments: Vec<String>,
}
impl Prefs {
    fn new(p: &Plan) -> Prefs {
        let v = if p.lib.write_prefs { crate::spec::prefs_json(p.lib.batch_size, &p.lib.ignored, &p.lib.instruments) } else { json!({"transcription": null, "scheduler": null, "ignored_paths": []}) };
        Prefs { possible: vec![v], maybe_absent: !p.lib.write_prefs, instruments: p.lib.instruments.clone() }
    }
    fn value(&self, k: &K) -> Option<Value> {
        match k {
            K::SetPrefs { batch, ignored, pad, tr } => Some(serde_json::to_value(crate::exec::prefs_of(*batch, ignored, *pad, &self.instruments, tr)).unwrap()),
            _ => None,
        }
    }
    fn call(&mut self, k: &K) {
        if let Some(v) = self.value(k) {
            self.possible.push(v);
        }
    }
    fn ret(&mut self, j: &mut J, op: u32, k: &K, res: &Result<Value, String>) {
        match (k, res) {
            (K::SetPrefs { .. }, Ok(_)) => {
                self.possible = vec![self.value(k).unwrap()];
                self.maybe_absent = false;
            }
            (K::GetPrefs, Ok(v)) => {
                j.st.evals += 1;
                if !self.possible.contains(v) {
                    let (v, n) = (cut(v), self.possible.len());
                    j.bad(op, format!("preferences read as {v}, which is none of the {n} possible values"));
                }
            }
            (K::GetPrefs, Err(x)) if !j.faulted.contains(&op) => j.bad(op, format!("preferences cannot be read: {x}")),
            _ => {}
        }
    }
    /// What the file holds between two sessions.
    fn between(&mut self, j: &mut J, f: &Option<Option<Value>>) {
        j.st.evals += 1;
        match f {
            None if self.maybe_absent => {}
            None => j.bad(0, "the preferences file is gone".into()),
            Some(None) => j.bad(0, "the preferences file is not readable".into()),
            Some(Some(v)) => {
                if !self.possible.contains(v) {
                    let v = cut(v);
                    j.bad(0, format!("the preferences file holds {v}, which is none of the possible values"));
                }
            }
        }
    }
}
fn cut(v: &Value) -> String {
    v.to_string().chars().take(200).collect()
}
