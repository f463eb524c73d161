//! Random workloads, one generator per property. Everything derives from the seed.
use crate::build::BuildSpec;
use crate::plan::*;
use crate::rng::*;
use crate::rt::*;
use crate::spec::*;
use serde_json::{json, Value};

/// What varies between the runs of one plan.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Vary {
    /// Nothing: one run per plan.
    Nothing,
    /// Faults: a number of fault sequences per plan.
    Faults(usize),
    /// The schedule: a number of scheduler seeds per plan.
    Sched(usize),
    /// The schedule: scheduler seeds, then runs in which a few chosen preemptions are the only ones.
    Preempt(usize, usize),
}
pub fn vary(prop: &str) -> Vary {
    match prop {
        "P01" | "P02" | "P03" | "P04" | "P05" => Vary::Faults(14),
        "P06" | "P07" => Vary::Faults(16),
        "P08" => Vary::Faults(5),
        "P22" => Vary::Faults(16),
        "P25" => Vary::Faults(14),
        "P13" | "P20" => Vary::Faults(2),
        "P19" => Vary::Faults(2),
        "P31" => Vary::Faults(3),
        "P32" => Vary::Faults(2),
        "P09" | "P10" => Vary::Preempt(5, 12),
        "P21" | "P23" => Vary::Sched(3),
        _ => Vary::Nothing,
    }
}
pub const DAY: i64 = 86_400;
const NAMES: [&str; 14] = ["c_1", "cx1", "C_1", "c%1", "c_", "c", "c_1a", "cab1", "c'q", "é1", "c_1::l_0", "", "%", "_"];

struct G {
    g: Rng,
    b: B,
    m: Model,
    lib: LibSpec,
    now: i64,
    exs: Vec<String>,
    lessons: Vec<String>,
    courses: Vec<String>,
}
impl G {
    fn new(seed: u64, prop: &str, o: GenOpts) -> G {
        let mut g = Rng::derive(seed, hash_bytes(prop.as_bytes()), 1, 0);
        let lib = gen(&mut g, o);
        let m = lib.model();
        let now = 1_700_000_000 + g.range(0, 40_000_000);
        let (exs, lessons, courses) = (m.ids('e'), m.ids('l'), m.ids('c'));
        G { g, b: B::new(), m, lib, now, exs, lessons, courses }
    }
    fn ex(&mut self) -> String {
        if self.exs.is_empty() { "nothing".into() } else { self.g.pick(&self.exs).clone() }
    }
    fn lesson(&mut self) -> String {
        if self.lessons.is_empty() { "nothing".into() } else { self.g.pick(&self.lessons).clone() }
    }
    fn course(&mut self) -> String {
        self.g.pick(&self.courses).clone()
    }
    fn unit(&mut self) -> String {
        match self.g.below(6) {
            0..=2 => self.ex(),
            3 | 4 => self.lesson(),
            _ => self.course(),
        }
    }
    fn ts(&mut self) -> i64 {
        match self.g.below(6) {
            0 => self.now - self.g.range(0, 40) * DAY,
            1 => self.now - self.g.range(0, 3) * 60,
            2 => self.now + self.g.range(-DAY, DAY),
            _ => {
                self.now += self.g.range(1, 500);
                self.now
            }
        }
    }
    fn score(&mut self) -> u8 {
        1 + self.g.below(5) as u8
    }
    fn filter(&mut self, wild: usize) -> Filt {
        match self.g.below(10) {
            0..=3 => Filt::None,
            4 if !self.lib.filters.is_empty() => Filt::Saved(self.g.pick(&self.lib.filters).1["id"].as_str().unwrap().to_string()),
            5 => self.study_filter(),
            _ => Filt::Unit(unit_filter(&mut self.g, &self.m, wild)),
        }
    }
    fn study_filter(&mut self) -> Filt {
        if !self.lib.sessions.is_empty() && self.g.chance(0.4) {
            return Filt::SavedSession(self.g.pick(&self.lib.sessions).1["id"].as_str().unwrap().to_string(), self.now);
        }
        let n = self.g.below(4);
        let parts: Vec<Value> = (0..n).map(|_| session_part(&mut self.g, &self.m, &self.lib.filters)).collect();
        let start = self.now + self.g.range(-40, 10) * 60 + self.g.range(-1, 1);
        Filt::Session(json!({"id": "s", "description": "", "parts": parts}), start)
    }
    fn meta_filter(&mut self) -> Filt {
        if self.g.chance(0.5) { Filt::None } else { Filt::Unit(json!({"MetadataFilter": {"filter": kv_filter(&mut self.g, 2)}})) }
    }
    /// A past that leaves units at all stages of mastery. `up` raises the stages.
    fn history(&mut self, p: f64, up: f64) -> Vec<Rec> {
        let mut v = vec![];
        for l in self.lessons.clone() {
            if !self.g.chance(p) {
                continue;
            }
            let level = if self.g.chance(up) { 4 } else { self.g.below(5) };
            for x in self.m.u[&l].kids.clone() {
                if level < 4 && self.g.chance(0.12) {
                    continue;
                }
                let n = match level { 0 => 1, 1 => 1 + self.g.below(2), _ => 2 + self.g.below(9) };
                for i in 0..n {
                    let s = match level {
                        0 | 1 => *self.g.pick(&[1.0, 2.0, 3.0]),
                        2 => *self.g.pick(&[2.0, 3.0, 4.0]),
                        3 => *self.g.pick(&[3.0, 4.0, 5.0]),
                        _ => 5.0,
                    };
                    v.push((x.clone(), s, self.now - (n - i) as i64 * DAY + self.g.range(-3600, 3600)));
                }
            }
        }
        v
    }
    fn rewards(&mut self, n: usize) -> Vec<Rew> {
        let few: Vec<String> = (0..1 + self.g.below(3)).map(|_| if self.g.chance(0.1) { "extra".to_string() } else { self.unit() }).collect();
        (0..n)
            .map(|_| {
                let id = self.g.pick(&few).clone();
                let v = *self.g.pick(&[0.8f32, 0.4, -0.3, -0.5, -1.0]);
                let w = *self.g.pick(&[1.0f32, 0.95, 0.85, 0.5, 0.45]);
                let t = match self.g.below(4) { 0 => self.now, 1 => self.now - self.g.range(0, DAY), 2 => self.now + DAY + self.g.range(-1, 1), _ => self.now - self.g.range(0, 40) * DAY };
                (id, v, w, t)
            })
            .collect()
    }
    fn pass_time(&mut self, s: i64) {
        self.now += s;
    }
    fn session(&mut self, id: u32, ks: Vec<K>, faulty: bool) -> Session {
        let p = self.b.seq(ks);
        let mut s = self.b.session(id, self.now, vec![p]);
        s.faulty = faulty;
        s
    }
    fn plan(self, prop: &str, seed: u64, sessions: Vec<Session>, mut extra: Vec<String>) -> Plan {
        if self.exs.is_empty() {
            extra.push("nothing".into());
        }
        Plan { prop: prop.into(), seed, lib: self.lib, sessions, extra }
    }
    fn sched(&mut self) -> SchedCfg {
        SchedCfg { p_lock: *self.g.pick(&[0.02, 0.1, 0.3, 0.6]), p_io: *self.g.pick(&[0.0, 0.02, 0.2, 0.5]), p_hash: *self.g.pick(&[0.0, 0.002, 0.02, 0.1]), pct: self.g.chance(0.35) }
    }
}

const SMALL: GenOpts = GenOpts { generated: false, tricky: false, hidden: false, max_courses: 2, max_lessons: 2, max_exs: 3, missing: false, supersede: 0.1, encompass: 0.2, meta: false, empty: false, saved: false, wide: false };
const MID: GenOpts = GenOpts { generated: true, tricky: false, hidden: false, max_courses: 4, max_lessons: 4, max_exs: 4, missing: true, supersede: 0.2, encompass: 0.3, meta: true, empty: true, saved: true, wide: false };

pub fn plan(prop: &str, seed: u64) -> Plan {
    match prop {
        "P01" => p01(seed),
        "P02" | "P03" => sets(prop, seed),
        "P04" => p04(seed),
        "P05" => p05(seed),
        "P06" => p06(seed),
        "P07" => p07(seed),
        "P08" => p08(seed),
        "P09" | "P10" => conc(prop, seed),
        "P11" => p11(seed),
        "P12" => p12(seed),
        "P13" => p13(seed),
        "P14" | "P15" => p14(prop, seed),
        "P16" => p16(seed),
        "P17" => p17(seed),
        "P18" => p18(seed),
        "P19" => p19(seed),
        "P20" => p20(seed),
        "P21" => p21(seed),
        "P22" => p22(seed),
        "P23" => p23(seed),
        "P24" => p24(seed),
        "P25" => p25(seed),
        "P26" => p26(seed),
        "P27" => p27(seed),
        "P28" => p28(seed),
        "P30" => p30(seed),
        "P35" => p35(seed),
        "P29" => p29(seed),
        "P31" => p31(seed),
        "P32" => p32(seed),
        "P33" => p33(seed),
        "P34" => p34(seed),
        _ => panic!("no plan for {prop}"),
    }
}

fn p01(seed: u64) -> Plan {
    let mut g = G::new(seed, "P01", SMALL);
    let mut ss = vec![];
    let n = 2 + g.g.below(2);
    for i in 0..n {
        let mut ks = vec![];
        for _ in 0..2 + g.g.below(5) {
            let (ex, ts) = (if g.g.chance(0.06) { "extra".to_string() } else { g.ex() }, g.ts());
            ks.push(match g.g.below(20) {
                0..=10 => K::Score { ex, score: g.score(), ts },
                11 => K::Study { f: Filt::None, n: 1 + g.g.below(2), bias: 0, salt: g.g.next() },
                12 | 13 => {
                    let k = 1 + g.g.below(5);
                    K::RecScores((0..k).map(|_| (g.ex(), g.score() as f32, g.ts())).collect())
                }
                14 | 15 => K::GetScores { id: ex, n: *g.g.pick(&[0, 1, 2, 3, 5, 100]) },
                16 => K::Dump,
                17 => K::Reopen,
                18 => K::BlAdd(g.unit()),
                _ => K::Clock(g.g.range(-1000, 1000)),
            });
        }
        if g.g.chance(0.3) {
            ks.push(K::Dump);
        }
        let mut s = g.session(i as u32, ks, true);
        s.kill = g.g.chance(0.15);
        ss.push(s);
        let d = g.g.range(1, 100_000);
        g.pass_time(d);
    }
    let mut ks = vec![];
    for _ in 0..3 {
        ks.push(K::GetScores { id: g.ex(), n: 1 + g.g.below(4) as u32 });
    }
    ks.push(K::Dump);
    ss.push(g.session(n as u32, ks, false));
    g.plan("P01", seed, ss, vec!["extra".into()])
}

fn sets(prop: &str, seed: u64) -> Plan {
    let bl = prop == "P02";
    let mut g = G::new(seed, prop, GenOpts { tricky: true, max_courses: 4, ..SMALL });
    let mut extra: Vec<String> = NAMES.iter().map(|x| x.to_string()).collect();
    extra.extend(["c_1::l_00::e_0", "cx1::lx00::e0", "C_1::l_00", "c%1::x", "c\\1"].map(String::from));
    let mut pool = extra.clone();
    pool.extend(g.m.u.keys().cloned());
    g.g.shuffle(&mut pool);
    pool.truncate(14);
    let mut prefixes: Vec<String> = pool.iter().map(|x| x.chars().take(1 + x.len() / 2).collect()).collect();
    prefixes.extend(["", "c", "c_", "c_1", "C", "%", "_", "c%", "é", "c\\", "c_1::"].map(String::from));
    let mut ss = vec![];
    let n = 2 + g.g.below(2);
    for i in 0..n {
        let mut ks = vec![];
        for _ in 0..3 + g.g.below(7) {
            let x = if !pool.is_empty() { g.g.pick(&pool).clone() } else { g.unit() };
            let k = g.g.below(20);
            ks.push(match k {
                0..=9 => if bl { K::BlAdd(x) } else { K::RlAdd(x) },
                10..=13 => if bl { K::BlDel(x) } else { K::RlDel(x) },
                14 | 15 if bl => K::BlDelPrefix(g.g.pick(&prefixes).clone()),
                16 => K::GetSets,
                17 => K::Dump,
                18 => K::Reopen,
                19 => K::Score { ex: g.ex(), score: g.score(), ts: g.now },
                _ => if bl { K::BlAdd(x) } else { K::RlAdd(x) },
            });
        }
        if g.g.chance(0.6) {
            ks.push(K::Dump);
        }
        let mut s = g.session(i as u32, ks, true);
        s.kill = g.g.chance(0.15);
        ss.push(s);
        g.pass_time(1000);
    }
    ss.push(g.session(n as u32, vec![K::GetSets, K::Dump], false));
    g.plan(prop, seed, ss, extra)
}

fn p04(seed: u64) -> Plan {
    let mut g = G::new(seed, "P04", GenOpts { tricky: true, max_courses: 4, max_exs: 2, ..SMALL });
    let extra: Vec<String> = ["extra", "c_1::l_00::e_0", "cx1::lx00::e0", "C_1::l_00", "%"].map(String::from).to_vec();
    let mut pool = extra.clone();
    pool.extend(g.exs.iter().cloned());
    pool.extend(g.lessons.iter().cloned());
    g.g.shuffle(&mut pool);
    pool.truncate(2 + g.g.below(7));
    let tie = g.g.chance(0.35);
    let mut ss = vec![];
    let n = 2;
    for i in 0..n {
        let mut ks = vec![];
        if i == 0 || g.g.chance(0.4) {
            for part in 0..3 {
                let mut v: Vec<Rec> = vec![];
                for id in &pool {
                    for _ in 0..g.g.below(6) {
                        let t = if tie { g.now - g.g.range(0, 2) * DAY } else { g.now - g.g.range(0, 60 * DAY) };
                        v.push((id.clone(), 1.0 + g.g.below(5) as f32, t));
                    }
                }
                g.g.shuffle(&mut v);
                ks.push(match part {
                    0 => K::RecScores(v),
                    1 => K::RecDeltas(v.iter().map(|x| (x.0.clone(), x.1 - 3.0, x.2)).collect()),
                    _ => K::RecRewards(v.iter().map(|x| (x.0.clone(), 0.1 * x.1, *g.g.pick(&[1.0, 0.5, 0.2]), x.2)).collect()),
                });
            }
        }
        ks.push(K::Dump);
        for _ in 0..1 + g.g.below(3) {
            let p = match g.g.below(4) {
                0 => g.g.pick(&["", "c", "c_1", "c_", "C", "%", "c_1::", "e", "é"]).to_string(),
                1 => g.g.pick(&pool).clone(),
                _ => g.g.pick(&pool).chars().take(2 + g.g.below(4)).collect(),
            };
            let t = *g.g.pick(&[0u32, 1, 1, 2, 3, 5, 20]);
            ks.push(match g.g.below(6) {
                0 => K::TrimScores(t),
                1 => K::TrimDeltas(t),
                2 => K::TrimRewards(t),
                3 => K::DelScores(p),
                4 => K::DelDeltas(p),
                _ => K::DelRewards(p),
            });
            ks.push(K::Dump);
            if g.g.chance(0.15) {
                ks.push(K::Reopen);
                ks.push(K::Dump);
            }
        }
        let mut s = g.session(i as u32, ks, true);
        s.kill = g.g.chance(0.2);
        ss.push(s);
        g.pass_time(1000);
    }
    ss.push(g.session(n as u32, vec![K::Dump], false));
    g.plan("P04", seed, ss, extra)
}

fn p05(seed: u64) -> Plan {
    let mut g = G::new(seed, "P05", SMALL);
    let mut ss = vec![];
    let mut last: Vec<Rew> = vec![];
    let n = 2 + g.g.below(2);
    for i in 0..n {
        let mut ks = vec![K::Dump];
        for _ in 0..1 + g.g.below(4) {
            if g.g.chance(0.12) {
                ks.push(if g.g.chance(0.5) { K::TrimRewards(g.g.below(3) as u32) } else { K::DelRewards(g.unit()) });
                ks.push(K::Dump);
            }
            if g.g.chance(0.1) {
                ks.push(K::Reopen);
                ks.push(K::Dump);
            }
            let v = if !last.is_empty() && g.g.chance(0.45) {
                // The same again, or slightly different.
                let mut v = last.clone();
                for x in v.iter_mut() {
                    match g.g.below(6) {
                        0 => x.3 += DAY,
                        1 => x.2 = (x.2 - 0.1).max(0.1),
                        2 => x.1 = -x.1,
                        _ => {}
                    }
                }
                v
            } else {
                let k = *g.g.pick(&[1, 2, 3, 6, 12, 30]);
                g.rewards(k)
            };
            last = v.clone();
            ks.push(K::RecRewards(v));
            ks.push(K::Dump);
            let d = g.g.range(0, DAY);
            if g.g.chance(0.4) {
                g.pass_time(d);
                ks.push(K::Clock(d));
            }
        }
        let mut s = g.session(i as u32, ks, true);
        s.kill = g.g.chance(0.15);
        ss.push(s);
    }
    ss.push(g.session(n as u32, vec![K::Dump], false));
    g.plan("P05", seed, ss, vec!["extra".into()])
}

fn p06(seed: u64) -> Plan {
    let mut g = G::new(seed, "P06", GenOpts { max_courses: 3, max_lessons: 3, max_exs: 2, hidden: true, ..MID });
    let mut ss = vec![];
    let n = 1 + g.g.below(3);
    let clean_first = g.g.chance(0.25);
    for i in 0..n {
        let mut ks = vec![];
        for _ in 0..g.g.below(4) {
            ks.push(match g.g.below(8) {
                0..=2 => K::Score { ex: g.ex(), score: g.score(), ts: g.now },
                3 => K::BlAdd(g.unit()),
                4 => K::RlAdd(g.unit()),
                5 => K::SetPrefs { batch: g.lib.batch_size, ignored: g.lib.ignored.clone(), pad: g.g.below(200), tr: None },
                6 => K::Batch { f: Filt::None },
                _ => K::TrimScores(3),
            });
        }
        let mut s = g.session(i as u32, ks, !(clean_first && i == 0));
        s.kill = g.g.chance(0.2);
        s.dir_seed = g.g.below(3) as u64;
        ss.push(s);
        g.pass_time(1000);
    }
    let ex = g.ex();
    let ks = vec![K::LibDump, K::Score { ex: ex.clone(), score: 4, ts: g.now }, K::Batch { f: Filt::None }, K::GetScores { id: ex, n: 10 }, K::GetSets, K::GetPrefs];
    ss.push(g.session(n as u32, ks, false));
    g.plan("P06", seed, ss, vec![])
}

fn p07(seed: u64) -> Plan {
    let mut g = G::new(seed, "P07", GenOpts { max_courses: 1, max_lessons: 1, max_exs: 1, ..SMALL });
    if g.g.chance(0.3) {
        g.lib.instruments = vec!["piano".into()];
    }
    let mut ss = vec![];
    let n = 2 + g.g.below(2);
    let mut last: (Option<usize>, Vec<String>, usize, Option<Value>) = Default::default();
    for i in 0..n {
        let mut ks = vec![];
        for _ in 0..g.g.below(5) {
            ks.push(match g.g.below(7) {
                0..=3 => {
                    let one = g.g.chance(0.5).then(|| g.g.below(3));
                    if one.is_none_or(|x| x == 0) {
                        last.0 = if g.g.chance(0.8) { Some(1 + g.g.below(200)) } else { None };
                    }
                    if one.is_none_or(|x| x == 1) {
                        last.1 = (0..g.g.below(3)).map(|_| format!("zzz{}", g.g.below(5))).collect();
                        last.2 = *g.g.pick(&[0, 0, 1, 30, 120, 400]);
                    }
                    if one.is_none_or(|x| x == 2) {
                        let instruments: Vec<Value> = (0..g.g.below(3)).map(|_| { let i = *g.g.pick(&["piano", "voice", "oud"]); json!({"name": if g.g.chance(0.5) { "an instrument" } else { i }, "id": i}) }).collect();
                        let path = |g: &mut Rng| if g.chance(0.5) { Value::Null } else { json!(*g.pick(&["/simw/none", "", "/simw/other"])) };
                        last.3 = g.g.chance(0.7).then(|| json!({"instruments": instruments, "download_path": path(&mut g.g), "download_path_alias": path(&mut g.g)}));
                    }
                    K::SetPrefs { batch: last.0, ignored: last.1.clone(), pad: last.2, tr: last.3.clone() }
                }
                4 => K::Reopen,
                _ => K::GetPrefs,
            });
        }
        let mut s = g.session(i as u32, ks, true);
        s.kill = g.g.chance(0.2);
        ss.push(s);
        g.pass_time(1000);
    }
    ss.push(g.session(n as u32, vec![K::GetPrefs], false));
    g.plan("P07", seed, ss, vec![])
}

fn edits(g: &mut G) -> K {
    match g.g.below(16) {
        0 | 1 => { let k = 1 + g.g.below(4); K::RecScores((0..k).map(|_| (g.ex(), g.score() as f32, g.now - g.g.range(0, 20) * DAY)).collect()) }
        2 => { let k = 1 + g.g.below(4); K::RecDeltas((0..k).map(|_| (g.ex(), g.g.below(5) as f32 - 2.0, g.now - g.g.range(0, 20) * DAY)).collect()) }
        3 => { let k = 1 + g.g.below(3); let v = g.rewards(k); K::RecRewards(v) }
        4 => K::TrimScores(g.g.below(4) as u32),
        5 => K::TrimDeltas(g.g.below(4) as u32),
        6 => K::TrimRewards(g.g.below(3) as u32),
        7 => K::DelScores(g.unit()),
        8 => K::DelDeltas(g.unit()),
        9 => K::DelRewards(g.unit()),
        10 | 11 => K::BlAdd(g.unit()),
        12 => K::BlDel(g.unit()),
        13 => { let u = g.unit(); K::BlDelPrefix(u.chars().take(2 + g.g.below(u.len())).collect()) }
        14 => K::Invalidate(g.unit()),
        _ => K::InvalidatePrefix(g.unit()),
    }
}
fn p08(seed: u64) -> Plan {
    let mut g = G::new(seed, "P08", GenOpts { generated: seed % 4 == 0, max_courses: 3, max_lessons: 3, max_exs: 3, supersede: 0.4, encompass: 0.5, ..MID });
    let mut ss = vec![];
    let n = 1 + g.g.below(2);
    let up = *g.g.pick(&[0.1, 0.6]);
    for i in 0..n {
        let mut ks = vec![];
        if i == 0 && g.g.chance(0.85) {
            let h = g.history(0.8, up);
            ks.push(K::RecScores(h));
        }
        let mut added: Vec<String> = vec![];
        for _ in 0..3 + g.g.below(8) {
            let k = match g.g.below(14) {
                0..=3 => K::Score { ex: g.ex(), score: g.score(), ts: g.now },
                4 => K::Batch { f: g.filter(0) },
                5 => K::AllScores,
                6 => K::UnitScore { id: g.unit() },
                7 if !added.is_empty() => K::BlDel(g.g.pick(&added).clone()),
                8 => K::Coherence,
                9 => match g.g.below(4) {
                    0 => K::Coherence,
                    1 => K::AsOf(None),
                    _ => K::AsOf(Some(g.now + g.g.range(-20 * DAY, 200 * DAY))),
                },
                10 => K::RlAdd(g.unit()),
                _ => edits(&mut g),
            };
            if let K::BlAdd(x) = &k {
                added.push(x.clone());
            }
            let check = !matches!(k, K::UnitScore { .. } | K::Coherence | K::RlAdd(_)) && g.g.chance(0.5);
            ks.push(k);
            if check {
                ks.push(K::Coherence);
            }
        }
        ks.push(K::Coherence);
        let s = g.session(i as u32, ks, true);
        ss.push(s);
    }
    g.plan("P08", seed, ss, vec!["extra".into()])
}

fn conc(prop: &str, seed: u64) -> Plan {
    let mut g = G::new(seed, prop, GenOpts { generated: seed % 4 == 0, max_courses: 2, max_lessons: 3, max_exs: 3, supersede: 0.35, encompass: 0.5, ..MID });
    let mut pre = vec![];
    if g.g.chance(0.7) {
        let h = g.history(0.7, 0.5);
        pre.push(K::RecScores(h));
    }
    for _ in 0..g.g.below(4) {
        pre.push(match g.g.below(3) { 0 => K::RlAdd(g.unit()), 1 => K::BlAdd(g.unit()), _ => K::Score { ex: g.ex(), score: 1, ts: g.now } });
    }
    let mut phases = vec![g.b.seq(pre)];
    for _ in 0..1 + g.g.below(2) {
        if prop == "P09" && g.g.chance(0.5) {
            if let Some(ths) = reward_race(&mut g) {
                phases.push(g.b.par(ths));
                phases.push(g.b.seq(vec![K::Coherence]));
                continue;
            }
        }
        // Few units, so that the threads meet.
        let hot: Vec<String> = (0..1 + g.g.below(3)).map(|_| g.ex()).collect();
        let mut ths = vec![];
        for _ in 0..2 + g.g.below(3) {
            let mut t = vec![];
            for _ in 0..1 + g.g.below(5) {
                let h = g.g.pick(&hot).clone();
                let u = g.m.u.get(&h).cloned();
                let near = match (g.g.below(4), u) { (0, Some(u)) => u.lesson, (1, Some(u)) => u.course, (2, _) => g.unit(), _ => h.clone() };
                t.push(match g.g.below(16) {
                    0..=5 => K::Score { ex: h, score: g.score(), ts: g.now + g.g.range(0, 30) },
                    6..=8 => K::UnitScore { id: near },
                    9..=11 => K::Batch { f: if prop == "P10" { g.filter(1) } else { g.filter(0) } },
                    12 => K::Invalidate(near),
                    13 => K::InvalidatePrefix(near),
                    14 => K::GetScores { id: near, n: 5 },
                    _ => if g.g.chance(0.5) { K::Browse { id: near } } else { K::GetSets },
                });
            }
            ths.push(t);
        }
        phases.push(g.b.par(ths));
        phases.push(g.b.seq(vec![if prop == "P09" { K::Coherence } else { K::Dump }]));
    }
    let mut s = g.b.session(0, g.now, phases);
    s.sched = g.sched();
    g.plan(prop, seed, vec![s], vec!["extra".into()])
}

/// Submissions by one thread while others query what they reward.
fn reward_race(g: &mut G) -> Option<Vec<Vec<K>>> {
    let good = g.g.chance(0.6);
    let mut found = vec![];
    for ex in g.m.ids('e') {
        let c: Vec<String> = crate::oracle::reward_closure(&g.m, &ex, good).into_iter().filter(|u| !g.m.exs_of(u).is_empty()).collect();
        if !c.is_empty() {
            found.push((ex, c));
        }
    }
    if found.is_empty() {
        return None;
    }
    let (ex, targets) = g.g.pick(&found).clone();
    let mut hot = vec![];
    for _ in 0..1 + g.g.below(2) {
        let t = g.g.pick(&targets).clone();
        let x = g.g.pick(&g.m.exs_of(&t)).clone();
        hot.push(g.m.u[&x].lesson.clone());
        hot.push(t);
        hot.push(x);
    }
    let mut ths = vec![];
    let mut w = vec![];
    for _ in 0..1 + g.g.below(2) {
        let score = if good { *g.g.pick(&[4, 5]) } else { *g.g.pick(&[1, 2, 3]) };
        w.push(K::Score { ex: ex.clone(), score, ts: g.now + g.g.range(0, 30) });
    }
    ths.push(w);
    for _ in 0..1 + g.g.below(3) {
        let n = 2 + g.g.below(5);
        ths.push((0..n).map(|_| if g.g.chance(0.85) { K::UnitScore { id: g.g.pick(&hot).clone() } } else { K::Batch { f: g.filter(0) } }).collect());
    }
    Some(ths)
}

fn wild_ts(g: &mut G) -> i64 {
    match g.g.below(12) {
        0 => 0,
        1 => -10_000_000_000,
        2 => 100_000_000_000,
        3 => i64::MAX,
        4 => i64::MIN,
        5 => -1,
        6 => g.now + g.g.range(0, 400) * DAY,
        7 => g.now - g.g.range(0, 20_000) * DAY,
        8 => 4_000_000_000,
        9 => g.g.next() as i64,
        _ => g.ts(),
    }
}
fn p11(seed: u64) -> Plan {
    let mut g = G::new(seed, "P11", GenOpts { max_courses: 2, max_lessons: 3, max_exs: 3, ..MID });
    let mut ss = vec![];
    let n = 1 + g.g.below(2);
    for i in 0..n {
        let mut ks = vec![];
        for _ in 0..4 + g.g.below(8) {
            let t = wild_ts(&mut g);
            ks.push(match g.g.below(14) {
                0..=2 => K::Score { ex: g.ex(), score: g.score(), ts: t },
                3 | 4 => {
                    let k = 1 + g.g.below(25);
                    let x = g.ex();
                    K::RecScores((0..k).map(|_| (if g.g.chance(0.8) { x.clone() } else { g.ex() }, *g.g.pick(&[1.0, 2.0, 3.0, 4.0, 5.0]), if g.g.chance(0.5) { wild_ts(&mut g) } else { g.now - g.g.range(0, 2000) * DAY / 7 })).collect())
                }
                5 => { let k = 1 + g.g.below(25); let x = g.ex(); K::RecDeltas((0..k).map(|_| (x.clone(), *g.g.pick(&[-5.0, -4.0, -1.0, 0.0, 0.5, 4.0, 5.0]), wild_ts(&mut g))).collect()) }
                6 | 7 => {
                    let k = 1 + g.g.below(12);
                    let x = if g.g.chance(0.5) { g.lesson() } else { g.course() };
                    K::RecRewards((0..k).map(|_| (x.clone(), *g.g.pick(&[0.8, 0.4, -0.3, -0.5, -1.0]), *g.g.pick(&[1.0, 0.5, 0.2]), if g.g.chance(0.5) { wild_ts(&mut g) } else { g.now - g.g.range(0, 30) * DAY })).collect())
                }
                8 => K::Clock(*g.g.pick(&[-2 * DAY, 1, DAY, 30 * DAY, 365 * DAY, 10_000 * DAY, -365 * DAY, -10_000 * DAY])),
                9 => K::BlAdd(g.unit()),
                10 => K::Study { f: Filt::None, n: 4, bias: g.g.below(3) as u8, salt: g.g.next() },
                11 => K::ScoreObs { ex: g.ex(), score: g.score(), ts: t },
                _ => K::AllScores,
            });
            if g.g.chance(0.5) {
                ks.push(K::AllScores);
            }
        }
        ks.push(K::AllScores);
        let s = g.session(i as u32, ks, false);
        ss.push(s);
        g.now = match g.g.below(5) { 0 => 1000, 1 => g.now - 400 * DAY, 2 => 4_100_000_000, _ => g.now + g.g.range(0, 900) * DAY };
    }
    g.plan("P11", seed, ss, vec!["extra".into()])
}

fn p12(seed: u64) -> Plan {
    let mut g = G::new(seed, "P12", GenOpts { generated: seed % 4 == 0, max_courses: 4, max_lessons: 4, max_exs: 2, encompass: 0.6, supersede: 0.1, ..MID });
    let mut ks = vec![];
    if g.g.chance(0.8) {
        let h = g.history(0.9, 0.3);
        ks.push(K::RecScores(h));
    }
    for _ in 0..2 + g.g.below(6) {
        if g.g.chance(0.1) {
            ks.push(K::BlAdd(g.unit()));
        }
        if g.g.chance(0.3) {
            ks.push(K::Clock(*g.g.pick(&[1, 3600, DAY, 3 * DAY])));
        }
        ks.push(K::ScoreObs { ex: g.ex(), score: *g.g.pick(&[1u8, 1, 2, 3, 4, 5, 5, 5]), ts: g.now });
    }
    let s = g.session(0, ks, false);
    g.plan("P12", seed, vec![s], vec![])
}

fn p13(seed: u64) -> Plan {
    let mut g = G::new(seed, "P13", GenOpts { missing: false, ..MID });
    let mut ss = vec![];
    let n = 1 + g.g.below(2);
    let mut added: Vec<String> = vec![];
    for i in 0..n {
        let mut ks = vec![];
        if i == 0 && g.g.chance(0.6) {
            let h = g.history(0.6, 0.5);
            ks.push(K::RecScores(h));
        }
        for _ in 0..4 + g.g.below(8) {
            match g.g.below(12) {
                0..=2 => {
                    let x = g.unit();
                    added.push(x.clone());
                    ks.push(K::BlAdd(x));
                }
                3 if !added.is_empty() => {
                    let k = g.g.below(added.len());
                    let x = added.swap_remove(k);
                    ks.push(if g.g.chance(0.3) { K::BlDelPrefix(x.clone()) } else { K::BlDel(x.clone()) });
                    let l = match g.m.u.get(&x) {
                        Some(u) if u.ty == 'c' => u.kids.first().cloned(),
                        Some(u) => Some(u.lesson.clone()),
                        None => None,
                    };
                    if let Some(l) = l {
                        if g.g.chance(0.6) {
                            ks.push(K::Eligible { course: g.m.u[&l].course.clone(), lesson: l, tries: 300 });
                        }
                    }
                }
                4 => ks.push(K::RlAdd(g.unit())),
                5 => ks.push(K::Score { ex: g.ex(), score: 1 + g.g.below(2) as u8, ts: g.now }),
                6 => ks.push(K::Study { f: g.filter(0), n: 4, bias: 2, salt: g.g.next() }),
                7 => ks.push(K::Batch { f: Filt::Unit(json!("ReviewListFilter")) }),
                _ => ks.push(K::Batch { f: g.filter(0) }),
            }
        }
        for _ in 0..3 {
            ks.push(K::Batch { f: g.filter(0) });
        }
        let s = g.session(i as u32, ks, true);
        ss.push(s);
        g.pass_time(600);
    }
    g.plan("P13", seed, ss, vec![])
}

fn p14(prop: &str, seed: u64) -> Plan {
    let sup = prop == "P15";
    let mut g = G::new(seed, prop, GenOpts { generated: seed % 4 == 0, saved: false, supersede: if sup { 0.6 } else { 0.2 }, max_courses: 4, max_lessons: 4, max_exs: 3, ..MID });
    if g.g.chance(0.5) {
        g.lib.batch_size = Some(50);
        g.lib.write_prefs = true;
    }
    let mut ss = vec![];
    let n = 1 + g.g.below(2);
    for i in 0..n {
        let mut ks = vec![];
        if i == 0 {
            let (p, up) = if sup { (0.9, 0.8) } else { (*g.g.pick(&[0.3, 0.6, 0.9]), *g.g.pick(&[0.2, 0.5, 0.8])) };
            let h = g.history(p, up);
            ks.push(K::RecScores(h));
        }
        let superseders: Vec<String> = g.m.u.values().filter(|u| !u.sup.is_empty()).map(|u| u.id.clone()).collect();
        let target: Vec<String> = g.m.sup_by.keys().filter(|k| g.m.u.contains_key(*k)).cloned().collect();
        for _ in 0..4 + g.g.below(6) {
            match g.g.below(12) {
                0 => ks.push(K::BlAdd(g.unit())),
                1 => ks.push(K::BlDel(g.unit())),
                2 => ks.push(K::Study { f: g.meta_filter(), n: 6, bias: 1, salt: g.g.next() }),
                3 if sup && !superseders.is_empty() => {
                    // The superseding unit falls back.
                    let u = g.g.pick(&superseders).clone();
                    for x in g.m.exs_of(&u) {
                        for k in 0..2 {
                            ks.push(K::Score { ex: x.clone(), score: 1, ts: g.now + k });
                        }
                    }
                    if !target.is_empty() {
                        let t = g.g.pick(&target).clone();
                        let l = if g.m.u[&t].ty == 'l' { Some(t) } else { g.m.u[&t].kids.first().cloned() };
                        if let Some(l) = l {
                            ks.push(K::Eligible { course: g.m.u[&l].course.clone(), lesson: l, tries: 200 });
                        }
                    }
                }
                4 if sup && !superseders.is_empty() => {
                    let u = g.g.pick(&superseders).clone();
                    for x in g.m.exs_of(&u) {
                        for k in 0..2 {
                            ks.push(K::Score { ex: x.clone(), score: 5, ts: g.now + k });
                        }
                    }
                }
                5 => ks.push(K::Score { ex: g.ex(), score: g.score(), ts: g.now }),
                6 => ks.push(K::Reopen),
                7 if sup => ks.push(K::Batch { f: Filt::Unit(json!({"CourseFilter": {"course_ids": [g.course()]}})) }),
                8 => {
                    // A lesson failed or mastered as a whole.
                    let l = g.lesson();
                    let s = *g.g.pick(&[1u8, 2, 5, 5]);
                    for x in g.m.exs_of(&l) {
                        for k in 0..2 {
                            ks.push(K::Score { ex: x.clone(), score: s, ts: g.now + k });
                        }
                    }
                }
                _ => ks.push(K::Batch { f: g.meta_filter() }),
            }
            ks.push(K::Batch { f: g.meta_filter() });
        }
        let s = g.session(i as u32, ks, false);
        ss.push(s);
        let d = g.g.range(0, 2) * DAY;
        g.pass_time(d);
    }
    g.plan(prop, seed, ss, vec![])
}

fn p16(seed: u64) -> Plan {
    let mut g = G::new(seed, "P16", GenOpts { tricky: seed % 3 == 0, ..MID });
    let mut ks = vec![];
    if g.g.chance(0.8) {
        let h = g.history(0.8, 0.6);
        ks.push(K::RecScores(h));
    }
    for _ in 0..4 + g.g.below(6) {
        match g.g.below(10) {
            0 => ks.push(K::RlAdd(if g.g.chance(0.15) { "unknown::unit".into() } else { g.unit() })),
            1 => ks.push(K::RlDel(g.unit())),
            2 => ks.push(K::BlAdd(g.unit())),
            3 => ks.push(K::Score { ex: g.ex(), score: g.score(), ts: g.now }),
            4 if !g.lib.filters.is_empty() => ks.push(K::Batch { f: Filt::Saved(g.g.pick(&g.lib.filters).1["id"].as_str().unwrap().into()) }),
            5 => ks.push(K::Study { f: Filt::Unit(unit_filter(&mut g.g, &g.m, 1)), n: 5, bias: 1, salt: g.g.next() }),
            _ => {}
        }
        ks.push(K::Batch { f: Filt::Unit(unit_filter(&mut g.g, &g.m, 1)) });
    }
    let s = g.session(0, ks, false);
    g.plan("P16", seed, vec![s], vec![])
}

fn p17(seed: u64) -> Plan {
    let mut g = G::new(seed, "P17", GenOpts { max_courses: 4, max_lessons: 2, max_exs: 2, missing: false, ..MID });
    let mut ks = vec![];
    if g.g.chance(0.8) {
        let h = g.history(0.9, 0.7);
        ks.push(K::RecScores(h));
    }
    let start = g.now;
    for _ in 0..2 + g.g.below(3) {
        let n = g.g.below(5);
        let parts: Vec<Value> = (0..n)
            .map(|_| {
                let mut p = session_part(&mut g.g, &g.m, &g.lib.filters);
                if g.g.chance(0.08) {
                    let o = p.as_object_mut().unwrap();
                    o.values_mut().next().unwrap()["duration"] = json!(*g.g.pick(&[u32::MAX, u32::MAX - 3, 2_000_000_000]));
                }
                p
            })
            .collect();
        let f = if !g.lib.sessions.is_empty() && g.g.chance(0.3) { Filt::SavedSession(g.g.pick(&g.lib.sessions).1["id"].as_str().unwrap().to_string(), start) } else { Filt::Session(json!({"id": "s", "description": "", "parts": parts}), start) };
        // Moments at and around the boundaries between parts.
        let mut ends = vec![0i64];
        for p in &parts {
            let d = p.as_object().unwrap().values().next().unwrap()["duration"].as_i64().unwrap();
            ends.push(ends.last().unwrap() + d);
        }
        for _ in 0..1 + g.g.below(4) {
            let want = start + match g.g.below(8) {
                0 => -g.g.range(1, 100_000),
                1 => *g.g.pick(&[-1, 0, 59, 60]),
                2 => ends.last().unwrap().min(&10_000_000) * 60 + g.g.range(0, 10_000),
                3 => *g.g.pick(&[300_000_000_000, 257_698_037_760 + 61, -300_000_000_000]),
                _ => g.g.pick(&ends).min(&10_000_000) * 60 + *g.g.pick(&[-61, -60, -1, 0, 1, 59, 60]),
            };
            // The clock of a computer does not go before 1970 nor far beyond 2200.
            let want = want.clamp(0, 7_258_118_400);
            ks.push(K::Clock(want - g.now));
            g.now = want;
            ks.push(K::SessionProbe { f: f.clone() });
        }
        if g.g.chance(0.2) {
            ks.push(K::RlAdd(g.unit()));
        }
    }
    let mut s = g.session(0, ks, false);
    s.start = start;
    g.plan("P17", seed, vec![s], vec![])
}

fn p18(seed: u64) -> Plan {
    let wide = seed % 2 == 0;
    let mut g = G::new(seed, "P18", GenOpts { wide, max_courses: if wide { 8 } else { 4 }, max_lessons: if wide { 8 } else { 4 }, max_exs: if wide { 6 } else { 4 }, ..MID });
    let mut ks = vec![];
    let (p, up) = (*g.g.pick(&[0.0, 0.5, 0.9]), *g.g.pick(&[0.0, 0.3, 0.8]));
    let h = g.history(p, up);
    ks.push(K::RecScores(h));
    for _ in 0..4 + g.g.below(6) {
        match g.g.below(8) {
            0 => {
                let x = g.ex();
                ks.push(K::RlAdd(x.clone()));
                if let Some(u) = g.m.u.get(&x) {
                    ks.push(K::RlAdd(if g.g.chance(0.5) { u.lesson.clone() } else { u.course.clone() }));
                }
                ks.push(K::Batch { f: Filt::Unit(json!("ReviewListFilter")) });
            }
            1 => ks.push(K::Study { f: g.filter(1), n: 10, bias: g.g.below(3) as u8, salt: g.g.next() }),
            2 => ks.push(K::Score { ex: g.ex(), score: 1, ts: g.now }),
            3 => ks.push(K::BlAdd(g.unit())),
            4 => {
                let (a, b) = (g.lesson(), g.lesson());
                ks.push(K::Batch { f: Filt::Unit(json!({"LessonFilter": {"lesson_ids": [a, b, a]}})) });
            }
            5 => ks.push(K::Clock(g.g.range(0, 3) * DAY)),
            _ => {}
        }
        ks.push(K::Batch { f: g.filter(1) });
    }
    let s = g.session(0, ks, false);
    g.plan("P18", seed, vec![s], vec![])
}

fn p19(seed: u64) -> Plan {
    let mut g = G::new(seed, "P19", GenOpts { generated: seed % 4 == 0, saved: false, max_courses: 4, max_lessons: 4, max_exs: 3, supersede: 0.3, ..MID });
    let mut ss = vec![];
    let n = g.g.below(3);
    for i in 0..n {
        let mut ks = vec![];
        if i == 0 && g.g.chance(0.6) {
            let up = *g.g.pick(&[0.1, 0.5, 0.9]);
            let h = g.history(0.6, up);
            ks.push(K::RecScores(h));
        }
        for _ in 0..2 + g.g.below(5) {
            ks.push(match g.g.below(8) {
                0..=2 => K::Study { f: g.filter(0), n: 8, bias: g.g.below(3) as u8, salt: g.g.next() },
                3 => K::BlAdd(g.unit()),
                4 => K::BlDel(g.unit()),
                5 => K::RlAdd(g.unit()),
                6 => K::Clock(g.g.range(0, 40) * DAY),
                _ => K::Score { ex: g.ex(), score: g.score(), ts: g.now },
            });
        }
        let mut s = g.session(i as u32, ks, true);
        s.kill = g.g.chance(0.2);
        ss.push(s);
        let d = g.g.range(1, 60) * DAY;
        g.pass_time(d);
    }
    let mut ks = vec![];
    if g.g.chance(0.3) {
        let mut o = json!({"max_lessons_in_progress": 1 + g.g.below(3)});
        if g.g.chance(0.5) {
            o["batch_size"] = json!(*g.g.pick(&[1, 2, 5, 10, 80]));
        }
        ks.push(K::Options(o));
    }
    if g.g.chance(0.3) {
        for _ in 0..1 + g.g.below(3) {
            let l = g.lesson();
            ks.extend(g.m.exs_of(&l).into_iter().map(K::BlAdd));
        }
    }
    for _ in 0..g.g.below(3) {
        ks.push(K::Study { f: g.filter(0), n: 8, bias: g.g.below(3) as u8, salt: g.g.next() });
    }
    ks.push(K::Diligent { rounds: 0 });
    ss.push(g.session(n as u32, ks, false));
    g.plan("P19", seed, ss, vec![])
}

fn p20(seed: u64) -> Plan {
    let mut g = G::new(seed, "P20", GenOpts { max_courses: 4, max_lessons: 4, max_exs: 5, ..MID });
    if g.g.chance(0.7) {
        g.lib.batch_size = Some(*g.g.pick(&[10, 15, 20, 25, 30, 50, 100]));
        g.lib.write_prefs = true;
    }
    let mut ks = vec![];
    if g.g.chance(0.5) {
        let h = g.history(0.6, 0.5);
        ks.push(K::RecScores(h));
    }
    if g.g.chance(0.3) {
        ks.push(K::Options(json!({"batch_size": *g.g.pick(&[1, 2, 3, 4, 7, 10, 20]), "relearn_fraction": *g.g.pick(&[0.0, 0.05, 0.2, 0.37, 0.5, 0.9, 1.0])})));
    }
    let mut failed: Vec<String> = vec![];
    for _ in 0..5 + g.g.below(10) {
        match g.g.below(10) {
            0..=2 => {
                let x = g.ex();
                failed.push(x.clone());
                ks.push(K::Score { ex: x, score: 1 + g.g.below(2) as u8, ts: g.now });
            }
            3 if !failed.is_empty() => {
                let x = g.g.pick(&failed).clone();
                ks.push(K::Score { ex: x, score: 3 + g.g.below(3) as u8, ts: g.now });
            }
            4 if !failed.is_empty() => {
                let x = g.g.pick(&failed).clone();
                let u = g.m.u.get(&x).cloned();
                ks.push(K::BlAdd(match (g.g.below(3), u) { (0, Some(u)) => u.lesson, (1, Some(u)) => u.course, _ => x }));
            }
            5 => ks.push(K::Study { f: g.filter(0), n: 12, bias: 2, salt: g.g.next() }),
            6 => ks.push(K::Clock(g.g.range(0, 3) * DAY)),
            _ => {}
        }
        ks.push(K::Batch { f: g.filter(0) });
    }
    let s = g.session(0, ks, true);
    g.plan("P20", seed, vec![s], vec![])
}

/// Valid scheduler options that differ from the defaults in a few respects.
fn options(g: &mut Rng, few: bool) -> Value {
    let mut o = json!({});
    let n = if few { 1 } else { 1 + g.below(4) };
    for _ in 0..n {
        match g.below(9) {
            0 | 1 => o["batch_size"] = json!(*g.pick(&[1, 2, 3, 5, 8, 10, 12, 20, 40, 80])),
            2 => o["relearn_fraction"] = json!(*g.pick(&[0.0, 0.05, 0.3, 0.5, 1.0])),
            3 => o["passing_score"] = json!({"min_score": *g.pick(&[1.0, 2.0, 3.5, 4.2, 4.8]), "min_fraction": *g.pick(&[0.2, 0.5, 1.0]), "min_avg_trials": *g.pick(&[0.5, 1.0, 1.5, 2.4, 4.5])}),
            4 => o["superseding_score"] = json!(*g.pick(&[1.0, 2.0, 3.0, 4.5, 4.9])),
            5 => o["num_trials"] = json!(1 + g.below(6)),
            6 => if g.chance(0.5) { o["num_rewards"] = json!(1 + g.below(3)) } else { o["num_deltas"] = json!(1 + g.below(4)) },
            7 => o["max_lessons_in_progress"] = json!(1 + g.below(4)),
            _ => {
                o["target_window_opts"] = json!({"percentage": 0.2, "range": [0.1, 1.5]});
                o["current_window_opts"] = json!({"percentage": 0.3, "range": [1.5, 3.75]});
            }
        }
    }
    o
}
fn p26(seed: u64) -> Plan {
    let mut g = G::new(seed, "P26", GenOpts { max_courses: 2, max_lessons: 2, max_exs: 3, encompass: 0.6, ..MID });
    let mut ss = vec![];
    let n = 1 + g.g.below(2);
    // Intervals of seconds up to years.
    let gap = |g: &mut G| match g.g.below(6) {
        0 => g.g.range(0, 30),
        1 => g.g.range(60, 80_000),
        2 | 3 => g.g.range(50_000, 15 * DAY),
        4 => g.g.range(5 * DAY, 90 * DAY),
        _ => g.g.range(30 * DAY, 900 * DAY),
    };
    for i in 0..n {
        let mut ks = vec![];
        for _ in 0..4 + g.g.below(8) {
            let now = g.now;
            ks.push(match g.g.below(12) {
                0 | 1 => K::Score { ex: g.ex(), score: g.score(), ts: g.now },
                2..=4 => {
                    let (x, k, scale) = (g.ex(), 1 + g.g.below(24), g.g.below(3));
                    let grades: &[f32] = g.g.pick(&[&[1.0, 2.0, 3.0, 4.0, 5.0][..], &[4.0, 5.0], &[3.0, 4.0], &[1.0, 2.0, 3.0]]);
                    let mut t = g.now - gap(&mut g);
                    let mut v = vec![];
                    for _ in 0..k {
                        v.push((x.clone(), *g.g.pick(grades), t));
                        t -= if scale == 0 { gap(&mut g) } else { gap(&mut g) % (5 * DAY) };
                    }
                    v.reverse();
                    K::RecScores(v)
                }
                5 | 6 => {
                    let (x, k) = (g.ex(), 1 + g.g.below(24));
                    K::RecDeltas((0..k).map(|_| (x.clone(), g.g.range(-400, 400) as f32 / 100.0, now - gap(&mut g))).collect())
                }
                7 | 8 => {
                    let (x, k) = (if g.g.chance(0.5) { g.lesson() } else { g.course() }, 1 + g.g.below(12));
                    let sign = *g.g.pick(&[1.0, -1.0]);
                    K::RecRewards((0..k).map(|_| (x.clone(), sign * g.g.range(-20, 100) as f32 / 100.0, g.g.range(5, 100) as f32 / 100.0, now - gap(&mut g) % (60 * DAY))).collect())
                }
                9 => K::AsOf(if g.g.chance(0.3) { None } else { Some(g.now + gap(&mut g) * if g.g.chance(0.3) { -1 } else { 1 }) }),
                _ => K::Clock(*g.g.pick(&[1, 3600, DAY, 6 * DAY, 8 * DAY, 30 * DAY, 51 * DAY, 400 * DAY, -2 * DAY, -40 * DAY])),
            });
            if g.g.chance(0.4) {
                ks.push(K::Coherence);
            }
        }
        ks.push(K::Coherence);
        let s = g.session(i as u32, ks, false);
        ss.push(s);
        g.now += gap(&mut g);
    }
    g.plan("P26", seed, ss, vec![])
}

fn p27(seed: u64) -> Plan {
    let fresh = seed % 4 == 0;
    let mut g = if fresh {
        G::new(seed, "P27", GenOpts { generated: false, missing: false, saved: false, wide: true, max_courses: 6, max_lessons: 6, max_exs: 6, ..MID })
    } else {
        G::new(seed, "P27", GenOpts { generated: seed % 4 == 0, max_courses: 4, max_lessons: 4, max_exs: 4, supersede: 0.4, encompass: 0.4, ..MID })
    };
    if g.g.chance(0.5) {
        g.lib.batch_size = Some(*g.g.pick(&[3, 10, 15, 30]));
        g.lib.write_prefs = true;
    }
    let mut ss = vec![];
    let n = 1 + g.g.below(2);
    for i in 0..n {
        let mut ks = vec![];
        if i == 0 && !fresh {
            let (p, up) = (*g.g.pick(&[0.3, 0.6, 0.9]), *g.g.pick(&[0.2, 0.5, 0.8]));
            let h = g.history(p, up);
            ks.push(K::RecScores(h));
            if g.g.chance(0.5) {
                let (k, now) = (1 + g.g.below(12), g.now);
                let v = (0..k).map(|i| (g.ex(), g.g.range(-30, 30) as f32 / 10.0, now - (k - i) as i64 * 7000)).collect();
                ks.push(K::RecDeltas(v));
            }
            if g.g.chance(0.5) {
                let (k, now) = (1 + g.g.below(8), g.now);
                let v = (0..k).map(|i| (g.unit(), g.g.range(-10, 10) as f32 / 10.0, 0.5, now - (k - i) as i64 * 90_000)).collect();
                ks.push(K::RecRewards(v));
            }
        }
        ks.push(K::GetOptions);
        let mut ts = g.now;
        for _ in 0..3 + g.g.below(5) {
            if !fresh && g.g.chance(0.4) {
                // Caches scores under the previous options.
                ks.push(if g.g.chance(0.5) { K::Batch { f: Filt::None } } else { K::AllScores });
            }
            match g.g.below(10) {
                0..=4 => ks.push(K::Options(options(&mut g.g, fresh))),
                5 => ks.push(K::Options(Value::Null)),
                6 => {
                    ks.push(K::SetPrefs { batch: if g.g.chance(0.3) { None } else { Some(*g.g.pick(&[4, 11, 25, 60])) }, ignored: vec![], pad: 0, tr: None });
                    if g.g.chance(0.6) {
                        ks.push(K::Reopen);
                    }
                }
                7 if !fresh => ks.push(K::Study { f: g.meta_filter(), n: 5, bias: 1 + g.g.below(2) as u8, salt: g.g.next() }),
                8 if !fresh => {
                    for _ in 0..1 + g.g.below(8) {
                        ts += 1;
                        ks.push(K::Score { ex: g.ex(), score: 1 + g.g.below(2) as u8, ts });
                    }
                }
                9 => ks.push(K::Reopen),
                _ => {}
            }
            ks.push(K::GetOptions);
            if fresh {
                ks.push(K::SizeProbe);
            } else if g.g.chance(0.5) {
                ks.push(K::Coherence);
            }
            for _ in 0..1 + g.g.below(3) {
                ks.push(K::Batch { f: if g.g.chance(0.5) { g.meta_filter() } else { g.filter(0) } });
            }
        }
        let s = g.session(i as u32, ks, false);
        ss.push(s);
    }
    g.plan("P27", seed, ss, vec![])
}

fn p28(seed: u64) -> Plan {
    let size = seed % 3;
    let mut g = G::new(seed, "P28", GenOpts { generated: false, saved: false, wide: true, max_courses: [2, 5, 8][size as usize], max_lessons: [3, 5, 8][size as usize], max_exs: [4, 9, 14][size as usize], supersede: 0.1, ..MID });
    if g.g.chance(0.4) {
        // Much of the library covers one unit.
        let hub = if g.g.chance(0.5) { g.lesson() } else { g.course() };
        let (w, p) = (*g.g.pick(&[0.3f32, 0.5, 0.9, 1.0]), *g.g.pick(&[0.3, 0.7, 1.0]));
        let of = g.m.u.get(&hub).map(|u| u.course.clone());
        for c in g.lib.courses.iter_mut() {
            if c.id == hub || Some(&c.id) == of.as_ref() {
                continue;
            }
            for l in c.lessons.iter_mut() {
                if g.g.chance(p) && !l.enc.iter().any(|e| e.0 == hub) {
                    l.enc.push((hub.clone(), w));
                }
            }
        }
        g.m = g.lib.model();
    }
    if g.g.chance(0.3) {
        g.lib.batch_size = Some(*g.g.pick(&[1, 4, 9, 10, 17, 40]));
        g.lib.write_prefs = true;
    }
    let mut ss = vec![];
    let n = 1 + g.g.below(2);
    for i in 0..n {
        let mut ks = vec![];
        if g.g.chance(0.9) {
            let (p, up) = (*g.g.pick(&[0.3, 0.7, 1.0]), *g.g.pick(&[0.1, 0.4, 0.8]));
            let h = g.history(p, up);
            ks.push(K::RecScores(h));
        }
        let mut ts = g.now;
        for _ in 0..4 + g.g.below(8) {
            match g.g.below(12) {
                0..=2 => {
                    let mut o = options(&mut g.g, false);
                    o.as_object_mut().unwrap().retain(|k, _| !k.starts_with("num"));
                    if g.g.chance(0.6) {
                        let p = o["passing_score"]["min_score"].as_f64().unwrap_or(3.5);
                        o["passing_score"] = json!({"min_score": if p < 4.0 { p } else { 3.0 }, "min_fraction": 1.0, "min_avg_trials": 1.5});
                    }
                    if o["passing_score"]["min_score"].as_f64().is_some_and(|p| p >= 4.0) {
                        o.as_object_mut().unwrap().remove("passing_score");
                    }
                    if g.g.chance(0.3) {
                        let w = *g.g.pick(&[[0.1, 0.3, 0.4, 0.1, 0.1], [0.5, 0.1, 0.2, 0.1, 0.1], [0.05, 0.05, 0.1, 0.3, 0.5], [0.0, 0.25, 0.5, 0.25, 0.0]]);
                        let r = [[0.0, 0.1], [0.1, 2.5], [2.5, 3.75], [3.75, 4.5], [4.5, 5.0]];
                        for (i, k) in ["new", "target", "current", "easy", "mastered"].iter().enumerate() {
                            o[format!("{k}_window_opts")] = json!({"percentage": w[i], "range": r[i]});
                        }
                    }
                    ks.push(K::Options(o));
                }
                3 => ks.push(K::Options(Value::Null)),
                4 | 5 => ks.push(K::Study { f: Filt::None, n: 1 + g.g.below(12), bias: g.g.below(4) as u8, salt: g.g.next() }),
                6 => {
                    let (k, bad) = (1 + g.g.below(20), g.g.chance(0.3));
                    for _ in 0..k {
                        ts += 1;
                        ks.push(K::Score { ex: g.ex(), score: if bad { g.score() } else { 3 + g.g.below(3) as u8 }, ts });
                    }
                }
                7 => ks.push(K::BlAdd(g.unit())),
                8 => ks.push(K::BlDel(g.unit())),
                9 => ks.push(K::Reopen),
                10 => ks.push(K::Clock(g.g.range(0, 20 * DAY))),
                _ => {}
            }
            for _ in 0..1 + g.g.below(3) {
                ks.push(K::MixProbe(g.g.next()));
            }
        }
        let s = g.session(i as u32, ks, false);
        ss.push(s);
        let d = g.g.range(1, 5 * DAY);
        g.pass_time(d);
    }
    g.plan("P28", seed, ss, vec![])
}

fn p30(seed: u64) -> Plan {
    let (chain, cross) = (seed % 2 == 0, seed % 4 == 3);
    let mut g = if chain {
        let few = Rng::derive(seed, 30, 0, 0).chance(0.7);
        G::new(seed, "P30", GenOpts { generated: false, saved: false, missing: false, empty: false, max_courses: 2, max_lessons: 14, max_exs: if few { 1 } else { 2 }, supersede: 0.0, encompass: 0.3, ..MID })
    } else {
        let (max_courses, max_lessons) = if cross { (7, 2) } else { (3, 6) };
        G::new(seed, "P30", GenOpts { generated: false, saved: false, wide: true, max_courses, max_lessons, max_exs: 4, supersede: 0.0, encompass: 0.5, ..MID })
    };
    if cross {
        // Courses and lessons cover ones of earlier courses, so that coverage runs through the courses of lessons.
        let all: Vec<(String, Vec<String>)> = g.lib.courses.iter().map(|c| (c.id.clone(), c.lessons.iter().map(|l| l.id.clone()).collect())).collect();
        for (i, c) in g.lib.courses.iter_mut().enumerate() {
            let (deps, weight) = (g.g.chance(0.5), |g: &mut Rng| *g.pick(&[1.0, 1.0, 0.8, 0.5]));
            c.deps.clear();
            c.enc.clear();
            if i > 0 && g.g.chance(0.6) {
                let to = all[g.g.below(i)].0.clone();
                if deps { c.deps.push(to) } else { c.enc.push((to, weight(&mut g.g))) }
            }
            for l in c.lessons.iter_mut() {
                l.deps.clear();
                l.enc.clear();
                if i > 0 && g.g.chance(0.6) {
                    let v = &all[g.g.below(i)].1;
                    if !v.is_empty() {
                        l.enc.push((g.g.pick(v).clone(), weight(&mut g.g)));
                    }
                }
            }
        }
        g.m = g.lib.model();
    }
    if chain {
        // Each lesson comes after at most one other of its course.
        let (long, enc) = (*g.g.pick(&[0.7, 0.95]), g.g.chance(0.5));
        for c in g.lib.courses.iter_mut() {
            let ids: Vec<String> = c.lessons.iter().map(|l| l.id.clone()).collect();
            c.deps.clear();
            for (i, l) in c.lessons.iter_mut().enumerate() {
                l.deps = if i == 0 || g.g.chance(0.1) { vec![] } else { vec![ids[if g.g.chance(long) { i - 1 } else { g.g.below(i) }].clone()] };
                l.enc.retain(|e| !ids.contains(&e.0));
                if !enc {
                    l.enc = l.deps.iter().map(|d| (d.clone(), 0.0)).collect();
                }
            }
        }
        g.m = g.lib.model();
    }
    let mut ss = vec![];
    let n = 1 + g.g.below(2);
    for i in 0..n {
        let mut ks = vec![];
        let mut h = vec![];
        let (base, old) = (1 + g.g.below(5) as i64, g.g.chance(0.5));
        // Many exercises at the same stage compete for a place.
        let same = g.g.chance(0.5);
        for x in g.exs.clone() {
            if i > 0 && g.g.chance(0.7) || g.g.chance(0.1) {
                continue;
            }
            let k = 1 + g.g.below(if same { 3 } else { 6 });
            let mut t = g.now - *g.g.pick(if old { &[9, 20, 45, 60, 100, 200][..] } else { &[0, 1, 2, 4, 9, 20][..] }) * DAY - g.g.range(600, DAY);
            let trend = g.g.range(-1, 1);
            for j in 0..k {
                let off = if same { 0 } else { g.g.range(0, 2) - 1 };
                h.push((x.clone(), (base + off + trend * (j as i64 / 2)).clamp(1, 5) as f32, t));
                t -= *g.g.pick(&[1, 1, 2, 5]) * DAY + g.g.range(-3600, 3600);
            }
        }
        h.reverse();
        ks.push(K::RecScores(h));
        if g.g.chance(0.4) {
            for _ in 0..2 + g.g.below(12) {
                ks.push(if g.g.chance(0.6) { K::RlAdd(g.ex()) } else { K::RlAdd(g.lesson()) });
            }
        }
        let pass = json!({"min_score": *g.g.pick(&[1.0, 1.0, 1.0, 2.0, 3.5]), "min_fraction": 1.0, "min_avg_trials": *g.g.pick(&[1.0, 1.0, 1.5, 2.4])});
        let o = json!({"batch_size": *g.g.pick(&[1, 3, 3, 3]), "passing_score": pass, "max_lessons_in_progress": 50});
        ks.push(K::Options(o.clone()));
        let salt = g.g.next();
        let rounds = match g.g.below(10) {
            0 => 100 + g.g.below(120),
            1..=2 => 20 + g.g.below(40),
            _ => 2 + g.g.below(8),
        };
        for _ in 0..rounds {
            let salt = if g.g.chance(0.8) { salt } else { g.g.next() };
            ks.push(K::Draws(salt, *g.g.pick(&[40, 80, 150])));
            match g.g.below(8) {
                0 => ks.extend([K::Clock(g.g.range(0, 20 * DAY)), K::Reopen, K::Options(o.clone())]),
                1 => {}
                _ => ks.extend([K::Reopen, K::Options(o.clone())]),
            }
        }
        let s = g.session(i as u32, ks, false);
        ss.push(s);
        g.now += g.g.range(0, 30 * DAY);
    }
    g.plan("P30", seed, ss, vec![])
}

fn p35(seed: u64) -> Plan {
    let size = seed % 3;
    let mut g = G::new(seed, "P35", GenOpts { generated: seed % 4 == 0, saved: false, wide: true, max_courses: [2, 5, 9][size as usize], max_lessons: [3, 4, 3][size as usize], max_exs: [9, 5, 3][size as usize], supersede: 0.1, ..MID });
    let mut ss = vec![];
    for i in 0..1 + g.g.below(2) {
        let mut ks = vec![];
        let (p, up) = *g.g.pick(&[(0.3, 0.2), (0.6, 0.5), (0.9, 0.3), (1.0, 0.7)]);
        let h = g.history(p, up);
        ks.push(K::RecScores(h));
        for _ in 0..g.g.below(3) {
            ks.push(K::BlAdd(g.unit()));
        }
        let long = g.g.chance(0.12);
        let rounds = if long { 15 + g.g.below(25) } else { 1 + g.g.below(3) };
        for _ in 0..rounds {
            if g.g.chance(0.7) {
                let mut o = if g.g.chance(0.4) { options(&mut g.g, true) } else { json!({}) };
                o["batch_size"] = json!(*g.g.pick(&[3, 6, 10, 20, 40]));
                if g.g.chance(0.5) {
                    o["passing_score"] = json!({"min_score": 1.0, "min_fraction": 1.0, "min_avg_trials": 1.0});
                }
                ks.push(K::Options(o));
            }
            ks.push(K::Order(g.g.next(), if long { 60 } else { *g.g.pick(&[5, 20, 60]) }));
            match g.g.below(6) {
                0 => ks.push(K::Clock(g.g.range(0, 20 * DAY))),
                1 => ks.push(K::Reopen),
                2 => ks.push(K::Score { ex: g.ex(), score: 3 + g.g.below(3) as u8, ts: g.now }),
                _ => {}
            }
        }
        let s = g.session(i as u32, ks, false);
        ss.push(s);
        g.now += g.g.range(0, 30 * DAY);
    }
    g.plan("P35", seed, ss, vec![])
}

fn p31(seed: u64) -> Plan {
    let mut g = G::new(seed, "P31", GenOpts { saved: false, missing: false, empty: false, max_courses: 3, max_lessons: 3, max_exs: 3, supersede: 0.0, encompass: if seed % 3 == 0 { 0.0 } else { 0.5 }, ..MID });
    let mut ks = vec![];
    for _ in 0..1 + g.g.below(2) {
        let valid = g.g.chance(0.9);
        let mut ns: Vec<u64> = (1..=12).collect();
        g.g.shuffle(&mut ns);
        let mut students = vec![];
        for i in 0..5 {
            let mut probs = |g: &mut G, good: bool| {
                let all = [[1.0, 0.0, 0.0, 0.0, 0.0], [0.3, 0.2, 0.25, 0.15, 0.1], [0.08, 0.12, 0.4, 0.2, 0.2], [0.2, 0.2, 0.2, 0.2, 0.2], [0.0, 0.0, 0.5, 0.0, 0.5], [0.03, 0.02, 0.1, 0.2, 0.65], [0.0, 0.02, 0.03, 0.15, 0.8], [0.0, 0.0, 0.0, 0.0, 1.0]];
                *g.g.pick(if good { &all[4..] } else { &all[..] })
            };
            let (first, then) = (probs(&mut g, false), probs(&mut g, true));
            students.push(json!({"every": *g.g.pick(&[1, 1, 2, 3, 4, 10, 30, 100]), "n": ns[i], "first": first, "then": then, "until": *g.g.pick(&[0, 1, 2, 3, 5]), "lapse": *g.g.pick(&[0.0, 0.0, 0.05, 0.1, 0.5, 1.0])}));
        }
        if !valid {
            let (i, k) = (g.g.below(5), *g.g.pick(&["first", "then"]));
            students[i][k][g.g.below(5)] = json!(*g.g.pick(&[1.3, 2.0, 1.01]));
        }
        let mut o = if g.g.chance(0.3) { options(&mut g.g, true) } else { json!({}) };
        if o["passing_score"].is_object() {
            o["passing_score"] = json!({"min_score": *g.g.pick(&[1.0, 2.0, 3.0]), "min_fraction": 0.5, "min_avg_trials": *g.g.pick(&[1.0, 2.4])});
        }
        if g.g.chance(0.15) {
            o["passing_score"] = json!({"min_score": *g.g.pick(&[2.0, 3.0, 3.9]), "min_fraction": 0.5, "min_avg_trials": *g.g.pick(&[1.0, 2.4, 4.2])});
        }
        if o["relearn_fraction"].is_number() && g.g.chance(0.5) {
            o = json!({});
        }
        let advanced = if g.g.chance(0.05) { "nothing".to_string() } else { g.g.pick(&g.courses).clone() };
        ks.push(K::Bench(json!({"students": students, "options": o, "advanced": advanced, "threshold": *g.g.pick(&[0.5, 1.5, 2.5, 3.0, 3.5, 4.0, 4.3, 4.7]), "max": 1 + g.g.below(*g.g.clone().pick(&[3, 12, 30])), "valid": valid})));
        ks.push(K::Reopen);
    }
    let mut s = g.session(0, ks, false);
    s.faulty = true;
    g.plan("P31", seed, vec![s], vec![])
}

fn p32(seed: u64) -> Plan {
    let mut g = G::new(seed, "P32", GenOpts { hidden: seed % 4 == 0, tricky: seed % 5 == 0, max_courses: 5, max_lessons: 3, max_exs: 3, ..MID });
    g.lib.rich = Some(g.g.next());
    let mut ss = vec![];
    for i in 0..2 {
        let mut s = g.session(i, vec![K::Contents], false);
        s.serialized = i == 1 && g.g.chance(0.4);
        s.dir_seed = g.g.below(1000) as u64;
        s.sched = SchedCfg { p_lock: *g.g.pick(&[0.0, 0.1, 0.4]), p_io: *g.g.pick(&[0.0, 0.1, 0.5]), p_hash: *g.g.pick(&[0.0, 0.01, 0.1]), pct: g.g.chance(0.3) };
        s.faulty = true;
        ss.push(s);
    }
    g.plan("P32", seed, ss, vec![])
}

/// The current directory, the working directory and the root of a library, in words that mean `/simw`.
fn written(g: &mut Rng, dirs: &[String]) -> [String; 3] {
    let r = crate::interpose::VROOT;
    let d = if dirs.is_empty() { ".".to_string() } else { g.pick(dirs).clone() };
    let up = d.split('/').map(|x| if x == "." { "." } else { ".." }).collect::<Vec<_>>().join("/");
    let e = *g.pick(&["", "/", "/.", "//", "/./"]);
    let (cwd, dir, root) = match g.below(9) {
        0 => (r.to_string(), r.to_string(), format!(".{e}")),
        1 => (r.to_string(), ".".into(), format!(".{e}")),
        2 => (format!("{r}/{d}"), r.to_string(), format!(".{e}")),
        3 => (format!("{r}/{d}"), format!("{r}/{d}"), format!("{up}{e}")),
        4 => (format!("{r}/{d}"), format!("{up}{e}"), ".".into()),
        5 => (r.to_string(), d, format!("{up}{e}")),
        6 => (format!("{r}/{d}"), ".".into(), format!("{up}{e}")),
        7 => (r.to_string(), d, format!("{r}{e}")),
        _ => (format!("{r}/{d}"), "elsewhere".into(), format!("{r}/{d}/{up}{e}")),
    };
    let cwd = cwd.trim_end_matches("/.").to_string();
    [cwd, dir, root]
}

fn p33(seed: u64) -> Plan {
    let mut g = G::new(seed, "P33", GenOpts { hidden: seed % 3 != 0, tricky: seed % 5 == 0, max_courses: 4, max_lessons: 3, max_exs: 3, ..MID });
    g.lib.rich = if g.g.chance(0.5) { Some(g.g.next()) } else { None };
    let dirs: Vec<String> = g.lib.courses.iter().map(|c| c.dir.clone()).collect();
    let mut ss = vec![];
    for i in 0..2 + g.g.below(2) {
        let mut ks = vec![if g.lib.rich.is_some() { K::Contents } else { K::LibDump }, K::World];
        for _ in 0..g.g.below(6) {
            let (ex, ts) = (g.ex(), g.ts());
            ks.push(match g.g.below(8) {
                0 => K::BlAdd(g.unit()),
                1 => K::RlAdd(g.unit()),
                2 => K::SetPrefs { batch: g.lib.batch_size, ignored: g.lib.ignored.clone(), pad: g.g.below(3), tr: None },
                3 => K::TrimScores(3),
                4 => K::Reopen,
                _ => K::Score { ex, score: g.score(), ts },
            });
        }
        ks.push(K::World);
        let mut s = g.session(i as u32, ks, false);
        s.path = Some(written(&mut g.g, &dirs));
        s.serialized = g.g.chance(0.2);
        s.dir_seed = g.g.below(100) as u64;
        ss.push(s);
        let d = g.g.range(1, 5 * DAY);
        g.pass_time(d);
    }
    g.plan("P33", seed, ss, vec!["extra".into()])
}

/// Relations in layers, each unit related to many of the layer before: the number of paths is exponential
/// in the number of layers.
fn layered(g: &mut G) {
    let layers = if g.g.chance(0.3) { 18 + g.g.below(8) } else { 3 + g.g.below(14) };
    let width = 1 + g.g.below(if layers > 10 { 2 } else { 3 }) + (g.g.chance(0.3) as usize);
    let p = *g.g.pick(&[0.6, 0.9, 1.0]);
    let (mut dep, mut sup, mut enc, metas) = (true, g.g.chance(0.4), g.g.chance(0.5), g.g.chance(0.7));
    if layers > 17 && g.g.chance(0.85) {
        // One kind of relation, or the bound, of the size of the library, is beyond what many paths add.
        let k = g.g.below(3);
        (dep, sup, enc) = (k == 0, k == 1, k == 2);
    }
    // 0: one course; 1: a course for each layer; 2: a course for each lesson, related themselves; 3: both lessons and courses.
    let mode = g.g.below(4);
    let mut courses: Vec<CourseSpec> = vec![];
    let mut before: Vec<(String, String)> = vec![];
    let kv = |g: &mut Rng| if metas && g.chance(0.6) { Some(Meta::from([("k".to_string(), vec![g.pick(&["a", "b"]).to_string()])])) } else { None };
    for i in 0..layers {
        let mut layer = vec![];
        for j in 0..width {
            let cid = match mode { 0 => "c".to_string(), 1 => format!("c{i}"), _ => format!("c{i}_{j}") };
            let lid = format!("{cid}::l{i}_{j}");
            let pick = |g: &mut G, of_course: bool| -> Vec<String> {
                let mut v: Vec<String> = before.iter().filter(|_| g.g.chance(p)).map(|b| if of_course { b.0.clone() } else { b.1.clone() }).collect();
                v.sort();
                v.dedup();
                v.retain(|x| *x != cid);
                v
            };
            let on_courses = mode == 2 || (mode == 3 && g.g.chance(0.5));
            let (deps, s) = (if dep { pick(g, on_courses) } else { vec![] }, if sup { pick(g, on_courses) } else { vec![] });
            let e: Vec<(String, f32)> = if enc { pick(g, on_courses).into_iter().map(|x| (x, *g.g.pick(&[0.7f32, 0.9, 1.0]))).collect() } else { vec![] };
            if !courses.iter().any(|c| c.id == cid) {
                let meta = kv(&mut g.g);
                courses.push(CourseSpec { dir: cid.clone(), id: cid.clone(), kind: Kind::Plain, deps: vec![], enc: vec![], sup: vec![], meta, lessons: vec![] });
            }
            let meta = kv(&mut g.g);
            let n = if g.g.chance(0.1) { 0 } else { 1 + g.g.below(2) };
            let exs = (0..n).map(|k| ExSpec { dir: format!("e{k}"), id: format!("{lid}::e{k}"), proc: g.g.chance(0.5), asset: 0 }).collect();
            let c = courses.iter_mut().find(|c| c.id == cid).unwrap();
            let mut l = LessonSpec { dir: format!("l{i}_{j}"), id: lid.clone(), deps: vec![], enc: vec![], sup: vec![], meta, exs };
            if on_courses {
                (c.deps, c.sup, c.enc) = (deps, s, e);
            } else {
                (l.deps, l.sup, l.enc) = (deps, s, e);
            }
            c.lessons.push(l);
            layer.push((cid, lid));
        }
        before = layer;
    }
    g.lib = LibSpec { courses, ..Default::default() };
    g.m = g.lib.model();
    (g.exs, g.lessons, g.courses) = (g.m.ids('e'), g.m.ids('l'), g.m.ids('c'));
}

fn p34(seed: u64) -> Plan {
    let mut g = G::new(seed, "P34", SMALL);
    layered(&mut g);
    g.lib.batch_size = Some(*g.g.pick(&[1, 5, 20, 50]));
    g.lib.write_prefs = true;
    let mut ss = vec![];
    for i in 0..1 + g.g.below(2) {
        let mut ks = vec![];
        if g.g.chance(0.8) {
            let (p, up) = *g.g.pick(&[(1.0, 1.0), (1.0, 1.0), (0.8, 0.9), (0.5, 0.5)]);
            let h = g.history(p, up);
            ks.push(K::RecScores(h));
        }
        for _ in 0..5 + g.g.below(8) {
            let ex = g.ex();
            let deep = if g.g.chance(0.5) { let v: Vec<String> = g.m.u.values().filter(|u| u.ty != 'e' && !u.deps.is_empty()).map(|u| u.id.clone()).collect(); if v.is_empty() { g.lesson() } else { v[v.len() - 1 - g.g.below(v.len().min(4))].clone() } } else { g.lesson() };
            ks.push(match g.g.below(14) {
                0 | 1 => K::Batch { f: Filt::None },
                2 | 3 => K::Batch { f: Filt::Unit(json!({"Dependencies": {"unit_ids": [deep], "depth": g.g.below(30)}})) },
                4 => K::Batch { f: Filt::Unit(json!({"Dependents": {"unit_ids": [g.lesson()]}})) },
                5 => K::Batch { f: Filt::Unit(json!({"MetadataFilter": {"filter": {(*g.g.pick(&["LessonFilter", "CourseFilter"])): {"key": "k", "value": (*g.g.pick(&["a", "b"])), "filter_type": "Include"}}}})) },
                6 => K::Batch { f: Filt::Unit(json!({"CourseFilter": {"course_ids": [g.course()]}})) },
                7 => K::Batch { f: Filt::Unit(json!("ReviewListFilter")) },
                8 => K::Score { ex, score: g.score(), ts: g.now },
                9 => K::Score { ex, score: if g.g.chance(0.5) { 5 } else { 1 }, ts: g.now },
                10 => K::UnitScore { id: g.unit() },
                11 => if g.g.chance(0.5) { K::BlAdd(g.unit()) } else { K::RlAdd(g.unit()) },
                12 => K::Invalidate(g.unit()),
                _ => K::Reopen,
            });
        }
        let s = g.session(i as u32, ks, false);
        ss.push(s);
        let d = g.g.range(1, 5 * DAY);
        g.pass_time(d);
    }
    g.plan("P34", seed, ss, vec![])
}

fn p29(seed: u64) -> Plan {
    let mut g = G::new(seed, "P29", GenOpts { max_courses: 3, max_lessons: 2, max_exs: 3, encompass: 0.5, ..MID });
    let mut ss = vec![];
    let n = 1 + g.g.below(3);
    for i in 0..n {
        let mut ks = vec![];
        if i == 0 && g.g.chance(0.5) {
            let h = g.history(0.5, 0.3);
            ks.push(K::RecScores(h));
        }
        let few: Vec<String> = (0..1 + g.g.below(4)).map(|_| g.ex()).collect();
        for _ in 0..6 + g.g.below(14) {
            let ex = if g.g.chance(0.8) { g.g.pick(&few).clone() } else if g.g.chance(0.1) { "extra".to_string() } else { g.ex() };
            let ts = g.ts();
            match g.g.below(16) {
                0..=8 => ks.push(K::Score { ex, score: g.score(), ts }),
                9 => ks.push(K::Study { f: Filt::None, n: 4, bias: g.g.below(4) as u8, salt: g.g.next() }),
                10 => ks.push(K::Clock(g.g.range(-DAY, 20 * DAY))),
                11 => ks.push(K::AllScores),
                12 => ks.push(if g.g.chance(0.5) { K::TrimScores(1 + g.g.below(3) as u32) } else { K::DelScores(ex) }),
                13 => ks.push(if g.g.chance(0.5) { K::BlAdd(g.unit()) } else { K::BlDel(g.unit()) }),
                14 => ks.push(K::Reopen),
                _ => ks.push(if g.g.chance(0.5) { K::Options(options(&mut g.g, false)) } else { K::RecDeltas(vec![(ex, 0.5, ts)]) }),
            }
        }
        let s = g.session(i as u32, ks, false);
        ss.push(s);
        let d = g.g.range(1, 5 * DAY);
        g.pass_time(d);
    }
    g.plan("P29", seed, ss, vec!["extra".into()])
}

fn p21(seed: u64) -> Plan {
    let mut g = G::new(seed, "P21", GenOpts { hidden: true, generated: seed % 12 != 5, tricky: seed % 4 == 0, max_courses: 6, max_lessons: 4, max_exs: 3, ..MID });
    if seed % 12 == 5 && g.lib.courses.iter().all(|c| c.kind == Kind::Plain) {
        // Explicit encompassing in all lessons, or all but one, and in no course, or the other way round.
        let lessons = g.g.chance(0.6);
        let n = if lessons { g.lib.courses.iter().map(|c| c.lessons.len()).sum::<usize>() } else { g.lib.courses.len() }.max(1);
        let spared = if g.g.chance(0.5) { g.g.below(n) } else { n };
        let mut i = 0;
        let mut set = |enc: &mut Vec<(String, f32)>, all: bool| {
            if !all || i == spared {
                enc.clear();
            } else if enc.is_empty() {
                enc.push(("missing::encompassed".into(), 0.5));
            }
            i += all as usize;
        };
        for c in &mut g.lib.courses {
            set(&mut c.enc, !lessons);
            for l in &mut c.lessons {
                set(&mut l.enc, lessons);
            }
        }
        g.m = g.lib.model();
    }
    let mut ss = vec![];
    for i in 0..3 {
        let mut s = g.session(i, vec![K::LibDump], false);
        s.dir_seed = if i == 0 { 0 } else { 1 + g.g.next() % 1000 };
        if i > 0 {
            s.sched = SchedCfg { p_lock: *g.g.pick(&[0.1, 0.4]), p_io: *g.g.pick(&[0.0, 0.1, 0.5]), p_hash: *g.g.pick(&[0.0, 0.01, 0.1]), pct: g.g.chance(0.3) };
        }
        ss.push(s);
    }
    g.plan("P21", seed, ss, vec![])
}

fn p22(seed: u64) -> Plan {
    let mut g = G::new(seed, "P22", GenOpts { hidden: seed % 3 == 0, max_courses: 4, max_lessons: 3, max_exs: 3, ..MID });
    let mut ss = vec![g.session(0, vec![K::LibDump], false)];
    for i in 0..4 {
        let mut s = g.session(1 + i, vec![K::LibDump], true);
        s.dir_seed = g.g.below(3) as u64;
        ss.push(s);
    }
    g.plan("P22", seed, ss, vec![])
}

fn p23(seed: u64) -> Plan {
    let mut g = G::new(seed, "P23", GenOpts { max_courses: 4, max_lessons: 3, max_exs: 2, empty: false, ..MID });
    if g.g.chance(0.85) {
        g.lib.defect = defect(&mut g);
    }
    let mut ss = vec![];
    for i in 0..3 {
        let mut s = g.session(i, vec![], false);
        s.dir_seed = if i == 0 { 0 } else { 1 + g.g.next() % 1000 };
        if i > 0 {
            s.sched = SchedCfg { p_lock: *g.g.pick(&[0.1, 0.4]), p_io: *g.g.pick(&[0.0, 0.1, 0.5]), p_hash: *g.g.pick(&[0.0, 0.01]), pct: g.g.chance(0.3) };
        }
        ss.push(s);
    }
    g.plan("P23", seed, ss, vec![])
}
/// Files that make a library inconsistent.
fn defect(g: &mut G) -> Option<Defect> {
    let lib = g.lib.clone();
    let plain: Vec<&CourseSpec> = lib.courses.iter().filter(|c| c.kind == Kind::Plain && c.lessons.iter().any(|l| !l.exs.is_empty())).collect();
    let text = |v: &Value| serde_json::to_string_pretty(v).unwrap();
    let any = g.g.pick(&lib.courses).clone();
    let cm = |c: &CourseSpec| format!("{}/course_manifest.json", c.dir);
    let newc = |id: &str| json!({"id": id, "name": "another"});
    let d = |what: &str, files: Vec<(String, String)>| Some(Defect { what: what.into(), files });
    let anyl: Vec<&LessonSpec> = lib.courses.iter().flat_map(|c| c.lessons.iter()).collect();
    let k = g.g.below(22);
    match k {
        0 => return d("two courses of one identifier", vec![("zz/dup/course_manifest.json".into(), text(&newc(&any.id)))]),
        1 => return d("two courses of one identifier", vec![("aa/dup/course_manifest.json".into(), text(&newc(&any.id)))]),
        2 if !anyl.is_empty() => return d("a course with the identifier of a lesson", vec![("zz/dup/course_manifest.json".into(), text(&newc(&g.g.pick(&anyl).id)))]),
        3 => {
            let junk = *g.g.pick(&["", "{", "[]", "null", "{\"id\": 3}", "\u{0}\u{0}", "{\"name\": \"no id\"}"]);
            return d("an unparseable course manifest", vec![(cm(&any), junk.into())]);
        }
        4 => return d("an empty course identifier", vec![("zz/dup/course_manifest.json".into(), text(&newc("")))]),
        5 => {
            if let Some((n, v)) = lib.filters.first() {
                let mut v = v.clone();
                v["description"] = json!("again");
                return d("two saved filters of one identifier", vec![(format!(".trane/filters/{}{n}", *g.g.pick(&["a", "z"])), text(&v))]);
            }
        }
        6 => {
            if let Some((n, v)) = lib.sessions.first() {
                return d("two saved sessions of one identifier", vec![(format!(".trane/study_sessions/{}{n}", *g.g.pick(&["a", "z"])), text(v))]);
            }
        }
        7 => {
            let p = if g.g.chance(0.5) { "filters" } else { "study_sessions" };
            return d("an unparseable saved filter or session", vec![(format!(".trane/{p}/bad.json"), (*g.g.pick(&["", "{", "[1", "nonsense"])).into())]);
        }
        20 => return d("preferences with invalid scheduler options", vec![(".trane/user_preferences.json".into(), text(&json!({"scheduler": {"batch_size": 0}})))]),
        21 => {
            let mut c = any.clone();
            c.enc.push(("another".into(), *g.g.pick(&[1.05, -0.05, 1.0001, -1.0, 2.0])));
            return d("a course with an encompassing weight outside of its range", vec![(cm(&c), text(&course_json(&c)))]);
        }
        8 | 9 if lib.courses.len() > 1 => {
            // A cycle through two courses or more, closed by the first depending on the last.
            let n = 2 + g.g.below(lib.courses.len() - 1);
            let mut files = vec![];
            for i in 0..n {
                let mut c = lib.courses[i].clone();
                c.deps.push(lib.courses[(i + 1) % n].id.clone());
                c.deps.sort();
                c.deps.dedup();
                files.push((cm(&c), text(&course_json(&c))));
            }
            return d("a cycle of courses", files);
        }
        _ => {}
    }
    for c in &lib.courses {
        if let (Kind::Transcription(t), true) = (&c.kind, g.g.chance(0.5)) {
            let pass = |id: &str| crate::spec::Pass { id: id.into(), ..Default::default() };
            if let Some(p) = t.files.first() {
                return match g.g.below(3) {
                    0 => d("two files of one passage", vec![(format!("{}/passages/{}.json", c.dir, *g.g.pick(&["a", "z"])), text(&pass(&p.id).json()))]),
                    1 => d("an unparseable passage", vec![(format!("{}/passages/t9.json", c.dir), (*g.g.pick(&["", "{", "[]", "{\"asset\": 3}"])).into())]),
                    _ => {
                        let mut c = c.clone();
                        let mut t = t.clone();
                        let mut p = p.clone();
                        p.artist = Some("other".into());
                        t.inlined.push(p);
                        let bare = t.no_singing && t.instruments.is_empty();
                        c.kind = Kind::Transcription(t);
                        if bare {
                            return None;
                        }
                        d("one passage in a file and in the manifest", vec![(cm(&c), text(&course_json(&c)))])
                    }
                };
            }
        }
    }
    if plain.is_empty() {
        return None;
    }
    let c = (*g.g.pick(&plain)).clone();
    let ls: Vec<&LessonSpec> = c.lessons.iter().filter(|l| !l.exs.is_empty()).collect();
    let l = (*g.g.pick(&ls)).clone();
    let e = g.g.pick(&l.exs).clone();
    let lm = |l: &LessonSpec| format!("{}/{}/lesson_manifest.json", c.dir, l.dir);
    let em = |d: &str| format!("{}/{}/{d}/exercise_manifest.json", c.dir, l.dir);
    let asset = json!({"BasicAsset": {"InlinedAsset": {"content": "x"}}});
    match g.g.below(18) {
        15 => {
            let (there, gone) = ("e.md", "gone.md");
            let a = match g.g.below(4) {
                0 => json!({"FlashcardAsset": {"front_path": there, "back_path": gone}}),
                1 => json!({"FlashcardAsset": {"front_path": gone, "back_path": there}}),
                2 => json!({"FlashcardAsset": {"front_path": gone}}),
                _ => json!({"BasicAsset": {"MarkdownAsset": {"path": gone}}}),
            };
            let dir = format!("{}/{}/{}", c.dir, l.dir, e.dir);
            d("an exercise with a missing asset", vec![(em(&e.dir), text(&ex_json(&c, &l, &e, a))), (format!("{dir}/{there}"), "here".into())])
        }
        16 => {
            let mut v = lesson_json(&c, &l);
            v[*g.g.pick(&["lesson_instructions", "lesson_material"])] = json!({"MarkdownAsset": {"path": "gone.md"}});
            d("a lesson with missing instructions or material", vec![(lm(&l), text(&v))])
        }
        17 => {
            let mut l = l.clone();
            l.enc.push(("another".into(), *g.g.pick(&[1.05, -0.05, 1.0001, -1.0, 2.0])));
            d("a lesson with an encompassing weight outside of its range", vec![(lm(&l), text(&lesson_json(&c, &l)))])
        }
        0 => {
            let mut v = lesson_json(&c, &l);
            v["course_id"] = json!("other");
            d("a lesson naming another course", vec![(lm(&l), text(&v))])
        }
        1 => {
            let mut v = ex_json(&c, &l, &e, asset);
            v["lesson_id"] = json!("other");
            d("an exercise naming another lesson", vec![(em(&e.dir), text(&v))])
        }
        2 => {
            let mut v = ex_json(&c, &l, &e, asset);
            v["course_id"] = json!("other");
            d("an exercise naming another course", vec![(em(&e.dir), text(&v))])
        }
        3 => d("two exercises of one identifier in a lesson", vec![(em(*g.g.pick(&["aaa", "zzz"])), text(&ex_json(&c, &l, &e, asset)))]),
        4 => {
            let mut l2 = l.clone();
            l2.dir = (*g.g.pick(&["aaa", "zzz"])).into();
            d("two lessons of one identifier in a course", vec![(lm(&l2), text(&lesson_json(&c, &l2)))])
        }
        5 if c.lessons.len() > 1 => {
            let o = c.lessons.iter().find(|x| x.id != l.id).unwrap();
            let mut e2 = e.clone();
            e2.dir = "zzz".into();
            d("two exercises of one identifier in two lessons", vec![(format!("{}/{}/zzz/exercise_manifest.json", c.dir, o.dir), text(&ex_json(&c, o, &e2, asset)))])
        }
        6 => {
            let mut e2 = e.clone();
            e2.id = (*g.g.pick(&[&l.id, &c.id])).clone();
            d("an exercise with the identifier of its parent", vec![(em("zzz"), text(&ex_json(&c, &l, &e2, asset)))])
        }
        7 => {
            let mut v = lesson_json(&c, &l);
            v["id"] = json!(c.id);
            d("a lesson with the identifier of its course", vec![(format!("{}/zzz/lesson_manifest.json", c.dir), text(&v))])
        }
        8 => {
            let mut v = lesson_json(&c, &l);
            v["id"] = json!("");
            d("an empty lesson identifier", vec![(format!("{}/zzz/lesson_manifest.json", c.dir), text(&v))])
        }
        9 => {
            let mut v = ex_json(&c, &l, &e, asset);
            v["id"] = json!("");
            d("an empty exercise identifier", vec![(em("zzz"), text(&v))])
        }
        10 => d("an unparseable lesson manifest", vec![(lm(&l), (*g.g.pick(&["", "{", "{\"id\": \"x\"}", "nonsense"])).into())]),
        11 => d("an unparseable exercise manifest", vec![(em(&e.dir), (*g.g.pick(&["", "{", "{\"id\": \"x\"}", "nonsense"])).into())]),
        12 => {
            // A cycle of lessons of any length, the shortest being one lesson.
            let n = 1 + g.g.below(c.lessons.len());
            let mut files = vec![];
            for i in 0..n {
                let mut x = c.lessons[i].clone();
                x.deps.push(c.lessons[(i + 1) % n].id.clone());
                x.deps.sort();
                x.deps.dedup();
                files.push((lm(&x), text(&lesson_json(&c, &x))));
            }
            if n == 1 {
                return d("a lesson depending on itself", files);
            }
            d("a cycle of lessons", files)
        }
        13 if plain.len() > 1 => {
            let o = plain.iter().find(|x| x.id != c.id).unwrap();
            let ol = o.lessons.iter().find(|x| !x.exs.is_empty()).unwrap();
            let (mut a, mut b) = (l.clone(), ol.clone());
            a.deps.push(b.id.clone());
            b.deps.push(a.id.clone());
            for x in [&mut a, &mut b] {
                x.deps.sort();
                x.deps.dedup();
            }
            d("a cycle of lessons of two courses", vec![(lm(&a), text(&lesson_json(&c, &a))), (format!("{}/{}/lesson_manifest.json", o.dir, b.dir), text(&lesson_json(o, &b)))])
        }
        14 if plain.len() > 1 => {
            let o = plain.iter().find(|x| x.id != c.id).unwrap();
            let mut v = ex_json(&c, &l, &e, asset);
            v["id"] = json!(o.lessons.iter().find(|x| !x.exs.is_empty()).unwrap().exs[0].id);
            d("two exercises of one identifier in two courses", vec![(em("zzz"), text(&v))])
        }
        _ => None,
    }
}

fn p24(seed: u64) -> Plan {
    let mut g = G::new(seed, "P24", GenOpts { hidden: true, max_courses: 5, max_lessons: 3, max_exs: 3, ..MID });
    let mut ss = vec![];
    for i in 0..3 {
        let mut ks = vec![K::LibDump];
        if i == 0 {
            let h = g.history(0.6, 0.6);
            ks.push(K::RecScores(h));
        }
        for _ in 0..g.g.below(3) {
            ks.push(match g.g.below(5) {
                0 => K::BlAdd(g.unit()),
                1 => K::RlAdd(g.unit()),
                _ => K::Study { f: Filt::None, n: 6, bias: g.g.below(3) as u8, salt: g.g.next() },
            });
        }
        if i > 0 {
            ks.push(K::Twin { f: g.filter(0) });
        }
        let mut s = g.session(i, ks, false);
        s.serialized = i > 0 && g.g.chance(0.6);
        s.dir_seed = g.g.below(4) as u64;
        ss.push(s);
        g.pass_time(3600);
    }
    g.plan("P24", seed, ss, vec![])
}

fn p25(seed: u64) -> Plan {
    let mut g = G::new(seed, "P25", SMALL);
    let mut ss = vec![];
    let mut specs: Vec<BuildSpec> = vec![];
    for i in 0..2 {
        let mut ks = vec![];
        for _ in 0..1 + g.g.below(2) {
            let again = !specs.is_empty() && g.g.chance(0.4);
            let mut b = if again {
                g.g.pick(&specs).clone()
            } else {
                let kind = *g.g.pick(&["plain", "kb", "kb", "kbb"]);
                let mut l = gen(&mut g.g, GenOpts { max_courses: 1, max_lessons: 3, max_exs: 3, meta: true, missing: true, ..SMALL });
                let mut c = l.courses.remove(0);
                let n = specs.len();
                c.kind = if kind == "plain" { Kind::Plain } else { Kind::Kb { inlined: g.g.chance(0.5) } };
                c.id = format!("b{n}");
                c.dir = format!("built/s{n}/x{n}");
                let old = |s: &str| s.strip_prefix("c0").map(|r| format!("b{n}{r}"));
                for l in c.lessons.iter_mut() {
                    l.id = old(&l.id).unwrap();
                    for d in l.deps.iter_mut().chain(l.sup.iter_mut()) {
                        *d = old(d).unwrap_or(d.clone());
                    }
                    for (d, _) in l.enc.iter_mut() {
                        *d = old(d).unwrap_or(d.clone());
                    }
                    for e in l.exs.iter_mut() {
                        e.id = old(&e.id).unwrap();
                        // The simple builder has no exercise type.
                        e.proc |= kind == "kb";
                    }
                }
                let files: Vec<(String, String)> = (0..g.g.below(3)).map(|k| (format!("{}note{k}.txt", *g.g.pick(&["", "sub/"])), format!("n{k}"))).collect();
                BuildSpec { kind: kind.into(), course: c, files, tag: format!("t{n}"), incomplete: kind == "plain" && g.g.chance(0.2), big: *g.g.pick(&[0, 0, 100, 9000]) }
            };
            if again {
                // The same course with other exercises, or just once more.
                if b.kind == "kb" && g.g.chance(0.7) {
                    b.tag.push('x');
                    for l in b.course.lessons.iter_mut() {
                        if l.exs.len() > 1 && g.g.chance(0.6) {
                            l.exs.pop();
                        }
                    }
                }
            } else {
                specs.push(b.clone());
            }
            ks.push(K::Build { b: serde_json::to_value(&b).unwrap() });
        }
        ss.push(g.session(i, ks, true));
        g.pass_time(1000);
    }
    g.plan("P25", seed, ss, vec![])
}
