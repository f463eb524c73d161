//! What runs inside a simulated session: executes the operations of a plan against the real code and
//! writes what was called and what came back to the session's log.
use crate::oracle::*;
use crate::plan::*;
use crate::rng::*;
use crate::rt::*;
use crate::spec::*;
use crate::interpose;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::Path;
use std::rc::Rc;
use trane::blacklist::Blacklist;
use trane::course_library::{CourseLibrary, LocalCourseLibrary, SerializedCourseLibrary};
use trane::data::filter::*;
use trane::data::*;
use trane::filter_manager::FilterManager;
use trane::graph::UnitGraph;
use trane::practice_deltas::PracticeDeltas;
use trane::practice_rewards::PracticeRewards;
use trane::practice_stats::PracticeStats;
use trane::preferences_manager::PreferencesManager;
use trane::review_list::ReviewList;
use trane::scheduler::ExerciseScheduler;
use trane::study_session_manager::StudySessionManager;
use trane::Trane;
use ustr::Ustr;

pub type R = Result<Value, String>;
pub const OBS: u32 = 0x4000_0000;

pub fn us(s: &str) -> Ustr {
    Ustr::from(s)
}
pub fn score_of(n: u8) -> MasteryScore {
    match n {
        1 => MasteryScore::One,
        2 => MasteryScore::Two,
        3 => MasteryScore::Three,
        4 => MasteryScore::Four,
        _ => MasteryScore::Five,
    }
}
fn e<E: std::fmt::Display + std::fmt::Debug>(x: E) -> String {
    let mut s = format!("{x}");
    s.truncate(s.char_indices().nth(300).map_or(s.len(), |p| p.0));
    s
}
pub fn violation(kind: &str, op: u32, msg: String) {
    log_line(&serde_json::to_string(&json!({"V": {"kind": kind, "op": op, "msg": msg}})).unwrap());
}

/// Runs something with a healthy disk and no adversarial scheduling, outside the run proper.
pub fn calmly<T>(f: impl FnOnce() -> T) -> T {
    let r = rt();
    let me = tid() as usize;
    let (armed, op, seq, sched) = (r.io_armed, r.thr[me].op, r.seq_op, r.sched);
    r.io_armed = false;
    r.thr[me].op = OBS | (op & 0xffffff);
    r.seq_op = OBS | (op & 0xffffff);
    r.sched = CALM;
    let v = f();
    let r = rt();
    r.io_armed = armed;
    r.thr[me].op = op;
    r.seq_op = seq;
    r.sched = sched;
    v
}
pub fn vroot() -> &'static Path {
    Path::new(interpose::VROOT)
}
pub fn open_plain() -> anyhow::Result<Trane> {
    Trane::new_local(vroot(), vroot())
}
/// Opens the library as the session writes its path.
pub fn open_as(s: &Session) -> anyhow::Result<Trane> {
    match (&s.path, s.serialized) {
        (None, false) => open_plain(),
        (None, true) => open_serialized(),
        (Some([_, dir, root]), false) => Trane::new_local(Path::new(dir), Path::new(root)),
        (Some([_, dir, root]), true) => Trane::new_local_from_serialized(&Path::new(dir).join(root), serialized()?),
    }
}
pub fn open_serialized() -> anyhow::Result<Trane> {
    Trane::new_local_from_serialized(vroot(), serialized()?)
}
fn serialized() -> anyhow::Result<SerializedCourseLibrary> {
    let bytes = calmly(|| -> anyhow::Result<Vec<u8>> {
        let _ = open_plain()?;
        let prefs: UserPreferences = serde_json::from_str(&std::fs::read_to_string(vroot().join(".trane/user_preferences.json"))?)?;
        let lib = LocalCourseLibrary::new(vroot(), prefs)?;
        let ser = SerializedCourseLibrary::from(&lib);
        Ok(postcard::to_stdvec(&ser)?)
    })?;
    Ok(postcard::from_bytes(&bytes)?)
}
/// An instance opened afresh on what is stored, on a healthy disk, at the same instant.
pub fn observe<T>(f: impl FnOnce(&Trane) -> T) -> Option<T> {
    calmly(|| match open_plain() {
        Ok(mut t) => {
            same_time(&mut t);
            Some(f(&t))
        }
        Err(_) => None,
    })
}
/// Has `t` compute scores as of the time that the instance under test was told to, if any.
pub fn same_time(t: &mut Trane) {
    let at = as_of();
    if at.is_some() {
        t.override_current_timestamp(at);
    }
}
thread_local! { static AS_OF: std::cell::Cell<Option<i64>> = const { std::cell::Cell::new(None) }; }
pub fn as_of() -> Option<i64> {
    AS_OF.get()
}

pub struct Ctx<'a> {
    pub plan: &'a Plan,
    pub s: &'a Session,
    pub m: Model,
    pub t: Option<Trane>,
    /// What is blacklisted and listed for review, as far as acknowledged; exact on a healthy disk.
    pub bl: BTreeSet<String>,
    pub rl: BTreeSet<String>,
    /// Recently failed exercises of this session, and those whose state is unknown.
    pub pile: BTreeSet<String>,
    pub maybe: BTreeSet<String>,
    /// Exercises that left the pile by being answered well.
    pub passed: BTreeSet<String>,
    /// Answers of this instance so far, good and bad.
    pub won: usize,
    pub lost: usize,
    pub sub: u32,
    /// Changes with everything that may change what is stored or what time it is.
    pub ver: u64,
    pub cache: Option<(u64, Rc<Truth>)>,
    /// The scheduler options in force.
    pub o: SchedulerOptions,
    pub batches: u64,
    pub presented: u64,
    pub probes: u64,
    pub rewards: u64,
    /// How often each exercise was presented by this instance.
    pub drawn: BTreeMap<String, u64>,
    pub sums: crate::draws::Sums,
    pub shares: crate::order::Shares,
    /// The steps a call may take, if limited.
    pub work: u64,
}
impl Ctx<'_> {
    /// What is stored now, as an instance opened afresh reads it.
    pub fn truth(&mut self) -> Option<Rc<Truth>> {
        if let Some((v, t)) = &self.cache {
            if *v == self.ver {
                return Some(t.clone());
            }
        }
        let t = Rc::new(truth(&self.m, &self.o)?);
        self.cache = Some((self.ver, t.clone()));
        Some(t)
    }
    /// Whether the library has generated courses the model does not describe in detail.
    fn fail(&mut self, id: &str) {
        self.passed.remove(id);
        self.maybe.remove(id);
        self.pile.insert(id.into());
    }
    fn pass(&mut self, id: &str) {
        self.maybe.remove(id);
        if self.pile.remove(id) {
            self.passed.insert(id.into());
        }
    }
    fn doubt(&mut self, ids: Vec<String>) {
        for id in ids {
            self.pile.remove(&id);
            self.passed.remove(&id);
            self.maybe.insert(id);
        }
    }
}

pub fn to_filter(f: &Filt, t: &Trane) -> Result<Option<ExerciseFilter>, String> {
    Ok(match f {
        Filt::None => None,
        Filt::Unit(v) => Some(ExerciseFilter::UnitFilter(serde_json::from_value(v.clone()).map_err(|x| format!("bad plan {x}"))?)),
        Filt::Saved(id) => match t.get_filter(id) {
            Some(x) => Some(ExerciseFilter::UnitFilter(x.filter.clone())),
            None => return Err("no such filter".into()),
        },
        Filt::Session(v, start) => {
            let def: StudySession = serde_json::from_value(v.clone()).map_err(|x| format!("bad plan {x}"))?;
            Some(ExerciseFilter::StudySession(StudySessionData { start_time: chrono::DateTime::from_timestamp(*start, 0).ok_or("bad time")?, definition: def }))
        }
        Filt::SavedSession(id, start) => match t.get_study_session(id) {
            Some(def) => Some(ExerciseFilter::StudySession(StudySessionData { start_time: chrono::DateTime::from_timestamp(*start, 0).ok_or("bad time")?, definition: def })),
            None => return Err("no such session".into()),
        },
    })
}

/// Requests a batch; checks that its entries are manifests of the library.
pub fn batch(t: &Trane, f: &Filt, op: u32) -> Result<Vec<String>, String> {
    let f = to_filter(f, t)?;
    let b = t.get_exercise_batch(f).map_err(e)?;
    for m in &b {
        match t.get_exercise_manifest(m.id) {
            Some(x) if *x == *m => {}
            _ => violation("P18", op, format!("batch entry {} is not the library's manifest of that exercise", m.id)),
        }
    }
    Ok(b.iter().map(|m| m.id.to_string()).collect())
}

fn log_i(op: u32, sub: u32, k: &K) {
    log_line(&serde_json::to_string(&json!({"I": {"op": op, "sub": sub, "k": k, "now": rt().real.max(0)}})).unwrap());
}
fn log_r(op: u32, sub: u32, r: &R) {
    let v = match r {
        Ok(v) => json!({"R": {"op": op, "sub": sub, "ok": v}}),
        Err(x) => json!({"R": {"op": op, "sub": sub, "err": x}}),
    };
    log_line(&serde_json::to_string(&v).unwrap());
}
fn guarded(f: impl FnOnce() -> R) -> R {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => r,
        Err(_) => Err("panic".into()),
    }
}

/// Operations that only need shared access.
fn shared(t: &Trane, op: u32, k: &K) -> Option<R> {
    Some(match k {
        K::Score { ex, score, ts } => t.score_exercise(us(ex), score_of(*score), *ts).map(|_| json!(null)).map_err(e),
        K::Batch { f } => batch(t, f, op).map(|v| json!({"ids": v})),
        K::UnitScore { id } => t.get_unit_score(us(id)).map(|s| json!({"s": s.map(|x| x as f64), "finite": s.map(|x| x.is_finite())})).map_err(e),
        K::GetScores { id, n } => t.get_scores(us(id), *n).map(|v| json!({"v": v.iter().map(|x| json!([x.score, x.timestamp])).collect::<Vec<_>>()})).map_err(e),
        K::GetRewards { id, n } => t.get_rewards(us(id), *n).map(|v| json!({"v": v.iter().map(|x| json!([x.value, x.weight, x.timestamp])).collect::<Vec<_>>()})).map_err(e),
        K::GetPrefs => t.get_user_preferences().map(|p| serde_json::to_value(&p).unwrap()).map_err(e),
        K::Invalidate(id) => {
            t.invalidate_cached_score(us(id));
            Ok(json!(null))
        }
        K::InvalidatePrefix(p) => {
            t.invalidate_cached_scores_with_prefix(p);
            Ok(json!(null))
        }
        K::Browse { id } => {
            let id = us(id);
            let mut n = t.get_course_ids().len() + t.get_lesson_ids(id).map_or(0, |v| v.len()) + t.get_exercise_ids(id).map_or(0, |v| v.len()) + t.get_all_exercise_ids(Some(id)).len();
            n += t.get_matching_prefix("c", None).len() + t.list_filters().len() + t.list_study_sessions().len();
            n += t.get_course_manifest(id).is_some() as usize + t.get_lesson_manifest(id).is_some() as usize + t.get_exercise_manifest(id).is_some() as usize;
            n += t.get_dependencies(id).map_or(0, |v| v.len()) + t.get_dependents(id).map_or(0, |v| v.len());
            let bl = t.blacklisted(id).map_err(e);
            let rl = t.get_review_list_entries().map_err(e);
            match (bl, rl) {
                (Ok(_), Ok(_)) => Ok(json!({"n": n})),
                (Err(x), _) | (_, Err(x)) => Err(x),
            }
        }
        K::GetSets => (|| {
            let bl: Vec<String> = t.get_blacklist_entries().map_err(e)?.iter().map(|x| x.to_string()).collect();
            let rl: Vec<String> = t.get_review_list_entries().map_err(e)?.iter().map(|x| x.to_string()).collect();
            Ok(json!({"bl": bl, "rl": rl}))
        })(),
        _ => return None,
    })
}

pub fn session(case: &Case, si: usize, sh: *mut Shared) -> ! {
    let plan = &case.plan;
    let s = &plan.sessions[si];
    std::panic::set_hook(Box::new(|i| {
        if simulated() {
            let op = rt().thr[tid() as usize].op;
            let at = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
            let msg = i.payload().downcast_ref::<String>().cloned().or(i.payload().downcast_ref::<&str>().map(|x| x.to_string())).unwrap_or_default();
            log_line(&serde_json::to_string(&json!({"Panic": {"op": op, "at": at, "msg": msg.chars().take(300).collect::<String>()}})).unwrap());
        }
    }));
    start(Start { session: s.id, seed: plan.seed, dir_seed: s.dir_seed, real: s.start, faults: case.faults.clone(), sched: s.sched, list: case.switches.as_deref(), step_limit: 30_000_000, sh });
    if let Some([cwd, ..]) = &s.path {
        interpose::set_cwd(cwd);
    }
    let m = plan.lib.model();
    let (bl, rl) = history_sets(plan, si);
    let mut c = Ctx { plan, s, m, t: None, bl, rl, pile: BTreeSet::new(), maybe: BTreeSet::new(), passed: BTreeSet::new(), won: 0, lost: 0, sub: 0, ver: 0, cache: None, o: SchedulerOptions::default(), batches: 0, presented: 0, probes: 0, rewards: 0, drawn: BTreeMap::new(), sums: Default::default(), shares: Default::default(), work: 0 };
    if plan.prop == "P34" {
        c.work = bound(&c.m);
    }
    c.open(s.open_op);
    if c.t.is_some() {
        for p in &s.phases {
            if p.threads.len() == 1 {
                for op in &p.threads[0] {
                    set_op(op.id, true);
                    c.run(op);
                }
            } else {
                c.par(p);
            }
        }
        if s.kill {
            die(X_CRASH);
        }
        set_op(s.close_op, true);
        log_line(&format!("{{\"Close\":{},\"N\":[{},{},{},{}]}}", s.close_op, c.batches, c.presented, c.probes, c.rewards));
        let t = c.t.take();
        let r = guarded(|| {
            drop(t);
            Ok(json!(null))
        });
        log_r(s.close_op, 0, &r);
    }
    die(X_OK)
}

/// The steps (locks, system calls, looked up units) a call may take, from the number of units and relations.
fn bound(m: &Model) -> u64 {
    let n: usize = m.u.values().map(|u| 1 + u.deps.len() + u.enc.len() + u.sup.len()).sum();
    let x: usize = std::env::var("SIM_WORK").ok().and_then(|x| x.parse().ok()).unwrap_or(1);
    ((n * n * n / 2 + n * n * 50 + 100_000) * x) as u64
}
/// Ends the session if the next call takes more steps than that.
fn allow(work: u64) {
    if work > 0 {
        rt().step_limit = rt().steps + work;
    }
}

/// The sets as left by the earlier sessions of a plan in which nothing failed.
fn history_sets(plan: &Plan, si: usize) -> (BTreeSet<String>, BTreeSet<String>) {
    let (mut bl, mut rl) = (BTreeSet::new(), BTreeSet::new());
    for s in &plan.sessions[..si] {
        for op in s.ops() {
            apply_sets(&mut bl, &mut rl, &op.k);
        }
    }
    (bl, rl)
}
fn apply_sets(bl: &mut BTreeSet<String>, rl: &mut BTreeSet<String>, k: &K) {
    match k {
        K::BlAdd(x) => {
            bl.insert(x.clone());
        }
        K::BlDel(x) => {
            bl.remove(x);
        }
        K::BlDelPrefix(p) => bl.retain(|x| !x.starts_with(p.as_str())),
        K::RlAdd(x) => {
            rl.insert(x.clone());
        }
        K::RlDel(x) => {
            rl.remove(x);
        }
        _ => {}
    }
}

impl Ctx<'_> {
    /// The options an instance starts with: the defaults and the preferences on disk.
    fn default_options(&mut self) {
        self.o = SchedulerOptions::default();
        let p = calmly(|| std::fs::read_to_string(vroot().join(".trane/user_preferences.json")).ok());
        let b = p.and_then(|p| serde_json::from_str::<Value>(&p).ok()).and_then(|v| v["scheduler"]["batch_size"].as_u64());
        if let Some(b) = b {
            self.o.batch_size = b as usize;
        }
    }
    fn open(&mut self, op: u32) {
        set_op(op, true);
        log_line(&format!("{{\"Open\":{{\"op\":{},\"now\":{}}}}}", op, rt().real.max(0)));
        self.default_options();
        self.drawn.clear();
        allow(self.work);
        let s = self.s;
        let mut got = None;
        let r = guarded(|| {
            let t = open_as(s);
            match t {
                Ok(t) => {
                    got = Some(t);
                    Ok(json!(null))
                }
                Err(x) => {
                    let mut s = format!("{x:#}");
                    s.truncate(s.char_indices().nth(300).map_or(s.len(), |p| p.0));
                    Err(s)
                }
            }
        });
        self.t = got;
        log_r(op, 0, &r);
    }
    pub fn trane(&self) -> &Trane {
        self.t.as_ref().unwrap()
    }
    fn par(&mut self, p: &Phase) {
        let t = self.t.as_ref().unwrap();
        std::thread::scope(|sc| {
            for th in &p.threads {
                sc.spawn(move || {
                    for op in th {
                        set_op(op.id, false);
                        log_i(op.id, 0, &op.k);
                        let r = guarded(|| shared(t, op.id, &op.k).unwrap_or(Err("not shareable".into())));
                        log_r(op.id, 0, &r);
                    }
                    set_op(POOL_OP, false);
                });
            }
        });
    }
    fn run(&mut self, op: &Op) {
        if self.t.is_none() {
            return;
        }
        self.sub = 0;
        self.step(op.id, &op.k);
    }
    /// Runs one (sub)operation, logging its call and its return.
    pub fn step(&mut self, op: u32, k: &K) -> R {
        let sub = self.sub;
        self.sub += 1;
        log_i(op, sub, k);
        allow(self.work);
        let before = rt().steps;
        let r = guarded(|| self.call(op, k));
        if self.work > 0 && std::env::var_os("SIM_WORK").is_some() {
            eprintln!("work {} of {} {:?}", rt().steps - before, self.work, k);
        }
        self.ver += !matches!(k, K::Batch { .. } | K::UnitScore { .. } | K::GetScores { .. } | K::GetRewards { .. } | K::GetSets | K::GetPrefs | K::Dump | K::LibDump | K::Browse { .. }) as u64;
        log_r(op, sub, &r);
        let known = r.is_ok();
        if known {
            let (mut bl, mut rl) = (std::mem::take(&mut self.bl), std::mem::take(&mut self.rl));
            apply_sets(&mut bl, &mut rl, k);
            self.bl = bl;
            self.rl = rl;
        }
        if let (K::Score { score, .. }, true) = (k, known) {
            if *score <= 2 { self.lost += 1 } else { self.won += 1 }
        }
        match k {
            K::Score { ex, score, .. } | K::ScoreObs { ex, score, .. } => match (known, *score <= 2) {
                (true, true) => self.fail(ex),
                (true, false) => self.pass(ex),
                _ => self.doubt(vec![ex.clone()]),
            },
            // Exercises that are or were blacklisted in between need not come back by themselves.
            K::BlAdd(x) | K::BlDel(x) | K::BlDelPrefix(x) => {
                let prefix = matches!(k, K::BlDelPrefix(_));
                let hit = |id: &str| { let u = self.m.u.get(id); prefix || id == x || u.is_some_and(|u| u.lesson == *x || u.course == *x) };
                let v: Vec<String> = self.pile.iter().filter(|i| hit(i)).cloned().collect();
                self.doubt(v);
            }
            _ => {}
        }
        r
    }
    fn call(&mut self, op: u32, k: &K) -> R {
        if let K::Batch { f } = k {
            let ids = batch(self.trane(), f, op)?;
            check_batch(self, f, &ids, op);
            return Ok(json!({"ids": ids}));
        }
        if let (K::Score { ex, score, ts }, "P29") = (k, self.plan.prop.as_str()) {
            return crate::mix::answer(self, op, ex, *score, *ts);
        }
        if let Some(r) = shared(self.trane(), op, k) {
            return r;
        }
        match k {
            K::Coherence => {
                check_coherence(self, op);
                return Ok(json!(null));
            }
            K::Diligent { rounds } => return diligent(self, op, *rounds),
            K::Eligible { course, lesson, tries } => return eligible(self, op, course, lesson, *tries),
            K::ScoreObs { ex, score, ts } => return score_obs(self, op, ex, *score, *ts),
            K::SessionProbe { f } => return session_probe(self, op, f),
            K::Twin { f } => return twin(self, op, f),
            K::Build { b } => return build(self, op, b),
            K::World => return crate::content::world(self, op),
            K::Contents => return crate::content::contents(self, op),
            K::Bench(v) => return crate::bench::bench(self, op, v),
            K::Order(salt, n) => return crate::order::order(self, op, *salt, *n),
            K::Draws(salt, n) => return crate::draws::draws(self, op, *salt, *n),
            K::MixProbe(salt) => return crate::mix::mix_probe(self, op, *salt),
            K::SizeProbe => return size_probe(self, op),
            K::Options(v) => {
                let t = self.t.as_mut().unwrap();
                let mut o = SchedulerOptions::default();
                if v.is_null() {
                    t.reset_scheduler_options();
                } else {
                    let mut x = serde_json::to_value(&o).unwrap();
                    for (k, v) in v.as_object().unwrap() {
                        x[k] = v.clone();
                    }
                    o = serde_json::from_value(x).map_err(e)?;
                    t.set_scheduler_options(o.clone());
                }
                self.o = o;
                return Ok(json!(null));
            }
            K::GetOptions => {
                let o = self.trane().get_scheduler_options();
                if o != self.o {
                    violation("P27", op, format!("the options in force are said to be {o:?} instead of {:?}", self.o));
                }
                return Ok(json!(null));
            }
            _ => {}
        }
        let ok = |_: ()| json!(null);
        let t = self.t.as_mut().unwrap();
        let tr = |v: &[Rec]| -> Vec<ExerciseTrial> { v.iter().map(|(i, s, ts)| ExerciseTrial { exercise_id: us(i), score: *s, timestamp: *ts }).collect() };
        match k {
            K::Study { f, n, bias, salt } => {
                let r = self.step(op, &K::Batch { f: f.clone() });
                let ids: Vec<String> = match &r {
                    Ok(v) => serde_json::from_value(v["ids"].clone()).unwrap_or_default(),
                    Err(x) => return Err(x.clone()),
                };
                for (i, id) in ids.iter().take(*n).enumerate() {
                    let mut g = Rng::derive(*salt, 9, i as u64, 0);
                    let score = match bias {
                        0 => 1 + g.below(5) as u8,
                        1 => *g.pick(&[5u8, 5, 5, 4, 3, 1]),
                        2 => *g.pick(&[1u8, 1, 2, 2, 5]),
                        _ => 5,
                    };
                    let ts = rt().real.max(0);
                    let _ = self.step(op, &K::Score { ex: id.clone(), score, ts });
                    rt().real += 7;
                }
                Ok(json!(null))
            }
            K::AllScores => {
                let mut v = serde_json::Map::new();
                for id in self.m.u.keys() {
                    let r = t.get_unit_score(us(id));
                    v.insert(id.clone(), match r { Ok(s) => json!(s), Err(x) => json!({"err": e(x)}) });
                }
                check_bounds(self, op);
                Ok(json!(v))
            }
            K::BlAdd(x) => t.add_to_blacklist(us(x)).map(ok).map_err(e),
            K::BlDel(x) => t.remove_from_blacklist(us(x)).map(ok).map_err(e),
            K::BlDelPrefix(x) => t.remove_prefix_from_blacklist(x).map(ok).map_err(e),
            K::RlAdd(x) => t.add_to_review_list(us(x)).map(ok).map_err(e),
            K::RlDel(x) => t.remove_from_review_list(us(x)).map(ok).map_err(e),
            K::SetPrefs { batch, ignored, pad, tr } => t.set_user_preferences(prefs_of(*batch, ignored, *pad, &self.plan.lib.instruments, tr)).map(ok).map_err(e),
            K::RecScores(v) => t.record_exercise_scores(&tr(v)).map(ok).map_err(e),
            K::RecDeltas(v) => t.record_exercise_deltas(&v.iter().map(|(i, s, ts)| ExerciseDelta { exercise_id: us(i), delta: *s, timestamp: *ts }).collect::<Vec<_>>()).map(ok).map_err(e),
            K::RecRewards(v) => t.record_unit_rewards(&v.iter().map(|(i, x, w, ts)| UnitReward { unit_id: us(i), value: *x, weight: *w, timestamp: *ts }).collect::<Vec<_>>()).map(|v| json!({"ids": v.iter().map(|x| x.to_string()).collect::<Vec<_>>()})).map_err(e),
            K::TrimScores(n) => t.trim_scores(*n).map(ok).map_err(e),
            K::TrimDeltas(n) => t.trim_deltas(*n).map(ok).map_err(e),
            K::TrimRewards(n) => t.trim_rewards(*n).map(ok).map_err(e),
            K::DelScores(p) => t.remove_scores_with_prefix(p).map(ok).map_err(e),
            K::DelDeltas(p) => t.remove_deltas_with_prefix(p).map(ok).map_err(e),
            K::DelRewards(p) => t.remove_rewards_with_prefix(p).map(ok).map_err(e),
            K::Clock(d) => {
                rt().real += d;
                // Cached scores are as of when they were computed; the model's are as of now.
                if self.plan.prop == "P18" {
                    t.invalidate_cached_scores_with_prefix("");
                }
                Ok(json!(rt().real.max(0)))
            }
            K::AsOf(at) => {
                t.override_current_timestamp(*at);
                AS_OF.set(*at);
                Ok(json!(null))
            }
            K::Dump => dump(t, self.plan, &self.m),
            K::LibDump => Ok(lib_dump(t)),
            K::Reopen => {
                let t = self.t.take();
                let now = rt().real.max(0);
                drop(t);
                AS_OF.set(None);
                log_line(&format!("{{\"Open\":{{\"op\":{op},\"now\":{now}}}}}"));
                let t = open_as(self.s);
                self.default_options();
                self.pile.clear();
                self.maybe.clear();
                self.passed.clear();
                self.drawn.clear();
                (self.won, self.lost) = (0, 0);
                match t {
                    Ok(t) => {
                        self.t = Some(t);
                        Ok(json!(null))
                    }
                    Err(x) => Err(format!("{x:#}")),
                }
            }
            _ => Err("unknown operation".into()),
        }
    }
}

pub fn prefs_of(batch: Option<usize>, ignored: &[String], pad: usize, instruments: &[String], tr: &Option<Value>) -> UserPreferences {
    let mut ign = ignored.to_vec();
    for i in 0..pad {
        ign.push(format!("padding/{i}/{}", "x".repeat(60)));
    }
    let transcription = if let Some(v) = tr { serde_json::from_value(v.clone()).unwrap_or_default() } else if instruments.is_empty() { None } else { Some(trane::data::course_generator::transcription::TranscriptionPreferences { instruments: instruments.iter().map(|i| trane::data::course_generator::Instrument { name: format!("the {i}"), id: i.clone() }).collect(), ..Default::default() }) };
    UserPreferences { transcription, scheduler: batch.map(|b| SchedulerPreferences { batch_size: Some(b) }), ignored_paths: ign }
}

/// All stored practice data and sets, through the public interface.
pub fn dump(t: &Trane, plan: &Plan, m: &Model) -> R {
    let mut ids: BTreeSet<&str> = m.u.keys().map(|x| x.as_str()).collect();
    ids.extend(plan.extra.iter().map(|x| x.as_str()));
    let (mut sc, mut de, mut rw, mut blq) = (serde_json::Map::new(), serde_json::Map::new(), serde_json::Map::new(), serde_json::Map::new());
    for id in ids {
        let v = t.get_scores(us(id), 100_000).map_err(e)?;
        if !v.is_empty() {
            sc.insert(id.into(), json!(v.iter().map(|x| json!([x.score, x.timestamp])).collect::<Vec<_>>()));
        }
        if v.iter().any(|x| x.exercise_id != us(id)) {
            return Err(format!("scores of {id} carry another identifier"));
        }
        let v = t.get_deltas(us(id), 100_000).map_err(e)?;
        if !v.is_empty() {
            de.insert(id.into(), json!(v.iter().map(|x| json!([x.delta, x.timestamp])).collect::<Vec<_>>()));
        }
        let v = t.get_rewards(us(id), 100_000).map_err(e)?;
        if !v.is_empty() {
            rw.insert(id.into(), json!(v.iter().map(|x| json!([x.value, x.weight, x.timestamp])).collect::<Vec<_>>()));
        }
        if t.blacklisted(us(id)).map_err(e)? {
            blq.insert(id.into(), json!(true));
        }
    }
    let bl: Vec<String> = t.get_blacklist_entries().map_err(e)?.iter().map(|x| x.to_string()).collect();
    let rl: Vec<String> = t.get_review_list_entries().map_err(e)?.iter().map(|x| x.to_string()).collect();
    let prefs = t.get_user_preferences().map(|p| serde_json::to_value(&p).unwrap()).map_err(e)?;
    Ok(json!({"scores": sc, "deltas": de, "rewards": rw, "blq": blq, "bl": bl, "rl": rl, "prefs": prefs}))
}

fn sorted(it: impl Iterator<Item = Ustr>) -> Vec<String> {
    let mut v: Vec<String> = it.map(|x| x.to_string()).collect();
    v.sort();
    v
}
pub const PREFIXES: [&str; 5] = ["", "c", "c0", "c1::l0", "x"];
fn matching(t: &Trane) -> Vec<Vec<String>> {
    PREFIXES.iter().flat_map(|p| [None, Some(UnitType::Course), Some(UnitType::Lesson), Some(UnitType::Exercise)].map(|ty| sorted(t.get_matching_prefix(p, ty).iter().copied()))).collect()
}
fn wsorted(v: Option<Vec<(Ustr, f32)>>) -> Vec<(String, f32)> {
    let mut v: Vec<(String, f32)> = v.unwrap_or_default().into_iter().map(|(a, b)| (a.to_string(), b)).collect();
    v.sort_by(|a, b| a.partial_cmp(b).unwrap());
    v
}
/// The library as the instance presents it, in a canonical form.
pub fn lib_dump(t: &Trane) -> Value {
    let mut units = BTreeMap::new();
    let mut add = |id: Ustr, mut v: Value| {
        // A set by meaning: the order some generators list it in says nothing.
        if let Some(d) = v["dependencies"].as_array_mut() {
            d.sort_by_key(|x| x.to_string());
        }
        for k in ["transcription_artist", "transcription_album"] {
            if let Some(d) = v.get_mut("metadata").and_then(|m| m.get_mut(k)).and_then(|m| m.as_array_mut()) {
                d.sort_by_key(|x| x.to_string());
            }
        }
        let g = json!({
            "m": v,
            "type": t.get_unit_type(id).map(|x| format!("{x:?}")),
            "deps": t.get_dependencies(id).map(|s| sorted(s.iter().copied())),
            "dependents": t.get_dependents(id).map(|s| sorted(s.iter().copied())).unwrap_or_default(),
            "enc": wsorted(t.get_encompasses(id)), "enc_by": wsorted(t.get_encompassed_by(id)),
            "sup": t.get_supersedes(id).map(|s| sorted(s.iter().copied())).unwrap_or_default(),
            "sup_by": t.get_superseded_by(id).map(|s| sorted(s.iter().copied())).unwrap_or_default(),
            "all": sorted(t.get_all_exercise_ids(Some(id)).into_iter()), "lesson": t.get_exercise_lesson(id),
        });
        units.insert(id.to_string(), g);
    };
    let courses = sorted(t.get_course_ids().into_iter());
    let mut tree = BTreeMap::new();
    for c in &courses {
        let cid = us(c);
        add(cid, serde_json::to_value(t.get_course_manifest(cid).as_deref()).unwrap());
        let lessons = sorted(t.get_lesson_ids(cid).unwrap_or_default().into_iter());
        let mut lt = BTreeMap::new();
        for l in &lessons {
            let lid = us(l);
            add(lid, serde_json::to_value(t.get_lesson_manifest(lid).as_deref()).unwrap());
            let exs = sorted(t.get_exercise_ids(lid).unwrap_or_default().into_iter());
            for x in &exs {
                add(us(x), serde_json::to_value(t.get_exercise_manifest(us(x)).as_deref()).unwrap());
            }
            lt.insert(l.clone(), json!({"exs": exs, "gexs": sorted(t.get_lesson_exercises(lid).iter().flat_map(|s| s.iter().copied())), "course": t.get_lesson_course(lid)}));
        }
        tree.insert(c.clone(), json!({"lessons": lt, "glessons": sorted(t.get_course_lessons(cid).iter().flat_map(|s| s.iter().copied())),
            "starting": sorted(t.get_starting_lessons(cid).iter().flat_map(|s| s.iter().copied()))}));
    }
    let filters: BTreeMap<String, Value> = t.list_filters().into_iter().map(|(id, d)| { let f = t.get_filter(&id).map(|f| serde_json::to_value(&*f).unwrap()); (id, json!([d, f])) }).collect();
    let sessions: BTreeMap<String, Value> = t.list_study_sessions().into_iter().map(|(id, d)| { let f = t.get_study_session(&id).map(|f| serde_json::to_value(&f).unwrap()); (id, json!([d, f])) }).collect();
    json!({"tree": tree, "units": units, "all": sorted(t.get_all_exercise_ids(None).into_iter()), "sinks": sorted(t.get_dependency_sinks().iter().copied()), "eq": t.encompasing_equals_dependency(), "filters": filters, "sessions": sessions,
        "matching": matching(t), "dot": [t.generate_dot_graph(false), t.generate_dot_graph(true)]})
}
