//! Monitors that run inside a simulated session, comparing what the instance under test answers with a
//! small reference model of the scheduling rules, evaluated on what a fresh instance reads from disk.
use crate::exec::*;
use crate::plan::*;
use crate::rt::*;
use crate::spec::*;
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use trane::blacklist::Blacklist;
use trane::course_library::CourseLibrary;
use trane::data::{MasteryScore, SchedulerOptions};
use trane::practice_deltas::PracticeDeltas;
use trane::practice_rewards::PracticeRewards;
use trane::practice_stats::PracticeStats;
use trane::review_list::ReviewList;
use trane::scheduler::ExerciseScheduler;
use trane::Trane;

pub type Tri = Option<bool>;
/// Scores closer than this to a threshold decide nothing.
const MARGIN: f32 = 0.05;
pub const TOL: f32 = 2e-3;

/// What is stored, as a fresh instance reads it at this instant.
pub struct Truth {
    pub ex: BTreeMap<String, Option<f32>>,
    pub trials: BTreeMap<String, usize>,
    pub bl: BTreeSet<String>,
    pub rl: BTreeSet<String>,
    /// The options in force.
    pub o: SchedulerOptions,
    memo: RefCell<BTreeMap<String, Score>>,
    sup_memo: RefCell<BTreeMap<String, Tri>>,
}
/// A score as the model computes it; `None` is undecided.
pub type Score = Option<Option<f32>>;

/// What an instance says that reads what is stored, reduced to what the options take into account.
pub fn observe_with<T>(o: &SchedulerOptions, f: impl FnOnce(&Trane) -> T) -> Option<T> {
    let d = SchedulerOptions::default();
    if (o.num_trials, o.num_deltas, o.num_rewards) == (d.num_trials, d.num_deltas, d.num_rewards) {
        return observe(f);
    }
    on_copy(None, |t| {
        t.trim_scores(o.num_trials).ok()?;
        t.trim_deltas(o.num_deltas).ok()?;
        t.trim_rewards(o.num_rewards).ok()?;
        Some(f(t))
    })
    .flatten()
}
/// Runs `f` on a copy of the library and all that is stored, with the given batch size if any.
pub fn on_copy<T>(batch: Option<usize>, f: impl FnOnce(&mut Trane) -> T) -> Option<T> {
    fn copy(a: &std::path::Path, b: &std::path::Path) -> std::io::Result<()> {
        std::fs::create_dir_all(b)?;
        for e in std::fs::read_dir(a)? {
            let e = e?;
            if e.file_type()?.is_dir() {
                if e.file_name() != CHK {
                    copy(&e.path(), &b.join(e.file_name()))?;
                }
            } else {
                std::fs::copy(e.path(), b.join(e.file_name()))?;
            }
        }
        Ok(())
    }
    calmly(|| {
        let w = vroot().join(CHK);
        let _ = std::fs::remove_dir_all(&w);
        let run = || -> Option<T> {
            copy(vroot(), &w).ok()?;
            if batch.is_some() {
                let p = w.join(".trane/user_preferences.json");
                let mut v: Value = serde_json::from_str(&std::fs::read_to_string(&p).ok()?).ok()?;
                v["scheduler"] = json!({ "batch_size": batch });
                std::fs::write(&p, v.to_string()).ok()?;
            }
            let mut t = Trane::new_local(&w, &w).ok()?;
            same_time(&mut t);
            Some(f(&mut t))
        };
        let r = run();
        let _ = std::fs::remove_dir_all(&w);
        r
    })
}
const CHK: &str = ".chk";

pub fn truth(m: &Model, o: &SchedulerOptions) -> Option<Truth> {
    observe_with(o, |t| {
        let mut ex = BTreeMap::new();
        let mut trials = BTreeMap::new();
        for u in m.u.values().filter(|u| u.ty == 'e') {
            ex.insert(u.id.clone(), t.get_unit_score(us(&u.id)).ok().flatten());
            trials.insert(u.id.clone(), t.get_scores(us(&u.id), o.num_trials).map_or(0, |v| v.len()));
        }
        let set = |r: Option<Vec<ustr::Ustr>>| r.map(|v| v.iter().map(|x| x.to_string()).collect::<BTreeSet<_>>());
        let bl = set(t.get_blacklist_entries().ok())?;
        let rl = set(t.get_review_list_entries().ok())?;
        Some(Truth { ex, trials, bl, rl, o: o.clone(), memo: RefCell::default(), sup_memo: RefCell::default() })
    })?
}

fn and(it: impl Iterator<Item = Tri>) -> Tri {
    let mut r = Some(true);
    for x in it {
        match x {
            Some(false) => return Some(false),
            None => r = None,
            _ => {}
        }
    }
    r
}
fn or(it: impl Iterator<Item = Tri>) -> Tri {
    and(it.map(|x| x.map(|b| !b))).map(|b| !b)
}
fn at_least(v: f32, limit: f32) -> Tri {
    if v >= limit + MARGIN {
        Some(true)
    } else if v < limit - MARGIN {
        Some(false)
    } else {
        None
    }
}

impl Truth {
    /// With nothing on either list.
    pub fn of(ex: BTreeMap<String, Option<f32>>, trials: BTreeMap<String, usize>, o: SchedulerOptions) -> Truth {
        Truth { ex, trials, bl: BTreeSet::new(), rl: BTreeSet::new(), o, memo: RefCell::default(), sup_memo: RefCell::default() }
    }
    /// Whether an exercise lies in blacklisted material.
    pub fn inside_bl(&self, m: &Model, ex: &str) -> bool {
        self.bl.contains(ex) || m.u.get(ex).is_some_and(|u| self.bl.contains(&u.lesson) || self.bl.contains(&u.course))
    }
    pub fn valid_exs(&self, m: &Model, id: &str) -> Vec<String> {
        m.exs_of(id).into_iter().filter(|e| !self.inside_bl(m, e)).collect()
    }
    fn seen_all(&self, m: &Model, id: &str) -> Tri {
        and(self.valid_exs(m, id).iter().map(|e| self.ex.get(e).copied().flatten().map(|s| s > 0.0)))
    }
    /// Whether every superseding unit with a score is mastered; undecided when none has one.
    fn mastered(&self, m: &Model, set: &BTreeSet<String>) -> Tri {
        let mut any = false;
        let mut r = Some(true);
        for id in set {
            match self.score(m, id) {
                None => r = if r == Some(false) { r } else { None },
                Some(None) => {}
                Some(Some(s)) => {
                    any = true;
                    match at_least(s, self.o.superseding_score) {
                        Some(false) => r = Some(false),
                        None => r = if r == Some(false) { r } else { None },
                        _ => {}
                    }
                }
            }
        }
        if any || r != Some(true) { r } else { None }
    }
    fn sup_by(&self, m: &Model, id: &str, set: &BTreeSet<String>) -> Tri {
        if set.is_empty() {
            return Some(false);
        }
        and([self.seen_all(m, id), self.mastered(m, set)].into_iter())
    }
    /// Superseding units, with those superseded themselves replaced; `None` when undecided.
    fn replaced(&self, m: &Model, set: &BTreeSet<String>, depth: usize) -> Option<BTreeSet<String>> {
        let mut out = BTreeSet::new();
        for id in set {
            match m.sup_by.get(id) {
                Some(s) if depth > 0 => match self.sup_by(m, id, s)? {
                    true => out.extend(self.replaced(m, s, depth - 1)?),
                    false => {
                        out.insert(id.clone());
                    }
                },
                _ => {
                    out.insert(id.clone());
                }
            }
        }
        Some(out)
    }
    pub fn superseded(&self, m: &Model, id: &str) -> Tri {
        if let Some(r) = self.sup_memo.borrow().get(id) {
            return *r;
        }
        let r = match m.sup_by.get(id) {
            None => Some(false),
            Some(s) => match self.seen_all(m, id) {
                Some(false) => Some(false),
                _ => self.replaced(m, s, 10).and_then(|s| self.sup_by(m, id, &s)),
            },
        };
        self.sup_memo.borrow_mut().insert(id.into(), r);
        r
    }
    /// The score of any unit, from the scores of the exercises.
    pub fn score(&self, m: &Model, id: &str) -> Score {
        let Some(u) = m.u.get(id) else { return Some(None) };
        if u.ty == 'e' {
            return self.ex[id].map(Some);
        }
        if let Some(r) = self.memo.borrow().get(id) {
            return *r;
        }
        let r = self.score_now(m, u);
        self.memo.borrow_mut().insert(id.into(), r);
        r
    }
    fn score_now(&self, m: &Model, u: &Unit) -> Score {
        if self.bl.contains(&u.id) {
            return Some(None);
        }
        match self.superseded(m, &u.id) {
            Some(true) => return Some(None),
            None => return None,
            _ => {}
        }
        let mut v = vec![];
        for k in &u.kids {
            if u.ty == 'l' && self.bl.contains(k) {
                continue;
            }
            if let Some(s) = self.score(m, k)? {
                v.push(s);
            }
        }
        Some(if v.is_empty() { None } else { Some(v.iter().sum::<f32>() / v.len() as f32) })
    }
    /// Average trials; the outer `None` is undecided, the inner one "no practicable exercises".
    fn avg_trials(&self, m: &Model, id: &str) -> Score {
        let u = m.u.get(id)?;
        let mut v = vec![];
        for k in &u.kids {
            if self.bl.contains(k) {
                continue;
            }
            if u.ty == 'l' {
                v.push(self.trials[k].min(self.o.num_trials as usize) as f32);
            } else {
                if self.superseded(m, k)? {
                    continue;
                }
                if let Some(t) = self.avg_trials(m, k)? {
                    v.push(t);
                }
            }
        }
        Some(if v.is_empty() { None } else { Some(v.iter().sum::<f32>() / v.len() as f32) })
    }
    fn sat_eff(&self, m: &Model, id: &str) -> Tri {
        let Some(u) = m.u.get(id) else { return Some(true) };
        if self.bl.contains(id) || (u.ty == 'l' && self.bl.contains(&u.course)) {
            return Some(true);
        }
        let passed = match (self.score(m, id), self.avg_trials(m, id)) {
            (Some(None), _) | (_, Some(None)) => Some(true),
            (Some(Some(s)), Some(Some(t))) => {
                let min = self.o.passing_score.min_avg_trials;
                let enough = if (t - min).abs() < 1e-3 { None } else { Some(t > min) };
                and([at_least(s, self.o.passing_score.min_score), enough].into_iter())
            }
            (Some(Some(s)), None) if at_least(s, self.o.passing_score.min_score) == Some(false) => Some(false),
            _ => None,
        };
        let course = if u.ty == 'l' { self.superseded(m, &u.course) } else { Some(false) };
        or([self.superseded(m, id), course, passed].into_iter())
    }
    fn effective(&self, m: &Model, id: &str, kv: Option<&Value>, seen: &mut BTreeSet<String>) -> BTreeSet<String> {
        let mut out = BTreeSet::new();
        let Some(u) = m.u.get(id) else { return out };
        if !seen.insert(id.into()) {
            return out;
        }
        let passes = match kv {
            None => true,
            Some(f) if u.ty == 'c' => kv_course(f, u),
            Some(f) => kv_lesson(f, &m.u[&u.course], u),
        };
        if passes {
            out.insert(id.into());
            return out;
        }
        let mut next: BTreeSet<String> = u.deps.clone();
        if u.ty == 'l' {
            if m.starting.get(&u.course).is_some_and(|s| s.contains(id)) {
                next.extend(m.u[&u.course].deps.iter().cloned());
            }
        } else {
            let matching: BTreeSet<String> = u.kids.iter().filter(|l| kv_lesson(kv.unwrap(), u, &m.u[*l])).cloned().collect();
            let last: BTreeSet<String> = matching.iter().filter(|l| m.dependents.get(*l).is_none_or(|d| d.is_disjoint(&matching))).cloned().collect();
            if !last.is_empty() {
                return last;
            }
        }
        for d in next {
            out.extend(self.effective(m, &d, kv, seen));
        }
        out
    }
    fn satisfied(&self, m: &Model, dep: &str, kv: Option<&Value>) -> Tri {
        let t = self.effective(m, dep, kv, &mut BTreeSet::new());
        and(t.iter().map(|x| self.sat_eff(m, x)))
    }
    /// Whether a lesson may be presented: its prerequisites, and its course's if it is a first lesson.
    pub fn open_to(&self, m: &Model, lesson: &str, kv: Option<&Value>) -> Tri {
        let u = &m.u[lesson];
        let mut deps: Vec<&String> = u.deps.iter().collect();
        if m.starting.get(&u.course).is_some_and(|s| s.contains(lesson)) {
            deps.extend(m.u[&u.course].deps.iter());
        }
        and(deps.into_iter().map(|d| self.satisfied(m, d, kv)))
    }
}

// ---------------------------------------------------------------- filters

fn kv_match(f: &Value, meta: &Meta) -> bool {
    let has = meta.get(f["key"].as_str().unwrap()).is_some_and(|v| v.iter().any(|x| f["value"] == x.as_str()));
    if f["filter_type"] == "Include" { has } else { !has }
}
pub fn kv_lesson(f: &Value, course: &Unit, lesson: &Unit) -> bool {
    if let Some(x) = f.get("CourseFilter") {
        return kv_match(x, &course.meta);
    }
    if let Some(x) = f.get("LessonFilter") {
        return kv_match(x, &lesson.meta);
    }
    let c = &f["CombinedFilter"];
    let v = c["filters"].as_array().unwrap();
    if c["op"] == "All" { v.iter().all(|x| kv_lesson(x, course, lesson)) } else { v.iter().any(|x| kv_lesson(x, course, lesson)) }
}
/// Whether a course as such passes; one that leaves the decision to its lessons does not.
pub fn kv_course(f: &Value, course: &Unit) -> bool {
    if let Some(x) = f.get("CourseFilter") {
        return kv_match(x, &course.meta);
    }
    if f.get("LessonFilter").is_some() {
        return false;
    }
    let c = &f["CombinedFilter"];
    let v = c["filters"].as_array().unwrap();
    let all = c["op"] == "All";
    if all {
        v.iter().all(|x| kv_course(x, course))
    } else {
        v.iter().all(|x| x.get("CourseFilter").is_some()) && v.iter().any(|x| kv_course(x, course))
    }
}
fn strs(v: &Value) -> Vec<String> {
    v.as_array().map(|a| a.iter().filter_map(|x| x.as_str().map(String::from)).collect()).unwrap_or_default()
}
/// Everything reachable from the given units through dependents, completed courses included.
fn closure(m: &Model, from: &[String]) -> BTreeSet<String> {
    let mut r: BTreeSet<String> = BTreeSet::new();
    let mut stack: Vec<String> = from.iter().filter(|x| m.u.contains_key(*x)).cloned().collect();
    while let Some(x) = stack.pop() {
        if !r.insert(x.clone()) {
            continue;
        }
        stack.extend(m.dependents.get(&x).into_iter().flatten().cloned());
        let u = &m.u[&x];
        if u.ty == 'c' {
            stack.extend(m.starting.get(&x).into_iter().flatten().cloned());
        } else {
            // Once every lesson of a course is reached the search may go on past the course.
            let c = &m.u[&u.course];
            if c.kids.iter().all(|l| r.contains(l)) {
                stack.push(c.id.clone());
            }
        }
    }
    r
}
fn at_depth(m: &Model, ids: &[String], depth: u64) -> Vec<String> {
    let mut out = BTreeSet::new();
    let mut cur: BTreeSet<String> = ids.iter().cloned().collect();
    for d in 0..=depth {
        let mut next = BTreeSet::new();
        for x in cur {
            let deps = m.u.get(&x).map(|u| u.deps.clone()).unwrap_or_default();
            if d == depth || deps.is_empty() {
                out.insert(x);
            } else {
                next.extend(deps);
            }
        }
        cur = next;
    }
    out.into_iter().filter(|x| m.u.contains_key(x)).collect()
}
/// The lessons (and single exercises) a unit filter selects.
pub fn selected(m: &Model, rl: &BTreeSet<String>, f: &Value) -> BTreeSet<String> {
    let mut ex = BTreeSet::new();
    let mut add = |id: &str| ex.extend(m.exs_of(id));
    if let Some(x) = f.get("CourseFilter") {
        strs(&x["course_ids"]).iter().filter(|i| m.u.get(*i).is_some_and(|u| u.ty == 'c')).for_each(|i| add(i));
    } else if let Some(x) = f.get("LessonFilter") {
        strs(&x["lesson_ids"]).iter().filter(|i| m.u.get(*i).is_some_and(|u| u.ty == 'l')).for_each(|i| add(i));
    } else if let Some(x) = f.get("MetadataFilter") {
        for u in m.u.values().filter(|u| u.ty == 'l') {
            if kv_lesson(&x["filter"], &m.u[&u.course], u) {
                add(&u.id);
            }
        }
    } else if f == "ReviewListFilter" {
        rl.iter().for_each(|i| add(i));
    } else if let Some(x) = f.get("Dependents") {
        for i in closure(m, &strs(&x["unit_ids"])) {
            if m.u[&i].ty == 'l' {
                add(&i);
            }
        }
    } else if let Some(x) = f.get("Dependencies") {
        for i in closure(m, &at_depth(m, &strs(&x["unit_ids"]), x["depth"].as_u64().unwrap())) {
            if m.u[&i].ty == 'l' {
                add(&i);
            }
        }
    }
    ex
}
/// The part of a study session in force at a time.
pub fn session_part_at<'a>(def: &'a Value, start: i64, now: i64) -> Option<&'a Value> {
    let parts = def["parts"].as_array()?;
    let el = now.checked_sub(start)?;
    let dur = |p: &Value| p.as_object().unwrap().values().next().unwrap()["duration"].as_i64().unwrap() as i128;
    let minutes = (el as i128).div_euclid(60);
    if el < 0 {
        return parts.first();
    }
    let mut end = 0i128;
    for p in parts {
        end += dur(p);
        if minutes < end {
            return Some(p);
        }
    }
    parts.last()
}
/// Within the minute before the start, a first part that lasts no time may or may not be over.
fn vague(def: &Value, start: i64, now: i64) -> bool {
    let first = |d: &Value| d["parts"].as_array()?.first()?.as_object()?.values().next()?["duration"].as_i64();
    (-59..0).contains(&now.saturating_sub(start)) && first(def) == Some(0)
}
/// The unit filter in force, if any; the outer `None` is "not known".
pub fn effective_filter(lib: &LibSpec, f: &Filt, now: i64) -> Option<Option<Value>> {
    let saved = |id: &Value| lib.filters.iter().find(|x| x.1["id"] == *id).map(|x| x.1["filter"].clone());
    let of_part = |p: Option<&Value>| match p {
        None => Some(None),
        Some(p) => {
            if let Some(x) = p.get("UnitFilter") {
                Some(Some(x["filter"].clone()))
            } else if let Some(x) = p.get("SavedFilter") {
                saved(&x["filter_id"]).map(Some)
            } else {
                Some(None)
            }
        }
    };
    match f {
        Filt::None => Some(None),
        Filt::Unit(v) => Some(Some(v.clone())),
        Filt::Saved(id) => saved(&json!(id)).map(Some),
        Filt::Session(def, start) if vague(def, *start, now) => None,
        Filt::Session(def, start) => of_part(session_part_at(def, *start, now)),
        Filt::SavedSession(id, start) => {
            let def = lib.sessions.iter().find(|x| x.1["id"] == *id)?;
            if vague(&def.1, *start, now) {
                return None;
            }
            of_part(session_part_at(&def.1, *start, now))
        }
    }
}

// ---------------------------------------------------------------- batches

fn windows_bound(o: &SchedulerOptions) -> usize {
    // Each mastery window contributes at least one exercise; the shares move with the success rate.
    let b = o.batch_size;
    let mut best = b;
    let size = |p: f32| ((b as f32 * p).max(1.0) + 1e-3) as usize;
    for s in [0.0f32, 0.05, -0.05, -0.10] {
        let c = |p: f32| if s == 0.0 { p } else { p.clamp(0.05, 0.5) };
        let w = [c(o.new_window_opts.percentage + s), c(o.target_window_opts.percentage + s), c(o.easy_window_opts.percentage - s), c(o.mastered_window_opts.percentage - s)];
        let rest = if s == 0.0 { o.current_window_opts.percentage } else { (1.0 - w.iter().sum::<f32>()).max(0.05) };
        best = best.max(w.iter().map(|p| size(*p)).sum::<usize>() + size(rest));
    }
    best
}
pub fn batch_bound(o: &SchedulerOptions) -> usize {
    windows_bound(o) + (o.batch_size as f32 * o.relearn_fraction) as usize
}

pub fn check_batch(c: &mut Ctx, f: &Filt, ids: &[String], op: u32) {
    let p = c.plan.prop.as_str();
    if !matches!(p, "P13" | "P14" | "P15" | "P16" | "P17" | "P18" | "P19" | "P20" | "P24" | "P27") {
        return;
    }
    c.batches += 1;
    c.presented += ids.len() as u64;
    if p == "P18" {
        let set: BTreeSet<&String> = ids.iter().collect();
        if set.len() != ids.len() {
            violation("P18", op, format!("the batch lists an exercise twice: {ids:?}"));
        }
        if let Some(x) = ids.iter().find(|x| c.m.u.get(*x).is_none_or(|u| u.ty != 'e')) {
            violation("P18", op, format!("{x} is not an exercise of the library"));
        }
    }
    if matches!(p, "P18" | "P27") && ids.len() > batch_bound(&c.o) {
        violation(p, op, format!("batch of {} exercises, at most {} configured", ids.len(), batch_bound(&c.o)));
    }
    let eff = effective_filter(&c.plan.lib, f, rt().real.max(0));
    let Some(t) = c.truth() else { return };
    // The options govern the rules of several properties.
    let rules: &[&str] = if p == "P27" { &["P14", "P15", "P18", "P20"] } else { &[p] };
    for rule in rules {
        check_rule(c, rule, p, f, ids, op, &t, &eff);
    }
    if p == "P20" || p == "P27" {
        let gone: Vec<String> = c.pile.iter().filter(|x| t.inside_bl(&c.m, x)).cloned().collect();
        for x in gone {
            c.pile.remove(&x);
            c.maybe.insert(x);
        }
    }
}
#[allow(clippy::too_many_arguments)]
fn check_rule(c: &Ctx, rule: &str, p: &str, f: &Filt, ids: &[String], op: u32, t: &Truth, eff: &Option<Option<Value>>) {
    let m = &c.m;
    let exempt = |x: &str| c.pile.contains(x) || c.maybe.contains(x);
    let of = |k: &str| eff.as_ref().and_then(|x| x.as_ref()).and_then(|x| x.get(k)).cloned();
    match rule {
        "P13" => {
            if let Some(x) = ids.iter().find(|x| t.inside_bl(m, x)) {
                violation(p, op, format!("{x} is presented although it, its lesson or its course is blacklisted: {:?}", t.bl));
            }
        }
        "P14" => {
            let Some(e) = eff else { return };
            let kv = match e {
                None => None,
                Some(v) if v.get("MetadataFilter").is_some() => Some(v["MetadataFilter"]["filter"].clone()),
                _ => return,
            };
            for x in ids.iter().filter(|x| !exempt(x)) {
                let Some(u) = m.u.get(x) else { continue };
                if t.open_to(m, &u.lesson, kv.as_ref()) == Some(false) {
                    violation(p, op, format!("{x} is presented but the prerequisites of {} are not satisfied", u.lesson));
                    return;
                }
            }
        }
        "P15" => {
            let Some(e) = eff else { return };
            if e.is_some() && of("MetadataFilter").is_none() && of("CourseFilter").is_none() {
                return;
            }
            for x in ids.iter().filter(|x| !exempt(x)) {
                let Some(u) = m.u.get(x) else { continue };
                for s in [&u.lesson, &u.course] {
                    if t.superseded(m, s) == Some(true) {
                        violation(p, op, format!("{x} is presented but {s} is superseded"));
                        return;
                    }
                }
            }
        }
        "P16" | "P17" => {
            let direct = matches!(f, Filt::Unit(_) | Filt::Saved(_));
            if direct != (p == "P16") {
                return;
            }
            let Some(Some(v)) = eff else { return };
            let sel = selected(m, &t.rl, v);
            if let Some(x) = ids.iter().find(|x| !exempt(x) && m.u.contains_key(*x) && !sel.contains(*x)) {
                violation(p, op, format!("{x} is presented but the filter in force does not select it: {v}"));
            }
        }
        "P18" => {
            let graph = match eff {
                Some(None) => true,
                Some(Some(_)) => of("MetadataFilter").is_some() || of("Dependents").is_some() || of("Dependencies").is_some() || of("CourseFilter").is_some(),
                None => false,
            };
            if graph {
                let mut prog = BTreeSet::new();
                for x in ids.iter().filter(|x| !exempt(x)) {
                    let Some(u) = m.u.get(x) else { continue };
                    let v = t.valid_exs(m, &u.lesson);
                    let s: f32 = v.iter().map(|e| t.ex[e].unwrap_or(9.0)).sum::<f32>() / v.len().max(1) as f32;
                    if at_least(s, c.o.target_window_opts.range.1) == Some(false) {
                        prog.insert(&u.lesson);
                    }
                }
                if prog.len() > c.o.max_lessons_in_progress {
                    violation(p, op, format!("{} lessons in progress in one batch: {prog:?}", prog.len()));
                }
            }
        }
        "P19" => {
            let kv = match eff {
                Some(None) => None,
                Some(Some(v)) if v.get("MetadataFilter").is_some() => Some(v["MetadataFilter"]["filter"].clone()),
                _ => return,
            };
            if !ids.is_empty() {
                return;
            }
            let eligible = m.u.values().find(|u| {
                u.ty == 'e'
                    && !t.inside_bl(m, &u.id)
                    && t.ex.get(&u.id).copied().flatten().is_some_and(|s| s < 4.4)
                    && kv.as_ref().is_none_or(|kv| kv_lesson(kv, &m.u[&u.course], &m.u[&u.lesson]))
                    && t.superseded(m, &u.lesson) == Some(false)
                    && t.superseded(m, &u.course) == Some(false)
                    && t.open_to(m, &u.lesson, kv.as_ref()) == Some(true)
            });
            if let Some(u) = eligible {
                violation(p, op, format!("the batch is empty although {} is eligible", u.id));
            }
        }
        "P20" => {
            let share = (c.o.batch_size as f32 * c.o.relearn_fraction) as usize;
            let live: BTreeSet<&String> = c.pile.iter().filter(|x| *x != "nothing" && !t.inside_bl(m, x)).collect();
            let known_blocked: BTreeSet<String> = c.pile.iter().filter(|x| t.inside_bl(m, x)).cloned().collect();
            // Exercises whose state is unknown may take up places in the share.
            let want = share.min(live.len()).saturating_sub(c.maybe.len());
            let got = ids.iter().filter(|x| live.contains(x)).count();
            let got_maybe = ids.iter().filter(|x| c.maybe.contains(*x)).count();
            if got < want && got + got_maybe < share.min(live.len()) {
                violation(p, op, format!("the batch holds {got} of {} recently failed exercises, at least {want} expected", live.len()));
            }
            if let Some(Some(v)) = eff {
                let sel = selected(m, &t.rl, v);
                if let Some(x) = ids.iter().find(|x| c.passed.contains(*x) && !exempt(x) && m.u.contains_key(*x) && !sel.contains(*x)) {
                    violation(p, op, format!("{x} was passed since, and the filter does not select it, but it is presented"));
                }
                // What the filter does not select is there as part of that share only.
                let outside = ids.iter().filter(|x| m.u.contains_key(*x) && !sel.contains(*x)).count();
                if outside > share {
                    violation(p, op, format!("{outside} exercises that the filter does not select are presented, the share of those recently failed is {share}"));
                }
            }
            let _ = known_blocked;
        }
        _ => {}
    }
}

// ---------------------------------------------------------------- scores

/// Every score the instance reports against a fresh instance and against the definition.
pub fn check_coherence(c: &mut Ctx, op: u32) {
    let prop = c.plan.prop.clone();
    if prop == "P26" {
        return check_formula(c, op);
    }
    let m = &c.m;
    let ids: Vec<&String> = m.u.keys().collect();
    let o = c.o.clone();
    let obs: Option<Vec<_>> = observe_with(&o, |t| ids.iter().map(|id| t.get_unit_score(us(id)).map_err(|e| e.to_string())).collect());
    let Some(obs) = obs else { return };
    let t = c.trane();
    let mine: Vec<_> = calmly(|| ids.iter().map(|id| t.get_unit_score(us(id)).map_err(|e| e.to_string())).collect());
    for ((id, a), b) in ids.iter().zip(mine.iter()).zip(obs.iter()) {
        if prop == "P27" && m.u[*id].ty != 'e' && a.is_ok() {
            // The other instance has other options, which affect what is superseded.
            continue;
        }
        let b = match b {
            Ok(b) => b,
            Err(_) => continue,
        };
        match a {
            Err(e) => violation(&prop, op, format!("the score of {id} is reported as an error on a healthy disk: {e}")),
            Ok(a) => {
                let same = match (a, b) {
                    (None, None) => true,
                    (Some(x), Some(y)) => (x - y).abs() <= TOL,
                    _ => false,
                };
                if !same {
                    violation(&prop, op, format!("{id} is reported with score {a:?}, a fresh instance reports {b:?}"));
                    return;
                }
            }
        }
    }
    // Against the definition of lesson and course scores.
    if matches!(prop.as_str(), "P08" | "P27") {
        if let Some(t) = truth(m, &o) {
            for (id, a) in ids.iter().zip(if prop == "P27" { mine.iter() } else { obs.iter() }) {
                let (Ok(a), Some(d)) = (a, t.score(m, id)) else { continue };
                let same = match (a, d) {
                    (None, None) => true,
                    (Some(x), Some(y)) => (x - y).abs() <= TOL,
                    _ => false,
                };
                if !same {
                    violation(&prop, op, format!("{id} has score {a:?}, its valid parts average to {d:?}"));
                    return;
                }
            }
        }
    }
}
/// The score of each exercise against the published model, given what is stored.
fn check_formula(c: &mut Ctx, op: u32) {
    let (o, m) = (c.o.clone(), &c.m);
    let r = observe(|t| {
        let mut n = 0;
        let now = || as_of().unwrap_or_else(|| chrono::Utc::now().timestamp());
        for u in m.u.values().filter(|u| u.ty == 'e') {
            let read = || -> Option<crate::formula::Stored> {
                Some(crate::formula::Stored {
                    procedural: u.proc,
                    trials: t.get_scores(us(&u.id), o.num_trials).ok()?,
                    deltas: t.get_deltas(us(&u.id), o.num_deltas).ok()?,
                    lesson: t.get_rewards(us(&u.lesson), o.num_rewards).ok()?,
                    course: t.get_rewards(us(&u.course), o.num_rewards).ok()?,
                })
            };
            let Some(s) = read() else { continue };
            let before = now();
            let Ok(Some(x)) = t.get_unit_score(us(&u.id)) else {
                violation("P26", op, format!("no score for {} on a healthy disk", u.id));
                continue;
            };
            let after = now();
            // The time may pass a threshold meanwhile.
            let (Some(a), Some(b)) = (crate::formula::score(&s, before), crate::formula::score(&s, after)) else { continue };
            n += 1;
            if (x as f64 - a).abs() > TOL as f64 && (x as f64 - b).abs() > TOL as f64 {
                violation("P26", op, format!("{} has score {x}, the model gives {a:.4} for {} trials, {} deltas, {} and {} rewards", u.id, s.trials.len(), s.deltas.len(), s.lesson.len(), s.course.len()));
            }
        }
        n
    });
    c.probes += r.unwrap_or(0);
}
pub fn check_bounds(c: &Ctx, op: u32) {
    if c.plan.prop != "P11" {
        return;
    }
    let t = c.trane();
    for u in c.m.u.values() {
        match t.get_unit_score(us(&u.id)) {
            Err(e) => violation("P11", op, format!("no score for {}: {e}", u.id)),
            Ok(Some(s)) => {
                if !s.is_finite() || !(-1e-4..=5.0001).contains(&s) {
                    violation("P11", op, format!("{} has score {s}", u.id));
                }
                if u.ty == 'e' && s != 0.0 && t.get_scores(us(&u.id), 1).is_ok_and(|v| v.is_empty()) {
                    violation("P11", op, format!("{} was never practised but has score {s}", u.id));
                }
                if u.ty == 'l' && u.kids.iter().all(|k| c.bl.contains(k)) {
                    violation("P11", op, format!("{} has no valid exercises but score {s}", u.id));
                }
            }
            Ok(None) => {
                if u.ty == 'e' {
                    violation("P11", op, format!("exercise {} has no score", u.id));
                }
            }
        }
    }
}

fn multiset_diff(a: &[(f32, f32, i64)], b: &[(f32, f32, i64)]) -> Vec<(f32, f32, i64)> {
    let mut rest = b.to_vec();
    let mut out = vec![];
    for x in a {
        match rest.iter().position(|y| x == y) {
            Some(i) => {
                rest.swap_remove(i);
            }
            None => out.push(*x),
        }
    }
    out
}
/// Units reached along the encompassing relation, in the direction a score of that sign flows.
pub fn reward_closure(m: &Model, ex: &str, good: bool) -> BTreeSet<String> {
    let mut out = BTreeSet::new();
    let Some(u) = m.u.get(ex) else { return out };
    let mut rev: BTreeMap<&str, Vec<String>> = BTreeMap::new();
    let enc: BTreeMap<&String, Vec<(String, f32)>> = m.u.keys().map(|k| (k, m.encompasses(k))).collect();
    for (k, v) in &enc {
        for (t, w) in v {
            if *w > 0.0 {
                rev.entry(m.u.get_key_value(t).map_or("", |x| x.0.as_str())).or_default().push((*k).clone());
            }
        }
    }
    let mut stack = vec![u.lesson.clone(), u.course.clone()];
    let mut seen = BTreeSet::new();
    while let Some(x) = stack.pop() {
        if !seen.insert(x.clone()) {
            continue;
        }
        let next: Vec<String> = if good {
            enc.get(&x).into_iter().flatten().filter(|e| e.1 > 0.0).map(|e| e.0.clone()).collect()
        } else {
            rev.get(x.as_str()).cloned().unwrap_or_default()
        };
        for n in next {
            out.insert(n.clone());
            stack.push(n);
        }
    }
    out
}
/// The rewards a score must bring: of each unit the values and weights of all paths to it, along which neither falls below the limit
/// of 0.2. `None` for a unit reached by a path too near the limit to tell; nothing at all where the order of the search matters.
fn published_rewards(m: &Model, ex: &str, score: u8) -> Option<BTreeMap<String, Option<(f64, f64)>>> {
    let first = match score { 5 => 0.8, 4 => 0.4, 3 => -0.3, 2 => -0.5, _ => -1.0 };
    let u = m.u.get(ex)?;
    let mut edges: BTreeMap<String, Vec<(String, f64)>> = BTreeMap::new();
    for k in m.u.keys() {
        for (t, w) in m.encompasses(k) {
            let (a, b) = if first > 0.0 { (k.clone(), t) } else { (t, k.clone()) };
            edges.entry(a).or_default().push((b, w as f64));
        }
    }
    let mut paths: BTreeMap<String, Vec<(f64, f64, bool)>> = BTreeMap::new();
    // A step of the search: the unit, the value and the weight so far, whether it is sure to get there, and whether it is the first.
    let mut stack: Vec<(String, f64, f64, bool, bool)> = [&u.lesson, &u.course].map(|x| (x.clone(), first, 1.0, true, true)).to_vec();
    let mut n = 0;
    while let Some((x, v, w, sure, start)) = stack.pop() {
        n += 1;
        if n > 20_000 {
            return None;
        }
        let (fv, fw) = if start { (1.0, 1.0) } else { (0.9, 0.8) };
        for (y, e) in edges.get(&x).into_iter().flatten() {
            let (v, w) = (v * e * fv, w * e * fw);
            let least = v.abs().min(w);
            if least < 0.2 - 1e-4 {
                continue;
            }
            let sure = sure && least > 0.2 + 1e-4;
            paths.entry(y.clone()).or_default().push((v, w, sure));
            stack.push((y.clone(), v, w, sure, false));
        }
    }
    let mut out = BTreeMap::new();
    for (id, ps) in paths {
        for p in &ps {
            // Only the paths with the greatest values are followed, of which the weights may be smaller.
            if ps.iter().any(|q| q.0.abs() > p.0.abs() - 1e-5 && q.1 < p.1 - 1e-5) {
                return None;
            }
        }
        let best = *ps.iter().max_by(|a, b| a.0.abs().total_cmp(&b.0.abs())).unwrap();
        out.insert(id, ps.iter().all(|p| p.2).then_some((best.0, best.1)));
    }
    Some(out)
}
type Snap = (BTreeMap<String, Vec<(f32, f32, i64)>>, BTreeMap<String, Option<f32>>);
fn snap(c: &Ctx) -> Option<Snap> {
    let m = &c.m;
    let extra: BTreeSet<String> = m.u.values().flat_map(|u| u.deps.iter().cloned().chain(u.enc.iter().map(|e| e.0.clone()))).collect();
    observe(|t: &Trane| {
        let mut rw = BTreeMap::new();
        let mut sc = BTreeMap::new();
        for id in m.u.keys().chain(extra.iter()) {
            let v = t.get_rewards(us(id), 100_000).unwrap_or_default();
            rw.insert(id.clone(), v.iter().map(|x| (x.value, x.weight, x.timestamp)).collect());
        }
        for u in m.u.values().filter(|u| u.ty == 'e') {
            sc.insert(u.id.clone(), t.get_unit_score(us(&u.id)).ok().flatten());
        }
        (rw, sc)
    })
}
pub fn score_obs(c: &mut Ctx, op: u32, ex: &str, score: u8, ts: i64) -> R {
    let before = snap(c);
    let r = c.trane().score_exercise(us(ex), score_of(score), ts).map_err(|e| e.to_string());
    let after = snap(c);
    let (Some(b), Some(a)) = (before, after) else { return r.map(|_| json!(null)) };
    let good = score >= 4;
    let reach = reward_closure(&c.m, ex, good);
    let limit = match score { 5 => 0.8, 4 => 0.4, 3 => 0.3, 2 => 0.5, _ => 1.0 } + 1e-4;
    let mut rewarded = BTreeSet::new();
    for (id, v) in &a.0 {
        let new = multiset_diff(v, &b.0[id]);
        if new.is_empty() {
            continue;
        }
        rewarded.insert(id.clone());
        if new.len() > 1 {
            violation("P12", op, format!("{id} got {} rewards from one submission", new.len()));
        }
        for (val, _, _) in &new {
            if !val.is_finite() || val.abs() > limit || *val == 0.0 || (*val > 0.0) != good {
                violation("P12", op, format!("{id} got a reward of {val} for a score of {score} in {ex}"));
            }
        }
        if !reach.contains(id) {
            violation("P12", op, format!("{id} got a reward from a score of {score} in {ex}, which it is not connected with that way"));
        }
    }
    if let (true, Some(want)) = (r.is_ok(), published_rewards(&c.m, ex, score)) {
        for (id, v) in &a.0 {
            let new = multiset_diff(v, &b.0[id]);
            match (want.get(id), new.first()) {
                (None, Some(x)) => violation("P12", op, format!("{id} got a reward of {} with weight {} for a score of {score} in {ex}, too far away for one", x.0, x.1)),
                (Some(Some((v, w))), Some(x)) => {
                    c.probes += 1;
                    if (x.0 as f64 - v).abs() > 1e-4 || (x.1 as f64 - w).abs() > 1e-4 || x.2 != ts {
                        violation("P12", op, format!("{id} got a reward of {} with weight {} at {} for a score of {score} in {ex} at {ts}, the model gives {v} with weight {w}", x.0, x.1, x.2));
                    }
                }
                (Some(Some((v, w))), None) => {
                    // The same reward within a day is not stored again, and only the last twenty are kept.
                    let again = b.0[id].iter().any(|x| (x.0 as f64 - v).abs() < 1e-4 && (x.1 as f64 - w).abs() < 0.1 + 1e-4 && x.2.abs_diff(ts) <= 86_400);
                    if !again && b.0[id].len() < 20 {
                        violation("P12", op, format!("{id} got no reward for a score of {score} in {ex}, the model gives {v} with weight {w}"));
                    }
                }
                _ => {}
            }
        }
    }
    c.rewards += rewarded.len() as u64;
    for (id, s) in &a.1 {
        let u = &c.m.u[id];
        if id == ex || rewarded.contains(&u.lesson) || rewarded.contains(&u.course) {
            continue;
        }
        let same = match (s, &b.1[id]) {
            (None, None) => true,
            (Some(x), Some(y)) => (x - y).abs() < 1e-5,
            _ => false,
        };
        if !same {
            violation("P12", op, format!("scoring {ex} changed the score of {id} from {:?} to {s:?} without a reward", b.1[id]));
        }
    }
    let _ = MasteryScore::One;
    r.map(|_| json!(null))
}

// ---------------------------------------------------------------- longer interactions

/// A lesson that must be eligible again does appear in batches for it.
pub fn eligible(c: &mut Ctx, op: u32, course: &str, lesson: &str, tries: usize) -> R {
    let prop = c.plan.prop.clone();
    let Some(t) = c.truth() else { return Ok(json!("no observer")) };
    let m = &c.m;
    let valid = t.valid_exs(m, lesson);
    let ok = !valid.is_empty()
        && match prop.as_str() {
            "P15" => t.superseded(m, lesson) == Some(false) && t.superseded(m, course) == Some(false) && m.starting.get(course).is_some_and(|s| s.contains(lesson)),
            _ => true,
        };
    if !ok {
        return Ok(json!("not applicable"));
    }
    c.probes += 1;
    let f = if prop == "P15" { Filt::Unit(json!({"CourseFilter": {"course_ids": [course]}})) } else { Filt::Unit(json!({"LessonFilter": {"lesson_ids": [lesson]}})) };
    let valid: BTreeSet<String> = valid.into_iter().collect();
    for _ in 0..tries {
        let ids = batch(c.trane(), &f, op)?;
        check_batch(c, &f, &ids, op);
        if ids.iter().any(|x| valid.contains(x)) {
            return Ok(json!("eligible"));
        }
    }
    violation(&prop, op, format!("none of the exercises of {lesson} is presented in {tries} batches for it, although it is eligible"));
    Ok(json!("never presented"))
}

/// Batches over all lessons of an unpractised library hold as many exercises as those of an instance
/// opened with that batch size.
pub fn size_probe(c: &mut Ctx, op: u32) -> R {
    let Some(t) = c.truth() else { return Ok(json!("no observer")) };
    if t.trials.values().any(|n| *n > 0) || !t.bl.is_empty() {
        return Ok(json!("not applicable"));
    }
    let lessons: Vec<String> = c.m.ids('l');
    let f = Filt::Unit(json!({"LessonFilter": {"lesson_ids": lessons}}));
    let other = on_copy(Some(c.o.batch_size), |t| batch(t, &f, op).ok().map(|v| v.len())).flatten();
    let n = batch(c.trane(), &f, op)?.len();
    c.probes += 1;
    if other.is_some_and(|o| o != n) {
        violation("P27", op, format!("a batch over all lessons holds {n} exercises, {} when the library is opened with a batch size of {}", other.unwrap(), c.o.batch_size));
    }
    Ok(json!({"n": n, "other": other}))
}

/// Draws batches from two sources until the lessons they cover agree. Rare lessons make it chance which source shows them
/// first, so that only what one shows SURELY times and the other never counts as a difference.
const SURELY: usize = 36;
fn same_lessons(m: &Model, mut a: impl FnMut() -> Result<Vec<String>, String>, mut b: impl FnMut() -> Result<Vec<String>, String>) -> Result<Option<String>, String> {
    let mut seen: BTreeMap<String, [usize; 2]> = BTreeMap::new();
    for i in 0..400u32 {
        // An order without a period, as what is presented makes its next presentation less likely.
        let first = (i.count_ones() % 2) as usize;
        for k in [first, 1 - first] {
            let ids = if k == 0 { a()? } else { b()? };
            let lessons: BTreeSet<&String> = ids.iter().map(|x| m.u.get(x).map_or(x, |u| &u.lesson)).collect();
            for l in lessons {
                seen.entry(l.clone()).or_default()[k] += 1;
            }
        }
        if i >= 9 && seen.values().all(|n| n[0] > 0 && n[1] > 0) {
            return Ok(None);
        }
        let only = |k: usize| seen.iter().filter(|(_, n)| n[k] >= SURELY && n[1 - k] == 0).map(|(l, _)| l).collect::<Vec<_>>();
        let (l, r) = (only(0), only(1));
        if !l.is_empty() || !r.is_empty() {
            return Ok(Some(format!("only the first: {l:?}, only the second: {r:?}")));
        }
    }
    Ok(None)
}

pub fn session_probe(c: &mut Ctx, op: u32, f: &Filt) -> R {
    let Some(eff) = effective_filter(&c.plan.lib, f, rt().real.max(0)) else { return Ok(json!("unknown")) };
    c.probes += 1;
    let direct = match eff {
        None => Filt::None,
        Some(v) => Filt::Unit(v),
    };
    let ids = batch(c.trane(), f, op)?;
    check_batch(c, f, &ids, op);
    let t = c.trane();
    let d = same_lessons(&c.m, || batch(t, f, op), || batch(t, &direct, op))?;
    if let Some(d) = d {
        violation("P17", op, format!("the session and the filter of its current part lead to different lessons: {d}"));
    }
    Ok(json!(null))
}

/// The same data through the directory and through the serialized library.
pub fn twin(c: &mut Ctx, op: u32, f: &Filt) -> R {
    let m = &c.m;
    let r = calmly(|| -> Result<Option<String>, String> {
        let a = open_plain().map_err(|e| format!("{e:#}"))?;
        let b = open_serialized().map_err(|e| format!("{e:#}"))?;
        let (la, lb) = (lib_dump(&a), lib_dump(&b));
        if la != lb {
            return Ok(Some(format!("the libraries differ: {}", json_diff(&la, &lb, ""))));
        }
        for id in m.u.keys() {
            let (x, y) = (a.get_unit_score(us(id)).ok(), b.get_unit_score(us(id)).ok());
            let same = match (x, y) {
                (Some(Some(x)), Some(Some(y))) => (x - y).abs() < 1e-5,
                (x, y) => x == y,
            };
            if !same {
                return Ok(Some(format!("the scores of {id} differ: {x:?} and {y:?}")));
            }
        }
        Ok(same_lessons(m, || batch(&a, f, op), || batch(&b, f, op))?.map(|d| format!("they lead to different lessons: {d}")))
    })?;
    c.probes += 1;
    if let Some(d) = r {
        violation("P24", op, format!("directory and serialized form differ: {d}"));
    }
    Ok(json!(null))
}

pub fn diligent(c: &mut Ctx, op: u32, rounds: usize) -> R {
    let Some(t) = c.truth() else { return Ok(json!("no observer")) };
    let m = c.m.clone();
    let mut unseen: BTreeSet<String> = m.u.values().filter(|u| u.ty == 'e' && t.trials[&u.id] == 0 && !t.inside_bl(&m, &u.id)).map(|u| u.id.clone()).collect();
    let total = unseen.len();
    let bound = if rounds > 0 { rounds } else { 60 + 40 * total };
    let mut used = 0;
    let mut empty = 0;
    while !unseen.is_empty() && used < bound {
        used += 1;
        let ids = batch(c.trane(), &Filt::None, op)?;
        if ids.is_empty() {
            c.ver += 1;
            check_batch(c, &Filt::None, &ids, op);
            empty += 1;
            if empty > 3 {
                break;
            }
        }
        let before = unseen.len();
        for id in &ids {
            unseen.remove(id);
            let ts = rt().real;
            c.trane().score_exercise(us(id), MasteryScore::Five, ts).map_err(|e| e.to_string())?;
            c.pile.remove(id);
        }
        // Well-known material is left out of batches for a while even if it is not passed yet.
        rt().real += if unseen.len() < before { 60 } else { 6 * 3600 };
    }
    c.batches += used as u64;
    c.presented += (total - unseen.len()) as u64;
    if !unseen.is_empty() {
        // Lessons that are superseded by now are excused, and so is what only they lead to.
        c.ver += 1;
        if let Some(t) = c.truth() {
            let left: Vec<&String> = unseen.iter().filter(|x| { let u = &m.u[*x]; t.superseded(&m, &u.lesson) == Some(false) && t.superseded(&m, &u.course) == Some(false) }).collect();
            if !left.is_empty() {
                if std::env::var("SIM_DEBUG").is_ok() {
                    for u in m.u.values() {
                        eprintln!("{} {} score {:?} trials {:?} sup {:?} open {:?} unseen {}", u.ty, u.id, t.score(&m, &u.id), t.trials.get(&u.id), t.superseded(&m, &u.id), if u.ty == 'l' { t.open_to(&m, &u.id, None) } else { None }, unseen.contains(&u.id));
                    }
                    for _ in 0..3 {
                        eprintln!("batch {:?}", batch(c.trane(), &Filt::None, op));
                    }
                }
                violation("P19", op, format!("after {used} batches ({empty} empty), a diligent student was never presented {} of {total} exercises, such as {}", left.len(), left[0]));
            }
        }
    }
    Ok(json!({"rounds": used, "total": total}))
}

// ---------------------------------------------------------------- comparison of libraries

/// The first place where two values differ.
pub fn json_diff(a: &Value, b: &Value, at: &str) -> String {
    match (a, b) {
        (Value::Object(x), Value::Object(y)) => {
            for (k, v) in x {
                match y.get(k) {
                    None => return format!("{at}/{k} only in the first"),
                    Some(w) if v != w => return json_diff(v, w, &format!("{at}/{k}")),
                    _ => {}
                }
            }
            for k in y.keys() {
                if !x.contains_key(k) {
                    return format!("{at}/{k} only in the second");
                }
            }
            String::new()
        }
        _ => {
            let cut = |v: &Value| v.to_string().chars().take(160).collect::<String>();
            format!("{at}: {} / {}", cut(a), cut(b))
        }
    }
}
/// Where a library as opened departs from what its files say.
pub fn diff_model(d: &Value, m: &Model) -> Option<String> {
    let set = |v: &Value| strs(v).into_iter().collect::<BTreeSet<String>>();
    let tree = d["tree"].as_object()?;
    let courses: BTreeSet<String> = tree.keys().cloned().collect();
    let want: BTreeSet<String> = m.ids('c').into_iter().collect();
    if courses != want {
        return Some(format!("courses loaded: {courses:?}, on disk: {want:?}"));
    }
    for c in m.u.values().filter(|u| u.ty == 'c') {
        let t = &tree[&c.id];
        let ls: BTreeSet<String> = t["lessons"].as_object()?.keys().cloned().collect();
        let want: BTreeSet<String> = c.kids.iter().cloned().collect();
        if ls != want || set(&t["glessons"]) != want {
            return Some(format!("lessons of {}: {ls:?} loaded, {} in the graph, on disk {want:?}", c.id, t["glessons"]));
        }
        if set(&t["starting"]) != m.starting.get(&c.id).cloned().unwrap_or_default() {
            return Some(format!("first lessons of {}: {} instead of {:?}", c.id, t["starting"], m.starting.get(&c.id)));
        }
        for l in &c.kids {
            let want: BTreeSet<String> = m.u[l].kids.iter().cloned().collect();
            let t = &t["lessons"][l];
            if set(&t["exs"]) != want || set(&t["gexs"]) != want {
                return Some(format!("exercises of {l}: {} and {} instead of {want:?}", t["exs"], t["gexs"]));
            }
            if t["course"] != json!(c.id) {
                return Some(format!("course of {l}: {}", t["course"]));
            }
        }
    }
    let none = BTreeSet::new();
    for u in m.u.values() {
        let x = &d["units"][&u.id];
        let ty = match u.ty { 'c' => "Course", 'l' => "Lesson", _ => "Exercise" };
        if x["type"] != ty || x["m"]["id"] != json!(u.id) {
            return Some(format!("{}: {x}", u.id));
        }
        if set(&x["all"]) != m.exs_of(&u.id).into_iter().collect() || strs(&x["all"]).len() != m.exs_of(&u.id).len() {
            return Some(format!("exercises of {}: {}", u.id, x["all"]));
        }
        if x["lesson"] != if u.ty == 'e' { json!(u.lesson) } else { json!(null) } {
            return Some(format!("lesson of {}: {}", u.id, x["lesson"]));
        }
        if u.ty == 'e' {
            if x["m"]["lesson_id"] != json!(u.lesson) || x["m"]["course_id"] != json!(u.course) || x["m"]["exercise_type"] != if u.proc { "Procedural" } else { "Declarative" } {
                return Some(format!("manifest of {}: {}", u.id, x["m"]));
            }
            continue;
        }
        if set(&x["deps"]) != u.deps {
            return Some(format!("prerequisites of {}: {} instead of {:?}", u.id, x["deps"], u.deps));
        }
        if set(&x["sup"]) != u.sup {
            return Some(format!("units superseded by {}: {} instead of {:?}", u.id, x["sup"], u.sup));
        }
        if set(&x["dependents"]) != *m.dependents.get(&u.id).unwrap_or(&none) {
            return Some(format!("dependents of {}: {}", u.id, x["dependents"]));
        }
        if set(&x["sup_by"]) != *m.sup_by.get(&u.id).unwrap_or(&none) {
            return Some(format!("units superseding {}: {}", u.id, x["sup_by"]));
        }
        let mut enc = m.encompasses(&u.id);
        enc.sort_by(|a, b| a.partial_cmp(b).unwrap());
        let got: Vec<(String, f32)> = serde_json::from_value(x["enc"].clone()).unwrap_or_default();
        if got.len() != enc.len() || got.iter().zip(&enc).any(|(a, b)| a.0 != b.0 || (a.1 - b.1).abs() > 1e-6) {
            return Some(format!("units encompassed by {}: {got:?} instead of {enc:?}", u.id));
        }
        // Passages are read in any order, and so named.
        let sorted = |m: &Meta| -> Meta { m.iter().map(|(k, v)| (k.clone(), { let mut v = v.clone(); if k.starts_with("transcription_") { v.sort() }; v })).collect() };
        let meta: Meta = serde_json::from_value(x["m"]["metadata"].clone()).unwrap_or_default();
        if sorted(&meta) != sorted(&u.meta) {
            return Some(format!("metadata of {}: {meta:?} instead of {:?}", u.id, u.meta));
        }
    }
    let all: BTreeSet<String> = m.u.values().filter(|u| u.ty == 'e').map(|u| u.id.clone()).collect();
    let got = set(&d["all"]);
    if got != all {
        return Some("the list of all exercises is wrong".into());
    }
    let mut i = 0;
    for p in crate::exec::PREFIXES {
        for ty in [None, Some('c'), Some('l'), Some('e')] {
            let want: BTreeSet<String> = m.u.values().filter(|u| u.id.starts_with(p) && ty.is_none_or(|t| t == u.ty)).map(|u| u.id.clone()).collect();
            if set(&d["matching"][i]) != want {
                return Some(format!("units matching {p:?} of type {ty:?}: {} instead of {want:?}", d["matching"][i]));
            }
            i += 1;
        }
    }
    for (i, only) in [false, true].into_iter().enumerate() {
        let mut want = BTreeSet::new();
        for u in m.u.values().filter(|u| u.ty == 'c' || u.ty == 'l' && !only) {
            want.insert(format!("{:?} [color={}, style=filled]", u.id, if u.ty == 'c' { "red" } else { "blue" }));
            let first = if only { None } else { m.starting.get(&u.id) };
            for x in m.dependents.get(&u.id).into_iter().flatten().filter(|x| !only || m.u[*x].ty == 'c').chain(first.into_iter().flatten()) {
                want.insert(format!("{:?} -> {x:?}", u.id));
            }
        }
        let dot = d["dot"][i].as_str().unwrap_or_default();
        let got: BTreeSet<String> = dot.lines().filter(|l| l.contains('"')).map(|l| l.trim().to_string()).collect();
        if got != want || !dot.starts_with("digraph") || !dot.trim_end().ends_with('}') {
            return Some(format!("the graph as text: {} missing, {} too many", want.difference(&got).next().map_or("none".into(), |x| x.clone()), got.difference(&want).next().map_or("none".into(), |x| x.clone())));
        }
    }
    None
}

// ---------------------------------------------------------------- building courses

pub use crate::build::build;
#[allow(unused)]
fn keep(t: &Trane, i: ustr::Ustr) {
    let _ = t.get_exercise_manifest(i);
}
