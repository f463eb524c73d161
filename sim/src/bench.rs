//! Benchmarks: what the simulated students left behind against what the benchmark reports of them.
use crate::draws::Sum;
use crate::exec::*;
use crate::formula::{self, Stored};
use crate::interpose;
use crate::oracle::Truth;
use crate::rng::*;
use crate::rt::*;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::path::{Path, PathBuf};
use trane::benchmark::{Benchmark, StudentProfile, StudentResult};
use trane::data::SchedulerOptions;
use trane::practice_deltas::PracticeDeltas;
use trane::practice_rewards::PracticeRewards;
use trane::practice_stats::PracticeStats;
use trane::Trane;

const DAY: i64 = 86_400;

fn copy(from: &Path, to: &Path) {
    std::fs::create_dir_all(to).unwrap();
    for e in std::fs::read_dir(from).unwrap().flatten() {
        let name = e.file_name();
        if [".chk", ".b"].iter().any(|x| name == *x) || from.ends_with(".trane") && name != "user_preferences.json" {
            continue;
        }
        if e.path().is_dir() { copy(&e.path(), &to.join(name)) } else { std::fs::write(to.join(name), std::fs::read(e.path()).unwrap()).unwrap() }
    }
}
/// All directories and files.
fn files(d: &Path, base: &Path, out: &mut BTreeMap<String, u64>) {
    for e in std::fs::read_dir(d).unwrap().flatten() {
        let rel = e.path().strip_prefix(base).unwrap().display().to_string();
        if e.path().is_dir() {
            out.insert(rel, 0);
            files(&e.path(), base, out);
        } else {
            out.insert(rel, 1 + hash_bytes(&std::fs::read(e.path()).unwrap()) / 2);
        }
    }
}
fn tree(d: &Path) -> BTreeMap<String, u64> {
    let mut v = BTreeMap::new();
    files(d, d, &mut v);
    v
}
fn probs(v: &Value) -> [f32; 5] {
    serde_json::from_value(v.clone()).unwrap()
}
fn profile(v: &Value) -> StudentProfile {
    let n = |k: &str| v[k].as_u64().unwrap() as u32;
    StudentProfile { session_frequency: n("every"), exercises_per_session: n("n"), initial_performance: probs(&v["first"]), trials_before_stable: n("until"), stable_performance: probs(&v["then"]), lapse_rate: v["lapse"].as_f64().unwrap() as f32 }
}
/// What one student left.
struct Left {
    trials: Vec<(i64, String, f32)>,
    of: BTreeMap<String, Stored>,
}
fn read(dir: &Path, m: &crate::spec::Model) -> Option<Left> {
    let t = Trane::new_local(dir, dir).ok()?;
    let mut l = Left { trials: vec![], of: BTreeMap::new() };
    for u in m.u.values().filter(|u| u.ty == 'e') {
        let s = Stored {
            procedural: u.proc,
            trials: t.get_scores(us(&u.id), 100_000).ok()?,
            deltas: t.get_deltas(us(&u.id), 100_000).ok()?,
            lesson: t.get_rewards(us(&u.lesson), 100_000).ok()?,
            course: t.get_rewards(us(&u.course), 100_000).ok()?,
        };
        l.trials.extend(s.trials.iter().map(|x| (x.timestamp, u.id.clone(), x.score)));
        l.of.insert(u.id.clone(), s);
    }
    l.trials.sort_by(|a, b| a.partial_cmp(b).unwrap());
    Some(l)
}
/// The score of an exercise at some time; `None` if the model does not tell.
fn score_at(l: &Left, ex: &str, o: &SchedulerOptions, at: i64) -> Option<f64> {
    let s = &l.of[ex];
    // Of a unit's rewards, only the last twenty are kept.
    let gone = |v: &[trane::data::UnitReward]| v.len() >= 20 && v.iter().filter(|r| r.timestamp < at).count() < o.num_rewards as usize;
    if gone(&s.lesson) || gone(&s.course) {
        return None;
    }
    let upto = |v: &[trane::data::UnitReward]| v.iter().filter(|r| r.timestamp < at).take(o.num_rewards as usize).cloned().collect::<Vec<_>>();
    let then = Stored {
        procedural: s.procedural,
        trials: s.trials.iter().filter(|x| x.timestamp < at).take(o.num_trials as usize).cloned().collect(),
        deltas: s.deltas.iter().filter(|x| x.timestamp < at).take(o.num_deltas as usize).cloned().collect(),
        lesson: upto(&s.lesson),
        course: upto(&s.course),
    };
    formula::score(&then, at)
}
/// Whether all courses were mastered at some time.
fn mastered(c: &Ctx, l: &Left, o: &SchedulerOptions, advanced: &str, at: i64, threshold: f64) -> Option<bool> {
    let m = &c.m;
    if m.u.get(advanced).is_none_or(|u| u.ty != 'c') {
        return Some(false);
    }
    // A superseded lesson does not count towards the score of its course.
    if m.u.values().any(|u| !u.sup.is_empty()) {
        return None;
    }
    let mut all = Some(true);
    for id in m.ids('c') {
        let mut sum = vec![];
        for lesson in &m.u[&id].kids {
            let mut v = vec![];
            for ex in &m.u[lesson].kids {
                v.push(score_at(l, ex, o, at)?);
            }
            if !v.is_empty() {
                sum.push(v.iter().sum::<f64>() / v.len() as f64);
            }
        }
        if sum.is_empty() {
            return Some(false);
        }
        let s = sum.iter().sum::<f64>() / sum.len() as f64;
        if (s - threshold).abs() < 2e-3 {
            all = None;
        } else if s < threshold {
            return Some(false);
        }
    }
    all
}
/// What was known when `i` answers of a session had been given, at that time.
fn known(c: &Ctx, l: &Left, o: &SchedulerOptions, at: i64) -> Truth {
    let mut ex = BTreeMap::new();
    let mut trials = BTreeMap::new();
    for id in c.m.ids('e') {
        ex.insert(id.clone(), score_at(l, &id, o, at).map(|x| x as f32));
        trials.insert(id.clone(), l.of[&id].trials.iter().filter(|t| t.timestamp < at).count().min(o.num_trials as usize));
    }
    Truth::of(ex, trials, o.clone())
}

pub fn bench(c: &mut Ctx, op: u32, v: &Value) -> R {
    c.t = None;
    let base = vroot().join(".b");
    let (lib, tmp) = (base.join("lib"), base.join("tmp"));
    let before = calmly(|| {
        let _ = std::fs::remove_dir_all(&base);
        copy(vroot(), &lib);
        std::fs::create_dir_all(&tmp).unwrap();
        tree(&lib)
    });
    let mut o = serde_json::to_value(SchedulerOptions::default()).unwrap();
    for (k, x) in v["options"].as_object().unwrap() {
        o[k] = x.clone();
    }
    let o: SchedulerOptions = serde_json::from_value(o).unwrap();
    let p: Vec<StudentProfile> = v["students"].as_array().unwrap().iter().map(profile).collect();
    let advanced = v["advanced"].as_str().unwrap();
    let b = Benchmark {
        library_dir: lib.clone(),
        scheduler_opts: o.clone(),
        remedial_profile: p[0].clone(),
        below_median_profile: p[1].clone(),
        median_profile: p[2].clone(),
        above_median_profile: p[3].clone(),
        excellent_profile: p[4].clone(),
        advanced_course: us(advanced),
        mastery_threshold: v["threshold"].as_f64().unwrap() as f32,
        max_sessions: v["max"].as_u64().unwrap() as u32,
    };
    let valid = v["valid"].as_bool().unwrap();
    if b.verify().is_ok() != valid {
        violation("P31", op, format!("a benchmark that is {} passes for {}", if valid { "valid" } else { "invalid" }, if valid { "invalid" } else { "valid" }));
    }
    if !valid {
        return Ok(json!("invalid"));
    }
    unsafe { std::env::set_var("TMPDIR", &tmp) };
    let from = rt().real;
    interpose::keep(true);
    let r = b.run_benchmark();
    interpose::keep(false);
    let until = rt().real;
    let faulty = !rt().faults.is_empty();
    if calmly(|| tree(&lib)) != before {
        violation("P31", op, "the benchmark changed the library".into());
    }
    let r = match r {
        Ok(r) => r,
        Err(x) => {
            if !faulty {
                violation("P31", op, format!("the benchmark failed: {x:#}"));
            }
            return Err("failed".into());
        }
    };
    c.probes += 1;
    let dirs: Vec<PathBuf> = calmly(|| std::fs::read_dir(&tmp).unwrap().flatten().map(|e| e.path()).collect());
    let mut left: Vec<Left> = vec![];
    for d in &dirs {
        let got = calmly(|| tree(d));
        if let Some(x) = before.iter().find(|x| got.get(x.0) != Some(x.1)) {
            violation("P31", op, format!("a student practised on a copy of the library in which {} is missing or altered", x.0));
            return Ok(json!("incomplete"));
        }
        match calmly(|| read(d, &c.m)) {
            Some(l) => left.push(l),
            None => return Ok(json!("unknown")),
        }
    }
    let results = [&r.remedial_result, &r.below_median_result, &r.median_result, &r.above_median_result, &r.excellent_result];
    // The profiles differ in their number of exercises, by which each student's data is found.
    let day = |l: &Left| l.trials.iter().filter(|t| t.0 < l.trials[0].0 + DAY / 2).count();
    let enc = c.m.ids('e').is_empty() || c.m.u.values().any(|u| !u.enc.is_empty() || !u.deps.is_empty());
    let mut out = vec![];
    for (p, r) in p.iter().zip(results) {
        let n = p.exercises_per_session as usize;
        let say = format!("{} exercises every {} days", n, p.session_frequency);
        out.push(json!([n, r.days_to_mastery, r.sessions_run, r.exercises_practiced]));
        let Some(l) = left.iter().find(|l| !l.trials.is_empty() && day(l) == n) else {
            if !enc && b.max_sessions > 0 {
                violation("P31", op, format!("no student practised {say}: {:?}", left.iter().map(day).collect::<Vec<_>>()));
            }
            continue;
        };
        one(c, op, &say, p, r, l, &b, &o, enc, faulty, from, until);
    }
    Ok(json!(out))
}
#[allow(clippy::too_many_arguments)]
fn one(c: &mut Ctx, op: u32, say: &str, p: &StudentProfile, r: &StudentResult, l: &Left, b: &Benchmark, o: &SchedulerOptions, enc: bool, faulty: bool, from: i64, until: i64) {
    let bad = |x: String| violation("P31", op, format!("{say}: {x}; reported: {:?} days, {} sessions, {} exercises", r.days_to_mastery, r.sessions_run, r.exercises_practiced));
    let (n, every) = (p.exercises_per_session as i64, p.session_frequency as i64 * DAY);
    if l.trials.len() != r.exercises_practiced as usize {
        return bad(format!("{} answers were recorded", l.trials.len()));
    }
    let anchor = l.trials[0].0;
    if anchor < from || anchor > until {
        bad(format!("the first answer is dated {anchor}, the benchmark ran from {from} to {until}"));
    }
    if let Some((i, t)) = l.trials.iter().enumerate().find(|(i, t)| t.0 != anchor + *i as i64 / n * every + *i as i64 % n) {
        return bad(format!("answer {i} is dated {}, {} after the start", t.0, t.0 - anchor));
    }
    let whole = (l.trials.len() as i64 / n) as u32;
    let cut = l.trials.len() as i64 % n != 0;
    if r.sessions_run != whole || cut && (!enc || r.days_to_mastery.is_some()) {
        return bad(format!("{} sessions were practised", l.trials.len() as f64 / n as f64));
    }
    if r.days_to_mastery.is_none() && whole != b.max_sessions && !enc {
        bad("the student stopped early".into());
    }
    if let Some(d) = r.days_to_mastery {
        if d != (whole - 1) * p.session_frequency {
            bad(format!("the last session was on day {}", (whole - 1) * p.session_frequency));
        }
    }
    // Which answers were given.
    let (mut often, mut sums): (BTreeMap<&str, u32>, Vec<Sum>) = (BTreeMap::new(), (0..15).map(|_| Sum::default()).collect());
    for t in &l.trials {
        let k = often.entry(&t.1).or_default();
        let w = if p.trials_before_stable == 0 { 1.0 } else { (*k as f64 / p.trials_before_stable as f64).min(1.0) };
        let mut q: Vec<f64> = (0..5).map(|i| p.initial_performance[i] as f64 * (1.0 - w) + p.stable_performance[i] as f64 * w).collect();
        let all: f64 = q.iter().sum();
        let lapse = if *k > p.trials_before_stable { p.lapse_rate as f64 } else { 0.0 };
        q.iter_mut().for_each(|x| *x *= (1.0 - lapse) / all);
        q[1] += lapse;
        let phase = if *k == 0 { 0 } else if lapse > 0.0 { 2 } else { 1 };
        *k += 1;
        let got = t.2 as usize - 1;
        if q[got] < 1e-6 {
            return bad(format!("answer {} to {} was {}, which the profile rules out", *k, t.1, t.2));
        }
        for i in 0..5 {
            let x: Vec<f64> = (0..5).map(|j| (i == j) as u8 as f64).collect();
            sums[phase * 5 + i].add(got, &q, &x);
        }
    }
    if let Some(i) = sums.iter().position(|s| s.off()) {
        bad(format!("the answers {} of its {} are not as likely as the profile says", i % 5 + 1, ["first trials", "next trials", "trials that may lapse"][i / 5]));
    }
    if faulty {
        return;
    }
    // Practised are lessons open at some time of the session, apart from exercises failed before.
    let mut truths: BTreeMap<i64, Truth> = BTreeMap::new();
    let mut failed: BTreeSet<&str> = BTreeSet::new();
    for (i, t) in l.trials.iter().enumerate() {
        let start = t.0 - i as i64 % n;
        let lesson = &c.m.u[&t.1].lesson;
        let open = failed.contains(t.1.as_str())
            || (start..=t.0).rev().any(|at| truths.entry(at).or_insert_with(|| known(c, l, o, at)).open_to(&c.m, lesson, None) != Some(false));
        c.probes += 1;
        if !open {
            return bad(format!("answer {i} is to {}, but what {lesson} depends on was not passed by then", t.1));
        }
        if t.2 < 3.0 {
            failed.insert(&t.1);
        }
    }
    for s in 0..whole {
        let at = anchor + s as i64 * every + n;
        let is = mastered(c, l, o, &b.advanced_course, at, b.mastery_threshold as f64);
        let said = r.days_to_mastery.is_some() && s + 1 == whole;
        c.probes += 1;
        if is.is_some_and(|x| x != said) {
            return bad(format!("after session {s} the courses were {}", if said { "not all mastered" } else { "all mastered" }));
        }
    }
}
