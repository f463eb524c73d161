//! What a batch is made of: the shares of the mastery windows, written a second time.
use crate::exec::*;
use crate::plan::*;
use crate::rng::*;
use crate::spec::*;
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet};
use trane::data::{FULL_CANDIDATES_SCORE, SchedulerOptions};
use trane::scheduler::ExerciseScheduler;

/// Values closer than this to a threshold decide nothing.
const NEAR: f32 = 2e-3;
/// New, target, current, easy, mastered.
type Mix = [usize; 5];
const NAMES: [&str; 5] = ["new", "target", "current", "easy", "mastered"];

fn shares(o: &SchedulerOptions, won: usize, lost: usize) -> Vec<[f64; 5]> {
    let base: [f64; 5] = [&o.new_window_opts, &o.target_window_opts, &o.current_window_opts, &o.easy_window_opts, &o.mastered_window_opts].map(|w| w.percentage as f64);
    let rate = if won + lost == 0 { 1.0 } else { won as f64 / (won + lost) as f64 };
    let at = |r: f64| if r > 0.90 { 0.05 } else if r >= 0.75 { 0.0 } else if r >= 0.5 { -0.05 } else { -0.10 };
    let mut v = vec![];
    for shift in [at(rate - 1e-6), at(rate + 1e-6)] {
        let mut s = base;
        if shift != 0.0 {
            for (i, d) in [(0, shift), (1, shift), (3, -shift), (4, -shift)] {
                s[i] = (base[i] + d).clamp(0.05, 0.5);
            }
            s[2] = (1.0 - s[0] - s[1] - s[3] - s[4]).max(0.05);
        }
        v.push(s);
    }
    v.dedup();
    v
}
/// Every composition the rules allow, given how many exercises of each window there are (`all` with the
/// ones that count elsewhere); more than one where a rounding is open.
fn mixes(o: &SchedulerOptions, have: &Mix, all: usize, won: usize, lost: usize) -> BTreeSet<Mix> {
    let b = if o.batch_size < 10 || all >= 3 * o.batch_size { o.batch_size } else { (all / 3).max(10) };
    let mut out = BTreeSet::new();
    for s in shares(o, won, lost) {
        for bits in 0..32u32 {
            let want: Vec<usize> = (0..5).map(|i| ((b as f64 * s[i]).max(1.0) + if bits >> i & 1 == 1 { 1e-4 } else { -1e-4 }).max(1.0) as usize).collect();
            let mut mix: Mix = std::array::from_fn(|i| want[i].min(have[i]));
            let few = (b / 10).max(1);
            for (i, most) in [(2, b), (0, 5 * few), (1, 3 * few), (3, b), (4, b)] {
                let n: usize = mix.iter().sum();
                if n < b * 3 / 4 {
                    mix[i] += (have[i] - mix[i]).min(b - n).min(most);
                }
            }
            out.insert(mix);
        }
    }
    out
}
/// How heavily the given units cover others (or, with `back`, are covered by them); `None` where it depends
/// on the order of the search.
pub fn covered(m: &Model, from: &BTreeSet<String>, back: bool) -> Option<BTreeMap<String, f32>> {
    let mut next: BTreeMap<&str, Vec<(String, f32)>> = BTreeMap::new();
    for u in m.u.values() {
        for (to, w) in m.encompasses(&u.id) {
            if back {
                if let Some(k) = m.u.get_key_value(&to) {
                    next.entry(k.0).or_default().push((u.id.clone(), w));
                }
            } else {
                next.entry(&u.id).or_default().push((to, w));
            }
        }
    }
    struct Walk<'a> {
        m: &'a Model,
        next: BTreeMap<&'a str, Vec<(String, f32)>>,
        /// Whether the search went on beyond a unit; it may be reached in several ways.
        on: BTreeMap<String, bool>,
        left: usize,
    }
    impl Walk<'_> {
        fn go(&mut self, at: &str, reward: f32, weight: f32, path: &mut Vec<String>) -> Option<()> {
            if path.iter().any(|x| x == at) {
                return Some(());
            }
            self.left = self.left.checked_sub(1)?;
            if (reward - 0.2).abs() < 1e-4 || (weight - 0.2).abs() < 1e-4 {
                return None;
            }
            let on = reward > 0.2 && weight > 0.2;
            if *self.on.entry(at.into()).or_insert(on) != on && self.next.get(at).is_some_and(|v| !v.is_empty()) {
                return None;
            }
            if !on {
                return Some(());
            }
            path.push(at.into());
            for (to, w) in self.next.get(at).cloned().unwrap_or_default() {
                if w == 0.0 {
                    continue;
                }
                self.go(&to, reward * 0.9, w * weight * 0.8, path)?;
                if let Some(u) = self.m.u.get(&to).filter(|u| u.ty == 'l') {
                    self.go(&u.course, reward * 0.9, w * weight * 0.8, path)?;
                }
            }
            path.pop();
            Some(())
        }
    }
    let mut w = Walk { m, next, on: BTreeMap::new(), left: 0 };
    let mut r = BTreeMap::new();
    for x in from {
        w.on.clear();
        w.left = 3000;
        w.go(x, 1.0, 1.0, &mut vec![])?;
        for (u, _) in w.on.iter().filter(|x| *x.1) {
            for (to, f) in w.next.get(u.as_str()).into_iter().flatten() {
                *r.entry(to.clone()).or_insert(0.0) += f;
            }
        }
    }
    Some(r)
}

/// A batch for some lessons against the composition the mastery windows call for.
pub fn mix_probe(c: &mut Ctx, op: u32, salt: u64) -> R {
    let mut g = Rng::derive(salt, 77, 0, 0);
    let mut lessons = c.m.ids('l');
    g.shuffle(&mut lessons);
    if g.chance(0.5) {
        lessons.truncate(1 + g.below(lessons.len().max(1)));
    }
    let f = Filt::Unit(json!({"LessonFilter": {"lesson_ids": lessons}}));
    let (m, o) = (c.m.clone(), c.o.clone());
    let edges = [o.new_window_opts.range.1, o.target_window_opts.range.1, o.current_window_opts.range.1, o.easy_window_opts.range.1];
    let mut score: BTreeMap<String, f32> = BTreeMap::new();
    let t = c.trane();
    let read = calmly(|| -> Option<()> {
        for u in m.u.values().filter(|u| u.ty == 'e') {
            let s = t.get_unit_score(us(&u.id)).ok()??;
            score.insert(u.id.clone(), s);
        }
        Some(())
    });
    let ids = batch(c.trane(), &f, op)?;
    c.batches += 1;
    if read.is_none() {
        return Ok(json!("unknown"));
    }
    let near = |s: f32, l: f32| (s - l).abs() < NEAR;
    let window = |s: f32| edges.iter().filter(|e| s >= **e).count();
    let open = |s: f32| edges.iter().any(|e| near(s, *e));
    let hidden = |u: &Unit| c.bl.contains(&u.id) || c.bl.contains(&u.lesson) || c.bl.contains(&u.course);
    // The lessons' exercises; of a lesson just passed only a part.
    let mut cand: Vec<(String, String)> = vec![];
    // How many of the exercises of a lesson take part, where that is not all of them.
    let mut part: BTreeMap<String, (usize, usize)> = BTreeMap::new();
    for l in &lessons {
        let v: Vec<String> = m.u[l].kids.iter().filter(|e| !hidden(&m.u[*e])).cloned().collect();
        if v.is_empty() {
            continue;
        }
        let avg = v.iter().map(|e| score[e]).sum::<f32>() / v.len() as f32;
        let p = &o.passing_score;
        if avg >= p.min_score - NEAR && avg < FULL_CANDIDATES_SCORE + NEAR && p.min_fraction < 1.0 {
            if near(avg, p.min_score) || near(avg, FULL_CANDIDATES_SCORE) {
                return Ok(json!("open"));
            }
            let x = (p.min_fraction + (avg - p.min_score) / (FULL_CANDIDATES_SCORE - p.min_score) * (1.0 - p.min_fraction)).clamp(0.0, 1.0) * v.len() as f32;
            if near(x, x.round()) {
                return Ok(json!("open"));
            }
            part.insert(l.clone(), ((x as usize).max(1), v.len()));
        }
        cand.extend(v.into_iter().map(|e| (e, l.clone())));
    }
    let from: BTreeSet<String> = cand.iter().flat_map(|(_, l)| [l.clone(), m.u[l].course.clone()]).collect();
    let Some(w) = covered(&m, &from, false) else { return Ok(json!("open")) };
    // Windows by exercise; `None` is left out of batches.
    let mut class: BTreeMap<&String, Option<usize>> = BTreeMap::new();
    for (e, l) in &cand {
        let wt = w.get(l).unwrap_or(&0.0) + w.get(&m.u[l].course).unwrap_or(&0.0);
        let s = score[e];
        if open(s) || near(wt, 5.0) && s > 3.7 || near(wt, 10.0) && s > 4.4 || near(s, 3.75) && wt > 4.9 || near(s, 4.5) && wt > 9.9 {
            return Ok(json!("open"));
        }
        class.insert(e, if wt >= 10.0 && s >= 4.5 { None } else if wt >= 5.0 && s >= 3.75 { Some(4) } else { Some(window(s)) });
    }
    let (mut have, mut all) = ([0usize; 5], 0);
    for (l, n) in lessons.iter().map(|l| (l, cand.iter().filter(|x| x.1 == *l).count())) {
        let mine: BTreeSet<Option<usize>> = cand.iter().filter(|x| x.1 == *l).map(|x| class[&x.0]).collect();
        let some = part.get(l);
        if some.is_some() && mine.len() > 1 {
            // Which exercises take part is up to chance.
            return Ok(json!("open"));
        }
        for (e, _) in cand.iter().filter(|x| x.1 == *l).take(some.map_or(n, |s| s.0)) {
            if let Some(k) = class[e] {
                have[k] += 1;
                all += 1;
            }
        }
    }
    let want = mixes(&o, &have, all, c.won, c.lost);
    c.probes += 1;
    c.presented += ids.len() as u64;
    let failed = |e: &String| c.pile.contains(e) || c.maybe.contains(e);
    let (mut got, mut sure, mut none) = ([0usize; 5], [0usize; 5], 0);
    for e in &ids {
        match class.get(e) {
            Some(Some(k)) => {
                got[*k] += 1;
                sure[*k] += !failed(e) as usize;
            }
            _ => none += !failed(e) as usize,
        }
    }
    if none > 0 {
        violation("P28", op, format!("{none} exercises of the batch are not among the candidates: {ids:?}"));
        return Ok(json!(null));
    }
    let extra = ((o.batch_size as f32 * o.relearn_fraction) as usize).min(c.pile.len() + c.maybe.len());
    let fits = |w: &Mix| (0..5).all(|i| got[i] >= w[i] && sure[i] <= w[i]) && ids.len() <= w.iter().sum::<usize>() + extra;
    if !want.iter().any(fits) {
        violation("P28", op, format!("the batch holds {got:?} exercises of the windows {NAMES:?}, {:?} expected of {have:?} (batch size {}, {} answers good, {} bad, up to {extra} failed ones on top)", want.iter().next().unwrap(), o.batch_size, c.won, c.lost));
        return Ok(json!(null));
    }
    // New and difficult exercises of a course come in runs.
    if extra == 0 {
        let low = |e: &String| score[e] < o.target_window_opts.range.1;
        for course in m.ids('c') {
            let mine: Vec<bool> = ids.iter().map(|e| low(e) && m.u[e].course == course).collect();
            let n = mine.iter().filter(|x| **x).count();
            let runs = (0..mine.len()).filter(|i| mine[*i] && (*i == 0 || !mine[*i - 1])).count();
            if runs > n.div_ceil(3) {
                violation("P28", op, format!("{n} new or difficult exercises of {course} are spread over {runs} places of the batch"));
            }
        }
    }
    Ok(json!({"got": got, "have": have}))
}

/// One answer: one trial and, unless it is the first, one prediction error, and nothing else but rewards.
pub fn answer(c: &mut Ctx, op: u32, ex: &str, score: u8, ts: i64) -> R {
    let t = c.trane();
    let look = || calmly(|| Some((dump(t, c.plan, &c.m).ok()?, t.get_unit_score(us(ex)).ok().flatten())));
    let before = look();
    let r = t.score_exercise(us(ex), score_of(score), ts).map_err(|e| e.to_string());
    let after = look();
    let (Some((b, said)), Some((a, _)), true) = (before, after, r.is_ok()) else { return r.map(|_| json!(null)) };
    c.probes += 1;
    let list = |v: &serde_json::Value, k: &str, id: &str| -> Vec<(f64, i64)> {
        v[k].get(id).and_then(|x| x.as_array()).into_iter().flatten().map(|x| (x[0].as_f64().unwrap(), x[1].as_i64().unwrap())).collect()
    };
    let new = |k: &str, id: &str| -> Option<Vec<(f64, i64)>> {
        let mut rest = list(&a, k, id);
        for x in list(&b, k, id) {
            let i = rest.iter().position(|y| *y == x)?;
            rest.swap_remove(i);
        }
        Some(rest)
    };
    let ids: BTreeSet<&String> = ["scores", "deltas"].iter().flat_map(|k| [&a, &b].into_iter().flat_map(|v| v[*k].as_object().unwrap().keys())).collect();
    let first = list(&b, "scores", ex).is_empty();
    for id in ids {
        let (Some(s), Some(d)) = (new("scores", id), new("deltas", id)) else {
            violation("P29", op, format!("answering {ex} removed trials or prediction errors of {id}"));
            continue;
        };
        if id != ex {
            if !s.is_empty() || !d.is_empty() {
                violation("P29", op, format!("answering {ex} left {s:?} and {d:?} with {id}"));
            }
            continue;
        }
        if s != [(score as f64, ts)] {
            violation("P29", op, format!("answering {ex} with {score} at {ts} left the trials {s:?}"));
        }
        let known = c.m.u.contains_key(ex);
        let want = if first { 0 } else { 1 };
        if known && (d.len() != want || d.iter().any(|d| d.1 != ts || said.is_some_and(|s| (d.0 - (score as f64 - s as f64)).abs() > 1e-3))) {
            violation("P29", op, format!("answering {ex} with {score} at {ts}, reported as {said:?} before ({} trials), left the prediction errors {d:?}", list(&b, "scores", ex).len()));
        }
    }
    r.map(|_| json!(null))
}
