//! Which exercises a mastery window contributes: many draws against the published weights.
use crate::exec::*;
use crate::formula::Stored;
use crate::mix::covered;
use crate::plan::*;
use crate::rng::*;
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet};
use trane::practice_stats::PracticeStats;
use trane::scheduler::ExerciseScheduler;

/// Chance of a false alarm of one comparison: exp(-SURE).
const SURE: f64 = 25.0;

/// An exercise that may be drawn.
struct Cand {
    id: String,
    window: usize,
    urgency: f64,
    /// What makes up the cost, without the share of earlier draws: names, terms of the logarithm.
    terms: [f64; 6],
}
const TERMS: [&str; 8] = ["depth", "covers others", "is covered", "dead end", "velocity", "stagnation", "earlier draws", "urgency"];

/// A sum of differences between what was drawn and what was expected.
pub type Sums = (BTreeMap<String, Sum>, [Sum; 8]);
#[derive(Default)]
pub struct Sum {
    d: f64,
    v: f64,
    /// The largest step.
    b: f64,
}
impl Sum {
    pub fn add(&mut self, drawn: usize, p: &[f64], x: &[f64]) {
        let mean: f64 = p.iter().zip(x).map(|(p, x)| p * x).sum();
        self.d += x[drawn] - mean;
        self.v += p.iter().zip(x).map(|(p, x)| p * (x - mean).powi(2)).sum::<f64>();
        self.b = x.iter().map(|x| (x - mean).abs()).fold(self.b, f64::max);
    }
    /// Further off than chance explains (Freedman's inequality).
    pub fn off(&self) -> bool {
        let k = self.b * SURE / 3.0;
        self.v > 1e-3 * self.b * self.b && self.b > 1e-6 && self.d.abs() > k + (k * k + 2.0 * SURE * self.v).sqrt()
    }
}

/// Lessons and exercises a filter reaches: depth and whether the way ends there; `None` if that is open.
fn reach(c: &Ctx, g: &mut Rng, score: &BTreeMap<String, f64>, trials: &BTreeMap<String, usize>) -> Option<(Filt, Vec<(String, f64, bool)>)> {
    let m = &c.m;
    let mut out = vec![];
    type Out = Vec<(String, f64, bool)>;
    let lesson = |out: &mut Out, l: &str, depth: f64, dead: bool| m.u[l].kids.iter().for_each(|e| out.push((e.clone(), depth, dead)));
    match g.below(5) {
        0 if !c.rl.is_empty() && c.rl.iter().all(|x| m.u.get(x).is_some_and(|u| u.ty == 'l' || u.ty == 'e' && !c.rl.contains(&u.lesson))) => {
            for x in &c.rl {
                if m.u[x].ty == 'l' {
                    lesson(&mut out, x, 1.0, false);
                } else {
                    out.push((x.clone(), 0.0, false));
                }
            }
            Some((Filt::Unit(json!("ReviewListFilter")), out))
        }
        0..=2 => {
            let courses: Vec<String> = m.ids('c').into_iter().filter(|x| !m.u[x].kids.is_empty()).collect();
            let course = g.pick(&courses).clone();
            let own = &m.u[&course].kids;
            // One way to each lesson, and no lesson waits for others; few enough for a whole search.
            if own.iter().any(|l| m.u[l].deps.len() > 1 || m.u[l].deps.iter().any(|d| !own.contains(d))) || own.iter().map(|l| m.u[l].kids.len()).sum::<usize>() >= 10 * c.o.batch_size {
                return None;
            }
            let mut todo: Vec<(String, usize)> = own.iter().filter(|l| m.u[*l].deps.is_empty()).map(|l| (l.clone(), 1)).collect();
            let p = &c.o.passing_score;
            while let Some((l, depth)) = todo.pop() {
                let exs = &m.u[&l].kids;
                let mean = |f: &dyn Fn(&String) -> f64| exs.iter().map(f).sum::<f64>() / exs.len().max(1) as f64;
                let (s, n) = (mean(&|e| score[e]), mean(&|e| trials[e] as f64));
                if !exs.is_empty() && ((s - p.min_score as f64).abs() < 2e-3 || (n - p.min_avg_trials as f64).abs() < 1e-3) {
                    return None;
                }
                let pass = exs.is_empty() || s >= p.min_score as f64 && n >= p.min_avg_trials as f64;
                lesson(&mut out, &l, depth as f64, !pass);
                if pass {
                    todo.extend(own.iter().filter(|x| m.u[*x].deps.contains(&l)).map(|x| (x.clone(), depth + 1)));
                }
            }
            Some((Filt::Unit(json!({"CourseFilter": {"course_ids": [course]}})), out))
        }
        _ => {
            let mut v = m.ids('l');
            g.shuffle(&mut v);
            if g.chance(0.5) {
                v.truncate(1 + g.below(v.len().max(1)));
            }
            v.iter().for_each(|l| lesson(&mut out, l, 1.0, false));
            Some((Filt::Unit(json!({"LessonFilter": {"lesson_ids": v}})), out))
        }
    }
}

/// Requests batches of one exercise for each mastery window, and compares what is drawn with the weights.
pub fn draws(c: &mut Ctx, op: u32, salt: u64, n: usize) -> R {
    let mut g = Rng::derive(salt, 78, 0, 0);
    let open = |why: &str| Ok(json!(why));
    let (m, o) = (c.m.clone(), c.o.clone());
    if c.o.batch_size > 4 || o.passing_score.min_fraction != 1.0 || !c.bl.is_empty() || !c.pile.is_empty() || !c.maybe.is_empty() || !m.sup_by.is_empty() || m.ids('l').is_empty() {
        return open("not applicable");
    }
    let now = chrono::Utc::now().timestamp();
    let (mut score, mut stored, mut trials) = (BTreeMap::new(), BTreeMap::new(), BTreeMap::new());
    let t = c.trane();
    let read = calmly(|| -> Option<()> {
        for u in m.u.values().filter(|u| u.ty == 'e') {
            let s = Stored { procedural: u.proc, trials: t.get_scores(us(&u.id), o.num_trials).ok()?, deltas: vec![], lesson: vec![], course: vec![] };
            trials.insert(u.id.clone(), s.trials.len());
            score.insert(u.id.clone(), t.get_unit_score(us(&u.id)).ok()?? as f64);
            stored.insert(u.id.clone(), s);
        }
        Some(())
    });
    if read.is_none() {
        return open("unknown");
    }
    let Some((f, found)) = reach(c, &mut g, &score, &trials) else { return open("open") };
    let from: BTreeSet<String> = found.iter().flat_map(|(e, _, _)| [m.u[e].lesson.clone(), m.u[e].course.clone()]).collect();
    let (Some(covers), Some(is_covered)) = (covered(&m, &from, true), covered(&m, &from, false)) else { return open("open") };
    let edges = [o.new_window_opts.range.1, o.target_window_opts.range.1, o.current_window_opts.range.1, o.easy_window_opts.range.1].map(|x| x as f64);
    let near = |s: f64, l: f64| (s - l).abs() < 2e-3;
    // Windows with an exercise whose weight is open are left out.
    let mut skip = BTreeSet::new();
    let mut cand: Vec<Cand> = vec![];
    for (e, depth, dead) in &found {
        let u = &m.u[e];
        let of = |w: &BTreeMap<String, f32>| (w.get(&u.lesson).unwrap_or(&0.0) + w.get(&u.course).unwrap_or(&0.0)) as f64;
        let (more, less, s) = (of(&covers), of(&is_covered), score[e]);
        if edges.iter().any(|l| near(s, *l)) || near(less, 5.0) && s > 3.7 || near(less, 10.0) && s > 4.4 || near(s, 3.75) && less > 4.9 || near(s, 4.5) && less > 9.9 {
            return open("open");
        }
        if less >= 10.0 && s >= 4.5 {
            continue;
        }
        let window = if less >= 5.0 && s >= 3.75 { 4 } else { edges.iter().filter(|l| s >= **l).count() };
        let v = crate::formula::velocity(&stored[e]);
        if v.is_some_and(|v| near(v.abs(), 0.2) || v < -0.95) || near(s, 4.0) && v.is_some_and(|v| v.abs() < 0.21) {
            skip.insert(window);
        }
        let still = match v {
            Some(v) if v.abs() < 0.2 => if s >= 4.0 { 1.0 } else { -0.7 },
            _ => 0.0,
        };
        let terms = [-0.7 * depth.ln_1p(), -0.9 * more.ln_1p(), 0.6 * less.ln_1p(), if *dead { -1.0 } else { 0.0 }, v.map_or(0.0, |v| -0.5 * v.max(-0.99).ln_1p()), still];
        cand.push(Cand { id: e.clone(), window, urgency: crate::formula::urgency(&stored[e], now), terms });
    }
    // Each window gives one exercise, and no others are added.
    let full = cand.iter().map(|x| x.window).collect::<BTreeSet<_>>().len();
    let most = [&o.new_window_opts, &o.target_window_opts, &o.current_window_opts, &o.easy_window_opts, &o.mastered_window_opts].iter().any(|w| (w.percentage + 0.1) * o.batch_size as f32 > 1.9);
    if full < o.batch_size * 3 / 4 || most {
        return open("open");
    }
    let mut sums = std::mem::take(&mut c.sums);
    let (ids, terms) = (&mut sums.0, &mut sums.1);
    for _ in 0..n {
        let got_ids = batch(c.trane(), &f, op)?;
        c.batches += 1;
        c.presented += got_ids.len() as u64;
        for w in 0..5 {
            let mine: Vec<&Cand> = cand.iter().filter(|x| x.window == w).collect();
            let got: Vec<usize> = (0..mine.len()).filter(|i| got_ids.contains(&mine[*i].id)).collect();
            if mine.is_empty() || skip.contains(&w) || got.len() != 1 {
                continue;
            }
            let often: Vec<f64> = mine.iter().map(|x| 2.0 * (*c.drawn.get(&x.id).unwrap_or(&0) as f64).ln_1p()).collect();
            let weight: Vec<f64> = mine.iter().zip(&often).map(|(x, f)| (x.urgency / (x.terms.iter().sum::<f64>() + f).exp().clamp(0.05, 100.0).sqrt()).max(0.05)).collect();
            let all: f64 = weight.iter().sum();
            let p: Vec<f64> = weight.iter().map(|w| w / all).collect();
            for (i, x) in mine.iter().enumerate() {
                let one: Vec<f64> = (0..mine.len()).map(|k| (k == i) as u8 as f64).collect();
                ids.entry(x.id.clone()).or_default().add(got[0], &p, &one);
            }
            for (k, sum) in terms.iter_mut().enumerate() {
                let x: Vec<f64> = mine.iter().zip(&often).map(|(x, f)| if k < 6 { x.terms[k] } else if k == 6 { *f } else { x.urgency.max(0.01).ln() }).collect();
                sum.add(got[0], &p, &x);
            }
        }
        for x in got_ids {
            *c.drawn.entry(x).or_insert(0) += 1;
        }
    }
    c.probes += 1;
    let known = sums.0.iter().find(|x| x.1.off()).map(|(id, s)| format!("{id} is drawn {:+.0} times more than the weights of its window call for in {} batches, standard deviation {:.1}", s.d, c.batches, s.v.sqrt()));
    let part = sums.1.iter().position(|s| s.off()).map(|k| format!("in {} batches the draws do not follow the part of the weights called {}: off by {:.1} standard deviations", c.batches, TERMS[k], sums.1[k].d / sums.1[k].v.sqrt()));
    if let Some(x) = known.or(part) {
        violation("P30", op, x);
    }
    if std::env::var("SIM_DEBUG").is_ok() {
        eprintln!("{}", sums.1.iter().zip(TERMS).map(|(s, t)| format!("{t} {:.1} ({:.0})", s.d / s.v.sqrt(), s.v)).collect::<Vec<_>>().join(", "));
    }
    c.sums = sums;
    Ok(json!({"windows": full, "of": cand.len()}))
}
