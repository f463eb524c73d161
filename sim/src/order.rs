//! In which order the exercises of a batch are listed: hard ones in blocks of their course, with new ones rather late.
use crate::exec::*;
use crate::plan::*;
use crate::rng::*;
use serde_json::json;
use std::collections::BTreeMap;
use trane::scheduler::ExerciseScheduler;

/// Chance of a false alarm of one comparison: 2 exp(-SURE).
const SURE: f64 = 25.0;
/// Chance that a block of new exercises, keyed uniformly in (0.2, 1), comes before another, keyed in (0, 0.8).
const NEW_FIRST: f64 = 0.28125;

/// Sums of differences between a share and its mean, each within a range of one.
#[derive(Default)]
pub struct Shares([(f64, f64); 4]);
const WHAT: [&str; 4] = ["a new block comes before another", "of two new blocks the one of the smaller identifier comes first", "of two other blocks the one of the smaller identifier comes first", "of two exercises of a block the one of the smaller identifier comes first"];
impl Shares {
    fn add(&mut self, k: usize, yes: usize, of: usize, mean: f64) {
        if of > 0 {
            self.0[k].0 += yes as f64 / of as f64 - mean;
            self.0[k].1 += 1.0;
        }
    }
    /// Further off than chance explains (Hoeffding's inequality).
    fn off(&self) -> Option<String> {
        self.0.iter().zip(WHAT).find(|((d, n), _)| d.abs() > (SURE * n / 2.0).sqrt()).map(|((d, n), w)| format!("{w} {:+.2} too often in {n} batches", d / n))
    }
}

/// The blocks of a batch, with their mean scores, in order; those of courses with several blocks left out. An error if there
/// cannot be such blocks.
fn blocks(of: &[(&str, &str, f64)], limit: f64) -> Result<Vec<(Vec<String>, f64)>, String> {
    let low = |x: &(&str, &str, f64)| x.2 <= limit;
    let mut runs: Vec<(Option<&str>, Vec<&(&str, &str, f64)>)> = vec![];
    for x in of {
        match runs.last_mut() {
            Some((c, v)) if low(x) && *c == Some(x.1) => v.push(x),
            _ => runs.push((low(x).then_some(x.1), vec![x])),
        }
    }
    let mut n: BTreeMap<&str, (usize, usize)> = BTreeMap::new();
    for (c, v) in &runs {
        if let Some(c) = c {
            let e = n.entry(c).or_default();
            e.0 += v.len();
            e.1 += (v.len() % 3 != 0) as usize;
        }
    }
    if let Some((c, x)) = n.iter().find(|x| x.1 .1 > 1) {
        return Err(format!("the {} exercises of {c} that score {limit} at most are not in blocks of three and one of the rest: {of:?}", x.0));
    }
    Ok(runs.iter().filter(|(c, _)| c.is_none_or(|c| n[c].0 <= 3)).map(|(_, v)| (v.iter().map(|x| x.0.to_string()).collect(), v.iter().map(|x| x.2).sum::<f64>() / v.len() as f64)).collect())
}

pub fn order(c: &mut Ctx, op: u32, salt: u64, n: usize) -> R {
    let mut g = Rng::derive(salt, 79, 0, 0);
    let m = c.m.clone();
    if !c.pile.is_empty() || !c.maybe.is_empty() {
        return Ok(json!("not applicable"));
    }
    let limit = c.o.target_window_opts.range.1 as f64;
    let (courses, lessons) = (m.ids('c'), m.ids('l'));
    let f = match g.below(4) {
        0 if !courses.is_empty() => Filt::Unit(json!({"CourseFilter": {"course_ids": courses}})),
        1 | 2 if !lessons.is_empty() => Filt::Unit(json!({"LessonFilter": {"lesson_ids": lessons}})),
        _ => Filt::None,
    };
    let mut score: BTreeMap<String, f64> = BTreeMap::new();
    for _ in 0..n {
        let ids = batch(c.trane(), &f, op)?;
        c.batches += 1;
        c.presented += ids.len() as u64;
        let mut of = vec![];
        for x in &ids {
            if !score.contains_key(x) {
                // What cannot be read leaves the batch undecided.
                let Ok(Some(s)) = c.trane().get_unit_score(us(x)) else { return Ok(json!("unknown")) };
                score.insert(x.clone(), s as f64);
            }
            of.push((x.as_str(), m.u[x].course.as_str(), score[x]));
        }
        if of.iter().any(|x| (x.2 - limit).abs() < 1e-3 && (x.2 - limit).abs() > 0.0) {
            continue;
        }
        let v = match blocks(&of, limit) {
            Ok(v) => v,
            Err(x) => {
                violation("P35", op, x);
                return Ok(json!(null));
            }
        };
        c.probes += 1;
        // A block that is new only by a rounding is left out.
        let v: Vec<_> = v.into_iter().filter(|x| x.1 == 1.0 || (x.1 - 1.0).abs() > 1e-3).collect();
        let (mut first, mut pairs) = ([0; 3], [0; 3]);
        let (mut inside, mut of) = (0, 0);
        for (i, a) in v.iter().enumerate() {
            for b in &v[i + 1..] {
                let k = match (a.1 <= 1.0, b.1 <= 1.0) {
                    (true, true) => 1,
                    (false, false) => 2,
                    _ => 0,
                };
                pairs[k] += 1;
                first[k] += if k == 0 { a.1 <= 1.0 } else { a.0.iter().min() < b.0.iter().min() } as usize;
            }
            for j in 1..a.0.len() {
                of += 1;
                inside += (a.0[j - 1] < a.0[j]) as usize;
            }
        }
        for k in 0..3 {
            c.shares.add(k, first[k], pairs[k], if k == 0 { NEW_FIRST } else { 0.5 });
        }
        c.shares.add(3, inside, of, 0.5);
        for x in ids {
            *c.drawn.entry(x).or_insert(0) += 1;
        }
    }
    if let Some(x) = c.shares.off() {
        violation("P35", op, x);
    }
    Ok(json!(score.len()))
}
