//! The published scoring model, written a second time: what the score of an exercise is, given its stored
//! trials, deltas and rewards and the time.
use trane::data::{ExerciseDelta, ExerciseTrial, UnitReward};

const DAY: f64 = 86_400.0;
/// Closer than this to a threshold, the model does not say on which side a value lies.
const NEAR: f64 = 2e-3;

pub struct Stored {
    pub procedural: bool,
    /// Newest first.
    pub trials: Vec<ExerciseTrial>,
    pub deltas: Vec<ExerciseDelta>,
    pub lesson: Vec<UnitReward>,
    pub course: Vec<UnitReward>,
}

fn days(later: i64, earlier: i64) -> f64 {
    ((later as f64 - earlier as f64) / DAY).max(0.0)
}
/// Recency-weighted mean: 0.8 by age relative to the newest (weeks), 0.2 by position.
fn recency_mean(v: &[(f64, i64)]) -> f64 {
    let w = |x: f64| 0.95f64.powf(x).max(0.1);
    let mean = |ws: Vec<f64>| v.iter().zip(&ws).map(|(x, w)| x.0 * w).sum::<f64>() / ws.iter().sum::<f64>();
    let by_age = mean(v.iter().map(|x| w(days(v[0].1, x.1) / 7.0)).collect());
    let by_position = mean((0..v.len()).map(|i| w(i as f64)).collect());
    0.8 * by_age + 0.2 * by_position
}
/// The chance to recall: 0.9 once as many days have gone by as the memory is stable.
fn recall(procedural: bool, elapsed: f64, stability: f64) -> f64 {
    let d: f64 = if procedural { 0.2 } else { 0.4 };
    let factor = 0.9f64.powf(-1.0 / d) - 1.0;
    (1.0 + factor * elapsed / stability).powf(-d)
}
/// Stability after all reviews, oldest first; the first one only starts the clock.
fn stability(s: &Stored) -> f64 {
    let n = s.trials.len();
    let failed = s.trials.iter().filter(|t| t.score < 3.0).count() as f64 / n as f64;
    let (mut difficulty, mut stab) = (1.0 + 9.0 * failed, 1.0f64);
    for i in (0..n - 1).rev() {
        let gap = days(s.trials[i].timestamp, s.trials[i + 1].timestamp);
        let score = s.trials[i].score as f64;
        let p = (score - 1.0) / 4.0 - 0.5;
        let spacing = if p > 0.0 { 1.0 + 0.65 * (1.0 - recall(s.procedural, gap, stab)) } else { 1.0 };
        let growth = 2.5 * p * (11.0 - difficulty) / 5.0 * spacing * gap.min(1.0);
        stab = (stab * (1.0 + growth)).clamp(0.5, 730.0);
        let moved = (difficulty + (3.0 - score) / 4.0 * 1.05).clamp(1.0, 10.0);
        difficulty = 0.16 * 5.0 + 0.84 * moved;
    }
    stab
}
/// The mean of a unit's rewards, each faded (value and weight) by half every 14 days; `None` near a threshold.
fn faded(v: &[UnitReward], now: i64) -> Option<f64> {
    let (mut num, mut den) = (0.0, 0.0);
    for r in v {
        let f = 0.5f64.powf(days(now, r.timestamp).floor() / 14.0);
        let w = r.weight as f64 * f;
        if (w - 0.05).abs() < 1e-5 {
            return None;
        }
        if w >= 0.05 {
            num += r.value as f64 * f * w;
            den += w;
        }
    }
    Some(if den > 0.0 { num / den } else { 0.0 })
}
/// The score; `None` when a threshold is too near to tell.
pub fn score(s: &Stored, now: i64) -> Option<f64> {
    let Some(last) = s.trials.first() else { return Some(0.0) };
    let trials: Vec<(f64, i64)> = s.trials.iter().map(|t| (t.score as f64, t.timestamp)).collect();
    let mean = recency_mean(&trials);
    let age = days(now, last.timestamp);
    let mut r = recall(s.procedural, age, stability(s)).clamp(0.0, 1.0);
    if trials.len() >= 2 && r < 0.75 {
        if (mean - 4.0).abs() < NEAR || (age - 50.0).abs() < NEAR {
            return None;
        }
        if mean >= 4.0 && age >= 50.0 {
            r = 0.75;
        }
    }
    let mut v = r * mean;
    if s.deltas.len() >= 2 {
        v += recency_mean(&s.deltas.iter().map(|d| (d.delta as f64, d.timestamp)).collect::<Vec<_>>()) * r / 4.0;
    }
    v = v.clamp(0.0, 5.0);
    let (l, c) = (faded(&s.lesson, now)?, faded(&s.course, now)?);
    let reward = match (s.lesson.is_empty(), s.course.is_empty()) {
        (true, true) => 0.0,
        (false, true) => l,
        (true, false) => c,
        _ => 0.7 * l + 0.3 * c,
    };
    if s.trials.len() <= 2 || reward == 0.0 {
        return Some(v);
    }
    let recent = trials[..3].iter().map(|t| t.0).sum::<f64>() / 3.0;
    if reward.abs() > 1e-4 && ((recent < 3.0 && reward > 0.0) || (recent > 3.5 && reward < 0.0)) {
        // Counts only once the last trial is a week old.
        if (age - 7.0).abs() < NEAR {
            return None;
        }
        if age < 7.0 {
            return Some(v);
        }
    }
    Some((v + reward).clamp(0.0, 5.0))
}
/// How urgent a repetition is: the chance to have forgotten.
pub fn urgency(s: &Stored, now: i64) -> f64 {
    match s.trials.first() {
        Some(last) => 1.0 - recall(s.procedural, days(now, last.timestamp), stability(s)).clamp(0.0, 1.0),
        None => 1.0,
    }
}
/// How much better an exercise gets per day: the slope of the least-squares line through its trials.
pub fn velocity(s: &Stored) -> Option<f64> {
    let n = s.trials.len() as f64;
    if s.trials.len() < 2 {
        return None;
    }
    let first = s.trials.last().unwrap().timestamp;
    let v: Vec<(f64, f64)> = s.trials.iter().map(|t| ((t.timestamp as f64 - first as f64) / DAY, t.score as f64)).collect();
    let (mt, ms) = (v.iter().map(|x| x.0).sum::<f64>() / n, v.iter().map(|x| x.1).sum::<f64>() / n);
    let d = v.iter().map(|x| (x.0 - mt).powi(2)).sum::<f64>();
    Some(if d < 1e-6 { 0.0 } else { v.iter().map(|x| (x.0 - mt) * (x.1 - ms)).sum::<f64>() / d })
}
