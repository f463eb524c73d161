//! Workloads: what each simulated session of a run does. A plan, a list of faults and (for a replay)
//! a list of scheduling decisions determine a run completely.
use crate::rt::*;
use crate::spec::*;
use serde::{Deserialize, Serialize};
use serde_json::Value;

pub type Rec = (String, f32, i64);
pub type Rew = (String, f32, f32, i64);

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Filt {
    None,
    Unit(Value),
    Saved(String),
    /// Session definition and start time.
    Session(Value, i64),
    SavedSession(String, i64),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum K {
    Score { ex: String, score: u8, ts: i64 },
    Batch { f: Filt },
    /// Requests a batch and answers (part of) it, with a score chosen by `bias` and the batch position.
    Study { f: Filt, n: usize, bias: u8, salt: u64 },
    UnitScore { id: String },
    GetScores { id: String, n: u32 },
    AllScores,
    BlAdd(String),
    BlDel(String),
    BlDelPrefix(String),
    RlAdd(String),
    RlDel(String),
    GetSets,
    SetPrefs {
        batch: Option<usize>,
        ignored: Vec<String>,
        pad: usize,
        /// The transcription preferences, if other than those of the library.
        #[serde(default, skip_serializing_if = "Option::is_none")]
        tr: Option<Value>,
    },
    GetPrefs,
    RecScores(Vec<Rec>),
    RecDeltas(Vec<Rec>),
    RecRewards(Vec<Rew>),
    TrimScores(u32),
    TrimDeltas(u32),
    TrimRewards(u32),
    DelScores(String),
    DelDeltas(String),
    DelRewards(String),
    Clock(i64),
    Invalidate(String),
    InvalidatePrefix(String),
    /// Compares every reported score with those of an instance opened afresh on the same data.
    Coherence,
    /// Lists all practice data and sets through the public interface.
    Dump,
    /// Lists the library as opened.
    LibDump,
    /// Reads a part of the library, as a user interface does.
    Browse { id: String },
    /// A student who answers everything well until nothing new may be left.
    Diligent { rounds: usize },
    /// Scores of every exercise before and after a submission.
    ScoreObs { ex: String, score: u8, ts: i64 },
    GetRewards { id: String, n: u32 },
    /// Asks for batches for a lesson until it appears.
    Eligible { course: String, lesson: String, tries: usize },
    /// A study session against the filter of its current part.
    SessionProbe { f: Filt },
    /// The directory and the serialized form of the library, opened on the same data.
    Twin { f: Filt },
    /// Overrides of the default scheduler options; null restores the defaults.
    Options(Value),
    GetOptions,
    /// Sizes of batches against those of an instance opened with that batch size.
    SizeProbe,
    /// What a batch for some lessons is made of.
    MixProbe(u64),
    /// Many small batches, and how often each exercise is drawn.
    Draws(u64, usize),
    Order(u64, usize),
    /// A benchmark of student profiles on a copy of the library.
    Bench(Value),
    /// Scores are computed as of a given time from here on, or again as of now.
    AsOf(Option<i64>),
    /// Every unit as the instance presents it.
    Contents,
    /// The instance against one opened by the plain path.
    World,
    /// Builds a course.
    Build { b: Value },
    /// Opens the library again in the same process (the previous instance is dropped first).
    Reopen,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Op {
    pub id: u32,
    pub k: K,
}
/// One or more threads running at the same time on the same instance.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Phase {
    pub threads: Vec<Vec<Op>>,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Session {
    pub id: u32,
    pub dir_seed: u64,
    pub start: i64,
    /// Opened from the serialized form of the library.
    #[serde(default)]
    pub serialized: bool,
    /// The current directory of the process, the working directory given, and the root as written.
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub path: Option<[String; 3]>,
    pub open_op: u32,
    pub phases: Vec<Phase>,
    pub close_op: u32,
    /// The process is killed at the end instead of closing the library.
    #[serde(default)]
    pub kill: bool,
    /// Whether threads of this session are scheduled adversarially.
    pub sched: SchedCfg,
    /// Whether faults may be planned in this session.
    #[serde(default)]
    pub faulty: bool,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Plan {
    pub prop: String,
    pub seed: u64,
    pub lib: LibSpec,
    pub sessions: Vec<Session>,
    /// Identifiers, other than those of the library, that the workload uses.
    #[serde(default)]
    pub extra: Vec<String>,
}
/// A complete, repeatable run.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Case {
    pub plan: Plan,
    pub faults: Vec<Fault>,
    pub switches: Option<Vec<Switch>>,
}
pub const CALM: SchedCfg = SchedCfg { p_lock: 0.0, p_io: 0.0, p_hash: 0.0, pct: false };

/// Assigns operation identifiers while a plan is put together.
pub struct B {
    pub next: u32,
}
impl B {
    pub fn new() -> B {
        B { next: 0 }
    }
    pub fn op(&mut self, k: K) -> Op {
        self.next += 1;
        Op { id: self.next, k }
    }
    pub fn seq(&mut self, v: Vec<K>) -> Phase {
        Phase { threads: vec![v.into_iter().map(|k| self.op(k)).collect()] }
    }
    pub fn par(&mut self, v: Vec<Vec<K>>) -> Phase {
        Phase { threads: v.into_iter().map(|t| t.into_iter().map(|k| self.op(k)).collect()).collect() }
    }
    pub fn session(&mut self, id: u32, start: i64, phases: Vec<Phase>) -> Session {
        self.next += 2;
        Session { id, dir_seed: 0, start, serialized: false, path: None, open_op: self.next - 1, phases, close_op: self.next, kill: false, sched: CALM, faulty: false }
    }
}
impl Session {
    pub fn ops(&self) -> impl Iterator<Item = &Op> {
        self.phases.iter().flat_map(|p| p.threads.iter().flatten())
    }
}
