//! The simulator's runtime: a baton-passing scheduler over the real threads of the code under test,
//! a virtual clock, a seeded entropy source and a faulty disk, reached by interposing the libc
//! symbols that the standard library, parking_lot, rayon and SQLite call (see `interpose.rs`).
//!
//! At most one simulated thread runs at any time. Every lock operation, I/O call, futex call, thread
//! creation and (rarely) hash of an interned identifier is a point at which the seeded scheduler
//! may hand the baton to another runnable thread.
use crate::rng::*;
use crate::sys::*;
use serde::{Deserialize, Serialize};
use std::cell::Cell;
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicU32, Ordering};

pub const MAXT: usize = 64;
pub const POOL_OP: u32 = u32::MAX;

thread_local! { pub static TID: Cell<i32> = const { Cell::new(-1) }; }
#[inline]
pub fn tid() -> i32 {
    TID.with(|t| t.get())
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum St {
    Free,
    Run,
    Futex(usize, u32),
    Mutex(usize),
    Join(usize),
    Sleep,
    Done,
}

pub struct Thr {
    pub st: St,
    pub deadline: u64,
    pub timed_out: bool,
    pub wake: AtomicU32,
    pub op: u32,
    pub yields: u32,
    pub rnd: u64,
    pub prio: u64,
    pub pth: libc::pthread_t,
}

/// Kinds of I/O operation, as seen by the fault injector.
#[derive(Clone, Copy, PartialEq, Eq, Debug, Serialize, Deserialize, Hash, PartialOrd, Ord)]
pub enum Io {
    Open, Create, Read, Write, Trunc, Sync, Rename, Unlink, Mkdir, Stat, Opendir, Readdir, Mmap, Lock,
}
pub const IOS: [Io; 14] = [Io::Open, Io::Create, Io::Read, Io::Write, Io::Trunc, Io::Sync, Io::Rename, Io::Unlink, Io::Mkdir, Io::Stat, Io::Opendir, Io::Readdir, Io::Mmap, Io::Lock];

#[derive(Clone, Copy, PartialEq, Eq, Debug, Serialize, Deserialize, Hash, PartialOrd, Ord)]
pub enum FaultKind {
    Eio, Enospc, Emfile, Eacces, Enomem, Eintr, Short, CrashBefore, CrashAfter, Torn,
}
impl FaultKind {
    pub fn applies(self, io: Io) -> bool {
        use FaultKind::*;
        match self {
            Eio => io != Io::Mmap,
            Enospc => matches!(io, Io::Write | Io::Create | Io::Mkdir | Io::Rename),
            Emfile => matches!(io, Io::Open | Io::Create | Io::Opendir),
            Eacces => matches!(io, Io::Open | Io::Create | Io::Opendir | Io::Stat | Io::Unlink | Io::Rename | Io::Mkdir),
            Enomem => matches!(io, Io::Mmap | Io::Opendir | Io::Stat),
            Eintr => matches!(io, Io::Read | Io::Write | Io::Open | Io::Create),
            Short => matches!(io, Io::Read | Io::Write),
            CrashBefore | CrashAfter => matches!(io, Io::Write | Io::Trunc | Io::Create | Io::Rename | Io::Unlink | Io::Mkdir | Io::Sync | Io::Mmap | Io::Lock | Io::Open),
            Torn => io == Io::Write,
        }
    }
    pub fn is_crash(self) -> bool {
        matches!(self, FaultKind::CrashBefore | FaultKind::CrashAfter | FaultKind::Torn)
    }
    /// Faults that a correct caller hides completely.
    pub fn benign(self) -> bool {
        matches!(self, FaultKind::Eintr | FaultKind::Short)
    }
}
pub const ERRS: [FaultKind; 5] = [FaultKind::Eio, FaultKind::Enospc, FaultKind::Emfile, FaultKind::Eacces, FaultKind::Enomem];
pub const CRASHES: [FaultKind; 3] = [FaultKind::CrashBefore, FaultKind::CrashAfter, FaultKind::Torn];

/// A fault at the `io`-th I/O call of operation `op` of session `session`. `span` further calls to
/// which the kind applies fail as well (a disk that stays full, for instance).
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub struct Fault {
    pub session: u32,
    pub op: u32,
    pub io: u32,
    pub kind: FaultKind,
    #[serde(default)]
    pub span: u32,
}

/// A scheduling decision: at its `at`-th decision point within `op`, thread `tid` hands over to `to`.
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub struct Switch {
    pub session: u32,
    pub tid: u8,
    pub op: u32,
    pub at: u32,
    pub to: u8,
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub struct SchedCfg {
    /// Probability of a switch at a lock operation, at I/O, and at an identifier hash.
    pub p_lock: f64,
    pub p_io: f64,
    pub p_hash: f64,
    /// Whether to use random thread priorities with a few change points instead.
    pub pct: bool,
}

/// One decision point; `app` when it is at a lock of the code under test.
#[repr(C)]
#[derive(Clone, Copy, Debug)]
pub struct Pt {
    pub op: u32,
    pub at: u32,
    pub tid: u8,
    pub app: bool,
}

/// One I/O call as recorded for the fault planner.
#[repr(C)]
#[derive(Clone, Copy)]
pub struct IoRec {
    pub op: u32,
    pub io: u8,
    pub class: u8,
    pub fault: u8,
    pub pad: u8,
}

pub const MAX_IO: usize = 60_000;
pub const MAX_SW: usize = 60_000;
pub const MAX_PTS: usize = 60_000;
pub const LOG_CAP: usize = 48 << 20;

/// Memory shared by a session and the worker that judges it; it survives the session's death.
#[repr(C)]
pub struct Shared {
    pub log_len: u64,
    pub n_io: u64,
    pub n_sw: u64,
    pub n_yield: u64,
    pub steps: u64,
    pub sched_hash: u64,
    pub sim_ns: u64,
    pub end: u64,
    pub n_pts: u64,
    /// Decision points of a run whose schedule is a list, for the planner of preemptions.
    pub pts: [Pt; MAX_PTS],
    pub io: [IoRec; MAX_IO],
    pub sw: [Switch; MAX_SW],
    pub log: [u8; LOG_CAP],
}
impl Shared {
    pub fn map() -> &'static mut Shared {
        unsafe {
            let p = sc6(libc::SYS_mmap, 0, std::mem::size_of::<Shared>(), 3, (libc::MAP_SHARED | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE) as usize, usize::MAX, 0);
            assert!(p > 0, "mmap failed");
            &mut *(p as *mut Shared)
        }
    }
    pub fn reset(&mut self) {
        self.log_len = 0;
        self.n_io = 0;
        self.n_sw = 0;
        self.n_yield = 0;
        self.steps = 0;
        self.sched_hash = 0;
        self.sim_ns = 0;
        self.end = 0;
        self.n_pts = 0;
    }
    pub fn text(&self) -> &str {
        std::str::from_utf8(&self.log[..self.log_len as usize]).unwrap_or("")
    }
}

pub struct Rt {
    pub on: bool,
    pub session: u32,
    pub seed: u64,
    pub dir_seed: u64,
    pub thr: [Thr; MAXT],
    pub nthr: usize,
    pub cur: usize,
    pub runnable: usize,
    pub mono: u64,
    pub real: i64,
    pub min_deadline: u64,
    pub steps: u64,
    pub step_limit: u64,
    pub seq_op: u32,
    pub op_ios: BTreeMap<u32, u32>,
    pub faults: Vec<(Fault, u32)>,
    pub fired: Vec<(u32, FaultKind)>,
    pub sched: SchedCfg,
    pub list: Option<BTreeMap<(u8, u32, u32), u8>>,
    pub rng: Rng,
    pub sh: *mut Shared,
    pub io_armed: bool,
    pub op_time: u64,
}

static mut RT: *mut Rt = std::ptr::null_mut();
#[inline]
pub fn rt() -> &'static mut Rt {
    unsafe { &mut *RT }
}
/// Whether the calling thread is a simulated one.
#[inline]
pub fn simulated() -> bool {
    tid() >= 0
}

pub struct Start<'a> {
    pub session: u32,
    pub seed: u64,
    pub dir_seed: u64,
    pub real: i64,
    pub faults: Vec<Fault>,
    pub sched: SchedCfg,
    pub list: Option<&'a [Switch]>,
    pub step_limit: u64,
    pub sh: *mut Shared,
}

static mut EXIT_KEY: libc::pthread_key_t = 0;

/// Turns the calling (only) thread of this process into simulated thread 0.
pub fn start(c: Start) {
    let thr: Vec<Thr> = (0..MAXT)
        .map(|_| Thr { st: St::Free, deadline: u64::MAX, timed_out: false, wake: AtomicU32::new(0), op: POOL_OP, yields: 0, rnd: 0, prio: 0, pth: 0 })
        .collect();
    let mut arr: Box<[Thr]> = thr.into_boxed_slice();
    arr[0].st = St::Run;
    let thr: Box<[Thr; MAXT]> = arr.try_into().ok().unwrap();
    let list = c.list.map(|l| l.iter().filter(|s| s.session == c.session).map(|s| ((s.tid, s.op, s.at), s.to)).collect());
    let rt = Rt {
        on: true,
        session: c.session,
        seed: c.seed,
        dir_seed: c.dir_seed,
        thr: *thr,
        nthr: 1,
        cur: 0,
        runnable: 1,
        mono: 1_000_000_000,
        real: c.real,
        min_deadline: u64::MAX,
        steps: 0,
        step_limit: c.step_limit,
        seq_op: 0,
        op_ios: BTreeMap::new(),
        faults: c.faults.into_iter().filter(|f| f.session == c.session).map(|f| (f, 0)).collect(),
        fired: vec![],
        sched: c.sched,
        list,
        rng: Rng::derive(c.seed, 77, c.session as u64, 0),
        sh: c.sh,
        io_armed: true,
        op_time: 0,
    };
    unsafe {
        RT = Box::into_raw(Box::new(rt));
        libc::pthread_key_create(&raw mut EXIT_KEY, Some(thread_exit));
    }
    TID.with(|t| t.set(0));
}

pub fn sh() -> &'static mut Shared {
    unsafe { &mut *rt().sh }
}

/// Appends one line to the log.
pub fn log_line(s: &str) {
    let sh = sh();
    let l = sh.log_len as usize;
    let b = s.as_bytes();
    if l + b.len() + 1 > LOG_CAP {
        die(90);
    }
    sh.log[l..l + b.len()].copy_from_slice(b);
    sh.log[l + b.len()] = b'\n';
    sh.log_len = (l + b.len() + 1) as u64;
}

fn finish_counters() {
    let r = rt();
    let sh = sh();
    sh.steps = r.steps;
    sh.sim_ns = r.mono;
}

/// Ends this process without running anything more: what a crash does.
pub fn die(code: i32) -> ! {
    finish_counters();
    unsafe { exit_group(code) }
}
pub const X_OK: i32 = 0;
pub const X_CRASH: i32 = 77;
pub const X_DEADLOCK: i32 = 78;
pub const X_STEPS: i32 = 79;

/// Sets the operation the calling thread works for.
pub fn set_op(op: u32, seq: bool) {
    let r = rt();
    let t = &mut r.thr[tid() as usize];
    t.op = op;
    t.yields = 0;
    if seq {
        r.seq_op = op;
    }
}

#[inline]
fn tick(r: &mut Rt) {
    r.steps += 1;
    r.mono += 1000;
    if r.steps > r.step_limit {
        log_line(&format!("{{\"Stuck\":{{\"states\":{:?}}}}}", states(r)));
        die(X_STEPS);
    }
    if r.mono >= r.min_deadline {
        expire(r);
    }
}
fn expire(r: &mut Rt) {
    let mut min = u64::MAX;
    for i in 0..r.nthr {
        let t = &mut r.thr[i];
        if t.deadline != u64::MAX {
            if t.deadline <= r.mono {
                t.deadline = u64::MAX;
                t.timed_out = true;
                if t.st != St::Run {
                    t.st = St::Run;
                    r.runnable += 1;
                }
            } else {
                min = min.min(t.deadline);
            }
        }
    }
    r.min_deadline = min;
}
pub fn states(r: &Rt) -> String {
    // No addresses: they differ from one process to the next.
    let st = |s: &St| match s {
        St::Futex(..) | St::Mutex(_) => "waits for a lock",
        St::Join(_) => "waits for a thread",
        St::Sleep => "sleeps",
        St::Run => "runs",
        St::Free | St::Done => "done",
    };
    (0..r.nthr).filter(|i| !matches!(r.thr[*i].st, St::Free | St::Done)).map(|i| format!("thread {i} {} in operation {}", st(&r.thr[i].st), r.thr[i].op as i32)).collect::<Vec<_>>().join(", ")
}

#[derive(Clone, Copy, PartialEq)]
pub enum Y {
    Lock,
    /// A lock of the code under test.
    App,
    Io,
    Hash,
    Yield,
    Block,
}

/// The n-th runnable thread other than `me`.
fn nth_runnable(r: &Rt, me: usize, n: usize) -> usize {
    let mut k = n;
    for i in 0..r.nthr {
        if i != me && r.thr[i].st == St::Run {
            if k == 0 {
                return i;
            }
            k -= 1;
        }
    }
    usize::MAX
}
fn next_runnable(r: &Rt, me: usize) -> usize {
    for d in 1..=r.nthr {
        let i = (me + d) % r.nthr;
        if i != me && r.thr[i].st == St::Run {
            return i;
        }
    }
    usize::MAX
}

/// Chooses who runs next; `me` itself when the current thread goes on.
fn choose(r: &mut Rt, me: usize, y: Y) -> usize {
    let others = r.runnable - (r.thr[me].st == St::Run) as usize;
    if others == 0 {
        return me;
    }
    let forced = y == Y::Block || y == Y::Yield;
    let at = r.thr[me].yields;
    r.thr[me].yields += 1;
    sh().n_yield += 1;
    let op = r.thr[me].op;
    let to = if let Some(list) = &r.list {
        let s = sh();
        if op != POOL_OP && !forced && (s.n_pts as usize) < MAX_PTS {
            s.pts[s.n_pts as usize] = Pt { op, at, tid: me as u8, app: y == Y::App };
            s.n_pts += 1;
        }
        match list.get(&(me as u8, op, at)) {
            Some(t) if (*t as usize) < r.nthr && r.thr[*t as usize].st == St::Run => *t as usize,
            _ if forced => next_runnable(r, me),
            _ => me,
        }
    } else if r.sched.pct && !forced {
        // Priorities: the highest runnable one runs; rare change points demote the current thread.
        let p = match y { Y::Lock | Y::App => r.sched.p_lock, Y::Io => r.sched.p_io, _ => r.sched.p_hash } * 0.3;
        if r.rng.chance(p) {
            r.thr[me].prio = r.rng.next() >> 2;
        }
        let mut best = me;
        for i in 0..r.nthr {
            if r.thr[i].st == St::Run && r.thr[i].prio > r.thr[best].prio {
                best = i;
            }
        }
        best
    } else if forced {
        if y == Y::Yield && r.rng.chance(0.02) {
            me
        } else {
            let n = r.rng.below(others);
            nth_runnable(r, me, n)
        }
    } else {
        let p = match y { Y::Lock | Y::App => r.sched.p_lock, Y::Io => r.sched.p_io, _ => r.sched.p_hash };
        if r.rng.chance(p) {
            let n = r.rng.below(others);
            nth_runnable(r, me, n)
        } else {
            me
        }
    };
    if to != me {
        let s = sh();
        s.sched_hash = mix(s.sched_hash ^ ((me as u64) << 48 | (to as u64) << 40 | (op as u64 & 0xffff) << 24 | at as u64));
        if (s.n_sw as usize) < MAX_SW {
            s.sw[s.n_sw as usize] = Switch { session: r.session, tid: me as u8, op, at, to: to as u8 };
            s.n_sw += 1;
        }
    }
    to
}

fn hand(r: &mut Rt, to: usize) {
    r.cur = to;
    r.thr[to].wake.store(1, Ordering::SeqCst);
    unsafe { futex_wake(r.thr[to].wake.as_ptr(), 1) };
}
pub fn wait_baton(me: usize) {
    let w = &rt().thr[me].wake;
    while w.swap(0, Ordering::SeqCst) == 0 {
        unsafe { futex_wait(w.as_ptr(), 0) };
    }
}

/// A point at which another thread may be given the baton.
pub fn yield_point(y: Y) {
    let me = tid();
    if me < 0 {
        return;
    }
    let me = me as usize;
    let r = rt();
    tick(r);
    if r.runnable <= 1 {
        if y == Y::Yield && r.min_deadline != u64::MAX {
            // A lone spinner must not starve sleepers.
            r.mono += 20_000;
        }
        return;
    }
    let to = choose(r, me, y);
    if to != me {
        hand(r, to);
        wait_baton(me);
    }
}

/// Blocks the calling thread until some other one makes it runnable or its deadline passes.
/// Returns whether it timed out.
pub fn block(st: St, deadline: u64) -> bool {
    let me = tid() as usize;
    let r = rt();
    tick(r);
    {
        let t = &mut r.thr[me];
        t.st = st;
        t.deadline = deadline;
        t.timed_out = false;
    }
    r.runnable -= 1;
    r.min_deadline = r.min_deadline.min(deadline);
    if pass_on(r, me) {
        wait_baton(me);
    }
    let t = &mut r.thr[me];
    t.deadline = u64::MAX;
    t.timed_out
}
/// Gives the baton to someone else; `me` is blocked or done. False when `me` itself goes on, its
/// deadline having passed.
fn pass_on(r: &mut Rt, me: usize) -> bool {
    while r.runnable == 0 {
        // Nothing can run: jump the clock to the next deadline.
        let mut min = u64::MAX;
        for i in 0..r.nthr {
            min = min.min(r.thr[i].deadline);
        }
        if min == u64::MAX {
            let s = states(r);
            log_line(&format!("{{\"Deadlock\":{{\"states\":{:?}}}}}", s));
            die(X_DEADLOCK);
        }
        r.mono = r.mono.max(min);
        expire(r);
    }
    if r.thr[me].st == St::Run {
        r.cur = me;
        return false;
    }
    let to = choose(r, me, Y::Block);
    hand(r, to);
    true
}
pub fn make_runnable(r: &mut Rt, i: usize) {
    if r.thr[i].st != St::Run {
        r.thr[i].st = St::Run;
        r.thr[i].deadline = u64::MAX;
        r.thr[i].timed_out = false;
        r.runnable += 1;
    }
}

pub fn futex_wait_sim(addr: usize, val: u32, bitset: u32, deadline: u64) -> i32 {
    let cur = unsafe { (*(addr as *const AtomicU32)).load(Ordering::SeqCst) };
    if cur != val {
        yield_point(Y::Lock);
        return libc::EAGAIN;
    }
    if block(St::Futex(addr, bitset), deadline) { libc::ETIMEDOUT } else { 0 }
}
pub fn futex_wake_sim(addr: usize, n: u32, bitset: u32) -> i64 {
    let r = rt();
    let mut k = 0u32;
    for i in 0..r.nthr {
        if k >= n {
            break;
        }
        if let St::Futex(a, b) = r.thr[i].st {
            if a == addr && (b & bitset) != 0 {
                make_runnable(r, i);
                k += 1;
            }
        }
    }
    yield_point(Y::Lock);
    k as i64
}
pub fn mutex_wake_sim(addr: usize) {
    let r = rt();
    for i in 0..r.nthr {
        if r.thr[i].st == St::Mutex(addr) {
            make_runnable(r, i);
        }
    }
}

/// Reserves a slot for a thread about to be created.
pub fn new_thread() -> usize {
    let r = rt();
    if r.nthr >= MAXT {
        die(91);
    }
    let i = r.nthr;
    r.nthr += 1;
    let prio = r.rng.next() >> 2;
    let t = &mut r.thr[i];
    t.st = St::Run;
    t.op = POOL_OP;
    t.prio = prio;
    r.runnable += 1;
    i
}
/// First thing a new simulated thread does.
pub fn thread_begin(i: usize) {
    TID.with(|t| t.set(i as i32));
    unsafe { libc::pthread_setspecific(EXIT_KEY, (i + 1) as *const _) };
    wait_baton(i);
}
/// Runs after all thread-local destructors of a simulated thread: its last act is to pass on the baton.
extern "C" fn thread_exit(v: *mut libc::c_void) {
    let i = v as usize - 1;
    let r = rt();
    r.thr[i].st = St::Done;
    r.runnable -= 1;
    for j in 0..r.nthr {
        if r.thr[j].st == St::Join(i) {
            make_runnable(r, j);
        }
    }
    TID.with(|t| t.set(-1));
    // pass_on may need to log a deadlock; it only uses the runtime's own state.
    pass_on(r, i);
}

/// What the disk does with one call.
pub enum Act {
    Go,
    Err(i32),
    Short,
    CrashAfter,
    Torn,
}

/// Announces an I/O call; decides its fate.
pub fn io_point(io: Io, class: u8) -> Act {
    yield_point(Y::Io);
    let r = rt();
    let me = tid() as usize;
    let op = if r.thr[me].op == POOL_OP { r.seq_op } else { r.thr[me].op };
    let idx = {
        let c = r.op_ios.entry(op).or_insert(0);
        *c += 1;
        *c - 1
    };
    let s = sh();
    let n = s.n_io as usize;
    if n < MAX_IO {
        s.io[n] = IoRec { op, io: io as u8, class, fault: 0, pad: 0 };
        s.n_io += 1;
    }
    if !r.io_armed {
        return Act::Go;
    }
    for (f, used) in r.faults.iter_mut() {
        if f.op != op || !f.kind.applies(io) {
            continue;
        }
        let hit = if f.kind.is_crash() { f.io == idx } else { idx >= f.io && *used <= f.span && (idx == f.io || f.span > 0) };
        if !hit {
            continue;
        }
        *used += 1;
        r.fired.push((op, f.kind));
        if n < MAX_IO {
            s.io[n].fault = f.kind as u8 + 1;
        }
        log_line(&format!("{{\"Fault\":{{\"op\":{},\"io\":{},\"what\":\"{:?}\",\"kind\":\"{:?}\",\"class\":{}}}}}", op, idx, io, f.kind, class));
        return match f.kind {
            FaultKind::Eio => Act::Err(libc::EIO),
            FaultKind::Enospc => Act::Err(libc::ENOSPC),
            FaultKind::Emfile => Act::Err(libc::EMFILE),
            FaultKind::Eacces => Act::Err(libc::EACCES),
            FaultKind::Enomem => Act::Err(libc::ENOMEM),
            FaultKind::Eintr => Act::Err(libc::EINTR),
            FaultKind::Short => Act::Short,
            FaultKind::CrashBefore => die(X_CRASH),
            FaultKind::CrashAfter => Act::CrashAfter,
            FaultKind::Torn => Act::Torn,
        };
    }
    Act::Go
}

/// Deterministic entropy, per thread.
pub fn entropy(buf: &mut [u8]) {
    let r = rt();
    let me = tid() as usize;
    let t = &mut r.thr[me];
    let mut g = Rng::derive(r.seed, 5, ((r.session as u64) << 8) | me as u64, ((t.op as u64) << 32) | t.rnd);
    t.rnd += 1;
    for c in buf.chunks_mut(8) {
        let v = g.next().to_le_bytes();
        c.copy_from_slice(&v[..c.len()]);
    }
}

#[no_mangle]
pub extern "C" fn trane_sim_hook(kind: u32) {
    if tid() < 0 {
        return;
    }
    match kind {
        1 | 2 => yield_point(Y::App),
        _ => {
            let r = rt();
            if r.runnable > 1 && r.sched.p_hash > 0.0 {
                yield_point(Y::Hash)
            }
        }
    }
}
