//! Runs a case: lays out a fresh world, forks one process per simulated session, collects what they
//! leave behind.
use crate::interpose;
use crate::judge::*;
use crate::plan::*;
use crate::rng::*;
use crate::rt::*;
use serde_json::Value;
use std::path::{Path, PathBuf};

pub struct Host {
    pub dir: PathBuf,
    pub sh: &'static mut Shared,
    n: u64,
    pub sessions: u64,
    pub sim_s: f64,
    pub steps: u64,
    pub yields: u64,
    pub ios: u64,
    pub harness: u64,
}
fn cpu_limit() -> i64 {
    30
}

impl Host {
    pub fn new(dir: &Path) -> Host {
        let _ = std::fs::create_dir_all(dir);
        Host { dir: dir.to_path_buf(), sh: Shared::map(), n: 0, sessions: 0, sim_s: 0.0, steps: 0, yields: 0, ios: 0, harness: 0 }
    }
    pub fn run(&mut self, case: &Case) -> Vec<Out> {
        self.n += 1;
        let w = self.dir.join(format!("w{}", self.n));
        let _ = std::fs::remove_dir_all(&w);
        case.plan.lib.write(&w);
        interpose::set_root(w.to_str().unwrap());
        let mut outs = vec![];
        for i in 0..case.plan.sessions.len() {
            let mut o = self.session(case, i);
            if case.plan.prop == "P07" {
                o.prefs = match std::fs::read(w.join(".trane/user_preferences.json")) {
                    Err(e) if e.kind() == std::io::ErrorKind::NotFound => None,
                    Err(_) => Some(None),
                    Ok(b) => Some(serde_json::from_slice::<Value>(&b).ok()),
                };
            }
            if case.plan.prop == "P25" {
                o.tree = tree(&w, &w);
            }
            outs.push(o);
        }
        let _ = std::fs::remove_dir_all(&w);
        outs
    }
    fn session(&mut self, case: &Case, i: usize) -> Out {
        let s = &case.plan.sessions[i];
        self.sh.reset();
        let end = unsafe {
            let pid = libc::fork();
            assert!(pid >= 0, "fork failed");
            if pid == 0 {
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                let set = |w: i32, sec: i64| {
                    let v = libc::itimerval { it_interval: libc::timeval { tv_sec: 0, tv_usec: 0 }, it_value: libc::timeval { tv_sec: sec, tv_usec: 0 } };
                    libc::setitimer(w as _, &v, std::ptr::null_mut());
                };
                set(libc::ITIMER_PROF as i32, cpu_limit());
                set(libc::ITIMER_REAL as i32, 150);
                let lim = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
                libc::setrlimit(libc::RLIMIT_CORE, &lim);
                // Panics of the code under test are logged, not printed.
                let null = libc::open(c"/dev/null".as_ptr(), libc::O_WRONLY);
                if std::env::var_os("SIM_STDERR").is_none() {
                    libc::dup2(null, 2);
                }
                // A fresh thread, so that no thread-local state of the simulator (such as the keys of
                // hash maps) reaches the session.
                let sh = self.sh as *mut Shared as usize;
                std::thread::scope(|sc| {
                    std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(sc, move || crate::exec::session(case, i, sh as *mut Shared)).unwrap();
                });
                libc::_exit(93);
            }
            let mut st = 0;
            libc::waitpid(pid, &mut st, 0);
            if libc::WIFSIGNALED(st) {
                match libc::WTERMSIG(st) {
                    libc::SIGPROF => End::Hang,
                    libc::SIGALRM => End::Harness(1),
                    n => End::Signal(n),
                }
            } else {
                match libc::WEXITSTATUS(st) {
                    X_OK => End::Ok,
                    X_CRASH => End::Crash,
                    X_DEADLOCK => End::Deadlock,
                    X_STEPS => End::Steps,
                    n => End::Harness(n),
                }
            }
        };
        if let End::Harness(_) = end {
            self.harness += 1;
        }
        self.sessions += 1;
        self.sim_s += self.sh.sim_ns as f64 / 1e9;
        self.steps += self.sh.steps;
        self.yields += self.sh.n_yield;
        self.ios += self.sh.n_io;
        Out {
            id: s.id,
            end,
            text: self.sh.text().to_string(),
            io: self.sh.io[..(self.sh.n_io as usize).min(MAX_IO)].to_vec(),
            pts: self.sh.pts[..self.sh.n_pts as usize].to_vec(),
            sw: self.sh.sw[..(self.sh.n_sw as usize).min(MAX_SW)].to_vec(),
            steps: self.sh.steps,
            yields: self.sh.n_yield,
            hash: self.sh.sched_hash,
            sim_ns: self.sh.sim_ns,
            prefs: None,
            tree: 0,
        }
    }
}
/// A digest of all files but those of the working directory and of courses being built.
fn tree(root: &Path, d: &Path) -> u64 {
    let mut v: Vec<PathBuf> = std::fs::read_dir(d).map(|r| r.flatten().map(|e| e.path()).collect()).unwrap_or_default();
    v.sort();
    let mut h = 7u64;
    for p in v {
        let rel = p.strip_prefix(root).unwrap().to_str().unwrap_or("?").to_string();
        if rel == ".trane" || rel == ".chk" || rel == "built" {
            continue;
        }
        h = mix(h ^ hash_bytes(rel.as_bytes()));
        h = mix(h ^ if p.is_dir() { tree(root, &p) } else { hash_bytes(&std::fs::read(&p).unwrap_or_default()) });
    }
    h
}
/// A digest of everything a run logged and every scheduling decision in it.
pub fn digest(outs: &[Out]) -> u64 {
    let mut h = 1u64;
    for o in outs {
        h = mix(h ^ hash_bytes(o.text.as_bytes()) ^ o.hash.rotate_left(7) ^ o.steps ^ hash_bytes(format!("{:?}{:?}", o.end, o.prefs).as_bytes()) ^ o.tree);
    }
    h
}
