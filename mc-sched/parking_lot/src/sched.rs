//! The scheduler. At most one managed thread runs at a time; each stops before every lock
//! operation and around every signature check until the controller lets it go on.
use crate::Raw;
use std::cell::Cell;
use std::sync::{Condvar, Mutex, OnceLock};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq)]
enum St {
    Idle,
    Run,
    /// Waiting to go on; if on a lock, which and how.
    At(Option<(usize, bool)>),
    Done,
}
struct S {
    st: Vec<St>,
    cur: usize,
    go: Vec<bool>,
    /// Threads which were let go but have not come back in time: they wait for something
    /// the scheduler does not know. They are left alone until they show up again.
    lost: Vec<bool>,
}
struct Sched {
    s: Mutex<S>,
    ctl: Condvar,
    thr: Vec<Condvar>,
}
const MAX: usize = 8;
fn me() -> &'static Sched {
    static C: OnceLock<Sched> = OnceLock::new();
    C.get_or_init(|| Sched {
        s: Mutex::new(S { st: vec![St::Idle; MAX], cur: 0, go: vec![false; MAX], lost: vec![false; MAX] }),
        ctl: Condvar::new(),
        thr: (0..MAX).map(|_| Condvar::new()).collect(),
    })
}
thread_local! { static ID: Cell<Option<usize>> = const { Cell::new(None) }; }
pub fn managed() -> bool {
    ID.with(|i| i.get().is_some())
}
fn stop(on: Option<(usize, bool)>) {
    let Some(id) = ID.with(|i| i.get()) else { return };
    let c = me();
    let mut s = c.s.lock().unwrap();
    s.st[id] = St::At(on);
    s.lost[id] = false;
    c.ctl.notify_one();
    while !s.go[id] {
        s = c.thr[id].wait(s).unwrap();
    }
    s.go[id] = false;
    s.st[id] = St::Run;
}
/// A point at which another thread may go on.
pub fn point() {
    stop(None)
}
pub(crate) fn lock_point(r: &Raw, write: bool) {
    stop(Some((r as *const Raw as usize, write)))
}
/// Runs `f` as managed thread `id`.
pub fn run_managed(id: usize, f: impl FnOnce()) {
    ID.with(|i| i.set(Some(id)));
    stop(None);
    f();
    ID.with(|i| i.set(None));
    let c = me();
    let mut s = c.s.lock().unwrap();
    s.st[id] = St::Done;
    s.lost[id] = false;
    c.ctl.notify_one();
}
pub struct Outcome {
    /// Choice taken and number of choices at each step.
    pub steps: Vec<(usize, usize)>,
    pub preemptions: usize,
    pub lost: u64,
    pub stuck: Option<String>,
}
/// Lets `n` managed threads run to their end, following `script` and after it the first choice
/// (go on with the current thread if possible).
/// Choices are ordered: current thread first; only it once `bound` preemptions are used up.
pub fn control(n: usize, script: &[usize], bound: usize) -> Outcome {
    let c = me();
    let mut out = Outcome { steps: vec![], preemptions: 0, lost: 0, stuck: None };
    let mut s = c.s.lock().unwrap();
    s.cur = usize::MAX;
    loop {
        let t = Instant::now();
        // wait until nobody runs
        loop {
            let running = (0..n).any(|i| matches!(s.st[i], St::Run | St::Idle) && !s.lost[i]);
            if !running {
                break;
            }
            let (g, to) = c.ctl.wait_timeout(s, Duration::from_millis(400)).unwrap();
            s = g;
            if to.timed_out() && t.elapsed() > Duration::from_millis(400) {
                for i in 0..n {
                    if s.st[i] == St::Run && !s.lost[i] {
                        s.lost[i] = true;
                        out.lost += 1;
                    }
                }
            }
        }
        if (0..n).all(|i| s.st[i] == St::Done) {
            break;
        }
        let able = |i: usize| match s.st[i] {
            St::At(None) => true,
            St::At(Some((r, w))) => unsafe { (*(r as *const Raw)).free(w) },
            _ => false,
        };
        let mut ch: Vec<usize> = (0..n).filter(|i| able(*i)).collect();
        if ch.is_empty() {
            if (0..n).any(|i| s.lost[i]) {
                // somebody still runs somewhere
                if t.elapsed() > Duration::from_secs(20) {
                    out.stuck = Some("no thread comes back within 20 s".into());
                    break;
                }
                let (g, _) = c.ctl.wait_timeout(s, Duration::from_millis(50)).unwrap();
                s = g;
                continue;
            }
            out.stuck = Some("deadlock: every unfinished thread waits for a lock".into());
            break;
        }
        if let Some(p) = ch.iter().position(|x| *x == s.cur) {
            let x = ch.remove(p);
            ch.insert(0, x);
            if out.preemptions >= bound {
                ch.truncate(1);
            }
        }
        let pick = script.get(out.steps.len()).copied().unwrap_or(0).min(ch.len() - 1);
        let goon = ch.contains(&s.cur) && s.cur != ch[pick];
        out.preemptions += goon as usize;
        out.steps.push((pick, ch.len()));
        let id = ch[pick];
        s.cur = id;
        s.go[id] = true;
        s.st[id] = St::Run;
        c.thr[id].notify_one();
    }
    if out.stuck.is_none() {
        for i in 0..n {
            s.st[i] = St::Idle;
        }
    }
    out
}
/// The next script in depth-first order, or none.
pub fn next(mut steps: Vec<(usize, usize)>) -> Option<Vec<usize>> {
    while let Some((p, n)) = steps.pop() {
        if p + 1 < n {
            let mut v: Vec<usize> = steps.iter().map(|x| x.0).collect();
            v.push(p + 1);
            return Some(v);
        }
    }
    None
}
