//! Real threads in lock-step: only the thread the scheduler picked runs, up to its next scheduling
//! point. A run with the same choices is the same execution.
use crate::Sim;
use std::cell::RefCell;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::{Arc, Condvar, Mutex};
use std::time::Duration;

#[derive(Clone, Copy, PartialEq, Debug)]
enum Turn {
    Scheduler,
    Thread(usize),
    Free,
}
struct Shared {
    state: Mutex<State>,
    cv: Condvar,
}
struct State {
    turn: Turn,
    /// scheduling points to pass before handing back
    budget: u32,
    done: Vec<bool>,
    points: u64,
}
thread_local! { static ME: RefCell<Option<(Arc<Shared>, usize)>> = const { RefCell::new(None) }; }

/// A scheduling point. Outside a lock-step run this does nothing.
pub fn pause() {
    let Some((sh, me)) = ME.with(|m| m.try_borrow().ok().and_then(|m| m.clone())) else { return };
    let mut st = sh.state.lock().unwrap_or_else(|e| e.into_inner());
    st.points += 1;
    if st.turn == Turn::Free {
        return;
    }
    if st.turn == Turn::Thread(me) {
        if st.budget > 0 {
            st.budget -= 1;
            return;
        }
        st.turn = Turn::Scheduler;
        sh.cv.notify_all();
    }
    while st.turn != Turn::Thread(me) && st.turn != Turn::Free {
        st = sh.cv.wait(st).unwrap_or_else(|e| e.into_inner());
    }
}

pub struct Report {
    pub switches: u64,
    pub points: u64,
    /// the threads could not be run in lock-step (one waited for another)
    pub blocked: bool,
}
struct S<T>(T);
unsafe impl<T> Send for S<T> {}
impl<T> S<T> {
    fn into(self) -> T {
        self.0
    }
}

/// Run the jobs in lock-step; returns each job's result (Err: it panicked).
pub fn lock_step<R>(sim: &mut Sim, jobs: Vec<Box<dyn FnOnce() -> R + '_>>) -> (Vec<Result<R, String>>, Report) {
    let n = jobs.len();
    let sh = Arc::new(Shared {
        state: Mutex::new(State { turn: Turn::Scheduler, budget: 0, done: vec![false; n], points: 0 }),
        cv: Condvar::new(),
    });
    let mut rep = Report { switches: 0, points: 0, blocked: false };
    let mut out = vec![];
    std::thread::scope(|scope| {
        let mut hs = vec![];
        for (i, job) in jobs.into_iter().enumerate() {
            let job = S(job);
            let sh2 = sh.clone();
            hs.push(
                std::thread::Builder::new()
                    .stack_size(8 << 20)
                    .spawn_scoped(scope, move || {
                        let job = job.into();
                        ME.with(|m| *m.borrow_mut() = Some((sh2.clone(), i)));
                        // wait for the first turn
                        {
                            let mut st = sh2.state.lock().unwrap_or_else(|e| e.into_inner());
                            while st.turn != Turn::Thread(i) && st.turn != Turn::Free {
                                st = sh2.cv.wait(st).unwrap_or_else(|e| e.into_inner());
                            }
                        }
                        let r = catch_unwind(AssertUnwindSafe(job));
                        ME.with(|m| *m.borrow_mut() = None);
                        let mut st = sh2.state.lock().unwrap_or_else(|e| e.into_inner());
                        st.done[i] = true;
                        if st.turn == Turn::Thread(i) {
                            st.turn = Turn::Scheduler;
                        }
                        sh2.cv.notify_all();
                        S(r)
                    })
                    .unwrap(),
            );
        }
        loop {
            let live: Vec<usize> = {
                let st = sh.state.lock().unwrap_or_else(|e| e.into_inner());
                (0..n).filter(|i| !st.done[*i]).collect()
            };
            if live.is_empty() {
                break;
            }
            let pick = live[sim.schedule(live.len())];
            let budget = *sim.of(&[0u32, 0, 1, 3, 10, 60]);
            rep.switches += 1;
            let mut st = sh.state.lock().unwrap_or_else(|e| e.into_inner());
            st.turn = Turn::Thread(pick);
            st.budget = budget;
            sh.cv.notify_all();
            let mut waited = 0;
            while st.turn != Turn::Scheduler {
                let (g, t) = sh.cv.wait_timeout(st, Duration::from_millis(500)).unwrap_or_else(|e| e.into_inner());
                st = g;
                if t.timed_out() {
                    waited += 1;
                }
                if waited > 40 && st.turn != Turn::Scheduler {
                    // the thread waits for one that is not allowed to run: let all go
                    rep.blocked = true;
                    st.turn = Turn::Free;
                    sh.cv.notify_all();
                    break;
                }
            }
            if st.turn == Turn::Free {
                break;
            }
        }
        for h in hs {
            let r = h.join().map(|s| s.into());
            out.push(match r {
                Ok(Ok(v)) => Ok(v),
                Ok(Err(p)) => Err(p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_else(|| "panic".into())),
                Err(_) => Err("thread died".into()),
            });
        }
    });
    rep.points = sh.state.lock().unwrap_or_else(|e| e.into_inner()).points;
    (out, rep)
}
