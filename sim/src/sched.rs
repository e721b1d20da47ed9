//! Programs on parked threads, released one at a time. Which one moves next is
//! decided by the simulator: at every sink call and user callback, and at
//! chosen points inside crevice itself.

use crate::edges;
use std::sync::atomic::Ordering::SeqCst;
use std::sync::{Condvar, Mutex};
use std::time::{Duration, Instant};

/// Where a program is parked.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Place {
    /// Not begun.
    Start,
    /// Inside a sink call or a user callback: crevice has handed over control.
    Seam,
    /// Inside crevice. It may hold something it is entitled to hold for a
    /// moment.
    Inside,
    /// Inside crevice, and has been going round there for very long.
    Spinning,
    /// On its way, or waiting for something that is not the scheduler.
    Away,
    Finished,
}

#[derive(PartialEq, Debug)]
pub enum Moved {
    Yielded,
    /// It sleeps in something that another program holds.
    Blocked,
    /// Neither parked nor asleep for very long.
    Stuck,
}

struct St {
    running: Option<usize>,
    place: Vec<Place>,
    /// Steps that did not end because of something another program holds.
    blocked: Vec<bool>,
    awake: bool,
    tid: Vec<String>,
    /// Points at which woken programs are still waited for.
    patience: u32,
}

pub struct Baton {
    st: Mutex<St>,
    main: Condvar,
    threads: Vec<Condvar>,
    /// Programs have their calls carried out elsewhere: their own threads
    /// sleep meanwhile.
    elsewhere: bool,
}

impl Baton {
    pub fn new(n: usize, elsewhere: bool) -> Self {
        Baton {
            st: Mutex::new(St {
                running: None,
                place: vec![Place::Start; n],
                blocked: vec![false; n],
                awake: false,
                tid: vec![String::new(); n],
                patience: 50_000,
            }),
            main: Condvar::new(),
            threads: (0..n).map(|_| Condvar::new()).collect(),
            elsewhere,
        }
    }

    fn park(&self, id: usize, place: Place) {
        let mut st = self.st.lock().unwrap();
        st.place[id] = place;
        if st.running == Some(id) {
            st.running = None;
        }
        if st.blocked[id] {
            st.blocked[id] = false;
            if !st.blocked.contains(&true) {
                edges::ATTENTION.store(false, SeqCst);
            }
        }
        self.main.notify_one();
        if place == Place::Finished {
            return;
        }
        while st.running != Some(id) {
            st = self.threads[id].wait(st).unwrap();
        }
        st.place[id] = Place::Away;
        st.awake = true;
    }

    pub fn start(&self, id: usize) {
        let tid = std::fs::read_link("/proc/thread-self")
            .map(|p| p.to_string_lossy().into_owned())
            .unwrap_or_else(|_| "?".to_string());
        let mut st = self.st.lock().unwrap();
        st.tid[id] = tid;
        self.main.notify_one();
        while st.running != Some(id) {
            st = self.threads[id].wait(st).unwrap();
        }
        st.place[id] = Place::Away;
        st.awake = true;
    }

    /// Waits until every program is parked at its start. Before that a step
    /// could end with the program's arrival instead of its first move.
    pub fn assembled(&self) {
        let mut st = self.st.lock().unwrap();
        while st.tid.iter().any(|t| t.is_empty()) {
            st = self.main.wait(st).unwrap();
        }
    }

    pub fn yield_at(&self, id: usize, place: Place) {
        self.park(id, place);
    }

    pub fn finish(&self, id: usize) {
        self.park(id, Place::Finished);
    }

    /// Was this program left behind in a step that did not end?
    pub fn left_behind(&self, id: usize) -> bool {
        self.st.lock().unwrap().blocked[id]
    }

    /// Another program waits for something the caller may just have let go of.
    /// If so it is given the time to take it and stop at its next point, so
    /// that the two do not race.
    pub fn let_wake(&self, id: usize) {
        {
            let mut st = self.st.lock().unwrap();
            if st.running != Some(id) || st.patience == 0 {
                return;
            }
            st.patience -= 1;
        }
        for other in 0..self.threads.len() {
            // A program that has been woken is not asleep from then on.
            let mut calm = 1;
            for round in 0.. {
                let st = self.st.lock().unwrap();
                if !st.blocked[other] {
                    break;
                }
                let tid = st.tid[other].clone();
                drop(st);
                if asleep(&tid) {
                    calm -= 1;
                    if calm == 0 {
                        break;
                    }
                } else if round < 100_000 {
                    calm = 20;
                } else {
                    break;
                }
                std::thread::yield_now();
            }
        }
    }

    pub fn places(&self) -> Vec<Place> {
        self.st.lock().unwrap().place.clone()
    }

    /// Waits until every left-behind program is parked or soundly asleep.
    pub fn settle(&self) {
        for id in 0..self.threads.len() {
            let mut calm = 0;
            loop {
                let st = self.st.lock().unwrap();
                if !st.blocked[id] {
                    break;
                }
                let tid = st.tid[id].clone();
                drop(st);
                calm = if asleep(&tid) { calm + 1 } else { 0 };
                if calm >= 20 {
                    break;
                }
                std::thread::sleep(Duration::from_millis(1));
            }
        }
    }

    /// Lets one program move to its next scheduling point.
    pub fn step(&self, id: usize, limit: Duration) -> Moved {
        let mut st = self.st.lock().unwrap();
        st.running = Some(id);
        st.awake = false;
        self.threads[id].notify_one();
        let start = Instant::now();
        let mut calm = 0;
        while st.running.is_some() {
            if start.elapsed() > limit {
                return Moved::Stuck;
            }
            let (s, t) = self.main.wait_timeout(st, Duration::from_millis(2)).unwrap();
            st = s;
            if !t.timed_out() || st.running.is_none() {
                continue;
            }
            calm = if !self.elsewhere && st.awake && asleep(&st.tid[id]) { calm + 1 } else { 0 };
            if calm >= 25 {
                st.running = None;
                st.blocked[id] = true;
                edges::ATTENTION.store(true, SeqCst);
                return Moved::Blocked;
            }
        }
        Moved::Yielded
    }
}

/// Is this thread of ours asleep (neither running nor ready to)?
fn asleep(task: &str) -> bool {
    // "PID/task/TID"
    match std::fs::read_to_string(format!("/proc/{task}/stat")) {
        Ok(s) => s
            .rfind(')')
            .and_then(|i| s[i + 1..].split_whitespace().next().map(|c| c == "S"))
            .unwrap_or(false),
        Err(_) => false,
    }
}
