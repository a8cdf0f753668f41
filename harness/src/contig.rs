//! The contiguous assembler (C08).
use std::{
    collections::VecDeque,
    sync::{
        atomic::{AtomicU64, Ordering},
        Arc, Barrier, Mutex,
    },
};

use paladin::contiguous::{Contiguous, ContiguousQueue};
use serde_json::{json, Value};

use crate::{
    queues::drive,
    util::{guarded, Log, Rng},
};

/// A value whose content is a function of its range and number.
struct Val {
    lo: u64,
    hi: u64,
    id: u64,
    content: Vec<u64>,
}

fn content(lo: u64, hi: u64, id: u64) -> Vec<u64> {
    let mut r = Rng(lo * 1000 + hi * 17 + id * 31);
    (0..3 + (id % 5)).map(|_| r.next()).collect()
}

impl Val {
    fn new(lo: u64, hi: u64, id: u64) -> Self {
        Val {
            lo,
            hi,
            id,
            content: content(lo, hi, id),
        }
    }
    fn json(&self) -> Value {
        if self.content == content(self.lo, self.hi, self.id) {
            json!([self.lo, self.hi, self.id])
        } else {
            json!([self.lo, self.hi, 0])
        }
    }
}

impl Contiguous for Val {
    type Key = u64;
    fn is_contiguous(&self, other: &Self) -> bool {
        self.hi + 1 == other.lo || other.hi + 1 == self.lo
    }
    fn key(&self) -> &u64 {
        &self.lo
    }
}

struct Lab {
    log: Arc<Log>,
    queue: ContiguousQueue<Val>,
    hand: Mutex<VecDeque<Val>>,
    ids: AtomicU64,
    calls: AtomicU64,
}

const NONE: [u64; 3] = [0, 0, 0];

impl Lab {
    fn id(&self) -> u64 {
        self.ids.fetch_add(1, Ordering::SeqCst)
    }
    fn merge(&self, a: Val, b: Val) {
        // of a pair that does not fit together both are kept as they are
        if a.hi + 1 == b.lo {
            let id = self.id();
            self.hand
                .lock()
                .unwrap()
                .push_back(Val::new(a.lo, b.hi, id));
        }
    }
    /// Returns whether something was taken.
    fn call(&self, kind: &str, v: Option<Val>, key: u64) {
        let k = self.calls.fetch_add(1, Ordering::SeqCst);
        let vj = v.as_ref().map_or(json!(NONE), |v| v.json());
        self.log
            .push(json!({"e": "call", "k": k, "kind": kind, "v": vj, "key": key}));
        let ret = |r: Value, lower: bool| {
            self.log
                .push(json!({"e": "return", "k": k, "r": r, "lower": lower}))
        };
        match (kind, v) {
            ("offer", Some(v)) => {
                let me = v.json();
                match self.queue.acquire_contiguous_pair_or_queue(v) {
                    None => ret(json!(NONE), false),
                    Some((a, b)) => {
                        // one of the two is what was offered
                        let lower = b.json() == me;
                        let other = if lower { &a } else { &b };
                        ret(other.json(), lower);
                        if !lower && a.json() != me {
                            self.log.push(json!({"e": "alien", "v": a.json()}));
                        }
                        self.merge(a, b);
                    }
                }
            }
            ("queue", Some(v)) => {
                self.queue.queue(v);
                ret(json!(NONE), false);
            }
            _ => match self.queue.dequeue(&key) {
                None => ret(json!(NONE), false),
                Some(x) => {
                    ret(x.json(), false);
                    self.hand.lock().unwrap().push_back(x);
                }
            },
        }
    }
    fn op(&self, op: &Value) {
        let kind = op["o"].as_str().unwrap();
        if kind == "dequeue" {
            return self.call(kind, None, op["key"].as_u64().unwrap());
        }
        let (lo, hi) = (op["lo"].as_u64().unwrap(), op["hi"].as_u64().unwrap());
        let v = if lo == 0 {
            self.hand.lock().unwrap().pop_front()
        } else {
            Some(Val::new(lo, hi, self.id()))
        };
        if v.is_some() {
            self.call(kind, v, 0);
        }
    }
}

fn lab(script: &Value, log: &Arc<Log>) -> Arc<Lab> {
    let init: Vec<u64> = script["init"]
        .as_array()
        .unwrap()
        .iter()
        .map(|v| v.as_u64().unwrap())
        .collect();
    Arc::new(Lab {
        log: log.clone(),
        queue: ContiguousQueue::from(
            init.iter()
                .map(|a| Val::new(*a, *a, 500 + a))
                .collect::<Vec<_>>(),
        ),
        hand: Default::default(),
        ids: AtomicU64::new(1),
        calls: AtomicU64::new(1),
    })
}

fn drain(lab: &Lab, n: u64) {
    for key in (1..=n).chain(1..=n) {
        lab.call("dequeue", None, key);
    }
    lab.log.push(json!({"e": "over"}));
}

pub fn script(script: &Value, log: &Arc<Log>) -> bool {
    let lab = lab(script, log);
    let lab2 = lab.clone();
    if !drive(script, log, Arc::new(move |op| lab2.op(op))) {
        return false;
    }
    guarded(log, || drain(&lab, script["n"].as_u64().unwrap()));
    true
}

/// Threads that assemble as much as they can.
pub fn stress(script: &Value, log: &Arc<Log>) -> bool {
    let lab = lab(script, log);
    let n = script["n"].as_u64().unwrap();
    let seed = script["seed"].as_u64().unwrap();
    let threads = script["threads"].as_u64().unwrap();
    let start = Arc::new(Barrier::new(threads as usize));
    let handles: Vec<_> = (0..threads)
        .map(|w| {
            let (lab, start, script) = (lab.clone(), start.clone(), script.clone());
            std::thread::spawn(move || {
                let rng = std::cell::RefCell::new(Rng(seed * 64 + w));
                paladin::verif::set_hook(Some(std::rc::Rc::new(move |_| {
                    for _ in 0..rng.borrow_mut().below(400) {
                        std::hint::spin_loop()
                    }
                })));
                let mine: Vec<u64> = script["parts"][w as usize]
                    .as_array()
                    .unwrap()
                    .iter()
                    .map(|v| v.as_u64().unwrap())
                    .collect();
                start.wait();
                guarded(&lab.log.clone(), || {
                    for a in mine {
                        lab.call("offer", Some(Val::new(a, a, lab.id())), 0);
                        let again = lab.hand.lock().unwrap().pop_front();
                        if let Some(v) = again {
                            lab.call(if a % 5 == 0 { "queue" } else { "offer" }, Some(v), 0);
                        } else if a % 4 == 0 {
                            lab.call("dequeue", None, a + 1);
                        }
                    }
                });
                paladin::verif::set_hook(None);
            })
        })
        .collect();
    for h in handles {
        let _ = h.join();
    }
    guarded(log, || drain(&lab, n));
    true
}
