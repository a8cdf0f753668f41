//! The in-memory queues (C01, C02, C03).
use std::{
    collections::HashMap,
    pin::Pin,
    sync::{Arc, Barrier, Mutex},
    task::{Context, Poll},
};

use futures::Stream;
use paladin::{
    queue::{
        in_memory::{InMemoryConnection, InMemoryConsumer},
        Connection, DeliveryMode, Publisher, QueueHandle, QueueOptions, SyndicationMode,
    },
    serializer::Serializer,
};
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};

use crate::{
    sched::{Ran, Scheduler},
    util::{guarded, now, Log, Rng},
};

#[derive(Serialize, Deserialize, Clone, PartialEq, Debug)]
pub struct Msg {
    pub id: u64,
    pub text: String,
    pub bytes: Vec<u8>,
    pub opt: Option<i64>,
}

impl Msg {
    /// The message with this number; its content is a function of the number.
    pub fn new(id: u64) -> Self {
        let mut r = Rng(id.wrapping_mul(77));
        let len = match id % 7 {
            0 => 0,
            1 => 1,
            2 => 300,
            3 if id == 10 => 70_000,
            _ => r.below(40),
        };
        Msg {
            id,
            text: (0..r.below(12))
                .map(|_| char::from_u32(0x30 + r.below(0x500) as u32).unwrap_or('x'))
                .collect(),
            bytes: (0..len).map(|_| r.next() as u8).collect(),
            opt: if id % 2 == 0 {
                None
            } else {
                Some(r.next() as i64)
            },
        }
    }
    /// The number of the message, or 0 if it is not what was sent.
    pub fn number(&self) -> u64 {
        if *self == Msg::new(self.id) {
            self.id
        } else {
            0
        }
    }
}

pub fn serializer(cfg: &Value) -> Serializer {
    match cfg["ser"].as_str() {
        Some("cbor") => Serializer::Cbor,
        _ => Serializer::Postcard,
    }
}

pub fn options(cfg: &Value) -> QueueOptions {
    QueueOptions {
        syndication_mode: match cfg["synd"].as_str() {
            Some("bcast") => SyndicationMode::Broadcast,
            _ => SyndicationMode::ExactlyOnce,
        },
        delivery_mode: match cfg["deliv"].as_str() {
            Some("ephemeral") => DeliveryMode::Ephemeral,
            _ => DeliveryMode::Persistent,
        },
        ..Default::default()
    }
}

type Consumer = InMemoryConsumer<Msg>;

struct Lab {
    log: Arc<Log>,
    conns: Vec<InMemoryConnection>,
    opts: QueueOptions,
    consumers: Mutex<HashMap<u64, Consumer>>,
}

impl Lab {
    fn new(cfg: &Value, log: &Arc<Log>) -> Arc<Self> {
        let conn = InMemoryConnection::new(serializer(cfg));
        let other = conn.clone();
        Arc::new(Lab {
            log: log.clone(),
            conns: vec![conn, other.clone(), other],
            opts: options(cfg),
            consumers: Default::default(),
        })
    }
    fn queue(&self, k: u64) -> <InMemoryConnection as Connection>::QueueHandle {
        now(self.conns[k as usize % self.conns.len()].declare_queue("q", self.opts)).unwrap()
    }
    fn subscribe(&self, c: u64, n: &str) {
        self.log.flush_wakes();
        self.log.push(json!({"e": "substart", "c": c, "n": n}));
        let consumer = now(self.queue(c).declare_consumer::<Msg>(n));
        match consumer {
            Ok(consumer) => {
                self.consumers.lock().unwrap().insert(c, consumer);
                self.log.push_w(json!({"e": "subend", "c": c, "n": n}));
            }
            Err(_) => self.log.push(json!({"e": "subfail", "c": c, "n": n})),
        }
    }
    fn publish(&self, p: u64, m: u64) {
        self.log.flush_wakes();
        self.log.push(json!({"e": "pubstart", "p": p, "m": m}));
        let msg = Msg::new(m);
        let handle = self.queue(p);
        let r = if m % 2 == 0 {
            now(handle.publish(&msg))
        } else {
            now(handle.publisher().publish(&msg))
        };
        self.log
            .push_w(json!({"e": "pubend", "p": p, "m": m, "ok": r.is_ok()}));
    }
    /// The consumer is taken out while it is polled.
    fn take_out(&self, c: u64) -> Option<Consumer> {
        self.consumers.lock().unwrap().remove(&c)
    }
    fn poll(&self, c: u64) {
        let Some(mut consumer) = self.take_out(c) else {
            return;
        };
        self.log.flush_wakes();
        let waker = self.log.waker(c);
        let r = Pin::new(&mut consumer).poll_next(&mut Context::from_waker(&waker));
        self.consumers.lock().unwrap().insert(c, consumer);
        self.log.push_w(match r {
            Poll::Ready(Some((m, _acker))) => json!({"e": "take", "c": c, "m": m.number()}),
            Poll::Ready(None) => json!({"e": "end", "c": c}),
            Poll::Pending => json!({"e": "nothing", "c": c}),
        });
    }
    fn drop_consumer(&self, c: u64) {
        let Some(consumer) = self.take_out(c) else {
            return;
        };
        self.log.flush_wakes();
        drop(consumer);
        self.log.push_w(json!({"e": "drop", "c": c}));
    }
    fn op(&self, op: &Value) {
        match op["o"].as_str().unwrap() {
            "sub" => self.subscribe(op["c"].as_u64().unwrap(), op["n"].as_str().unwrap_or("n")),
            "pub" => self.publish(op["p"].as_u64().unwrap_or(1), op["m"].as_u64().unwrap()),
            "poll" => {
                let c = op["c"].as_u64().unwrap();
                if !op["stop"].is_null() && self.consumers.lock().unwrap().contains_key(&c) {
                    self.log.flush_wakes();
                    self.log.push(json!({"e": "look", "c": c}));
                }
                self.poll(c)
            }
            "drop" => self.drop_consumer(op["c"].as_u64().unwrap()),
            o => panic!("unknown operation {o}"),
        }
    }
}

pub fn stops(op: &Value) -> Vec<String> {
    op["stop"]
        .as_array()
        .map(|a| a.iter().map(|s| s.as_str().unwrap().to_string()).collect())
        .unwrap_or_default()
}

/// Run the operations of a script one step after another.
pub fn drive(script: &Value, log: &Arc<Log>, op_fn: Arc<dyn Fn(&Value) + Send + Sync>) -> bool {
    let mut sched = Scheduler::default();
    let ops = script["ops"].as_array().unwrap();
    for op in ops {
        let stop = stops(op);
        let ran = if op["o"] == "step" {
            let t = op["t"].as_u64().unwrap();
            sched.step(t, &stop)
        } else if stop.is_empty() && !sched.any_paused() {
            guarded(log, || op_fn(op));
            Ran::Done
        } else {
            let (log2, op2, f) = (log.clone(), op.clone(), op_fn.clone());
            sched.start(
                op["t"].as_u64().unwrap_or(9999),
                op["o"].as_str().unwrap(),
                &stop,
                Box::new(move || guarded(&log2, || f(&op2))),
            )
        };
        if let Ran::Blocked = ran {
            return false;
        }
        if log.events().last().map_or(false, |e| e["e"] == "panic") {
            return true;
        }
    }
    for t in sched.paused() {
        if let Ran::Blocked = sched.step(t, &[]) {
            return false;
        }
    }
    log.flush_wakes();
    true
}

pub fn script(script: &Value, log: &Arc<Log>) -> bool {
    let lab = Lab::new(&script["cfg"], log);
    let lab2 = lab.clone();
    if !drive(script, log, Arc::new(move |op| lab2.op(op))) {
        return false;
    }
    if let Some(fin) = script["final"].as_array() {
        guarded(log, || {
            for op in fin {
                lab.op(op);
            }
            lab.drain();
        });
    }
    true
}

/// Threads running lists of operations at the same time; each operation is
/// logged when it starts and when it has returned. Afterwards everything
/// left is taken out by fresh polls.
pub fn stress(script: &Value, log: &Arc<Log>) -> bool {
    let lab = Lab::new(&script["cfg"], log);
    for op in script["pre"].as_array().unwrap() {
        lab.op(op);
    }
    let threads: Vec<Vec<Value>> = script["threads"]
        .as_array()
        .unwrap()
        .iter()
        .map(|t| t.as_array().unwrap().clone())
        .collect();
    let barrier = Arc::new(Barrier::new(threads.len()));
    let seed = script["seed"].as_u64().unwrap_or(0);
    let handles: Vec<_> = threads
        .into_iter()
        .enumerate()
        .map(|(k, ops)| {
            let (lab, barrier) = (lab.clone(), barrier.clone());
            std::thread::spawn(move || {
                let rng = std::cell::RefCell::new(Rng(seed * 1000 + k as u64));
                let delay = move || {
                    let n = rng.borrow_mut().below(4);
                    match n {
                        0 => {}
                        1 => std::thread::yield_now(),
                        _ => {
                            for _ in 0..n * 300 {
                                std::hint::spin_loop()
                            }
                        }
                    }
                };
                paladin::verif::set_hook(Some(std::rc::Rc::new(move |_| delay())));
                barrier.wait();
                for op in ops {
                    let lab2 = lab.clone();
                    guarded(&lab.log, || lab2.stress_op(&op));
                }
                paladin::verif::set_hook(None);
            })
        })
        .collect();
    for h in handles {
        let _ = h.join();
    }
    lab.log.push(json!({"e": "quiet"}));
    for op in script["post"].as_array().unwrap() {
        guarded(log, || lab.stress_op(op));
    }
    log.push(json!({"e": "drained"}));
    true
}

impl Lab {
    /// Poll every consumer until none of them finds anything.
    fn drain(&self) {
        let mut ids: Vec<u64> = self.consumers.lock().unwrap().keys().copied().collect();
        ids.sort();
        loop {
            let before = self.log.len();
            let mut found = false;
            for c in &ids {
                loop {
                    let n = self.log.len();
                    self.poll(*c);
                    let ev = self.log.events();
                    if self.log.len() == n || ev.last().map_or(true, |e| e["e"] != "take") {
                        break;
                    }
                    found = true;
                }
            }
            if !found || self.log.len() > before + 2000 {
                break;
            }
        }
        self.log.push(json!({"e": "drained"}));
    }
    fn stress_op(&self, op: &Value) {
        match op["o"].as_str().unwrap() {
            "poll" => {
                let c = op["c"].as_u64().unwrap();
                let Some(mut consumer) = self.take_out(c) else {
                    return;
                };
                self.log.push(json!({"e": "pollinv", "c": c}));
                let waker = crate::util::noop_waker();
                let r = Pin::new(&mut consumer).poll_next(&mut Context::from_waker(&waker));
                self.log.push(match r {
                    Poll::Ready(Some((m, _))) => json!({"e": "pollres", "c": c, "m": m.number()}),
                    Poll::Ready(None) => json!({"e": "end", "c": c}),
                    Poll::Pending => json!({"e": "pollnone", "c": c}),
                });
                self.consumers.lock().unwrap().insert(c, consumer);
            }
            _ => self.op(op),
        }
    }
}
