//! Names of queues and channels (C04).
use std::{
    collections::HashMap,
    pin::Pin,
    sync::{Arc, Mutex},
    task::{Context, Poll},
};

use futures::Stream;
use paladin::{
    channel::{
        queue::{QueueChannel, QueueChannelFactory},
        Channel, ChannelFactory, ChannelType, LeaseGuard,
    },
    queue::{
        in_memory::{InMemoryConnection, InMemoryConsumer, InMemoryPublisher, InMemoryQueueHandle},
        Connection, DeliveryMode, Publisher, QueueHandle, QueueOptions, SyndicationMode,
    },
    serializer::Serializer,
};
use serde_json::{json, Value};

use crate::{
    queues::Msg,
    util::{guarded, noop_waker, now, Log},
};

enum Handle {
    Queue(InMemoryQueueHandle),
    Sender(InMemoryPublisher<Msg>),
}

struct Lab {
    log: Arc<Log>,
    rt: tokio::runtime::Runtime,
    conns: Vec<InMemoryConnection>,
    factories: Vec<QueueChannelFactory<InMemoryConnection>>,
    handles: HashMap<u64, Handle>,
    consumers: HashMap<u64, InMemoryConsumer<Msg>>,
    channels: HashMap<u64, QueueChannel<InMemoryConnection>>,
    /// Names as small numbers; those issued by the factory are found by their text.
    issued: HashMap<String, u64>,
}

fn options(kind: &str) -> QueueOptions {
    QueueOptions {
        syndication_mode: if kind == "once" {
            SyndicationMode::ExactlyOnce
        } else {
            SyndicationMode::Broadcast
        },
        delivery_mode: if kind == "ephemeral" {
            DeliveryMode::Ephemeral
        } else {
            DeliveryMode::Persistent
        },
        ..Default::default()
    }
}

fn channel_type(kind: &str) -> ChannelType {
    if kind == "once" {
        ChannelType::ExactlyOnce
    } else {
        ChannelType::Broadcast
    }
}

impl Lab {
    fn op(&mut self, op: &Value) {
        let n = |k: &str| op[k].as_u64().unwrap_or(0);
        let x = n("x") as usize;
        let kind = op["k"].as_str().unwrap_or("");
        let name = format!("name-{}", n("n"));
        match op["o"].as_str().unwrap() {
            "declare" => {
                let h = now(self.conns[x].declare_queue(&name, options(kind))).unwrap();
                self.handles.insert(n("h"), Handle::Queue(h));
                self.log
                    .push(json!({"e": "declare", "h": n("h"), "n": n("n"), "k": kind}));
            }
            "delete" => {
                now(self.conns[x].delete_queue(&name)).unwrap();
                self.log.push(json!({"e": "delete", "n": n("n")}));
            }
            "get" => {
                let c = now(self.factories[x].get(name, channel_type(kind))).unwrap();
                self.channels.insert(n("ch"), c);
                self.log
                    .push(json!({"e": "get", "ch": n("ch"), "n": n("n"), "k": kind}));
            }
            "issue" => {
                let (id, c) = now(self.factories[x].issue(channel_type(kind))).unwrap();
                let fresh = 1000 + self.issued.len() as u64;
                let id = *self.issued.entry(id).or_insert(fresh);
                self.channels.insert(n("ch"), c);
                self.log
                    .push(json!({"e": "issue", "ch": n("ch"), "n": id, "k": kind}));
            }
            "sender" => {
                let s = now(self.channels[&n("ch")].sender::<Msg>()).unwrap();
                self.handles.insert(n("h"), Handle::Sender(s));
                self.log
                    .push(json!({"e": "sender", "h": n("h"), "ch": n("ch")}));
            }
            "receiver" => {
                let r = now(self.channels[&n("ch")].receiver::<Msg>()).unwrap();
                self.consumers.insert(n("c"), r);
                self.log.push(json!({"e": "receiver", "c": n("c"), "ch": n("ch"), "s": format!("c{}", n("c"))}));
            }
            "release" => {
                let ch = self.channels[&n("ch")].clone();
                let _guard = self.rt.enter();
                match op["way"].as_str().unwrap() {
                    "release" => ch.release(),
                    "lease" => drop(LeaseGuard::new(ch, ())),
                    // a lease of a pipe that has been used, dropped half way
                    _ => {
                        let mut lease = LeaseGuard::new(ch, futures::stream::pending::<()>());
                        let waker = noop_waker();
                        let _ = Pin::new(&mut lease).poll_next(&mut Context::from_waker(&waker));
                        drop(lease);
                    }
                }
                // the deletion is a task of its own
                self.rt.block_on(async {
                    for _ in 0..20 {
                        tokio::task::yield_now().await;
                    }
                });
                self.log.push(json!({"e": "release", "ch": n("ch")}));
            }
            "pub" => {
                let m = Msg::new(n("m"));
                let r = match &self.handles[&n("h")] {
                    Handle::Queue(q) => now(q.publish(&m)),
                    Handle::Sender(s) => now(s.publish(&m)),
                };
                self.log
                    .push(json!({"e": "pub", "h": n("h"), "m": n("m"), "ok": r.is_ok()}));
            }
            "sub" => {
                // senders of channels do not give consumers
                if let Some(Handle::Queue(q)) = self.handles.get(&n("h")) {
                    let s = op["s"].as_str().unwrap();
                    let c = now(q.declare_consumer::<Msg>(s)).unwrap();
                    self.consumers.insert(n("c"), c);
                    self.log
                        .push(json!({"e": "sub", "c": n("c"), "h": n("h"), "s": s}));
                }
            }
            "poll" => self.poll(n("c")),
            "drop" => {
                if self.consumers.remove(&n("c")).is_some() {
                    self.log.push(json!({"e": "drop", "c": n("c")}));
                }
            }
            o => panic!("unknown operation {o}"),
        }
    }
    fn poll(&mut self, c: u64) {
        let Some(consumer) = self.consumers.get_mut(&c) else {
            return;
        };
        let waker = noop_waker();
        let r = Pin::new(consumer).poll_next(&mut Context::from_waker(&waker));
        self.log.push(match r {
            Poll::Ready(Some((m, _))) => json!({"e": "take", "c": c, "m": m.number()}),
            Poll::Ready(None) => json!({"e": "end", "c": c}),
            Poll::Pending => json!({"e": "nothing", "c": c}),
        });
    }
    fn finish(&mut self) {
        // every name that was used, looked at through every clone and a new handle
        for h in self
            .handles
            .keys()
            .copied()
            .collect::<std::collections::BTreeSet<_>>()
        {
            self.op(&json!({"o": "sub", "c": 500 + h, "h": h, "s": "s"}));
        }
        for ch in self
            .channels
            .keys()
            .copied()
            .collect::<std::collections::BTreeSet<_>>()
        {
            self.op(&json!({"o": "receiver", "c": 600 + ch, "ch": ch}));
        }
        let ids: std::collections::BTreeSet<u64> = self.consumers.keys().copied().collect();
        for _ in 0..40 {
            let before = self.log.events();
            for c in &ids {
                self.poll(*c);
            }
            if self.log.events()[before.len()..]
                .iter()
                .all(|e| e["e"] == "nothing")
            {
                break;
            }
        }
        self.log.push(json!({"e": "drained"}));
    }
}

pub fn script(script: &Value, log: &Arc<Log>) -> bool {
    let ser = match script["cfg"]["ser"].as_str() {
        Some("cbor") => Serializer::Cbor,
        _ => Serializer::Postcard,
    };
    let conn = InMemoryConnection::new(ser);
    let conns = vec![conn.clone(), conn.clone(), conn.clone().clone()];
    let factories: Vec<_> = conns
        .iter()
        .map(|c| QueueChannelFactory::new(c.clone()).clone())
        .collect();
    let lab = Mutex::new(Lab {
        log: log.clone(),
        rt: tokio::runtime::Builder::new_current_thread()
            .build()
            .unwrap(),
        conns,
        factories,
        handles: Default::default(),
        consumers: Default::default(),
        channels: Default::default(),
        issued: Default::default(),
    });
    guarded(log, || {
        let mut lab = lab.lock().unwrap();
        for op in script["ops"].as_array().unwrap() {
            lab.op(op);
        }
        lab.finish();
    });
    true
}

/// Several threads declare the same new name at the same time and publish.
pub fn race(script: &Value, log: &Arc<Log>) -> bool {
    let conn = InMemoryConnection::new(Serializer::Postcard);
    let n = script["n"].as_u64().unwrap();
    let kind = script["k"].as_str().unwrap().to_string();
    let barrier = Arc::new(std::sync::Barrier::new(n as usize));
    let handles: Vec<_> = (1..=n)
        .map(|k| {
            let (conn, barrier, kind) = (conn.clone(), barrier.clone(), kind.clone());
            std::thread::spawn(move || {
                barrier.wait();
                let q = now(conn.declare_queue("name-1", options(&kind))).unwrap();
                let r = now(q.publish(&Msg::new(k)));
                (k, r.is_ok())
            })
        })
        .collect();
    let results: Vec<_> = handles.into_iter().filter_map(|h| h.join().ok()).collect();
    let q = now(conn.declare_queue("name-1", options(&kind))).unwrap();
    let mut c = now(q.declare_consumer::<Msg>("s")).unwrap();
    let mut got = vec![];
    let waker = noop_waker();
    while let Poll::Ready(Some((m, _))) =
        Pin::new(&mut c).poll_next(&mut Context::from_waker(&waker))
    {
        got.push(m.number());
    }
    // the order of concurrent publishes is what the consumer sees
    for k in 1..=n {
        log.push(json!({"e": "declare", "h": k, "n": 1, "k": kind}));
    }
    let mut order: Vec<u64> = got.clone();
    for (k, _) in &results {
        if !order.contains(k) {
            order.push(*k);
        }
    }
    for m in order {
        if let Some((k, ok)) = results.iter().find(|(k, _)| *k == m) {
            log.push(json!({"e": "pub", "h": k, "m": m, "ok": ok}));
        }
    }
    log.push(json!({"e": "declare", "h": n + 1, "n": 1, "k": kind}));
    log.push(json!({"e": "sub", "c": 1, "h": n + 1, "s": "s"}));
    for m in got {
        log.push(json!({"e": "take", "c": 1, "m": m}));
    }
    log.push(json!({"e": "nothing", "c": 1}));
    log.push(json!({"e": "drained"}));
    true
}
