//! Publishing a stream through a publisher the script controls (C23).
use std::{
    collections::{HashMap, VecDeque},
    future::poll_fn,
    pin::Pin,
    sync::{
        atomic::{AtomicBool, Ordering},
        Arc, Mutex,
    },
    task::{Context, Poll, Wake, Waker},
};

use anyhow::{bail, Result};
use async_trait::async_trait;
use futures::Stream;
use paladin::queue::{Publisher, PublisherExt};
use serde_json::{json, Value};

use crate::util::{Log, Rng};

#[derive(Default)]
struct State {
    items: VecDeque<Option<u64>>,
    ended: bool,
    reader: Option<Waker>,
    outcome: HashMap<u64, bool>,
    wakers: HashMap<u64, Waker>,
    flying: Vec<u64>,
}

#[derive(Clone)]
struct Ctl {
    log: Arc<Log>,
    st: Arc<Mutex<State>>,
}

struct Source(Ctl);
impl Stream for Source {
    type Item = Result<u64>;
    fn poll_next(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Self::Item>> {
        let mut st = self.0.st.lock().unwrap();
        match st.items.pop_front() {
            Some(Some(k)) => {
                self.0.log.push(json!({"e": "in", "k": k}));
                Poll::Ready(Some(Ok(k)))
            }
            Some(None) => {
                self.0.log.push(json!({"e": "inerr", "x": "in"}));
                Poll::Ready(Some(Err(anyhow::anyhow!("in"))))
            }
            None if st.ended => {
                self.0.log.push(json!({"e": "inend"}));
                Poll::Ready(None)
            }
            None => {
                st.reader = Some(cx.waker().clone());
                Poll::Pending
            }
        }
    }
}

#[async_trait]
impl Publisher<u64> for Ctl {
    async fn publish(&self, payload: &u64) -> Result<()> {
        let k = *payload;
        self.log.push(json!({"e": "pub", "k": k}));
        self.st.lock().unwrap().flying.push(k);
        let ok = poll_fn(|cx| {
            let mut st = self.st.lock().unwrap();
            match st.outcome.get(&k).copied() {
                Some(ok) => Poll::Ready(ok),
                None => {
                    st.wakers.insert(k, cx.waker().clone());
                    Poll::Pending
                }
            }
        })
        .await;
        if ok {
            self.log.push(json!({"e": "done", "k": k}));
            return Ok(());
        }
        let x = format!("p{k}");
        self.log.push(json!({"e": "fail", "k": k, "x": x}));
        bail!("{x}")
    }
    async fn close(&self) -> Result<()> {
        Ok(())
    }
}

#[derive(Default)]
struct Flag(AtomicBool);
impl Wake for Flag {
    fn wake(self: Arc<Self>) {
        self.0.store(true, Ordering::SeqCst);
    }
}

pub fn script(s: &Value, log: &Arc<Log>) -> bool {
    let ctl = Ctl {
        log: log.clone(),
        st: Default::default(),
    };
    let limit = s["limit"].as_u64().unwrap() as usize;
    let limit = if limit == 0 { None } else { Some(limit) };
    let kind = s["kind"].as_u64().unwrap_or(0);
    let (source, c) = (Source(ctl.clone()), ctl.clone());
    let mut work: Option<Pin<Box<dyn std::future::Future<Output = Result<()>> + Send>>> =
        Some(match kind {
            0 => Box::pin(async move { c.publish_all(source, limit).await }),
            1 => {
                let b: Box<dyn Publisher<u64> + Send + Sync> = Box::new(c);
                Box::pin(async move { b.publish_all(source, limit).await })
            }
            _ => {
                let p = c.with(|x: &u64| Ok(*x));
                Box::pin(async move { p.publish_all(source, limit).await })
            }
        });
    let flag = Arc::new(Flag(AtomicBool::new(true)));
    let mut settle = || {
        let Some(w) = work.as_mut() else { return };
        let mut polls = 0;
        while flag.0.swap(false, Ordering::SeqCst) {
            polls += 1;
            if polls > 10_000 {
                return log.push(json!({"e": "livelock"}));
            }
            let waker = Waker::from(flag.clone());
            if let Poll::Ready(r) = w.as_mut().poll(&mut Context::from_waker(&waker)) {
                log.push(match r {
                    Ok(()) => json!({"e": "ret"}),
                    Err(x) => json!({"e": "rete", "x": x.to_string()}),
                });
                work = None;
                return;
            }
        }
        log.push(json!({"e": "quiet"}));
    };
    let complete = |k: u64, ok: bool| {
        let mut st = ctl.st.lock().unwrap();
        st.outcome.entry(k).or_insert(ok);
        let w = st.wakers.remove(&k);
        drop(st);
        if let Some(w) = w {
            w.wake()
        }
    };
    let feed = |item: Option<Option<u64>>| {
        let mut st = ctl.st.lock().unwrap();
        match item {
            Some(Some(k)) => {
                log.push(json!({"e": "offer", "k": k}));
                st.items.push_back(Some(k));
            }
            Some(None) => st.items.push_back(None),
            None => {
                log.push(json!({"e": "offerend"}));
                st.ended = true;
            }
        }
        let w = st.reader.take();
        drop(st);
        if let Some(w) = w {
            w.wake()
        }
    };
    let flying = || {
        let st = ctl.st.lock().unwrap();
        let v: Vec<u64> = st
            .flying
            .iter()
            .copied()
            .filter(|k| !st.outcome.contains_key(k))
            .collect();
        v
    };
    settle();
    for op in s["ops"].as_array().unwrap() {
        let k = op["k"].as_u64().unwrap_or(0);
        match op["o"].as_str().unwrap() {
            "offer" => feed(Some(Some(k))),
            "offerend" => feed(None),
            "inerr" => feed(Some(None)),
            // A publish that is not under way completes at once when it is.
            "done" => complete(k, true),
            "fail" => complete(k, false),
            _ => unreachable!(),
        }
        if !op["hold"].as_bool().unwrap_or(false) {
            settle();
        }
    }
    settle();
    feed(None);
    settle();
    let mut rng = Rng(s["seed"].as_u64().unwrap_or(7));
    loop {
        let v = flying();
        if v.is_empty() {
            break;
        }
        complete(v[rng.below(v.len() as u64) as usize], true);
        if rng.below(3) > 0 || flying().is_empty() {
            settle();
        }
    }
    true
}
