//! Directives over many elements, on real workers: only the outcome is recorded (C09, C10, C12, C27).
use std::{
    collections::HashMap,
    sync::{
        atomic::{AtomicU64, Ordering::SeqCst},
        Arc, Mutex, OnceLock,
    },
    time::Duration,
};

use futures::{stream, StreamExt};
use paladin::{
    directive::{Directive, IndexedStream},
    operation::{marker::Marker, FatalError, FatalStrategy, Monoid, Operation, Result as OpResult},
    runtime::{Runtime, WorkerRuntime},
    AbortSignal, RemoteExecute,
};
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};

use crate::util::{Log, Rng};

/// The elements from lo to hi, combined in order (or not: ok).
#[derive(Debug, Clone, Serialize, Deserialize, PartialEq)]
pub struct Span {
    job: u64,
    lo: u64,
    hi: u64,
    ok: bool,
    mapped: bool,
    empty: bool,
}

#[derive(Default)]
struct Counts {
    calls: AtomicU64,
    maps: AtomicU64,
    /// The element the operation fails for.
    fail: Option<u64>,
}

fn counts() -> &'static Mutex<HashMap<u64, Arc<Counts>>> {
    static C: OnceLock<Mutex<HashMap<u64, Arc<Counts>>>> = OnceLock::new();
    C.get_or_init(Default::default)
}
fn of(job: u64) -> Arc<Counts> {
    counts().lock().unwrap().get(&job).cloned().unwrap_or_default()
}
fn fails(c: &Counts, s: &Span) -> OpResult<()> {
    match c.fail {
        Some(k) if s.lo <= k && k <= s.hi => Err(FatalError::from_str("no", FatalStrategy::Terminate).into()),
        _ => Ok(()),
    }
}

#[derive(Debug, Serialize, Deserialize, RemoteExecute)]
pub struct Mark;
impl Operation for Mark {
    type Input = Span;
    type Output = Span;
    fn execute(&self, mut s: Span, _: AbortSignal) -> OpResult<Span> {
        let c = of(s.job);
        c.maps.fetch_add(1, SeqCst);
        fails(&c, &s)?;
        s.ok &= !s.mapped;
        s.mapped = true;
        Ok(s)
    }
}

#[derive(Debug, Serialize, Deserialize, RemoteExecute)]
pub struct Join(bool);
impl Monoid for Join {
    type Elem = Span;
    fn empty(&self) -> Span {
        Span {
            job: 0,
            lo: 0,
            hi: 0,
            ok: true,
            mapped: self.0,
            empty: true,
        }
    }
    fn combine(&self, a: Span, b: Span, _: AbortSignal) -> OpResult<Span> {
        let c = of(a.job);
        c.calls.fetch_add(1, SeqCst);
        if !self.0 {
            fails(&c, &b)?;
        }
        Ok(Span {
            ok: a.ok && b.ok && a.hi + 1 == b.lo && a.mapped == self.0 && b.mapped == self.0 && !a.empty && !b.empty,
            hi: b.hi,
            ..a
        })
    }
}

/// script: {kind: "fold" | "mapfold" | "map" | "sorted", n, fail, at, workers, cbor, seed, shuffled,
///   broker}
pub fn script(s: &Value, log: &Arc<Log>) -> bool {
    let rt = tokio::runtime::Builder::new_multi_thread()
        .worker_threads(3)
        .enable_all()
        .build()
        .unwrap();
    static JOB: AtomicU64 = AtomicU64::new(1);
    let job = JOB.fetch_add(1, SeqCst);
    let (n, kind) = (s["n"].as_u64().unwrap(), s["kind"].as_str().unwrap());
    let c = Arc::new(Counts {
        fail: (s["fail"] == true).then(|| s["at"].as_u64().unwrap()),
        ..Default::default()
    });
    counts().lock().unwrap().insert(job, c.clone());
    let mut order: Vec<u64> = (0..n).collect();
    if s["shuffled"] == true {
        let mut rng = Rng(s["seed"].as_u64().unwrap());
        for k in (1..order.len()).rev() {
            order.swap(k, rng.below(k as u64 + 1) as usize);
        }
    }
    let leaf = move |k: u64| Span {
        job,
        lo: k,
        hi: k,
        ok: true,
        mapped: false,
        empty: false,
    };
    let broker = (s["broker"] == true).then(|| crate::broker::Broker::start(Log::new(), s["seed"].as_u64().unwrap()));
    let out = rt.block_on(async {
        let workers = s["workers"].as_u64().unwrap() as usize;
        let cbor = s["cbor"] == true;
        let rt = match &broker {
            None => Runtime::from_config(&crate::leader::config(workers, cbor), Marker).await.expect("runtime"),
            Some(broker) => {
                for k in 0..workers {
                    let cfg = crate::amqp::config(broker.uri(&format!("w{k}")), None, cbor);
                    let w = WorkerRuntime::from_config(&cfg, Marker).await.expect("worker runtime");
                    tokio::spawn(async move {
                        _ = w.main_loop().await;
                    });
                }
                let cfg = crate::amqp::config(broker.uri("l"), None, cbor);
                Runtime::from_config(&cfg, Marker).await.expect("runtime")
            }
        };
        let input = IndexedStream::new(stream::iter(order.into_iter().map(move |k| Ok((k as usize, leaf(k))))));
        let bad = |s: &Span, mapped: bool| s.job != job || !s.ok || s.mapped != mapped || s.empty;
        let work = async {
            // (value, outs, wrong)
            anyhow::Ok(match kind {
                "fold" | "mapfold" => {
                    let mapped = kind == "mapfold";
                    let v = if mapped {
                        Directive::map(input, &Mark).fold(&Join(true)).run(&rt).await?
                    } else {
                        Directive::fold(input, &Join(false)).run(&rt).await?
                    };
                    match v.empty {
                        true => (json!([]), 0, 0),
                        false => (json!([v.lo, v.hi]), 0, bad(&v, mapped) as u64),
                    }
                }
                "map" => {
                    let mut out = Directive::map(input, &Mark).run(&rt).await?;
                    let (mut seen, mut wrong) = (std::collections::HashSet::new(), 0);
                    while let Some(r) = out.next().await {
                        let (k, v) = r?;
                        wrong += (bad(&v, true) || v.lo != k as u64 || v.hi != k as u64 || !seen.insert(k)) as u64;
                    }
                    (json!([]), seen.len(), wrong)
                }
                _ => {
                    let v = Directive::map(input, &Mark).run(&rt).await?.into_values_sorted().await?;
                    let v: Vec<Span> = v.into_iter().collect();
                    let wrong = v.iter().enumerate().filter(|(k, v)| bad(v, true) || v.lo != *k as u64).count();
                    (json!([]), v.len(), wrong as u64)
                }
            })
        };
        tokio::time::timeout(Duration::from_secs(60), work).await
    });
    match out {
        Ok(Ok((value, outs, wrong))) => log.push(json!({"e": "outcome", "value": value, "outs": outs, "wrong": wrong,
                "calls": c.calls.load(SeqCst), "maps": c.maps.load(SeqCst)})),
        Ok(Err(err)) => log.push(json!({"e": "error", "x": format!("{err:#}")})),
        Err(_) => log.push(json!({"e": "hang"})),
    }
    counts().lock().unwrap().remove(&job);
    if let Some(broker) = broker {
        broker.stop();
    }
    rt.shutdown_background();
    true
}
