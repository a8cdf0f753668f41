//! Retried attempts with scripted outcomes (C18).
use std::{
    collections::HashMap,
    num::NonZeroU32,
    sync::{
        atomic::{AtomicU64, Ordering},
        Arc, Mutex, OnceLock,
    },
    time::Duration,
};

use paladin::{
    operation::{
        FatalError, FatalStrategy, Operation, OperationError, Result, RetryStrategy, TransientError,
    },
    serializer::Serializer,
    task::Task,
    AbortSignal, RemoteExecute,
};
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};

use crate::util::Log;

struct Run {
    log: Arc<Log>,
    start: tokio::time::Instant,
    outs: Vec<Value>,
    rest: Value,
    next: Mutex<usize>,
    seed: u64,
}

fn none() -> Value {
    json!({"k": "none", "n": 0, "d": 0, "max": 0})
}

fn policy(v: &Value) -> RetryStrategy {
    let us = |k: &str| Duration::from_micros(v[k].as_u64().unwrap());
    let max_retries = NonZeroU32::new(v["n"].as_u64().unwrap() as u32);
    match v["k"].as_str().unwrap() {
        "immediate" => RetryStrategy::Immediate {
            max_retries: max_retries.unwrap(),
        },
        "after" => RetryStrategy::After {
            max_retries: max_retries.unwrap(),
            duration: us("d"),
        },
        _ => RetryStrategy::Exponential {
            min_duration: us("d"),
            max_duration: us("max"),
        },
    }
}

fn fatal_strategy(v: &Value) -> FatalStrategy {
    match v["fs"].as_str().unwrap() {
        "ignore" => FatalStrategy::Ignore,
        _ => FatalStrategy::Terminate,
    }
}

fn strategy_name(s: FatalStrategy) -> &'static str {
    match s {
        FatalStrategy::Terminate => "terminate",
        FatalStrategy::Ignore => "ignore",
    }
}

/// An error made in one of the ways the library offers.
fn error(o: &Value, x: &str, how: u64) -> OperationError {
    let fs = fatal_strategy(o);
    let io = || std::io::Error::new(std::io::ErrorKind::Other, x.to_string());
    if o["k"] == "f" {
        return match how % 5 {
            0 => FatalError::new(io(), fs).into(),
            1 => FatalError::from_anyhow(anyhow::anyhow!("{x}"), fs).into(),
            2 => FatalError::from_str(x, fs).into(),
            3 if o["fs"] == "terminate" => FatalError::from(io()).into(),
            _ => OperationError::Fatal {
                err: anyhow::anyhow!("{x}"),
                strategy: fs,
            },
        };
    }
    let p = policy(&o["pol"]);
    let default = o["pol"]["k"] == "immediate" && o["pol"]["n"] == 3 && o["fs"] == "terminate";
    match how % 5 {
        0 => TransientError::new(io(), p, fs).into(),
        1 => TransientError::from_anyhow(anyhow::anyhow!("{x}"), p, fs).into(),
        2 => TransientError::from_str(x, p, fs).into(),
        3 if default => TransientError::from(io()).into(),
        _ => OperationError::Transient {
            err: anyhow::anyhow!("{x}"),
            retry_strategy: p,
            fatal_strategy: fs,
        },
    }
}

impl Run {
    fn t(&self) -> u64 {
        self.start.elapsed().as_micros() as u64
    }
    /// One attempt: its outcome, and the text of its error.
    fn attempt(&self) -> (Value, String) {
        let t = self.t();
        self.log.push(json!({"e": "attempt", "t": t}));
        let mut next = self.next.lock().unwrap();
        let k = *next;
        *next += 1;
        if k > 1000 {
            self.log.push(json!({"e": "endless"}));
            return (json!({"k": "ok"}), String::new());
        }
        let o = self.outs.get(k).unwrap_or(&self.rest).clone();
        let x = match o["k"].as_str().unwrap() {
            "ok" => {
                self.log.push(json!({"e": "ok"}));
                return (o, String::new());
            }
            "panic" => "panic".to_string(),
            "badout" => "codec".to_string(),
            _ => format!("x{k}"),
        };
        let kind = if o["k"] == "t" { "t" } else { "f" };
        let pol = o.get("pol").cloned().unwrap_or_else(none);
        let fs = o["fs"].as_str().unwrap_or("none");
        let t = self.t();
        self.log.push(
            json!({"e": "fail", "t": t, "f": {"x": x, "k": kind, "pol": pol, "fs": fs}}),
        );
        (o, x)
    }
    fn how(&self) -> u64 {
        self.seed.wrapping_add(*self.next.lock().unwrap() as u64)
    }
}

fn runs() -> &'static Mutex<HashMap<u64, Arc<Run>>> {
    static RUNS: OnceLock<Mutex<HashMap<u64, Arc<Run>>>> = OnceLock::new();
    RUNS.get_or_init(Default::default)
}

#[derive(Debug)]
pub struct Out(u64);
impl Serialize for Out {
    fn serialize<S: serde::Serializer>(&self, s: S) -> std::result::Result<S::Ok, S::Error> {
        if self.0 == 0 {
            return Err(serde::ser::Error::custom("codec"));
        }
        self.0.serialize(s)
    }
}
impl<'de> Deserialize<'de> for Out {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> std::result::Result<Self, D::Error> {
        u64::deserialize(d).map(Out)
    }
}

#[derive(Serialize, Deserialize, RemoteExecute)]
pub struct Scripted {
    run: u64,
}

impl Operation for Scripted {
    type Input = String;
    type Output = Out;
    fn execute(&self, input: String, _: AbortSignal) -> Result<Out> {
        let run = runs().lock().unwrap()[&self.run].clone();
        if input != "input" {
            run.log.push(json!({"e": "altered"}));
        }
        let (o, x) = run.attempt();
        match o["k"].as_str().unwrap() {
            "ok" => Ok(Out(7)),
            "badout" => Ok(Out(0)),
            "panic" => panic!("scripted"),
            _ => Err(error(&o, &x, run.how())),
        }
    }
}

fn text(err: &anyhow::Error, codec: bool) -> String {
    let s = err.to_string();
    if s.contains("panicked") {
        "panic".into()
    } else if codec && !s.starts_with('x') {
        "codec".into()
    } else {
        s
    }
}

pub fn script(script: &Value, log: &Arc<Log>) -> bool {
    static NEXT: AtomicU64 = AtomicU64::new(1);
    let id = NEXT.fetch_add(1, Ordering::SeqCst);
    let paused = !script.to_string().contains("\"exp\"");
    let rt = tokio::runtime::Builder::new_current_thread()
        .enable_time()
        .start_paused(paused)
        .build()
        .unwrap();
    let seed = script["seed"].as_u64().unwrap();
    let run = rt.block_on(async {
        Arc::new(Run {
            log: log.clone(),
            start: tokio::time::Instant::now(),
            outs: script["outs"].as_array().unwrap().clone(),
            rest: script["rest"].clone(),
            next: Mutex::new(0),
            seed,
        })
    });
    runs().lock().unwrap().insert(id, run.clone());
    let traced = script["cfg"]["traced"] == true;
    let done = |r: std::result::Result<(), (String, &str, &str)>| match r {
        Ok(()) => log.push(json!({"e": "ret"})),
        Err((x, k, fs)) => {
            let t = run.t();
            log.push(json!({"e": "rete", "x": x, "k": k, "fs": fs, "t": t}))
        }
    };
    let op_error = |e: OperationError| {
        let k = match &e {
            OperationError::Fatal { .. } => "f",
            _ => "t",
        };
        let fs = strategy_name(e.fatal_strategy());
        (text(e.as_err(), script["mode"] == "op"), k, fs)
    };
    let start = &script["start"];
    rt.block_on(async {
        match script["mode"].as_str().unwrap() {
            "strategy" => {
                let f = || {
                    let run = run.clone();
                    async move {
                        tokio::task::yield_now().await;
                        let (o, x) = run.attempt();
                        if o["k"] == "ok" {
                            Ok(())
                        } else {
                            Err(x)
                        }
                    }
                };
                let p = policy(&start["pol"]);
                let r = if traced {
                    p.retry_trace(f, |x: String| log.push(json!({"e": "trace", "x": x})))
                        .await
                } else {
                    p.retry(f).await
                };
                done(r.map_err(|x| (x, "t", "none")));
            }
            "error" => {
                let f = || {
                    let run = run.clone();
                    async move {
                        let (o, x) = run.attempt();
                        tokio::task::yield_now().await;
                        if o["k"] == "ok" {
                            Ok(())
                        } else {
                            Err(error(&o, &x, run.how()))
                        }
                    }
                };
                let e = error(start, "xs", seed);
                let r = if traced {
                    e.retry_trace(f, |e: OperationError| {
                        log.push(json!({"e": "trace", "x": e.as_err().to_string()}))
                    })
                    .await
                } else {
                    e.retry(f).await
                };
                done(r.map_err(op_error));
            }
            _ => {
                let serializer = if seed % 2 == 0 {
                    Serializer::Postcard
                } else {
                    Serializer::Cbor
                };
                let op = Scripted { run: id };
                let task = Task {
                    routing_key: "r".into(),
                    metadata: 5u64,
                    op: &op,
                    input: "input".to_string(),
                };
                let mut task = task.as_any_task(serializer).unwrap();
                match script["payload"].as_str().unwrap() {
                    "badop" => task.op = Default::default(),
                    "badinput" => task.input = Default::default(),
                    "badid" => task.operation_id = 255,
                    _ => {}
                }
                let metadata = task.metadata.clone();
                match task.remote_execute(AbortSignal::default()).await {
                    Ok(out) => {
                        let value = out.serializer.from_bytes::<Out>(&out.output);
                        if out.metadata != metadata
                            || format!("{:?}", out.serializer) != format!("{serializer:?}")
                            || value.map_or(true, |o| o.0 != 7)
                        {
                            log.push(json!({"e": "altered"}));
                        }
                        done(Ok(()))
                    }
                    Err(e) if script["payload"] != "good" => {
                        let (_, k, fs) = op_error(e);
                        log.push(json!({"e": "undecodable", "k": k, "fs": fs}));
                    }
                    Err(e) => done(Err(op_error(e))),
                }
            }
        }
    });
    runs().lock().unwrap().remove(&id);
    true
}
