//! What is built from a configuration given on the command line and in the
//! environment (C30).
use std::{
    panic::AssertUnwindSafe,
    sync::{
        atomic::{AtomicBool, AtomicU64, Ordering},
        Arc, Mutex, OnceLock,
    },
    time::{Duration, Instant},
};

use clap::Parser;
use futures::{FutureExt, StreamExt};
use paladin::{
    config::{self, Config},
    operation::{marker::Marker, Operation, RemoteExecute, Result},
    queue::Publisher,
    runtime::{Runtime, WorkerRuntime},
    serializer::Serializer,
    task::{AnyTask, Task},
    AbortSignal, RemoteExecute,
};
use serde::{ser::SerializeSeq, Deserialize, Serialize};
use serde_json::{json, Value};

use crate::{broker::Broker, util::Log};

#[derive(Parser)]
struct Cli {
    #[command(flatten)]
    config: Config,
}

const NAMES: [(&str, &str, &str, &str); 5] = [
    ("s", "--serializer", "-s", "PALADIN_SERIALIZER"),
    ("r", "--runtime", "-r", "PALADIN_RUNTIME"),
    ("n", "--num-workers", "-n", "PALADIN_NUM_WORKERS"),
    ("u", "--amqp-uri", "", "PALADIN_AMQP_URI"),
    ("b", "--task-bus-routing-key", "", "PALADIN_TASK_BUS_ROUTING_KEY"),
];

#[derive(Default)]
struct Lab {
    running: AtomicU64,
    open: AtomicBool,
}
fn labs() -> &'static Mutex<Vec<Arc<Lab>>> {
    static LABS: OnceLock<Mutex<Vec<Arc<Lab>>>> = OnceLock::new();
    LABS.get_or_init(Default::default)
}

/// Runs until its lab is opened.
#[derive(Serialize, Deserialize, RemoteExecute)]
struct Hold {
    lab: usize,
}
impl Operation for Hold {
    type Input = String;
    type Output = u64;
    fn execute(&self, _: String, _: AbortSignal) -> Result<u64> {
        let lab = labs().lock().unwrap()[self.lab].clone();
        lab.running.fetch_add(1, Ordering::SeqCst);
        while !lab.open.load(Ordering::SeqCst) {
            std::thread::sleep(Duration::from_micros(50));
        }
        lab.running.fetch_sub(1, Ordering::SeqCst);
        Ok(7)
    }
}

/// A sequence of unknown length: Postcard cannot have it.
#[derive(Deserialize)]
struct Unsized(#[allow(dead_code)] Vec<u8>);
impl Serialize for Unsized {
    fn serialize<S: serde::Serializer>(&self, s: S) -> std::result::Result<S::Ok, S::Error> {
        let mut q = s.serialize_seq(None)?;
        q.serialize_element(&1u8)?;
        q.end()
    }
}

fn say(s: config::Serializer) -> &'static str {
    match s {
        config::Serializer::Postcard => "postcard",
        config::Serializer::Cbor => "cbor",
    }
}

/// script: {cfg: {cli, env: {s, r, n, u, b}, short: "" | "in memory"}, order: [0..5], form: [0..3; 5]}
/// URIs are named: "A" and "B" are brokers, "dead" is nobody's.
pub fn script(s: &Value, log: &Arc<Log>) -> bool {
    let wires = [Log::new(), Log::new()];
    let uses = |x: &str| s["cfg"]["cli"]["u"] == x || s["cfg"]["env"]["u"] == x;
    let brokers: Vec<Option<Broker>> = ["A", "B"]
        .iter()
        .zip(&wires)
        .map(|(x, w)| uses(x).then(|| Broker::start(w.clone(), 1)))
        .collect();
    let real = |k: &str, v: &str| match (k, v) {
        ("u", "A") => brokers[0].as_ref().unwrap().uri("A"),
        ("u", "B") => brokers[1].as_ref().unwrap().uri("B"),
        ("u", "dead") => "amqp://127.0.0.1:1/%2f".to_string(),
        _ => v.to_string(),
    };
    let config = if s["cfg"]["short"] == "in memory" {
        Config {
            runtime: config::Runtime::InMemory,
            ..Default::default()
        }
    } else {
        let mut args = vec!["leader".to_string()];
        for k in s["order"].as_array().unwrap() {
            let k = k.as_u64().unwrap() as usize;
            let (name, long, short, _) = NAMES[k];
            let v = s["cfg"]["cli"][name].as_str().unwrap();
            if v.is_empty() {
                continue;
            }
            let v = real(name, v);
            match s["form"][k].as_u64().unwrap() {
                0 => args.push(format!("{long}={v}")),
                1 if !short.is_empty() => args.push(format!("{short}{v}")),
                2 if !short.is_empty() => args.extend([short.to_string(), v]),
                _ => args.extend([long.to_string(), v]),
            }
        }
        for (name, _, _, var) in NAMES {
            let v = s["cfg"]["env"][name].as_str().unwrap();
            if v.is_empty() {
                std::env::remove_var(var);
            } else {
                std::env::set_var(var, real(name, v));
            }
        }
        let parsed = Cli::try_parse_from(args);
        for (_, _, _, var) in NAMES {
            std::env::remove_var(var);
        }
        match parsed {
            Err(_) => {
                log.push(json!({"e": "refused"}));
                return true;
            }
            Ok(cli) => cli.config,
        }
    };
    let uri = config.amqp_uri.clone().unwrap_or_default();
    let named = ["A", "B", "dead", "nonsense"].into_iter().find(|x| uri == if *x == "A" || *x == "B" { brokers[(*x == "B") as usize].as_ref().map_or(String::new(), |b| b.uri(x)) } else { real("u", x) } && !uri.is_empty());
    log.push(json!({"e": "parsed", "s": say(config.serializer),
        "r": match config.runtime { config::Runtime::Amqp => "amqp", config::Runtime::InMemory => "in-memory" },
        "n": config.num_workers.map_or(String::new(), |n| n.to_string()),
        "u": named.unwrap_or(if uri.is_empty() { "" } else { "another" }),
        "b": config.task_bus_routing_key.clone().unwrap_or_default()}));
    let lab = Arc::new(Lab::default());
    let id = {
        let mut labs = labs().lock().unwrap();
        labs.push(lab.clone());
        labs.len() - 1
    };
    let memory = config.runtime == config::Runtime::InMemory;
    let rt = tokio::runtime::Builder::new_current_thread()
        .enable_all()
        .start_paused(memory)
        .build()
        .unwrap();
    let short = s["cfg"]["short"] == "in memory";
    rt.block_on(run(&config, short, id, &lab, &wires, log));
    lab.open.store(true, Ordering::SeqCst);
    rt.shutdown_background();
    for b in brokers.into_iter().flatten() {
        b.stop();
    }
    true
}

fn outcome<T>(r: std::thread::Result<anyhow::Result<T>>) -> (&'static str, Option<T>) {
    match r {
        Ok(Ok(x)) => ("built", Some(x)),
        Ok(Err(_)) => ("failed", None),
        Err(_) => ("panic", None),
    }
}

async fn run(config: &Config, short: bool, id: usize, lab: &Lab, wires: &[Arc<Log>], log: &Log) {
    let memory = config.runtime == config::Runtime::InMemory;
    let built = if short {
        AssertUnwindSafe(Runtime::in_memory()).catch_unwind().await
    } else {
        AssertUnwindSafe(Runtime::from_config(config, Marker)).catch_unwind().await
    };
    let (how, rt) = outcome(built);
    log.push(json!({"e": "build", "who": "leader", "r": how}));
    let mut worker = None;
    if !memory {
        let (how, w) = outcome(AssertUnwindSafe(WorkerRuntime::from_config(config, Marker)).catch_unwind().await);
        log.push(json!({"e": "build", "who": "worker", "r": how}));
        worker = w;
    }
    let Some(rt) = rt else {
        return;
    };
    if !memory && worker.is_none() {
        return;
    }
    let _worker = worker.map(|w| tokio::spawn(async move { w.main_loop().await }));
    let op = Hold { lab: id };
    let (key, tx, mut rx) = rt.lease_coordinated_task_channel::<Hold, u64>().await.expect("lease");
    let tasks = if memory { 36 } else { 1 };
    for _ in 0..tasks {
        let task = Task {
            routing_key: key.clone(),
            metadata: 5,
            op: &op,
            input: "hold on".to_string(),
        };
        tx.publish(&task).await.expect("publish");
    }
    if memory {
        let metrics = tokio::runtime::Handle::current().metrics();
        let start = Instant::now();
        let mut calm = 0;
        let mut before = 0;
        while calm < 3 && start.elapsed() < Duration::from_secs(15) {
            for _ in 0..48 {
                tokio::task::yield_now().await;
            }
            let running = lab.running.load(Ordering::SeqCst);
            let busy = metrics.num_blocking_threads() - metrics.num_idle_blocking_threads();
            if running == before && busy as u64 == running && metrics.blocking_queue_depth() == 0 {
                calm += 1;
            } else {
                calm = 0;
                std::thread::sleep(Duration::from_micros(20));
            }
            before = running;
        }
        log.push(json!({"e": "running", "n": before}));
    } else {
        // the task on the wire, and who took it from where
        let start = Instant::now();
        while lab.running.load(Ordering::SeqCst) == 0 && start.elapsed() < Duration::from_secs(10) {
            tokio::time::sleep(Duration::from_millis(1)).await;
        }
        for (wire, at) in wires.iter().zip(["A", "B"]) {
            for ev in wire.events() {
                if ev["e"] == "pub" {
                    let body: Vec<u8> = ev["body"].as_array().unwrap().iter().map(|b| b.as_u64().unwrap() as u8).collect();
                    for (f, name) in [(Serializer::Postcard, "postcard"), (Serializer::Cbor, "cbor")] {
                        let task = f.from_bytes::<AnyTask>(&body);
                        if task.map_or(false, |t| t.operation_id == Hold::ID && t.routing_key == key) {
                            log.push(json!({"e": "task", "at": at, "q": ev["q"], "f": name}));
                        }
                    }
                }
                if ev["e"] == "deliver" {
                    log.push(json!({"e": "taken", "at": at, "q": ev["q"]}));
                }
            }
        }
        lab.open.store(true, Ordering::SeqCst);
        let answer = tokio::time::timeout(Duration::from_secs(10), rx.next()).await;
        let ok = match answer {
            Ok(Some((_, acker))) => acker.ack().await.is_ok(),
            _ => false,
        };
        log.push(json!({"e": "answered", "ok": ok}));
    }
    let (key, tx, _rx) = rt.lease_coordinated_task_channel::<Hold, Unsized>().await.expect("lease");
    let task = Task {
        routing_key: key,
        metadata: Unsized(vec![]),
        op: &op,
        input: String::new(),
    };
    let ok = tx.publish(&task).await.is_ok();
    log.push(json!({"e": "parts", "f": if ok { "cbor" } else { "postcard" }}));
    log.push(json!({"e": "over"}));
}
