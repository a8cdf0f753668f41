//! The AMQP transport, on a broker of our own (C24-C26, C28).
use std::{
    collections::HashMap,
    sync::{
        atomic::{AtomicBool, Ordering},
        Arc,
    },
    time::{Duration, Instant},
};

use paladin::{
    config::{self, Config},
    operation::{marker::Marker, RemoteExecute as _},
    queue::Publisher as _,
    runtime::{CommandIpc, Runtime, WorkerRuntime},
    serializer::Serializer,
    task::{AnyTask, AnyTaskResult},
};
use serde_json::{json, Value};

use crate::{
    broker::Broker,
    leader::{key, real_on, Cat, Elem, F, G},
    util::{Log, Rng},
};

pub fn config(uri: String, bus: Option<&str>, cbor: bool) -> Config {
    Config {
        runtime: config::Runtime::Amqp,
        amqp_uri: Some(uri),
        serializer: if cbor {
            config::Serializer::Cbor
        } else {
            config::Serializer::Postcard
        },
        task_bus_routing_key: bus.map(|b| b.to_string()),
        ..Default::default()
    }
}

/// What a message is, by its content.
fn describe(body: &[u8], s: Serializer) -> (&'static str, String, String) {
    if let Ok(task) = s.from_bytes::<AnyTask>(body) {
        let name = match task.operation_id {
            id if id == F::ID => "f",
            id if id == G::ID => "g",
            id if id == Cat::ID => "cat",
            _ => return ("other", String::new(), String::new()),
        };
        let mut ev = json!({"f": name});
        if name == "cat" {
            if let Ok((a, b)) = s.from_bytes::<(Elem, Elem)>(&task.input) {
                ev["a"] = json!(a.0);
                ev["b"] = json!(b.0);
                return ("task", key(&ev), task.routing_key);
            }
        } else if let Ok(v) = s.from_bytes::<Elem>(&task.input) {
            ev["v"] = json!(v.0);
            return ("task", key(&ev), task.routing_key);
        }
    }
    match s.from_bytes::<AnyTaskResult>(body) {
        Ok(_) => ("result", String::new(), String::new()),
        Err(_) => ("other", String::new(), String::new()),
    }
}

fn body(ev: &Value) -> Vec<u8> {
    ev["body"].as_array().unwrap().iter().map(|b| b.as_u64().unwrap() as u8).collect()
}

/// Waits, when dropped, until the broker has come to rest.
struct Rest {
    broker: Broker,
    buses: Vec<String>,
    wire: Arc<Log>,
    workers: Vec<tokio::task::JoinHandle<()>>,
    stop: Arc<AtomicBool>,
}

impl Drop for Rest {
    fn drop(&mut self) {
        self.stop.store(true, Ordering::SeqCst);
        let start = Instant::now();
        while start.elapsed() < Duration::from_secs(5) {
            let open = self.buses.iter().any(|b| self.broker.open(b) != (0, 0));
            // Workers that have gone, or been told to stop, leave tasks behind.
            let quiet = self.broker.idle();
            if (!open && quiet > Duration::from_millis(15)) || quiet > Duration::from_millis(400) {
                break;
            }
            std::thread::sleep(Duration::from_millis(2));
        }
        self.wire.push(json!({"e": "rest"}));
        for w in &self.workers {
            w.abort();
        }
        self.broker.stop();
    }
}

/// Directives of leaders that are connected to workers by a broker only.
/// script: as of leader::real, and {buses: [name | null] (of the leaders),
///   at: [bus] (of the workers, by index of the bus), cuts: [[worker, µs]],
///   aborts: [[directive, µs]]}
pub fn directives(s: &Value, log: &Arc<Log>) -> bool {
    let wire = Log::new();
    let seed = s["seed"].as_u64().unwrap();
    let cbor = s["cbor"].as_bool().unwrap_or(false);
    let broker = Broker::start(wire.clone(), seed);
    let buses: Vec<Option<String>> = s["buses"]
        .as_array()
        .unwrap()
        .iter()
        .map(|b| b.as_str().map(|b| b.to_string()))
        .collect();
    let names: Vec<String> = buses
        .iter()
        .map(|b| b.clone().unwrap_or(paladin::runtime::TASK_IPC_ROUTING_KEY.to_string()))
        .collect();
    let at = crate::util::ints(&s["at"]);
    let setup = async {
        let mut rng = Rng(seed ^ 77);
        let mut workers = vec![];
        let mut leaders = vec![];
        let worker_first = rng.below(2) == 0;
        for phase in 0..2 {
            if (phase == 0) == worker_first {
                for (k, bus) in at.iter().enumerate() {
                    let cfg = config(broker.uri(&format!("w{k}")), buses[*bus as usize].as_deref(), cbor);
                    let w = WorkerRuntime::from_config(&cfg, Marker).await.expect("worker runtime");
                    workers.push(tokio::spawn(async move {
                        _ = w.main_loop().await;
                    }));
                }
            } else {
                for (k, bus) in buses.iter().enumerate() {
                    let cfg = config(broker.uri(&format!("l{k}")), bus.as_deref(), cbor);
                    leaders.push(Arc::new(Runtime::from_config(&cfg, Marker).await.expect("runtime")));
                }
            }
        }
        let stop = Arc::new(AtomicBool::new(false));
        for cut in s["cuts"].as_array().cloned().unwrap_or_default() {
            let (w, us) = (cut[0].as_u64().unwrap(), cut[1].as_u64().unwrap());
            let (broker, stop) = (broker.clone(), stop.clone());
            tokio::spawn(async move {
                tokio::time::sleep(Duration::from_micros(us)).await;
                if !stop.load(Ordering::SeqCst) {
                    broker.cut(&format!("w{w}"));
                }
            });
        }
        for abort in s["aborts"].as_array().cloned().unwrap_or_default() {
            let tag = s["dirs"][abort[0].as_u64().unwrap() as usize]["tag"].as_str().unwrap().to_string();
            let us = abort[1].as_u64().unwrap();
            let (wire, stop) = (wire.clone(), stop.clone());
            let cfg = config(broker.uri("ctl"), None, cbor);
            let serializer = if cbor { Serializer::Cbor } else { Serializer::Postcard };
            let ctl = WorkerRuntime::from_config(&cfg, Marker).await.expect("worker runtime");
            tokio::spawn(async move {
                let start = Instant::now();
                tokio::time::sleep(Duration::from_micros(us)).await;
                // the job of the last task of the directive
                while !stop.load(Ordering::SeqCst) && start.elapsed() < Duration::from_secs(1) {
                    let job = wire.events().iter().rev().filter(|e| e["e"] == "pub").find_map(|e| {
                        let (what, key, job) = describe(&body(e), serializer);
                        (what == "task" && key.contains(&tag)).then_some(job)
                    });
                    if let Some(job) = job {
                        wire.push(json!({"e": "abort", "job": job}));
                        let sender = ctl.get_command_ipc_sender().await.expect("sender");
                        _ = sender.publish(&CommandIpc::Abort { routing_key: job }).await;
                        break;
                    }
                    tokio::time::sleep(Duration::from_micros(500)).await;
                }
                tokio::time::sleep(Duration::from_secs(30)).await;
                drop(ctl);
            });
        }
        let rest = Rest {
            broker: broker.clone(),
            buses: names.clone(),
            wire: wire.clone(),
            workers,
            stop,
        };
        (leaders, rest)
    };
    if !real_on(s, log, Some(wire.clone()), setup) {
        broker.stop();
        return false;
    }
    let serializer = if cbor { Serializer::Cbor } else { Serializer::Postcard };
    for mut ev in wire.events() {
        ev["d"] = json!("wire");
        if ev["e"] == "pub" {
            let (what, key, job) = describe(&body(&ev), serializer);
            ev["what"] = json!(what);
            // a result is known by its content (and its queue)
            ev["key"] = if what == "result" { json!(body(&ev)) } else { json!(key) };
            ev["job"] = json!(job);
            ev.as_object_mut().unwrap().remove("body");
        }
        log.push(ev);
    }
    log.push(json!({"e": "over"}));
    true
}

// ---- queues -----------------------------------------------------------------

use futures::{Stream, StreamExt};
use paladin::{
    acker::Acker,
    queue::{
        amqp::{AMQPConnection, AMQPConnectionOptions},
        Connection, Publisher, QueueHandle, QueueOptions,
    },
};
use serde::{Deserialize, Serialize};
use std::{collections::VecDeque, sync::Mutex};

#[derive(Serialize, Deserialize, Debug)]
struct Payload {
    v: u64,
    pad: Vec<u8>,
}

thread_local! {
    static TOKIO: tokio::runtime::Runtime = tokio::runtime::Builder::new_multi_thread()
        .worker_threads(2)
        .enable_all()
        .build()
        .unwrap();
}

type Ackers = Arc<Mutex<VecDeque<(u64, paladin::queue::amqp::AMQPAcker)>>>;

struct Sub {
    conn: usize,
    ackers: Ackers,
    task: tokio::task::JoinHandle<()>,
}

async fn pull<S>(c: u64, mut stream: S, ackers: Ackers, log: Arc<Log>)
where
    S: Stream<Item = (Payload, paladin::queue::amqp::AMQPAcker)> + Unpin,
{
    while let Some((p, acker)) = stream.next().await {
        let mut a = ackers.lock().unwrap();
        log.push(json!({"e": "taken", "c": c, "v": p.v, "intact": p.pad.iter().all(|x| *x == p.v as u8)}));
        a.push_back((p.v, acker));
    }
    log.push(json!({"e": "ended", "c": c}));
}

/// script: {mode: "one" | "all", conns, qos, cbor, seed, ops: [...]}
/// ops: {o: "sub", c, conn} {o: "pub", conn, v, pad} {o: "ack" | "nack", c} {o: "drop", c}
///      {o: "cut" | "expel", conn} {o: "bad"} {o: "delete", conn} {o: "close", conn}
/// `fast`: do not wait for things to come to rest after each operation.
pub fn queue(s: &Value, log: &Arc<Log>) -> bool {
    TOKIO.with(|rt| rt.block_on(queue_run(s, log)))
}

const NAME: &str = "the-queue";

async fn queue_run(s: &Value, log: &Arc<Log>) -> bool {
    let wire = Log::new();
    let broker = Broker::start(wire.clone(), s["seed"].as_u64().unwrap());
    let serializer = if s["cbor"] == true { Serializer::Cbor } else { Serializer::Postcard };
    let options = if s["mode"] == "all" {
        QueueOptions {
            syndication_mode: paladin::queue::SyndicationMode::Broadcast,
            ..Default::default()
        }
    } else {
        QueueOptions::default()
    };
    let mut conns = vec![];
    let mut handles = vec![];
    for k in 0..s["conns"].as_u64().unwrap() {
        let conn = AMQPConnection::new(AMQPConnectionOptions {
            uri: &broker.uri(&format!("n{k}")),
            qos: s["qos"].as_u64().map(|q| q as u16),
            serializer,
        })
        .await
        .expect("connection");
        handles.push(conn.declare_queue(NAME, options).await.expect("queue"));
        conns.push(conn);
    }
    let mut subs: HashMap<u64, Sub> = HashMap::new();
    let mut cut: Vec<usize> = vec![];
    let mut deleted = false;
    let step = |log: &Arc<Log>| {
        let (broker, log) = (broker.clone(), log.clone());
        async move {
            // At rest: nothing was said to the broker or recorded lately.
            // What has been delivered has been taken, unless that never happens.
            let start = Instant::now();
            let mut n = log.len();
            let mut since = Instant::now();
            while start.elapsed() < Duration::from_secs(3) {
                tokio::time::sleep(Duration::from_micros(500)).await;
                if log.len() != n {
                    n = log.len();
                    since = Instant::now();
                }
                let quiet = Duration::from_millis(6);
                if broker.idle() > quiet && since.elapsed() > quiet {
                    let taken = log.events().iter().filter(|e| e["e"] == "taken").count() as u64;
                    if taken < broker.delivered() && (broker.idle() < 10 * quiet || since.elapsed() < 10 * quiet) {
                        continue;
                    }
                    break;
                }
            }
        }
    };
    for op in s["ops"].as_array().unwrap() {
        let c = op["c"].as_u64().unwrap_or(0);
        let conn = op["conn"].as_u64().unwrap_or(0) as usize;
        let big = |o: &Value| matches!(o.as_str().unwrap(), "cut" | "expel" | "close" | "delete" | "drop");
        if s["fast"] == true && big(&op["o"]) {
            step(log).await;
        }
        match op["o"].as_str().unwrap() {
            "sub" => {
                if cut.contains(&conn) || deleted {
                    continue;
                }
                match handles[conn].declare_consumer::<Payload>(&format!("s{c}")).await {
                    Err(e) => log.push(json!({"e": "subfail", "c": c, "how": format!("{e:?}")})),
                    Ok(stream) => {
                        log.push(json!({"e": "sub", "c": c, "conn": conn}));
                        let ackers: Ackers = Default::default();
                        let task = tokio::spawn(pull(c, stream, ackers.clone(), log.clone()));
                        subs.insert(c, Sub { conn, ackers, task });
                    }
                }
            }
            "pub" => {
                if cut.contains(&conn) || deleted {
                    continue;
                }
                let v = op["v"].as_u64().unwrap();
                log.push(json!({"e": "pubstart", "v": v, "conn": conn}));
                let pad = vec![v as u8; op["pad"].as_u64().unwrap_or(0) as usize];
                let p: Box<dyn Publisher<Payload> + Send + Sync> = Box::new(handles[conn].publisher::<Payload>());
                let there = broker.published();
                match p.publish(&Payload { v, pad }).await {
                    // what other connections do next happens after this
                    Ok(()) => {
                        let start = Instant::now();
                        while broker.published() == there && start.elapsed() < Duration::from_millis(300) {
                            tokio::time::sleep(Duration::from_micros(100)).await;
                        }
                    }
                    Err(e) => log.push(json!({"e": "pubfail", "v": v, "how": format!("{e:?}")})),
                }
            }
            how @ ("ack" | "nack") => {
                let Some(sub) = subs.get(&c) else { continue };
                let next = sub.ackers.lock().unwrap().pop_front();
                let Some((v, acker)) = next else { continue };
                if cut.contains(&sub.conn) {
                    continue;
                }
                log.push(json!({"e": how, "c": c, "v": v}));
                let r = if how == "ack" { acker.ack().await } else { acker.nack().await };
                if let Err(e) = r {
                    log.push(json!({"e": "ackfail", "c": c, "v": v, "how": format!("{e:?}")}));
                }
            }
            "cut" | "expel" => {
                if cut.contains(&conn) {
                    continue;
                }
                log.push(json!({"e": "cut", "conn": conn}));
                cut.push(conn);
                match op["o"].as_str().unwrap() {
                    "cut" => broker.cut(&format!("n{conn}")),
                    _ => broker.expel(&format!("n{conn}")),
                }
            }
            "close" => {
                if cut.contains(&conn) {
                    continue;
                }
                log.push(json!({"e": "cut", "conn": conn}));
                cut.push(conn);
                conns[conn].close().await.expect("close");
            }
            "drop" => {
                if let Some(sub) = subs.get_mut(&c) {
                    if !cut.contains(&sub.conn) && !sub.task.is_finished() {
                        sub.task.abort();
                        _ = (&mut sub.task).await;
                        log.push(json!({"e": "drop", "c": c}));
                    }
                }
            }
            "bad" => {
                if broker.inject(NAME, crate::broker::BAD.to_vec()) {
                    log.push(json!({"e": "bad"}));
                }
            }
            "delete" => {
                if cut.contains(&conn) || deleted {
                    continue;
                }
                log.push(json!({"e": "delete"}));
                deleted = true;
                if let Err(e) = conns[conn].delete_queue(NAME).await {
                    log.push(json!({"e": "deletefail", "how": format!("{e:?}")}));
                }
            }
            _ => unreachable!(),
        }
        if s["fast"] != true || big(&op["o"]) {
            step(log).await;
        }
    }
    step(log).await;
    step(log).await;
    // messages held according to the broker, and settled (by whom does not matter)
    let mut held = 0i64;
    for ev in wire.events() {
        match ev["e"].as_str().unwrap() {
            "deliver" => held += 1,
            "ack" | "nack" | "requeue" | "back" => held -= 1,
            "refused" => log.push(json!({"e": "refused", "how": ev["how"]})),
            _ => {}
        }
    }
    log.push(json!({"e": "rest", "held": held}));
    for sub in subs.values() {
        sub.task.abort();
    }
    for k in 0..conns.len() {
        if !cut.contains(&k) {
            _ = tokio::time::timeout(Duration::from_secs(1), conns[k].close()).await;
        }
    }
    broker.stop();
    true
}
