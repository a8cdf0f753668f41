//! Workers executing operations the script controls (C14-C17, C19, C22).
use std::{
    collections::HashMap,
    num::NonZeroU32,
    pin::Pin,
    sync::{
        atomic::{AtomicU64, Ordering},
        Arc, Condvar, Mutex, OnceLock,
    },
    task::{Context, Poll},
    time::{Duration, Instant},
};

use futures::Stream;
use paladin::{
    acker::Acker,
    operation::{
        marker::Marker, FatalError, FatalStrategy, Operation, RemoteExecute, Result, RetryStrategy,
        TransientError,
    },
    queue::Publisher,
    runtime::{CommandIpc, Runtime, WorkerRuntime, COMMAND_IPC_ABORT_ALL_KEY},
    task::{Task, TaskResult},
    AbortSignal, RemoteExecute,
};
use serde::{de::Error as _, ser::Error as _, Deserialize, Deserializer, Serialize, Serializer};
use serde_json::{json, Value};
use tokio::task::JoinHandle;

use crate::{
    leader::config,
    util::{Log, Rng},
};

// ---- operations -------------------------------------------------------------

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Plain {
    lab: u64,
    k: u64,
    asked: String,
    bad: bool,
}
/// Refuses to be deserialised if it is bad.
#[derive(Debug, Clone)]
pub struct In(Plain);
impl Serialize for In {
    fn serialize<S: Serializer>(&self, s: S) -> std::result::Result<S::Ok, S::Error> {
        self.0.serialize(s)
    }
}
impl<'de> Deserialize<'de> for In {
    fn deserialize<D: Deserializer<'de>>(d: D) -> std::result::Result<Self, D::Error> {
        let p = Plain::deserialize(d)?;
        if p.bad {
            return Err(D::Error::custom("refuses"));
        }
        Ok(In(p))
    }
}
/// Refuses to be serialised if it is bad.
#[derive(Debug, Clone, Deserialize)]
pub struct Out {
    k: u64,
    bad: bool,
}
impl Serialize for Out {
    fn serialize<S: Serializer>(&self, s: S) -> std::result::Result<S::Ok, S::Error> {
        if self.bad {
            return Err(S::Error::custom("refuses"));
        }
        #[derive(Serialize)]
        struct Plain {
            k: u64,
            bad: bool,
        }
        let (k, bad) = (self.k, self.bad);
        Plain { k, bad }.serialize(s)
    }
}

#[derive(Debug, Clone, Serialize, Deserialize, PartialEq)]
pub struct Meta {
    k: u64,
    text: String,
    extra: Option<Vec<u8>>,
}
fn meta(k: u64) -> Meta {
    Meta {
        k,
        text: format!("task {k}"),
        extra: (k % 2 == 0).then(|| vec![k as u8; 3]),
    }
}

#[derive(Debug, Serialize, Deserialize, RemoteExecute)]
pub struct A;
#[derive(Debug, Serialize, Deserialize, RemoteExecute)]
pub struct B {
    salt: u64,
}
/// An operation that cannot be deserialised.
#[derive(Debug, Serialize, RemoteExecute)]
pub struct BadOp;
impl<'de> Deserialize<'de> for BadOp {
    fn deserialize<D: Deserializer<'de>>(_: D) -> std::result::Result<Self, D::Error> {
        Err(D::Error::custom("refuses"))
    }
}
/// An operation the workers do not know.
#[derive(Debug, Serialize, Deserialize)]
pub struct Unknown;
impl RemoteExecute for Unknown {
    const ID: u8 = 250;
}
macro_rules! gated {
    ($t:ty, $name:literal) => {
        impl Operation for $t {
            type Input = In;
            type Output = Out;
            fn execute(&self, input: In, abort: AbortSignal) -> Result<Out> {
                gate($name, input.0, abort)
            }
        }
    };
}
gated!(A, "A");
gated!(B, "B");
gated!(BadOp, "BadOp");
gated!(Unknown, "Unknown");

struct Running {
    k: u64,
    abort: AbortSignal,
    outcome: Option<String>,
}
#[derive(Default)]
struct Gates {
    running: Vec<Running>,
    attempts: HashMap<u64, u64>,
    open: bool,
}
struct Shared {
    log: Arc<Log>,
    gates: Mutex<Gates>,
    moved: Condvar,
    /// Without gates: the outcomes of the attempts of each task.
    auto: Option<(HashMap<u64, Vec<String>>, u64)>,
}
fn labs() -> &'static Mutex<HashMap<u64, Arc<Shared>>> {
    static LABS: OnceLock<Mutex<HashMap<u64, Arc<Shared>>>> = OnceLock::new();
    LABS.get_or_init(Default::default)
}

fn gate(name: &str, p: Plain, abort: AbortSignal) -> Result<Out> {
    let Some(lab) = labs().lock().unwrap().get(&p.lab).cloned() else {
        return Ok(Out { k: 0, bad: false });
    };
    let k = p.k;
    let mut gates = lab.gates.lock().unwrap();
    let a = gates.attempts.entry(k).or_insert(0);
    *a += 1;
    let a = *a;
    lab.log
        .push(json!({"e": "begin", "k": k, "a": a, "name": name, "asked": p.asked}));
    gates.running.push(Running {
        k,
        abort,
        outcome: None,
    });
    lab.moved.notify_all();
    let planned = lab.auto.as_ref().map(|(plan, seed)| {
        let outs = &plan[&k];
        let out = outs.get(a as usize - 1).unwrap_or(&outs[outs.len() - 1]);
        (out.clone(), Rng(seed ^ (k << 8) ^ a))
    });
    if let Some((out, mut rng)) = planned {
        drop(gates);
        match rng.below(4) {
            0 => {}
            1 => std::thread::yield_now(),
            2 => std::thread::sleep(Duration::from_micros(rng.below(200))),
            _ => std::thread::sleep(Duration::from_micros(rng.below(2000))),
        }
        gates = lab.gates.lock().unwrap();
        gates.running.iter_mut().find(|r| r.k == k).unwrap().outcome = Some(out);
    }
    let out = loop {
        let open = gates.open;
        let me = gates.running.iter_mut().find(|r| r.k == k).unwrap();
        if let Some(out) = me.outcome.take() {
            break out;
        }
        if open {
            break "ok".to_string();
        }
        gates = lab.moved.wait(gates).unwrap();
    };
    gates.running.retain(|r| r.k != k);
    lab.log.push(json!({"e": "end", "k": k, "out": out}));
    lab.moved.notify_all();
    drop(gates);
    let text = format!("boom:{k}:");
    match out.as_str() {
        "ok" => Ok(Out { k, bad: false }),
        "codec" => Ok(Out { k, bad: true }),
        "panic" => panic!("{text}"),
        "ignore" => FatalError::from_str(&text, FatalStrategy::Ignore).into(),
        "transient" => TransientError::from_str(
            &text,
            RetryStrategy::Immediate {
                max_retries: NonZeroU32::new(50).unwrap(),
            },
            FatalStrategy::Terminate,
        )
        .into(),
        _ => FatalError::from_str(&text, FatalStrategy::Terminate).into(),
    }
}

// ---- the lab ----------------------------------------------------------------

type Send<Op> = Box<dyn Publisher<Task<'static, Op, Meta>> + std::marker::Send + Unpin + Sync>;
type Recv = Pin<Box<dyn Stream<Item = (TaskResult<A, Meta>, Box<dyn Acker>)> + std::marker::Send>>;

struct Senders {
    a: Send<A>,
    b: Send<B>,
    bad: Send<BadOp>,
    unknown: Send<Unknown>,
    _keep: Vec<Box<dyn std::any::Any>>,
}

struct Lab {
    id: u64,
    shared: Arc<Shared>,
    log: Arc<Log>,
    rt: Option<Runtime>,
    handles: Vec<JoinHandle<anyhow::Result<()>>>,
    emulated: bool,
    keys: Vec<String>,
    recvs: Vec<Recv>,
    senders: Senders,
    commands: WorkerRuntime,
    count: u64,
    rng: Rng,
}

fn report(log: &Arc<Log>, job: usize, r: TaskResult<A, Meta>) {
    match r {
        Ok(out) => {
            let k = out.metadata.k;
            if out.metadata != meta(k) || out.output.k != k || out.output.bad {
                log.push(json!({"e": "altered", "k": k}));
            }
            log.push(json!({"e": "result", "k": k, "job": job}));
        }
        Err(err) => {
            let text = err.to_string();
            let k = text
                .split("boom:")
                .nth(1)
                .and_then(|x| x.split(':').next())
                .and_then(|x| x.parse::<u64>().ok());
            let class = match k {
                Some(_) => "boom",
                None if text.contains("panicked") => "panic",
                None => "codec",
            };
            log.push(json!({"e": "error", "k": k.unwrap_or(0), "class": class, "job": job}));
        }
    }
}

impl Lab {
    fn drain(&mut self) -> bool {
        let waker = futures::task::noop_waker();
        let mut cx = Context::from_waker(&waker);
        let mut any = false;
        for (job, recv) in self.recvs.iter_mut().enumerate() {
            while let Poll::Ready(r) = recv.as_mut().poll_next(&mut cx) {
                let Some((r, acker)) = r else {
                    self.log.push(json!({"e": "ended", "job": job}));
                    break;
                };
                any = true;
                report(&self.log, job, r);
                crate::util::now(acker.ack()).expect("ack");
            }
        }
        any
    }

    /// Let everything happen that can happen.
    async fn settle(&mut self) {
        let metrics = tokio::runtime::Handle::current().metrics();
        let start = Instant::now();
        let mut calm = 0;
        let mut before = self.log.len();
        while calm < 2 {
            for _ in 0..48 {
                tokio::task::yield_now().await;
            }
            let mut same = !self.drain();
            let now = self.log.len();
            same &= now == before;
            before = now;
            let busy = metrics.num_blocking_threads() - metrics.num_idle_blocking_threads();
            let gates = self.shared.gates.lock().unwrap().running.len();
            same &= busy == gates && metrics.blocking_queue_depth() == 0;
            if same {
                calm += 1;
            } else {
                calm = 0;
                std::thread::sleep(Duration::from_micros(20));
            }
            if start.elapsed() > Duration::from_secs(15) {
                self.log.push(json!({"e": "unsettled"}));
                return;
            }
        }
        let gates = self.shared.gates.lock().unwrap();
        let signalled: Vec<u64> = gates
            .running
            .iter()
            .filter(|r| r.abort.as_ref().map_or(false, |a| a.load(Ordering::SeqCst)))
            .map(|r| r.k)
            .collect();
        self.log.push(json!({"e": "quiet", "signalled": signalled}));
    }

    async fn publish(&mut self, job: usize, bad: &str) {
        self.count += 1;
        let k = self.count;
        let b = self.rng.below(2) == 0;
        self.log
            .push(json!({"e": "pub", "k": k, "job": job, "bad": bad != "none"}));
        let asked = if b { "B" } else { "A" };
        let input = In(Plain {
            lab: self.id,
            k,
            asked: asked.into(),
            bad: bad == "badin",
        });
        macro_rules! send {
            ($s:expr, $op:expr) => {
                $s.publish(&Task {
                    routing_key: self.keys[job].clone(),
                    metadata: meta(k),
                    op: $op,
                    input,
                })
                .await
            };
        }
        match (bad, b) {
            ("badop", _) => send!(self.senders.bad, &BadOp),
            ("badid", _) => send!(self.senders.unknown, &Unknown),
            (_, true) => send!(self.senders.b, &B { salt: 3 }),
            (_, false) => send!(self.senders.a, &A),
        }
        .expect("publish");
    }

    fn release(&mut self, r: usize, out: &str) -> bool {
        let mut gates = self.shared.gates.lock().unwrap();
        if gates.running.is_empty() {
            return false;
        }
        let n = gates.running.len();
        let k = gates.running[r % n].k;
        gates.running[r % n].outcome = Some(out.to_string());
        self.shared.moved.notify_all();
        while gates.running.iter().any(|x| x.k == k && x.outcome.is_some()) {
            gates = self.shared.moved.wait(gates).unwrap();
        }
        true
    }
}

async fn command(worker: &WorkerRuntime, key: &str) {
    let sender = worker.get_command_ipc_sender().await.expect("commands");
    let routing_key = key.to_string();
    sender
        .publish(&CommandIpc::Abort { routing_key })
        .await
        .expect("publish");
    sender.close().await.expect("close");
}

async fn lease<Op: Operation + 'static>(rt: &Runtime) -> (String, Send<Op>, Box<dyn std::any::Any>) {
    let (key, s, r) = rt
        .lease_coordinated_task_channel::<Op, Meta>()
        .await
        .expect("lease");
    (key, s, Box::new(r))
}

/// script: {w, ops, jobs, age, emulated, cbor, seed}; age: seconds the workers have been running
/// ops: {o: "pub", job, bad} {o: "rel", r, out} {o: "abort", job} {o: "abortall"} {o: "tick"} {o: "drop"}; hold: do not settle.
pub fn script(s: &Value, log: &Arc<Log>) -> bool {
    static NEXT: AtomicU64 = AtomicU64::new(1);
    let id = NEXT.fetch_add(1, Ordering::SeqCst);
    let shared = Arc::new(Shared {
        log: log.clone(),
        gates: Default::default(),
        moved: Condvar::new(),
        auto: None,
    });
    labs().lock().unwrap().insert(id, shared.clone());
    let rt = tokio::runtime::Builder::new_current_thread()
        .enable_time()
        .start_paused(true)
        .build()
        .unwrap();
    rt.block_on(run(s, log, id, &shared));
    shared.gates.lock().unwrap().open = true;
    shared.moved.notify_all();
    rt.shutdown_background();
    labs().lock().unwrap().remove(&id);
    true
}

async fn run(s: &Value, log: &Arc<Log>, id: u64, shared: &Arc<Shared>) {
    let w = s["cfg"]["w"].as_u64().unwrap() as usize;
    let emulated = s["emulated"] == true;
    let cfg = config(if emulated { w } else { 0 }, s["cbor"] == true);
    let rt = Runtime::from_config(&cfg, Marker).await.expect("runtime");
    let mut keys = vec![];
    let mut recvs: Vec<Recv> = vec![];
    let mut keep: Vec<Box<dyn std::any::Any>> = vec![];
    for _ in 0..s["jobs"].as_u64().unwrap() + 1 {
        let (key, s, r) = rt
            .lease_coordinated_task_channel::<A, Meta>()
            .await
            .expect("lease");
        keys.push(key);
        recvs.push(Box::pin(r));
        keep.push(Box::new(s));
    }
    let (_, a, r1) = lease::<A>(&rt).await;
    let (_, b, r2) = lease::<B>(&rt).await;
    let (_, bad, r3) = lease::<BadOp>(&rt).await;
    let (_, unknown, r4) = lease::<Unknown>(&rt).await;
    keep.extend([r1, r2, r3, r4]);
    let commands = rt.verif_worker();
    let handles = if emulated {
        vec![]
    } else {
        (0..w)
            .map(|_| {
                let worker = rt.verif_worker();
                tokio::spawn(async move { worker.main_loop().await })
            })
            .collect()
    };
    let mut lab = Lab {
        id,
        shared: shared.clone(),
        log: log.clone(),
        rt: Some(rt),
        handles,
        emulated,
        keys,
        recvs,
        senders: Senders {
            a,
            b,
            bad,
            unknown,
            _keep: keep,
        },
        commands,
        count: 0,
        rng: Rng(s["seed"].as_u64().unwrap()),
    };
    lab.settle().await;
    tokio::time::advance(Duration::from_secs(s["age"].as_u64().unwrap_or(0))).await;
    let mut dropped = false;
    for op in s["ops"].as_array().unwrap() {
        let job = op["job"].as_u64().unwrap_or(0) as usize;
        match op["o"].as_str().unwrap() {
            "pub" => lab.publish(job, op["bad"].as_str().unwrap()).await,
            "rel" => {
                let r = op["r"].as_u64().unwrap() as usize;
                if !lab.release(r, op["out"].as_str().unwrap()) {
                    continue;
                }
            }
            "abort" => {
                log.push(json!({"e": "abort", "job": job}));
                command(&lab.commands, &lab.keys[job]).await;
            }
            "abortall" => {
                log.push(json!({"e": "abortall"}));
                command(&lab.commands, COMMAND_IPC_ABORT_ALL_KEY).await;
            }
            // Time passes; far less than the minute for which aborts are remembered.
            "tick" => tokio::time::advance(Duration::from_secs(12)).await,
            "drop" => {
                if !dropped {
                    log.push(json!({"e": "drop"}));
                    for h in &lab.handles {
                        h.abort();
                    }
                    lab.rt = None;
                }
                dropped = true;
            }
            _ => unreachable!(),
        }
        if op["hold"] != true {
            lab.settle().await;
        }
    }
    lab.settle().await;
    if !dropped {
        // Give every worker an occasion to notice, and the time to stop.
        let spare = lab.keys.len() - 1;
        for _ in 0..w {
            lab.publish(spare, "none").await;
        }
        lab.settle().await;
        tokio::time::advance(Duration::from_secs(11)).await;
        lab.settle().await;
        if !lab.emulated {
            let n = lab.handles.iter().filter(|h| h.is_finished()).count();
            log.push(json!({"e": "stopped", "n": n}));
        }
    }
    while {
        let r = lab.rng.below(1000) as usize;
        lab.release(r, "ok")
    } {
        lab.settle().await;
    }
    if dropped {
        let Lab {
            recvs,
            senders,
            commands,
            ..
        } = lab;
        drop((recvs, senders, commands));
        for _ in 0..200 {
            tokio::task::yield_now().await;
        }
        let n = tokio::runtime::Handle::current().metrics().num_alive_tasks();
        log.push(json!({"e": "alive", "n": n}));
    } else {
        lab.settle().await;
    }
}

/// Real threads: workers, publishers and receivers run freely.
/// script: {cfg: {w}, jobs, tasks: [{job, outs: [...]}], abort: job or -1, cbor, seed}
pub fn threads(s: &Value, log: &Arc<Log>) -> bool {
    static NEXT: AtomicU64 = AtomicU64::new(1 << 32);
    let id = NEXT.fetch_add(1, Ordering::SeqCst);
    let seed = s["seed"].as_u64().unwrap();
    let tasks: Vec<(usize, Vec<String>)> = s["tasks"]
        .as_array()
        .unwrap()
        .iter()
        .map(|t| {
            let outs = t["outs"].as_array().unwrap();
            let outs = outs.iter().map(|o| o.as_str().unwrap().to_string());
            (t["job"].as_u64().unwrap() as usize, outs.collect())
        })
        .collect();
    let plan = (0u64..).zip(&tasks).map(|(k, t)| (k + 1, t.1.clone()));
    let shared = Arc::new(Shared {
        log: log.clone(),
        gates: Default::default(),
        moved: Condvar::new(),
        auto: Some((plan.collect(), seed)),
    });
    labs().lock().unwrap().insert(id, shared.clone());
    let rt = tokio::runtime::Builder::new_multi_thread()
        .worker_threads(3)
        .enable_all()
        .build()
        .unwrap();
    rt.block_on(run_threads(s, log, id, tasks));
    rt.shutdown_background();
    labs().lock().unwrap().remove(&id);
    true
}

async fn run_threads(s: &Value, log: &Arc<Log>, id: u64, tasks: Vec<(usize, Vec<String>)>) {
    let w = s["cfg"]["w"].as_u64().unwrap() as usize;
    let seed = s["seed"].as_u64().unwrap();
    let cfg = config(w, s["cbor"] == true);
    let rt = Runtime::from_config(&cfg, Marker).await.expect("runtime");
    let abort = s["abort"].as_i64().unwrap();
    let fatal = |o: &str| ["boom", "panic", "codec"].contains(&o);
    let expect_error = tasks.iter().any(|t| fatal(t.1.last().unwrap()));
    let mut handles = vec![];
    let mut keys = vec![];
    for job in 0..s["jobs"].as_u64().unwrap() as usize {
        let (key, sender, mut recv) = rt
            .lease_coordinated_task_channel::<A, Meta>()
            .await
            .expect("lease");
        keys.push(key.clone());
        let mine: Vec<u64> = (0..tasks.len())
            .filter(|&k| tasks[k].0 == job)
            .map(|k| k as u64 + 1)
            .collect();
        let publisher = log.clone();
        handles.push(tokio::spawn(async move {
            let mut rng = Rng(seed ^ job as u64);
            for k in mine {
                if rng.below(3) == 0 {
                    tokio::time::sleep(Duration::from_micros(rng.below(800))).await;
                }
                publisher.push(json!({"e": "pub", "k": k, "job": job, "bad": false}));
                let input = In(Plain {
                    lab: id,
                    k,
                    asked: "A".into(),
                    bad: false,
                });
                let task = Task {
                    routing_key: key.clone(),
                    metadata: meta(k),
                    op: &A,
                    input,
                };
                sender.publish(&task).await.expect("publish");
            }
            std::future::pending::<()>().await;
        }));
        let receiver = log.clone();
        handles.push(tokio::spawn(async move {
            use futures::StreamExt;
            while let Some((r, acker)) = recv.next().await {
                report(&receiver, job, r);
                acker.ack().await.expect("ack");
            }
            receiver.push(json!({"e": "ended", "job": job}));
        }));
    }
    if abort >= 0 {
        let worker = rt.verif_worker();
        let key = keys[abort as usize].clone();
        let log = log.clone();
        handles.push(tokio::spawn(async move {
            let us = Rng(seed ^ 99).below(3000);
            tokio::time::sleep(Duration::from_micros(us)).await;
            log.push(json!({"e": "abort", "job": abort}));
            command(&worker, &key).await;
        }));
    }
    // What has to be seen in the end.
    let start = Instant::now();
    loop {
        tokio::time::sleep(Duration::from_micros(300)).await;
        let ev = log.events();
        let done = |k: u64| match tasks[k as usize - 1].1.last().unwrap().as_str() {
            "ok" => ev.iter().any(|e| e["e"] == "result" && e["k"] == k),
            o => ev.iter().any(|e| e["e"] == "end" && e["k"] == k && e["out"] == *o),
        };
        let error = ev.iter().any(|e| e["e"] == "error");
        // a task of the aborted job is owed a result only if it succeeded before
        let said_at = ev.iter().position(|e| e["e"] == "abort").unwrap_or(ev.len());
        let excused = |k: u64| {
            tasks[k as usize - 1].0 as i64 == abort
                && !ev[..said_at].iter().any(|e| e["e"] == "end" && e["k"] == k && e["out"] == "ok")
        };
        let all = (1..=tasks.len() as u64).all(|k| excused(k) || done(k));
        if expect_error && error {
            log.push(json!({"e": "settled"}));
            break;
        }
        if !expect_error && all {
            let said = abort < 0 || ev.iter().any(|e| e["e"] == "abort");
            if said {
                log.push(json!({"e": "settled"}));
                break;
            }
        }
        if start.elapsed() > Duration::from_secs(10) {
            log.push(json!({"e": "stuck"}));
            break;
        }
    }
    // Whatever else is recorded now does not matter.
    labs().lock().unwrap().get(&id).map(|l| l.gates.lock().unwrap().open = true);
    for h in handles {
        h.abort();
    }
}
