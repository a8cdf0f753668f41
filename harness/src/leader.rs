//! Directives on a runtime whose workers the script plays (C09-C13, C20, C27).
use std::{
    collections::{HashMap, VecDeque},
    future::Future,
    pin::Pin,
    sync::{
        atomic::{AtomicBool, Ordering},
        Arc, Mutex, OnceLock,
    },
    task::{Context, Poll, Wake, Waker},
    time::Duration,
};

use futures::{Stream, StreamExt};
use paladin::{
    acker::Acker,
    config::{self, Config},
    directive::{
        indexed_stream::{from_into_iterator, try_from_into_iterator},
        Directive, IndexedStream, Literal,
    },
    operation::{
        marker::Marker, FatalStrategy, Monoid, Operation, OperationError, RemoteExecute as _,
        Result as OpResult,
    },
    queue::Publisher,
    runtime::{ExecutionOk, Runtime, WorkerRuntime},
    task::{AnyTask, AnyTaskOutput, AnyTaskResult},
    AbortSignal, RemoteExecute,
};
use serde::{ser::Error as _, Deserialize, Serialize, Serializer};
use serde_json::{json, Value};

use crate::util::{Log, Rng};

/// A value: the atoms it was made from. Atoms containing '!' refuse to be serialised.
#[derive(Debug, Clone, Deserialize, PartialEq)]
pub struct Elem(pub Vec<String>);

impl Serialize for Elem {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        if self.0.iter().any(|a| a.contains('!')) {
            return Err(S::Error::custom("refuses"));
        }
        self.0.serialize(s)
    }
}

#[derive(Debug, Serialize, Deserialize, RemoteExecute)]
pub struct F;
#[derive(Debug, Serialize, Deserialize, RemoteExecute)]
pub struct G;
#[derive(Debug, Serialize, Deserialize, RemoteExecute)]
pub struct Cat;

fn apply(name: &str, e: Elem) -> Elem {
    Elem(e.0.into_iter().map(|a| format!("{name}({a})")).collect())
}

/// The name of a task.
pub fn key(ev: &Value) -> String {
    let part = |x: &str| {
        let v = ev[x].as_array();
        v.map_or(String::new(), |v| v.iter().map(|a| a.as_str().unwrap()).collect::<Vec<_>>().join(" "))
    };
    format!("{}|{}|{}|{}", ev["f"].as_str().unwrap(), part("v"), part("a"), part("b"))
}

fn work_on(ev: Value, e: Elem, f: impl FnOnce(Elem) -> Elem) -> OpResult<Elem> {
    let Some(job) = Job::of(&e) else {
        return Ok(f(e));
    };
    let j = job.start(ev.clone(), &e);
    if let Some(err) = job.fails(j, &ev, &e) {
        return Err(err);
    }
    let out = f(e);
    job.finish(j, ev, &out);
    Ok(out)
}

impl Operation for F {
    type Input = Elem;
    type Output = Elem;
    fn execute(&self, e: Elem, _: AbortSignal) -> OpResult<Elem> {
        work_on(json!({"f": "f", "v": e.0.clone()}), e, |e| apply("f", e))
    }
}
impl Operation for G {
    type Input = Elem;
    type Output = Elem;
    fn execute(&self, e: Elem, _: AbortSignal) -> OpResult<Elem> {
        work_on(json!({"f": "g", "v": e.0.clone()}), e, |e| apply("g", e))
    }
}
impl Monoid for Cat {
    type Elem = Elem;
    fn empty(&self) -> Elem {
        Elem(vec![])
    }
    fn combine(&self, a: Elem, b: Elem, _: AbortSignal) -> OpResult<Elem> {
        let ev = json!({"f": "cat", "a": a.0.clone(), "b": b.0.clone()});
        work_on(ev, a, |mut a| {
            a.0.extend(b.0);
            a
        })
    }
}

/// Where the operations report to when the workers are real.
pub struct Job {
    log: Arc<Log>,
    /// What happens anywhere, in order (with a broker).
    wire: Option<Arc<Log>>,
    count: Mutex<u64>,
    seed: u64,
    slow: u64,
}

fn jobs() -> &'static Mutex<HashMap<String, Arc<Job>>> {
    static JOBS: OnceLock<Mutex<HashMap<String, Arc<Job>>>> = OnceLock::new();
    JOBS.get_or_init(Default::default)
}

impl Job {
    fn of(e: &Elem) -> Option<Arc<Job>> {
        let atom = e.0.first()?;
        let inner = atom.rsplit('(').next()?;
        let tag = inner.split_once(':')?.0;
        jobs().lock().unwrap().get(tag).cloned()
    }
    fn pause(&self, e: &Elem, salt: u64) {
        let mut h = self.seed ^ salt;
        for b in e.0.iter().flat_map(|a| a.bytes()) {
            h = h.wrapping_mul(31).wrapping_add(b as u64);
        }
        let mut r = Rng(h);
        match r.below(4) {
            0 => {}
            1 => std::thread::yield_now(),
            2 => std::thread::sleep(Duration::from_micros(r.below(300))),
            _ => std::thread::sleep(Duration::from_micros(r.below(2500 * self.slow))),
        }
    }
    fn start(&self, mut ev: Value, e: &Elem) -> u64 {
        if let Some(wire) = &self.wire {
            wire.push(json!({"e": "start", "key": key(&ev)}));
        }
        let mut n = self.count.lock().unwrap();
        *n += 1;
        ev["e"] = json!("task");
        ev["j"] = json!(*n);
        self.log.push(ev);
        let j = *n;
        drop(n);
        self.pause(e, 1);
        j
    }
    fn finish(&self, j: u64, ev: Value, out: &Elem) {
        self.pause(out, 3);
        self.log.push(json!({"e": "res", "j": j, "v": out.0}));
        if let Some(wire) = &self.wire {
            wire.push(json!({"e": "finish", "key": key(&ev), "ok": true}));
        }
        self.pause(out, 2);
    }
    /// Atoms with a '?' make the operation fail.
    fn fails(&self, j: u64, ev: &Value, e: &Elem) -> Option<OperationError> {
        let atom = e.0.iter().find(|a| a.contains('?'))?;
        self.pause(e, 3);
        let number: String = atom.rsplit(':').next().unwrap().chars().filter(|c| c.is_ascii_digit()).collect();
        let x = format!("e{number}");
        self.log.push(json!({"e": "fail", "j": j, "x": x}));
        if let Some(wire) = &self.wire {
            wire.push(json!({"e": "finish", "key": key(ev), "ok": false}));
        }
        Some(OperationError::Fatal {
            err: anyhow::anyhow!("boom:{x}:"),
            strategy: FatalStrategy::Terminate,
        })
    }
}

// ---- the input --------------------------------------------------------------

enum Item {
    Elem(u64),
    Error(String),
}

struct Input {
    items: VecDeque<Item>,
    ended: bool,
    waker: Option<Waker>,
}

struct InStream {
    d: u64,
    tag: String,
    bad: Vec<u64>,
    fails: Vec<u64>,
    /// The indices the inputs go by, if not 0, 1, ...
    at: At,
    log: Arc<Log>,
    input: Arc<Mutex<Input>>,
}

#[derive(Clone)]
struct At(Vec<u64>);
impl At {
    fn index(&self, k: u64) -> usize {
        *self.0.get(k as usize).unwrap_or(&k) as usize
    }
    /// Which input goes by this index (an index nobody has given: 100000).
    fn back(&self, idx: usize) -> u64 {
        match self.0.iter().position(|x| *x as usize == idx) {
            Some(k) => k as u64,
            None if self.0.len() <= idx && idx < 100000 => idx as u64,
            None => 100000,
        }
    }
}

fn leaf(tag: &str, k: u64, bad: &[u64], fails: &[u64]) -> Elem {
    let mark = match () {
        _ if bad.contains(&k) => "!",
        _ if fails.contains(&k) => "?",
        _ => "",
    };
    Elem(vec![format!("{tag}{k}{mark}")])
}

impl Stream for InStream {
    type Item = anyhow::Result<(usize, Elem)>;
    fn poll_next(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Self::Item>> {
        let mut input = self.input.lock().unwrap();
        match input.items.pop_front() {
            Some(Item::Elem(k)) => {
                self.log.push(json!({"e": "in", "d": self.d, "k": k}));
                Poll::Ready(Some(Ok((
                    self.at.index(k),
                    leaf(&self.tag, k, &self.bad, &self.fails),
                ))))
            }
            Some(Item::Error(x)) => {
                self.log.push(json!({"e": "inerr", "d": self.d, "x": x}));
                Poll::Ready(Some(Err(anyhow::anyhow!("boom:{x}:"))))
            }
            None if input.ended => {
                self.log.push(json!({"e": "inend", "d": self.d}));
                Poll::Ready(None)
            }
            None => {
                input.waker = Some(cx.waker().clone());
                Poll::Pending
            }
        }
    }
}

/// The inputs, as an iterator.
struct InIter {
    s: InStream,
    next: u64,
    n: u64,
}
impl InIter {
    fn new(s: InStream, n: usize) -> Self {
        InIter {
            s,
            next: 0,
            n: n as u64,
        }
    }
}
impl Iterator for InIter {
    type Item = Elem;
    fn next(&mut self) -> Option<Elem> {
        let k = self.next;
        if k >= self.n {
            self.s.log.push(json!({"e": "inend", "d": self.s.d}));
            return None;
        }
        self.next += 1;
        self.s
            .log
            .push(json!({"e": "in", "d": self.s.d, "k": k}));
        Some(leaf(&self.s.tag, k, &self.s.bad, &self.s.fails))
    }
}

fn offer(input: &Arc<Mutex<Input>>, f: impl FnOnce(&mut Input)) {
    let waker = {
        let mut i = input.lock().unwrap();
        f(&mut i);
        i.waker.take()
    };
    if let Some(w) = waker {
        w.wake();
    }
}

// ---- directives -------------------------------------------------------------

/// The last event of a directive, logged by the driver.
type Work = Pin<Box<dyn Future<Output = Value> + Send>>;

fn kind(err: &anyhow::Error) -> String {
    let text = format!("{err:#}");
    match text.split("boom:").nth(1).and_then(|s| s.split(':').next()) {
        Some(x) => x.to_string(),
        None if text.contains("injected") => "injected".into(),
        None => "codec".into(),
    }
}

fn value(r: anyhow::Result<Elem>) -> Value {
    match r {
        Ok(Elem(v)) => json!({"e": "ret", "v": v}),
        Err(err) => json!({"e": "rete", "x": kind(&err)}),
    }
}

async fn stream(
    d: u64,
    log: Arc<Log>,
    at: At,
    r: anyhow::Result<IndexedStream<'_, Elem>>,
) -> Value {
    let mut s = match r {
        Ok(s) => s,
        Err(err) => {
            log.push(json!({"e": "oute", "d": d, "x": kind(&err)}));
            return json!({"e": "outend"});
        }
    };
    while let Some(r) = s.next().await {
        match r {
            Ok((k, Elem(v))) => log.push(json!({"e": "out", "d": d, "k": at.back(k), "v": v})),
            Err(err) => log.push(json!({"e": "oute", "d": d, "x": kind(&err)})),
        }
    }
    json!({"e": "outend"})
}

/// Build the directive described by cfg: {fs: [..], end: ..}.
fn work(d: u64, cfg: &Value, log: &Arc<Log>, s: InStream, rt: Arc<Runtime>) -> Work {
    let fs: Vec<String> = cfg["fs"]
        .as_array()
        .unwrap()
        .iter()
        .map(|x| x.as_str().unwrap().to_string())
        .collect();
    let fs: Vec<&str> = fs.iter().map(|x| x.as_str()).collect();
    let end = cfg["end"].as_str().unwrap();
    let log = log.clone();
    if end == "literal" {
        log.push(json!({"e": "in", "d": d, "k": 0}));
        let l = Literal(leaf(&s.tag, 0, &s.bad, &s.fails));
        return match fs.len() {
            1 => Box::pin(async move { value(l.map(&F).run(&rt).await.map(|l| l.0)) }),
            _ => Box::pin(async move { value(l.map(&F).map(&G).run(&rt).await.map(|l| l.0)) }),
        };
    }
    let at = s.at.clone();
    let order = crate::util::ints(&cfg["order"]);
    let input = match cfg["from"].as_str() {
        None => IndexedStream::new(s),
        // The other ways to come by a stream: from what is there already.
        Some("vec") => {
            for k in 0..order.len() {
                log.push(json!({"e": "in", "d": d, "k": k}));
            }
            log.push(json!({"e": "inend", "d": d}));
            let v: Vec<Elem> = (0..order.len() as u64)
                .map(|k| leaf(&s.tag, k, &s.bad, &s.fails))
                .collect();
            IndexedStream::from(v)
        }
        Some("from") => IndexedStream::from(InIter::new(s, order.len())),
        Some("iter") => from_into_iterator(InIter::new(s, order.len())),
        Some("try") => try_from_into_iterator(InIter::new(s, order.len()).map(Ok)),
        other => panic!("no such source {other:?}"),
    };
    match (fs.as_slice(), end) {
        ([], "fold") => Box::pin(async move { value(Directive::fold(input, &Cat).run(&rt).await) }),
        (["f"], "fold") => {
            Box::pin(async move { value(Directive::map(input, &F).fold(&Cat).run(&rt).await) })
        }
        (["f", "g"], "fold") => {
            Box::pin(
                async move { value(Directive::map(input, &F).map(&G).fold(&Cat).run(&rt).await) },
            )
        }
        (["f", "f"], "fold") => {
            Box::pin(
                async move { value(Directive::map(input, &F).map(&F).fold(&Cat).run(&rt).await) },
            )
        }
        (["f"], "stream") => {
            Box::pin(async move { stream(d, log, at, Directive::map(input, &F).run(&rt).await).await })
        }
        (["f", "g"], "stream") => Box::pin(async move {
            stream(d, log, at, Directive::map(input, &F).map(&G).run(&rt).await).await
        }),
        (["f", "g", "f"], "stream") => Box::pin(async move {
            stream(
                d,
                log,
                at,
                Directive::map(input, &F).map(&G).map(&F).run(&rt).await,
            )
            .await
        }),
        (["f"], "sorted") => Box::pin(async move {
            let r = async {
                let v = Directive::map(input, &F)
                    .run(&rt)
                    .await?
                    .into_values_sorted()
                    .await?;
                Ok(Elem(v.into_iter().flat_map(|e| e.0).collect()))
            };
            value(r.await)
        }),
        (["f", "g"], "sorted") => Box::pin(async move {
            let r = async {
                let v = Directive::map(input, &F)
                    .map(&G)
                    .run(&rt)
                    .await?
                    .into_values_sorted()
                    .await?;
                Ok(Elem(v.into_iter().flat_map(|e| e.0).collect()))
            };
            value(r.await)
        }),
        other => panic!("no such directive {other:?}"),
    }
}

#[derive(Default)]
struct Flag(AtomicBool);
impl Wake for Flag {
    fn wake(self: Arc<Self>) {
        self.0.store(true, Ordering::SeqCst);
    }
}

struct Dir {
    d: u64,
    tag: String,
    input: Arc<Mutex<Input>>,
    work: Option<Work>,
    flag: Arc<Flag>,
    cfg: Value,
    failed: bool,
}

struct Taken {
    j: u64,
    d: usize,
    task: AnyTask,
}

struct Lab {
    log: Arc<Log>,
    /// Leaked, as senders borrow it.
    worker: &'static WorkerRuntime,
    dirs: Vec<Dir>,
    tasks: Vec<Taken>,
    jobs: Vec<String>,
    /// job -> directive
    owner: HashMap<String, usize>,
    /// Per job: somebody who has known it from the beginning.
    senders: Vec<Box<dyn Publisher<AnyTaskResult> + Sync + Send>>,
    probed: Vec<bool>,
    rt: Arc<Runtime>,
    count: u64,
    errors: u64,
}

type Tasks<'a> = Box<dyn Stream<Item = (AnyTask, Box<dyn Acker>)> + Send + Unpin + 'a>;

fn atom_tag(atom: &str) -> String {
    let inner = atom.rsplit('(').next().unwrap_or("");
    match inner.split_once(':') {
        Some((tag, _)) => format!("{tag}:"),
        None => String::new(),
    }
}

impl Lab {
    /// Take all tasks that have been published.
    async fn take(&mut self, tasks: &mut Tasks<'_>) {
        let waker = futures::task::noop_waker();
        let mut cx = Context::from_waker(&waker);
        while let Poll::Ready(Some((task, _acker))) = Pin::new(&mut *tasks).poll_next(&mut cx) {
            self.count += 1;
            let j = self.count;
            let job = match self.jobs.iter().position(|x| *x == task.routing_key) {
                Some(p) => p,
                None => {
                    self.jobs.push(task.routing_key.clone());
                    let sender = self.worker.get_result_sender(task.routing_key.clone());
                    self.senders.push(sender.await.expect("sender"));
                    self.probed.push(false);
                    self.jobs.len() - 1
                }
            };
            let name = match task.operation_id {
                id if id == F::ID => "f",
                id if id == G::ID => "g",
                id if id == Cat::ID => "cat",
                _ => "?",
            };
            let mut ev = json!({"e": "task", "j": j, "f": name, "job": job});
            let s = task.serializer;
            let atom;
            if name == "cat" {
                let (a, b): (Elem, Elem) = s.from_bytes(&task.input).expect("input of a task");
                atom = a.0.first().cloned().unwrap_or_default();
                ev["a"] = json!(a.0);
                ev["b"] = json!(b.0);
            } else {
                let v: Elem = s.from_bytes(&task.input).expect("input of a task");
                atom = v.0.first().cloned().unwrap_or_default();
                ev["v"] = json!(v.0);
            }
            let tag = atom_tag(&atom);
            let d = self
                .dirs
                .iter()
                .position(|x| x.tag == tag)
                .unwrap_or(usize::MAX);
            ev["d"] = json!(self.dirs.get(d).map_or(999, |x| x.d));
            self.owner.insert(task.routing_key.clone(), d);
            self.log.push(ev);
            self.tasks.push(Taken { j, d, task });
        }
    }

    /// Let the directives run until they all wait for something.
    async fn settle(&mut self, tasks: &mut Tasks<'_>) {
        for round in 0..100_000u64 {
            let mut any = false;
            for n in 0..self.dirs.len() {
                if !self.dirs[n].flag.0.swap(false, Ordering::SeqCst) {
                    continue;
                }
                any = true;
                let dir = &mut self.dirs[n];
                let Some(work) = dir.work.as_mut() else {
                    continue;
                };
                let waker = Waker::from(dir.flag.clone());
                let r = work.as_mut().poll(&mut Context::from_waker(&waker));
                let d = dir.d;
                self.take(tasks).await;
                if let Poll::Ready(mut ev) = r {
                    ev["d"] = json!(d);
                    self.log.push(ev);
                    self.dirs[n].work = None;
                }
            }
            // other activities of the runtime, if any
            tokio::task::yield_now().await;
            if !any {
                break;
            }
            if round == 99_999 {
                self.log.push(json!({"e": "livelock"}));
            }
        }
        for dir in &self.dirs {
            if dir.work.is_some() {
                self.log.push(json!({"e": "quiet", "d": dir.d}));
            }
        }
    }

    /// Are the result channels of the directives that are over gone?
    async fn probe(&mut self) {
        for _ in 0..6 {
            tokio::task::yield_now().await;
        }
        for job in 0..self.jobs.len() {
            let d = self.owner[&self.jobs[job]];
            let over = self.dirs.get(d).map_or(false, |x| x.work.is_none());
            if !over || std::mem::replace(&mut self.probed[job], true) {
                continue;
            }
            let probe = AnyTaskResult::Err("probe".into());
            self.senders[job].publish(&probe).await.expect("publish");
            let name = self.jobs[job].clone();
            let mut recv = self.rt.verif_results(name).await.expect("receiver");
            let waker = futures::task::noop_waker();
            let mut cx = Context::from_waker(&waker);
            let mut alive = false;
            while let Poll::Ready(Some((r, _))) = Pin::new(&mut recv).poll_next(&mut cx) {
                alive |= matches!(r, AnyTaskResult::Err(x) if x == "probe");
            }
            self.log
                .push(json!({"e": "probe", "job": job, "alive": alive}));
        }
    }

    fn pick(&mut self, d: Option<usize>, r: usize) -> Option<Taken> {
        let mine: Vec<usize> = (0..self.tasks.len())
            .filter(|&k| d.map_or(true, |d| self.tasks[k].d == d))
            .collect();
        if mine.is_empty() {
            return None;
        }
        Some(self.tasks.remove(mine[r % mine.len()]))
    }

    async fn finish(&mut self, x: Taken) {
        let d = self.dirs.get(x.d).map_or(999, |d| d.d);
        let key = x.task.routing_key.clone();
        match x.task.remote_execute(None).await {
            Ok(output) => {
                let v: Elem = output
                    .serializer
                    .from_bytes(&output.output)
                    .expect("output of an operation");
                self.log
                    .push(json!({"e": "res", "d": d, "j": x.j, "v": v.0}));
                self.worker
                    .dispatch_ok(ExecutionOk {
                        routing_key: key,
                        output,
                    })
                    .await
                    .expect("dispatch");
            }
            Err(err) => self
                .log
                .push(json!({"e": "execfail", "d": d, "j": x.j, "x": err.to_string()})),
        }
    }

    async fn fail(&mut self, x: Taken, how: &str) {
        let d = self.dirs.get(x.d).map_or(999, |d| d.d);
        if let Some(dir) = self.dirs.get_mut(x.d) {
            if how != "fail" && std::mem::replace(&mut dir.failed, true) {
                // at most one undecodable result per directive
                return self.tasks.push(x);
            }
        }
        let key = x.task.routing_key.clone();
        let result = match how {
            "fail" => {
                self.errors += 1;
                let id = format!("e{}", self.errors);
                self.log
                    .push(json!({"e": "fail", "d": d, "j": x.j, "x": id}));
                AnyTaskResult::Err(format!("Fatal operation error: boom:{id}:"))
            }
            _ => {
                self.log
                    .push(json!({"e": "fail", "d": d, "j": x.j, "x": "codec"}));
                let good = x.task.clone().remote_execute(None).await.expect("execute");
                let junk = vec![0xffu8; 3];
                AnyTaskResult::Ok(AnyTaskOutput {
                    metadata: if how == "badmeta" {
                        junk.clone().into()
                    } else {
                        good.metadata
                    },
                    output: if how == "badout" {
                        junk.into()
                    } else {
                        good.output
                    },
                    serializer: good.serializer,
                })
            }
        };
        let sender = self.worker.get_result_sender(key).await.expect("sender");
        sender.publish(&result).await.expect("publish");
        sender.close().await.expect("close");
    }
}

pub fn config(workers: usize, cbor: bool) -> Config {
    Config {
        runtime: config::Runtime::InMemory,
        serializer: if cbor {
            config::Serializer::Cbor
        } else {
            config::Serializer::Postcard
        },
        num_workers: Some(workers),
        ..Default::default()
    }
}

thread_local! {
    static TOKIO: tokio::runtime::Runtime = tokio::runtime::Builder::new_current_thread()
        .enable_all()
        .build()
        .unwrap();
}

fn dir_of(cfg: &Value, d: u64, log: &Arc<Log>, rt: &Arc<Runtime>) -> Dir {
    let input = Arc::new(Mutex::new(Input {
        items: VecDeque::new(),
        ended: false,
        waker: None,
    }));
    let tag = cfg["tag"].as_str().unwrap().to_string();
    let s = InStream {
        d,
        tag: tag.clone(),
        bad: crate::util::ints(&cfg["bad"]),
        fails: crate::util::ints(&cfg["fails"]),
        at: At(crate::util::ints(&cfg["at"])),
        log: log.clone(),
        input: input.clone(),
    };
    Dir {
        d,
        tag,
        input,
        work: Some(work(d, cfg, log, s, rt.clone())),
        flag: Arc::new(Flag(AtomicBool::new(true))),
        cfg: cfg.clone(),
        failed: false,
    }
}

/// script: {dirs: [cfg], cbor, seed, ops: [...], drain: bool}
/// ops: {o: "in", d, k} {o: "inend", d} {o: "inerr", d} {o: "res", d, r} {o: "fail" | "badout" | "badmeta", d, r}
///      {o: "drop", d}; with hold: true the directives are not run afterwards.
pub fn script(s: &Value, log: &Arc<Log>) -> bool {
    TOKIO.with(|rt| rt.block_on(run(s, log)))
}

async fn run(s: &Value, log: &Arc<Log>) -> bool {
    let rt = Arc::new(
        Runtime::from_config(&config(0, s["cbor"].as_bool().unwrap_or(false)), Marker)
            .await
            .expect("runtime"),
    );
    let worker0 = rt.verif_worker();
    let worker: &'static WorkerRuntime = Box::leak(Box::new(rt.verif_worker()));

    let mut tasks: Tasks<'_> = Box::new(worker0.get_task_receiver().await.expect("receiver"));
    let dirs = s["dirs"].as_array().unwrap();
    let mut lab = Lab {
        log: log.clone(),
        worker,
        dirs: dirs
            .iter()
            .enumerate()
            .map(|(d, cfg)| dir_of(cfg, d as u64, log, &rt))
            .collect(),
        tasks: vec![],
        jobs: vec![],
        owner: HashMap::new(),
        count: 0,
        errors: 0,
        senders: vec![],
        probed: vec![],
        rt: rt.clone(),
    };
    let probing = s["probe"] == true;
    if !s["nostart"].as_bool().unwrap_or(false) {
        lab.settle(&mut tasks).await;
    }
    for op in s["ops"].as_array().unwrap() {
        let d = op["d"].as_u64().unwrap_or(0) as usize;
        let r = op["r"].as_u64().unwrap_or(0) as usize;
        let o = op["o"].as_str().unwrap();
        match o {
            "in" => {
                let k = op["k"].as_u64().unwrap();
                offer(&lab.dirs[d].input, |i| i.items.push_back(Item::Elem(k)));
            }
            "inend" => offer(&lab.dirs[d].input, |i| i.ended = true),
            "inerr" => offer(&lab.dirs[d].input, |i| {
                i.items.push_back(Item::Error(format!("in{d}")))
            }),
            "res" => {
                if let Some(x) = lab.pick(Some(d), r) {
                    lab.finish(x).await;
                }
            }
            "fail" | "badout" | "badmeta" => {
                if let Some(x) = lab.pick(Some(d), r) {
                    lab.fail(x, o).await;
                }
            }
            "drop" => {
                if lab.dirs[d].work.take().is_some() {
                    log.push(json!({"e": "dropped", "d": d}));
                }
            }
            _ => unreachable!(),
        }
        if !op["hold"].as_bool().unwrap_or(false) {
            lab.settle(&mut tasks).await;
            if probing {
                lab.probe().await;
            }
        }
    }
    // Finish: everything completes, in some order.
    let mut rng = Rng(s["seed"].as_u64().unwrap_or(1));
    lab.settle(&mut tasks).await;
    for n in 0..lab.dirs.len() {
        offer(&lab.dirs[n].input, |i| i.ended = true);
    }
    lab.settle(&mut tasks).await;
    while let Some(x) = {
        let r = rng.below(1000) as usize;
        lab.pick(None, r)
    } {
        lab.finish(x).await;
        if rng.below(4) > 0 {
            lab.settle(&mut tasks).await;
        }
        if lab.tasks.is_empty() {
            lab.settle(&mut tasks).await;
        }
        if lab.count > 2000 {
            log.push(json!({"e": "livelock"}));
            break;
        }
    }
    if probing {
        lab.probe().await;
    }
    log.push(json!({"e": "over"}));
    true
}

/// Directives on a runtime with real workers.
/// script: {dirs: [cfg + {order: [...], gap}], workers, cbor, seed}
pub fn real(s: &Value, log: &Arc<Log>) -> bool {
    let cfg = config(
        s["workers"].as_u64().unwrap() as usize,
        s["cbor"].as_bool().unwrap_or(false),
    );
    real_on(s, log, None, async move {
        let rt = Runtime::from_config(&cfg, Marker).await.expect("runtime");
        (vec![Arc::new(rt)], ())
    })
}

/// The directives of a script on runtimes (the one that `leader` of a
/// directive says), each in a task of its own.
pub fn real_on<G>(
    s: &Value,
    log: &Arc<Log>,
    wire: Option<Arc<Log>>,
    setup: impl Future<Output = (Vec<Arc<Runtime>>, G)>,
) -> bool {
    static STUCK: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
    if STUCK.load(Ordering::SeqCst) >= 3 {
        return false;
    }
    let seed = s["seed"].as_u64().unwrap();
    let limit = s["limit"].as_u64().unwrap_or(15_000);
    let rt = tokio::runtime::Builder::new_multi_thread()
        .worker_threads(3)
        .enable_all()
        .build()
        .unwrap();
    let dirs = s["dirs"].as_array().unwrap().clone();
    let tags: Vec<String> = dirs
        .iter()
        .map(|c| c["tag"].as_str().unwrap().trim_end_matches(':').to_string())
        .collect();
    // Task numbers are per log; directives have one log each, merged afterwards.
    let logs: Vec<Arc<Log>> = tags.iter().map(|_| Log::new()).collect();
    for (k, tag) in tags.iter().enumerate() {
        jobs().lock().unwrap().insert(
            tag.clone(),
            Arc::new(Job {
                log: logs[k].clone(),
                wire: wire.clone(),
                count: Mutex::new(0),
                seed,
                slow: s["slow"].as_u64().unwrap_or(1),
            }),
        );
    }
    let done = rt.block_on(async {
        let (leaders, guard) = setup.await;
        let mut handles = vec![];
        for (k, cfg) in dirs.iter().enumerate() {
            let log = logs[k].clone();
            let leader = cfg["leader"].as_u64().unwrap_or(0) as usize;
            let dir = dir_of(cfg, 0, &log, &leaders[leader]);
            let order = crate::util::ints(&cfg["order"]);
            let input = dir.input.clone();
            let mut rng = Rng(seed ^ (k as u64) << 20);
            handles.push(tokio::spawn(async move {
                let feeder = tokio::spawn(async move {
                    for x in order {
                        match rng.below(4) {
                            0 => tokio::time::sleep(Duration::from_micros(rng.below(1500))).await,
                            1 => tokio::task::yield_now().await,
                            _ => {}
                        }
                        offer(&input, |i| i.items.push_back(Item::Elem(x)));
                    }
                    if rng.below(2) == 0 {
                        tokio::time::sleep(Duration::from_micros(rng.below(8000))).await;
                    }
                    offer(&input, |i| i.ended = true);
                });
                let r = tokio::time::timeout(Duration::from_millis(limit), dir.work.unwrap()).await;
                feeder.abort();
                match r {
                    Ok(ev) => {
                        log.push(ev);
                        true
                    }
                    Err(_) => {
                        log.push(json!({"e": "hang"}));
                        false
                    }
                }
            }));
        }
        let mut ok = true;
        for h in handles {
            ok &= h.await.unwrap_or(false);
        }
        drop(leaders);
        (ok, guard)
    });
    let (done, guard) = done;
    // The guard may wait for things to come to rest.
    let _enter = rt.enter();
    drop(guard);
    drop(_enter);
    rt.shutdown_background();
    if !done && s["faults"] != true {
        STUCK.fetch_add(1, Ordering::SeqCst);
    }
    for (k, l) in logs.iter().enumerate() {
        for mut ev in l.events() {
            ev["d"] = json!(k);
            log.push(ev);
        }
        jobs().lock().unwrap().remove(&tags[k]);
    }
    if wire.is_none() {
        log.push(json!({"e": "over"}));
    }
    true
}
