//! Coordinated channels and composed acknowledgers (C05, C06, C07).
use std::{
    collections::{HashMap, VecDeque},
    future::Future,
    pin::Pin,
    sync::{Arc, Barrier, Mutex},
    task::{Context, Poll, Wake, Waker},
    time::{Duration, Instant},
};

use anyhow::{bail, Result};
use async_trait::async_trait;
use futures::Stream;
use paladin::{
    acker::{Acker, ComposedAcker},
    channel::coordinated_channel::{
        coordinated_channel,
        coordinated_publisher::{CoordinatedPublisher, CoordinatedPublisherError},
        coordinated_stream::{CoordinatedAcker, CoordinatedStream},
    },
    queue::Publisher,
};
use serde_json::{json, Value};

use crate::{
    queues::drive,
    util::{guarded, noop_waker, now, Log, Rng},
};

/// The underlying channel: an unbounded queue.
#[derive(Default)]
struct Pipe {
    items: VecDeque<u64>,
    waker: Option<Waker>,
    over: bool,
}

struct In {
    log: Arc<Log>,
    pipe: Arc<Mutex<Pipe>>,
}

#[async_trait]
impl Publisher<(u64, bool)> for In {
    async fn publish(&self, payload: &(u64, bool)) -> Result<()> {
        let (m, ok) = *payload;
        let mut pipe = self.pipe.lock().unwrap();
        let ok = ok && !pipe.over;
        self.log.push_w(json!({"e": "tx", "m": m, "ok": ok}));
        if !ok {
            bail!("injected failure");
        }
        pipe.items.push_back(m);
        let waker = pipe.waker.take();
        drop(pipe);
        if let Some(w) = waker {
            w.wake();
        }
        Ok(())
    }
    async fn close(&self) -> Result<()> {
        Ok(())
    }
}

struct Out(Arc<Mutex<Pipe>>);

impl Stream for Out {
    type Item = u64;
    fn poll_next(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<u64>> {
        let mut pipe = self.0.lock().unwrap();
        match pipe.items.pop_front() {
            Some(m) => Poll::Ready(Some(m)),
            None if pipe.over => Poll::Ready(None),
            None => {
                pipe.waker = Some(cx.waker().clone());
                Poll::Pending
            }
        }
    }
}

type Sender = CoordinatedPublisher<(u64, bool), In>;
type Receiver = CoordinatedStream<Out>;

struct Lab {
    log: Arc<Log>,
    sender: Mutex<Option<Arc<Sender>>>,
    receiver: Mutex<Option<Receiver>>,
    ackers: Mutex<HashMap<u64, Arc<CoordinatedAcker>>>,
    nack: Mutex<u64>,
    pipe: Arc<Mutex<Pipe>>,
}

impl Lab {
    fn new(log: &Arc<Log>) -> Arc<Self> {
        let pipe: Arc<Mutex<Pipe>> = Default::default();
        let (tx, rx) = coordinated_channel(
            In {
                log: log.clone(),
                pipe: pipe.clone(),
            },
            Out(pipe.clone()),
        );
        Arc::new(Lab {
            pipe,
            log: log.clone(),
            sender: Mutex::new(Some(Arc::new(tx))),
            receiver: Mutex::new(Some(rx)),
            ackers: Default::default(),
            nack: Mutex::new(1000),
        })
    }
    /// The last one to let go of the publisher drops it.
    fn let_go(&self, sender: Arc<Sender>) {
        if let Some(sender) = Arc::into_inner(sender) {
            self.log.push_w(json!({"e": "closec"}));
            drop(sender);
            self.log.push_w(json!({"e": "closer", "ok": true}));
        }
    }
    fn publish(&self, m: u64, ok: bool) {
        let Some(sender) = self.sender.lock().unwrap().clone() else {
            return;
        };
        self.log.push_w(json!({"e": "pubc", "m": m}));
        let r = match now(sender.publish(&(m, ok))) {
            Ok(()) => "ok",
            Err(e) => match e.downcast_ref::<CoordinatedPublisherError>() {
                Some(CoordinatedPublisherError::PublisherClosed) => "closed",
                Some(CoordinatedPublisherError::Inner(e))
                    if e.to_string() == "injected failure" =>
                {
                    "error"
                }
                _ => "unexpected",
            },
        };
        self.log.push_w(json!({"e": "pubr", "m": m, "r": r}));
        self.let_go(sender);
    }
    fn close(&self) {
        let Some(sender) = self.sender.lock().unwrap().clone() else {
            return;
        };
        self.log.push_w(json!({"e": "closec"}));
        let ok = now(sender.close()).is_ok();
        self.log.push_w(json!({"e": "closer", "ok": ok}));
        self.let_go(sender);
    }
    fn drop_sender(&self) {
        let sender = self.sender.lock().unwrap().take();
        if let Some(sender) = sender {
            self.let_go(sender);
        }
    }
    fn poll(&self, c: u64, waker: Waker) -> &'static str {
        let Some(mut receiver) = self.receiver.lock().unwrap().take() else {
            return "busy";
        };
        self.log.push_w(json!({"e": "pollc", "c": c}));
        let r = Pin::new(&mut receiver).poll_next(&mut Context::from_waker(&waker));
        *self.receiver.lock().unwrap() = Some(receiver);
        match r {
            Poll::Ready(Some((m, acker))) => {
                self.ackers.lock().unwrap().insert(m, Arc::new(acker));
                self.log.push_w(json!({"e": "yield", "m": m}));
                "yield"
            }
            Poll::Ready(None) => {
                self.log.push_w(json!({"e": "end"}));
                "end"
            }
            Poll::Pending => {
                self.log.push_w(json!({"e": "wait"}));
                "wait"
            }
        }
    }
    fn ack(&self, m: u64, how: &str) {
        let Some(acker) = self.ackers.lock().unwrap().get(&m).cloned() else {
            return;
        };
        let k = {
            let mut n = self.nack.lock().unwrap();
            *n += 1;
            *n
        };
        self.log.push_w(json!({"e": "ackc", "k": k, "m": m}));
        let ok = match how {
            "ack" => {
                CoordinatedAcker::ack(&acker);
                true
            }
            "nack" => {
                CoordinatedAcker::nack(&acker);
                true
            }
            "Ack" => now(Acker::ack(&*acker)).is_ok(),
            _ => now(Acker::nack(&*acker)).is_ok(),
        };
        self.log.push_w(json!({"e": "ackr", "k": k, "ok": ok}));
    }
    fn op(&self, op: &Value) {
        match op["o"].as_str().unwrap() {
            "pub" => self.publish(op["m"].as_u64().unwrap(), op["ok"].as_bool().unwrap()),
            "close" => self.close(),
            "drop" => self.drop_sender(),
            "poll" => {
                let c = op["c"].as_u64().unwrap();
                self.poll(c, self.log.waker(c));
            }
            "ack" => self.ack(op["m"].as_u64().unwrap(), op["how"].as_str().unwrap()),
            "cut" => {
                let mut pipe = self.pipe.lock().unwrap();
                pipe.over = true;
                let waker = pipe.waker.take();
                self.log.push_w(json!({"e": "cut"}));
                drop(pipe);
                if let Some(w) = waker {
                    w.wake();
                }
            }
            o => panic!("unknown operation {o}"),
        }
    }
    /// Close, take and acknowledge everything: then the receiver ends.
    fn finish(&self) {
        self.drop_sender();
        for _ in 0..100 {
            if self.poll(1, self.log.waker(1)) != "yield" {
                break;
            }
        }
        let mut ms: Vec<u64> = self.ackers.lock().unwrap().keys().copied().collect();
        ms.sort();
        for m in ms {
            self.ack(m, "ack");
        }
        self.poll(2, self.log.waker(2));
        self.log.push(json!({"e": "over"}));
    }
}

pub fn script(script: &Value, log: &Arc<Log>) -> bool {
    let lab = Lab::new(log);
    let lab2 = lab.clone();
    if !drive(script, log, Arc::new(move |op| lab2.op(op))) {
        return false;
    }
    guarded(log, || lab.finish());
    true
}

/// Wakes a thread, and notes which task was woken.
struct Unpark {
    note: Waker,
    thread: std::thread::Thread,
    flag: std::sync::atomic::AtomicBool,
}
impl Wake for Unpark {
    fn wake(self: Arc<Self>) {
        self.note.wake_by_ref();
        self.flag.store(true, std::sync::atomic::Ordering::SeqCst);
        self.thread.unpark();
    }
}

/// Publishers, a closer, a receiver and acknowledging threads at once.
static STUCK: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);

pub fn stress(script: &Value, log: &Arc<Log>) -> bool {
    if STUCK.load(std::sync::atomic::Ordering::SeqCst) >= 3 {
        return false; // enough is known
    }
    let lab = Lab::new(log);
    let seed = script["seed"].as_u64().unwrap();
    let (publishers, each) = (script["p"].as_u64().unwrap(), script["n"].as_u64().unwrap());
    let how = script["close"].as_str().unwrap().to_string();
    let doubles = script["acks"].as_u64().unwrap();
    let barrier = Arc::new(Barrier::new(publishers as usize + 2));
    let spin = move |rng: &mut Rng, n: u64| {
        match rng.below(4) {
            0 => {}
            1 => std::thread::yield_now(),
            _ => {
                for _ in 0..rng.below(n) {
                    std::hint::spin_loop()
                }
            }
        };
    };
    let noisy = move |s: u64| {
        let rng = std::cell::RefCell::new(Rng(s));
        paladin::verif::set_hook(Some(std::rc::Rc::new(move |_| {
            spin(&mut rng.borrow_mut(), 600)
        })));
    };
    let mut threads = vec![];
    for p in 0..publishers {
        let (lab, barrier) = (lab.clone(), barrier.clone());
        threads.push(std::thread::spawn(move || {
            let mut rng = Rng(seed * 100 + p);
            noisy(seed * 100 + 50 + p);
            barrier.wait();
            for k in 0..each {
                let lab2 = lab.clone();
                let ok = rng.below(5) > 0;
                guarded(&lab.log, || lab2.publish(p * each + k + 1, ok));
                spin(&mut rng, 800);
            }
            paladin::verif::set_hook(None);
        }));
    }
    {
        let (lab, barrier) = (lab.clone(), barrier.clone());
        threads.push(std::thread::spawn(move || {
            let mut rng = Rng(seed * 100 + 97);
            barrier.wait();
            for _ in 0..rng.below(3 + each * publishers) {
                spin(&mut rng, 2500);
            }
            guarded(&lab.log, || {
                if how == "close" {
                    lab.close()
                } else {
                    lab.drop_sender()
                }
            });
        }));
    }
    {
        let (lab, barrier) = (lab.clone(), barrier.clone());
        threads.push(std::thread::spawn(move || {
            let mut rng = Rng(seed * 100 + 98);
            noisy(seed * 100 + 99);
            barrier.wait();
            let mut acks: Vec<std::thread::JoinHandle<()>> = vec![];
            let mut c = 0;
            guarded(&lab.log, || loop {
                c = c % 2 + 1;
                let unpark = Arc::new(Unpark {
                    note: lab.log.waker(c),
                    thread: std::thread::current(),
                    flag: Default::default(),
                });
                match lab.poll(c, Waker::from(unpark.clone())) {
                    "yield" => {
                        let m = *lab
                            .log
                            .events()
                            .iter()
                            .rev()
                            .find(|e| e["e"] == "yield")
                            .map(|e| e["m"].as_u64())
                            .unwrap()
                            .as_ref()
                            .unwrap();
                        if rng.below(3) == 0 {
                            lab.ack(m, "ack");
                        } else {
                            let gate = Arc::new(std::sync::atomic::AtomicU64::new(0));
                            for k in 0..doubles {
                                let (lab, gate) = (lab.clone(), gate.clone());
                                acks.push(std::thread::spawn(move || {
                                    // all at the same instant, as nearly as can be
                                    gate.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                                    let start = Instant::now();
                                    while gate.load(std::sync::atomic::Ordering::SeqCst) < doubles
                                        && start.elapsed() < Duration::from_millis(50)
                                    {
                                        std::hint::spin_loop()
                                    }
                                    guarded(&lab.log.clone(), || {
                                        lab.ack(m, ["ack", "nack", "Ack", "Nack"][(k % 4) as usize])
                                    });
                                }));
                            }
                        }
                    }
                    "wait" => {
                        let start = Instant::now();
                        while !unpark.flag.load(std::sync::atomic::Ordering::SeqCst) {
                            std::thread::park_timeout(Duration::from_millis(100));
                            if start.elapsed() > Duration::from_secs(10) {
                                lab.log.push(json!({"e": "stuck"}));
                                STUCK.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                                return;
                            }
                        }
                    }
                    _ => return,
                }
            });
            for a in acks {
                let _ = a.join();
            }
            paladin::verif::set_hook(None);
        }));
    }
    for t in threads {
        let _ = t.join();
    }
    log.push_w(json!({"e": "wake"}));
    guarded(log, || lab.drop_sender());
    log.push(json!({"e": "over"}));
    true
}

/// Several threads acknowledge one message at the same instant while another
/// one is outstanding; over and over. The log is that of a round that went
/// differently from the first one, if there is any.
pub fn acks(script: &Value, log: &Arc<Log>) -> bool {
    use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
    let threads = script["threads"].as_u64().unwrap();
    let rounds = script["rounds"].as_u64().unwrap();
    let round = Arc::new(AtomicU64::new(0));
    let done = Arc::new(AtomicU64::new(0));
    let acker: Arc<Mutex<Option<Arc<CoordinatedAcker>>>> = Default::default();
    let workers: Vec<_> = (0..threads)
        .map(|w| {
            let (round, done, acker) = (round.clone(), done.clone(), acker.clone());
            std::thread::spawn(move || {
                let mut last = 0;
                loop {
                    let mut n = round.load(SeqCst);
                    while n == last {
                        std::hint::spin_loop();
                        n = round.load(SeqCst);
                    }
                    if n == u64::MAX {
                        return;
                    }
                    last = n;
                    let a = acker.lock().unwrap().clone().unwrap();
                    done.fetch_add(1, SeqCst);
                    // all have theirs
                    while done.load(SeqCst) < threads {
                        std::hint::spin_loop();
                    }
                    for _ in 0..(n * (w + 1)) % 7 {
                        std::hint::spin_loop();
                    }
                    if (w + n) % 2 == 0 {
                        CoordinatedAcker::ack(&a);
                    } else {
                        CoordinatedAcker::nack(&a);
                    }
                    drop(a);
                    done.fetch_add(1, SeqCst);
                }
            })
        })
        .collect();
    let mut first = None;
    for n in 1..=rounds {
        let l = Log::new();
        let lab = Lab::new(&l);
        lab.publish(1, true);
        lab.publish(2, true);
        lab.poll(1, l.waker(1));
        lab.poll(1, l.waker(1));
        lab.drop_sender();
        lab.poll(1, l.waker(1));
        *acker.lock().unwrap() = lab.ackers.lock().unwrap().get(&1).cloned();
        for w in 0..threads {
            l.push_w(json!({"e": "ackc", "k": w, "m": 1}));
        }
        done.store(0, SeqCst);
        round.store(n, SeqCst);
        while done.load(SeqCst) < 2 * threads {
            std::hint::spin_loop();
        }
        for w in 0..threads {
            l.push_w(json!({"e": "ackr", "k": w, "ok": true}));
        }
        *acker.lock().unwrap() = None;
        lab.poll(1, l.waker(1));
        lab.ack(2, "ack");
        lab.poll(1, l.waker(1));
        l.push(json!({"e": "over"}));
        let ev = l.events();
        match &first {
            None => first = Some(ev),
            Some(f) if *f != ev => {
                first = Some(ev);
                break;
            }
            _ => {}
        }
    }
    round.store(u64::MAX, SeqCst);
    for w in workers {
        let _ = w.join();
    }
    for e in first.unwrap() {
        log.push(e);
    }
    true
}

// ---------------------------------------------------------------------------

type Dyn = Box<dyn Acker>;

/// A simple acknowledger with a prescribed outcome.
struct Leaf {
    log: Arc<Log>,
    current: Arc<Mutex<u64>>,
    k: usize,
    out: String,
}

struct YieldOnce(bool);
impl Future for YieldOnce {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        if self.0 {
            return Poll::Ready(());
        }
        self.0 = true;
        cx.waker().wake_by_ref();
        Poll::Pending
    }
}

impl Leaf {
    async fn go(&self, how: &str) -> Result<()> {
        let c = *self.current.lock().unwrap();
        self.log
            .push(json!({"e": "invoke", "c": c, "k": self.k, "how": how}));
        if self.out.starts_with("slow") {
            YieldOnce(false).await;
        }
        let r = if self.out.ends_with("fail") {
            format!("failure {}", self.k)
        } else {
            "ok".into()
        };
        self.log
            .push(json!({"e": "finish", "c": c, "k": self.k, "r": r}));
        if r == "ok" {
            Ok(())
        } else {
            bail!(r)
        }
    }
}

#[async_trait]
impl Acker for Leaf {
    async fn ack(&self) -> Result<()> {
        self.go("ack").await
    }
    async fn nack(&self) -> Result<()> {
        self.go("nack").await
    }
}

fn tree(mut leaves: Vec<Dyn>, shape: &str) -> Dyn {
    if leaves.len() == 1 {
        return leaves.pop().unwrap();
    }
    let at = match shape {
        "left" => leaves.len() - 1,
        "balanced" => leaves.len() / 2,
        _ => 1,
    };
    let rest = leaves.split_off(at);
    let (a, b) = (tree(leaves, shape), tree(rest, shape));
    match shape {
        "boxed" => Box::new(Box::new(ComposedAcker::new(a, b))),
        "arc" => Box::new(ComposedAcker::new(Arc::new(a), Arc::new(b))),
        _ => Box::new(ComposedAcker::new(a, b)),
    }
}

pub fn composed(script: &Value, log: &Arc<Log>) -> bool {
    let n = script["n"].as_u64().unwrap() as usize;
    let current: Arc<Mutex<u64>> = Default::default();
    let leaves: Vec<Dyn> = (0..n)
        .map(|k| {
            Box::new(Leaf {
                log: log.clone(),
                current: current.clone(),
                k: k + 1,
                out: script["out"][k].as_str().unwrap().into(),
            }) as Dyn
        })
        .collect();
    let t = tree(leaves, script["shape"].as_str().unwrap());
    guarded(log, || {
        let mut calls: HashMap<u64, Pin<Box<dyn Future<Output = Result<()>> + '_>>> =
            HashMap::new();
        let poll =
            |c: u64, calls: &mut HashMap<u64, Pin<Box<dyn Future<Output = Result<()>> + '_>>>| {
                *current.lock().unwrap() = c;
                let Some(f) = calls.get_mut(&c) else { return };
                let waker = noop_waker();
                if let Poll::Ready(r) = f.as_mut().poll(&mut Context::from_waker(&waker)) {
                    let r = r.map_or_else(|e| e.to_string(), |_| "ok".into());
                    log.push(json!({"e": "return", "c": c, "r": r}));
                    calls.remove(&c);
                }
            };
        for op in script["ops"].as_array().unwrap() {
            let c = op["c"].as_u64().unwrap();
            match op["o"].as_str().unwrap() {
                "begin" => {
                    log.push(json!({"e": "begin", "c": c, "how": op["how"]}));
                    let f: Pin<Box<dyn Future<Output = Result<()>> + '_>> = if op["how"] == "ack" {
                        Box::pin(t.ack())
                    } else {
                        Box::pin(t.nack())
                    };
                    calls.insert(c, f);
                }
                "poll" => poll(c, &mut calls),
                _ => {
                    if calls.remove(&c).is_some() {
                        log.push(json!({"e": "cancel", "c": c}));
                    }
                }
            }
        }
        for _ in 0..20 {
            for c in [1, 2] {
                poll(c, &mut calls);
            }
        }
        // whatever is still not over is stuck
        let mut left: Vec<u64> = calls.keys().copied().collect();
        left.sort();
        for c in left {
            log.push(json!({"e": "stuck", "c": c}));
        }
    });
    true
}
