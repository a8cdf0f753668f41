use std::{
    collections::BTreeSet,
    io::{BufRead, BufReader, BufWriter, Write},
    panic::{catch_unwind, AssertUnwindSafe},
    sync::{
        atomic::{AtomicUsize, Ordering},
        Arc, Mutex,
    },
    task::{Context, Poll, Wake, Waker},
    time::{Duration, Instant},
};

use serde_json::{json, Value};

/// The events of one run, in order, and the waiters woken since the last one.
#[derive(Default)]
pub struct Log {
    events: Mutex<Vec<Value>>,
    woken: Mutex<BTreeSet<u64>>,
}

impl Log {
    pub fn new() -> Arc<Self> {
        Arc::new(Self::default())
    }
    pub fn push(&self, event: Value) {
        self.events.lock().unwrap().push(event);
    }
    /// Record an event together with the waiters woken since the last one.
    pub fn push_w(&self, mut event: Value) {
        let mut events = self.events.lock().unwrap();
        let woken = std::mem::take(&mut *self.woken.lock().unwrap());
        event["w"] = json!(woken);
        events.push(event);
    }
    /// Record wakes that happened in the middle of an operation.
    pub fn flush_wakes(&self) {
        let any = !self.woken.lock().unwrap().is_empty();
        if any {
            self.push_w(json!({"e": "wake"}));
        }
    }
    pub fn len(&self) -> usize {
        self.events.lock().unwrap().len()
    }
    pub fn events(&self) -> Vec<Value> {
        self.events.lock().unwrap().clone()
    }
    pub fn waker(self: &Arc<Self>, id: u64) -> Waker {
        Waker::from(Arc::new(LogWaker {
            id,
            log: self.clone(),
        }))
    }
}

struct LogWaker {
    id: u64,
    log: Arc<Log>,
}

impl Wake for LogWaker {
    fn wake(self: Arc<Self>) {
        self.log.woken.lock().unwrap().insert(self.id);
    }
}

pub fn noop_waker() -> Waker {
    futures::task::noop_waker()
}

/// Poll a future that is expected not to wait for anything.
pub fn now<F: std::future::Future>(f: F) -> F::Output {
    let mut f = Box::pin(f);
    let waker = noop_waker();
    let mut cx = Context::from_waker(&waker);
    let start = Instant::now();
    loop {
        if let Poll::Ready(r) = f.as_mut().poll(&mut cx) {
            return r;
        }
        if start.elapsed() > Duration::from_secs(10) {
            panic!("operation does not complete");
        }
        std::thread::yield_now();
    }
}

pub fn panic_text(p: Box<dyn std::any::Any + Send>) -> String {
    p.downcast_ref::<String>()
        .cloned()
        .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
        .unwrap_or_else(|| "panic".into())
}

/// Run f; a panic of the code under test becomes an event of the log.
pub fn guarded(log: &Arc<Log>, f: impl FnOnce()) {
    if let Err(p) = catch_unwind(AssertUnwindSafe(f)) {
        log.push(json!({"e": "panic", "msg": panic_text(p)}));
    }
}

const HANG: Duration = Duration::from_secs(25);

struct Slot {
    since: Instant,
    id: Value,
    cfg: Value,
    log: Arc<Log>,
}

pub type Lab = fn(&Value, &Arc<Log>) -> bool;

/// Run every script of the stimuli file through a lab and write the traces.
pub fn run_scripts(stimuli: &str, out: &str, threads: usize, lab: Lab) {
    let file = std::fs::File::open(stimuli).expect("stimuli");
    let scripts: Vec<Value> = BufReader::new(file)
        .lines()
        .map(|l| serde_json::from_str(&l.unwrap()).expect("stimulus"))
        .collect();
    let scripts = Arc::new(scripts);
    let next = Arc::new(AtomicUsize::new(0));
    let out = Arc::new(Mutex::new(BufWriter::new(
        std::fs::File::create(out).expect("out"),
    )));
    let skipped = Arc::new(AtomicUsize::new(0));
    let slots: Arc<Mutex<Vec<Option<Slot>>>> =
        Arc::new(Mutex::new((0..threads).map(|_| None).collect()));
    let live = Arc::new(AtomicUsize::new(threads));
    for k in 0..threads {
        let (scripts, next, out, skipped, slots, live) = (
            scripts.clone(),
            next.clone(),
            out.clone(),
            skipped.clone(),
            slots.clone(),
            live.clone(),
        );
        std::thread::Builder::new()
            .stack_size(8 << 20)
            .spawn(move || {
                loop {
                    let i = next.fetch_add(1, Ordering::SeqCst);
                    let Some(script) = scripts.get(i) else { break };
                    let log = Log::new();
                    slots.lock().unwrap()[k] = Some(Slot {
                        since: Instant::now(),
                        id: script["id"].clone(),
                        cfg: script["cfg"].clone(),
                        log: log.clone(),
                    });
                    let ok = match catch_unwind(AssertUnwindSafe(|| lab(script, &log))) {
                        Ok(ok) => ok,
                        Err(p) => {
                            log.push(json!({"e": "panic", "msg": panic_text(p)}));
                            true
                        }
                    };
                    slots.lock().unwrap()[k] = None;
                    if ok {
                        write(&out, &script["id"], &script["cfg"], log.events());
                    } else {
                        skipped.fetch_add(1, Ordering::SeqCst);
                    }
                }
                live.fetch_sub(1, Ordering::SeqCst);
            })
            .unwrap();
    }
    while live.load(Ordering::SeqCst) > 0 {
        std::thread::sleep(Duration::from_millis(5));
        let hung: Vec<Slot> = {
            let mut slots = slots.lock().unwrap();
            slots
                .iter_mut()
                .filter(|s| s.as_ref().map_or(false, |s| s.since.elapsed() > HANG))
                .filter_map(|s| s.take())
                .collect()
        };
        if !hung.is_empty() {
            for s in hung {
                s.log.push(json!({"e": "hang"}));
                write(&out, &s.id, &s.cfg, s.log.events());
            }
            break;
        }
    }
    out.lock().unwrap().flush().unwrap();
    println!(
        "{}",
        json!({"scripts": scripts.len(), "skipped": skipped.load(Ordering::SeqCst),
               "blocked": crate::sched::blocked(),
               "taken": next.load(Ordering::SeqCst).min(scripts.len())})
    );
    use std::io::Write as _;
    std::io::stdout().flush().unwrap();
    std::process::exit(0);
}

fn write(out: &Mutex<BufWriter<std::fs::File>>, id: &Value, cfg: &Value, ev: Vec<Value>) {
    let mut rec = json!({"id": id, "ev": ev});
    if !cfg.is_null() {
        rec["cfg"] = cfg.clone();
    }
    let mut out = out.lock().unwrap();
    writeln!(out, "{rec}").unwrap();
}

/// A small deterministic generator (splitmix64).
pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        self.next() % n
    }
}

pub fn ints(v: &Value) -> Vec<u64> {
    v.as_array()
        .map(|a| a.iter().filter_map(|x| x.as_u64()).collect())
        .unwrap_or_default()
}
