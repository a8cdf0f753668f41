//! Operations that run on threads of their own and can be paused at the
//! points marked in the code (cfg paladin_verif), so that a schedule decides
//! how the steps of several operations interleave.
use std::{
    collections::{BTreeMap, HashMap},
    rc::Rc,
    sync::{
        mpsc::{channel, Receiver, RecvTimeoutError, Sender},
        Mutex,
    },
    time::Duration,
};

pub enum Status {
    At(&'static str),
    Done,
}

pub enum Ran {
    Paused,
    Done,
    Blocked,
}

pub struct Op {
    kind: String,
    at: &'static str,
    status: Receiver<Status>,
    go: Sender<()>,
}

/// What was found to wait for a suspended operation: which operation, while
/// operations were suspended at which points. Such schedules are not
/// realisable in this code; after a few tries they are not attempted again.
static BLOCKED: Mutex<BTreeMap<String, usize>> = Mutex::new(BTreeMap::new());
const TRIES: usize = 5;

impl Op {
    fn start(kind: &str, f: Box<dyn FnOnce() + Send>) -> Op {
        let (tx, status) = channel();
        let (go, resume) = channel();
        std::thread::Builder::new()
            .spawn(move || {
                let hook_tx = tx.clone();
                paladin::verif::set_hook(Some(Rc::new(move |name| {
                    if hook_tx.send(Status::At(name)).is_ok() {
                        let _ = resume.recv();
                    }
                })));
                f();
                paladin::verif::set_hook(None);
                let _ = tx.send(Status::Done);
            })
            .unwrap();
        Op {
            kind: kind.into(),
            at: "",
            status,
            go,
        }
    }

    /// Run until one of the given points is reached, or to the end.
    fn run(&mut self, stop: &[String], context: &str) -> Ran {
        loop {
            // Nothing else holds anything: then waiting long is a matter of the watchdog.
            let limit = if context.is_empty() { 60_000 } else { 200 };
            match self.status.recv_timeout(Duration::from_millis(limit)) {
                Ok(Status::At(name)) => {
                    self.at = name;
                    if stop.iter().any(|s| s == name || s == "*") {
                        return Ran::Paused;
                    }
                    let _ = self.go.send(());
                }
                Ok(Status::Done) | Err(RecvTimeoutError::Disconnected) => return Ran::Done,
                Err(RecvTimeoutError::Timeout) => {
                    *BLOCKED
                        .lock()
                        .unwrap()
                        .entry(self.key(context))
                        .or_default() += 1;
                    return Ran::Blocked;
                }
            }
        }
    }
    fn key(&self, context: &str) -> String {
        format!("{}@{} while {}", self.kind, self.at, context)
    }
    fn hopeless(&self, context: &str) -> bool {
        !context.is_empty()
            && BLOCKED
                .lock()
                .unwrap()
                .get(&self.key(context))
                .copied()
                .unwrap_or(0)
                >= TRIES
    }
}

pub fn blocked() -> Vec<String> {
    BLOCKED.lock().unwrap().keys().cloned().collect()
}

#[derive(Default)]
pub struct Scheduler {
    ops: HashMap<u64, Op>,
}

impl Scheduler {
    pub fn any_paused(&self) -> bool {
        !self.ops.is_empty()
    }
    pub fn paused(&self) -> Vec<u64> {
        let mut v: Vec<u64> = self.ops.keys().copied().collect();
        v.sort();
        v
    }
    fn context(&self) -> String {
        let mut v: Vec<String> = self
            .ops
            .values()
            .map(|o| format!("{}@{}", o.kind, o.at))
            .collect();
        v.sort();
        v.join(",")
    }
    fn go(&mut self, t: u64, mut op: Op, stop: &[String]) -> Ran {
        let context = self.context();
        let ran = op.run(stop, &context);
        if let Ran::Paused = ran {
            self.ops.insert(t, op);
        }
        ran
    }
    pub fn start(
        &mut self,
        t: u64,
        kind: &str,
        stop: &[String],
        f: Box<dyn FnOnce() + Send>,
    ) -> Ran {
        let context = self.context();
        let key = format!("{kind}@ while {context}");
        if !context.is_empty() && BLOCKED.lock().unwrap().get(&key).copied().unwrap_or(0) >= TRIES {
            return Ran::Blocked;
        }
        let op = Op::start(kind, f);
        self.go(t, op, stop)
    }
    pub fn step(&mut self, t: u64, stop: &[String]) -> Ran {
        let Some(op) = self.ops.remove(&t) else {
            return Ran::Done;
        };
        if op.hopeless(&self.context()) {
            return Ran::Blocked;
        }
        let _ = op.go.send(());
        self.go(t, op, stop)
    }
}
