//! Values on their way through serializers, tasks, queues, runtimes and a broker (C29).
use std::{
    collections::BTreeMap,
    panic::{catch_unwind, AssertUnwindSafe},
    sync::Arc,
    time::Duration,
};

use futures::StreamExt;
use paladin::{
    acker::Acker as _,
    config::{self, Config},
    operation::{marker::Marker, FatalError, FatalStrategy, Operation, Result},
    queue::{
        amqp::{AMQPConnection, AMQPConnectionOptions},
        in_memory::InMemoryConnection,
        Connection, DeliveryMode, Publisher as _, QueueDurability, QueueHandle as _, QueueOptions, SyndicationMode,
    },
    runtime::Runtime,
    serializer::Serializer,
    task::{AnyTask, AnyTaskResult, Task},
    AbortSignal, RemoteExecute,
};
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};

use crate::{
    broker::Broker,
    util::{panic_text, Log},
};

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct New(Box<Term>);

#[derive(Debug, Clone)]
pub struct Blob(Vec<u8>);
impl Serialize for Blob {
    fn serialize<S: serde::Serializer>(&self, s: S) -> std::result::Result<S::Ok, S::Error> {
        s.serialize_bytes(&self.0)
    }
}
impl<'de> Deserialize<'de> for Blob {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> std::result::Result<Self, D::Error> {
        struct V;
        impl serde::de::Visitor<'_> for V {
            type Value = Blob;
            fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
                f.write_str("bytes")
            }
            fn visit_bytes<E>(self, v: &[u8]) -> std::result::Result<Blob, E> {
                Ok(Blob(v.to_vec()))
            }
            fn visit_byte_buf<E>(self, v: Vec<u8>) -> std::result::Result<Blob, E> {
                Ok(Blob(v))
            }
        }
        d.deserialize_byte_buf(V)
    }
}

/// Everything serde distinguishes, in the order of Kinds in Wire.tla.
#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum Term {
    #[serde(rename = "A")]
    Leaf,
    #[serde(rename = "B")]
    Unit(()),
    #[serde(rename = "C")]
    Bool(bool),
    #[serde(rename = "D")]
    U8(u8),
    #[serde(rename = "E")]
    U16(u16),
    #[serde(rename = "F")]
    U32(u32),
    #[serde(rename = "G")]
    U64(u64),
    #[serde(rename = "H")]
    U128(u128),
    #[serde(rename = "I")]
    I8(i8),
    #[serde(rename = "J")]
    I16(i16),
    #[serde(rename = "K")]
    I32(i32),
    #[serde(rename = "L")]
    I64(i64),
    #[serde(rename = "M")]
    I128(i128),
    #[serde(rename = "N")]
    F32(f32),
    #[serde(rename = "O")]
    F64(f64),
    #[serde(rename = "P")]
    Char(char),
    #[serde(rename = "Q")]
    Text(String),
    #[serde(rename = "R")]
    Blob(Blob),
    #[serde(rename = "S")]
    Opt(Option<Box<Term>>),
    #[serde(rename = "T")]
    Pair(Box<Term>, Box<Term>),
    #[serde(rename = "U")]
    List(Vec<Term>),
    #[serde(rename = "V")]
    Dict(BTreeMap<String, Term>),
    #[serde(rename = "W")]
    Rec { x: Box<Term>, y: Box<Term> },
    #[serde(rename = "X")]
    New(New),
    #[serde(rename = "Y")]
    Res(std::result::Result<Box<Term>, Box<Term>>),
    #[serde(rename = "Z")]
    OptUnit(Option<()>),
    #[serde(rename = "[")]
    OptOpt(Option<Option<Box<Term>>>),
}
use Term::*;

fn bytes(v: &Value) -> Vec<u8> {
    v.as_array().unwrap().iter().map(|b| b.as_u64().unwrap() as u8).collect()
}
fn text(v: &Value) -> String {
    String::from_utf8(bytes(v)).unwrap()
}
/// The value a term of the specification stands for.
fn build(v: &Value) -> Term {
    let b = |k: usize| Box::new(build(&v[k]));
    let mag = || {
        v[2].as_array().unwrap().iter().enumerate().fold(0u128, |a, (k, x)| a | (x.as_u64().unwrap() as u128) << k)
    };
    let int = || if v[1] == 0 { mag() as i128 } else { !(mag() as i128) };
    let float = || f64::from_be_bytes(bytes(&v[1]).try_into().unwrap());
    let n = || v[1].as_u64().unwrap();
    match v[0].as_str().unwrap() {
        "leaf" => Leaf,
        "unit" => Unit(()),
        "bool" => Bool(v[1] == 1),
        "u8" => U8(mag() as u8),
        "u16" => U16(mag() as u16),
        "u32" => U32(mag() as u32),
        "u64" => U64(mag() as u64),
        "u128" => U128(mag()),
        "i8" => I8(int() as i8),
        "i16" => I16(int() as i16),
        "i32" => I32(int() as i32),
        "i64" => I64(int() as i64),
        "i128" => I128(int()),
        "f32" => F32(float() as f32),
        "f64" => F64(float()),
        "char" => Char(text(&v[1]).chars().next().unwrap()),
        "text" => Text(text(&v[1])),
        "blob" => Term::Blob(Blob(bytes(&v[1]))),
        "opt" => Opt(v.get(1).map(|_| b(1))),
        "pair" => Pair(b(1), b(2)),
        "list" => List(v[1].as_array().unwrap().iter().map(build).collect()),
        "dict" => Dict(v[1].as_array().unwrap().iter().map(|e| (text(&e[0]), build(&e[1]))).collect()),
        "rec" => Rec { x: b(1), y: b(2) },
        "new" => Term::New(New(b(1))),
        "ok" => Res(Ok(b(1))),
        "err" => Res(Err(b(1))),
        "ou" => OptUnit((v[1] == 1).then_some(())),
        "oo" => OptOpt(v.get(1).map(|x| x.get(1).map(|t| Box::new(build(t))))),
        // long ones
        "textrun" => Text(String::from_utf8(vec![n() as u8; v[2].as_u64().unwrap() as usize]).unwrap()),
        "blobrun" => Term::Blob(Blob(vec![n() as u8; v[2].as_u64().unwrap() as usize])),
        "rep" => List(vec![build(&v[2]); n() as usize]),
        "deep" => (0..n()).fold(build(&v[2]), |t, _| Term::New(New(Box::new(t)))),
        other => panic!("no such term: {other}"),
    }
}

const LONG: usize = 64;
/// The term a value is denoted by.
fn describe(t: &Term) -> Value {
    let int = |k: &str, s: bool, m: u128| {
        let bits: Vec<u8> = (0..128 - m.leading_zeros()).map(|i| (m >> i & 1) as u8).collect();
        json!([k, s as u8, bits])
    };
    let signed = |k: &str, x: i128| int(k, x < 0, if x < 0 { !x } else { x } as u128);
    let run = |k: &str, b: &[u8]| {
        if b.len() > LONG && b.iter().all(|x| *x == b[0]) {
            json!([format!("{k}run"), b[0], b.len()])
        } else {
            json!([k, b])
        }
    };
    match t {
        Leaf => json!(["leaf"]),
        Unit(()) => json!(["unit"]),
        Bool(x) => json!(["bool", *x as u8]),
        U8(x) => int("u8", false, *x as u128),
        U16(x) => int("u16", false, *x as u128),
        U32(x) => int("u32", false, *x as u128),
        U64(x) => int("u64", false, *x as u128),
        U128(x) => int("u128", false, *x),
        I8(x) => signed("i8", *x as i128),
        I16(x) => signed("i16", *x as i128),
        I32(x) => signed("i32", *x as i128),
        I64(x) => signed("i64", *x as i128),
        I128(x) => signed("i128", *x),
        F32(x) => json!(["f32", (*x as f64).to_be_bytes()]),
        F64(x) => json!(["f64", x.to_be_bytes()]),
        Char(x) => json!(["char", x.to_string().as_bytes()]),
        Text(x) => run("text", x.as_bytes()),
        Term::Blob(Blob(x)) => run("blob", x),
        Opt(None) => json!(["opt"]),
        Opt(Some(x)) => json!(["opt", describe(x)]),
        Pair(x, y) => json!(["pair", describe(x), describe(y)]),
        List(xs) => {
            let mut ts: Vec<Value> = xs.iter().map(describe).collect();
            if ts.len() > LONG && ts.iter().all(|t| *t == ts[0]) {
                json!(["rep", ts.len(), ts.pop()])
            } else {
                json!(["list", ts])
            }
        }
        Dict(xs) => {
            let ts: Vec<Value> = xs.iter().map(|(k, x)| json!([k.as_bytes(), describe(x)])).collect();
            json!(["dict", ts])
        }
        Rec { x, y } => json!(["rec", describe(x), describe(y)]),
        Term::New(New(x)) => {
            let (mut n, mut inner) = (1, x);
            while let Term::New(New(y)) = &**inner {
                (n, inner) = (n + 1, y);
            }
            if n > 20 {
                json!(["deep", n, describe(inner)])
            } else {
                json!(["new", describe(x)])
            }
        }
        Res(Ok(x)) => json!(["ok", describe(x)]),
        Res(Err(x)) => json!(["err", describe(x)]),
        OptUnit(x) => json!(["ou", x.is_some() as u8]),
        OptOpt(None) => json!(["oo"]),
        OptOpt(Some(None)) => json!(["oo", ["n"]]),
        OptOpt(Some(Some(x))) => json!(["oo", ["s", describe(x)]]),
    }
}

/// Returns what it was made with and what it was given.
#[derive(Debug, Serialize, Deserialize, RemoteExecute)]
pub struct Echo {
    salt: Term,
}
impl Operation for Echo {
    type Input = Term;
    type Output = (Term, Term);
    fn execute(&self, input: Term, _: AbortSignal) -> Result<(Term, Term)> {
        Ok((self.salt.clone(), input))
    }
}
/// Fails with the text it was given.
#[derive(Debug, Serialize, Deserialize, RemoteExecute)]
pub struct Fails;
impl Operation for Fails {
    type Input = String;
    type Output = ();
    fn execute(&self, input: String, _: AbortSignal) -> Result<()> {
        Err(FatalError::from_str(&input, FatalStrategy::Terminate).into())
    }
}

fn format(v: &Value) -> Serializer {
    match v.as_str().unwrap() {
        "cbor" => Serializer::Cbor,
        _ => Serializer::Postcard,
    }
}

struct Lab<'a> {
    log: &'a Arc<Log>,
    harm: &'a Value,
}
impl Lab<'_> {
    fn send(&self, v: &Value) {
        self.log.push(json!({"e": "send", "v": v}));
    }
    fn got(&self, v: Value) {
        self.log.push(json!({"e": "got", "v": v}));
    }
    fn refused(&self, how: String) {
        self.log.push(json!({"e": "refused", "how": how}));
    }
    fn bytes(&self, part: usize, b: &[u8]) {
        if b.len() <= 260 {
            self.log.push(json!({"e": "bytes", "part": part, "b": b}));
        }
    }
    /// The bytes as they arrive, if this is where they are to be harmed.
    fn harm(&self, at: &str, b: &[u8]) -> Vec<u8> {
        let mut b = b.to_vec();
        if self.harm["at"] == at && !b.is_empty() {
            let n = self.harm["n"].as_u64().unwrap() as usize % b.len();
            if self.harm["how"] == "cut" {
                b.truncate(n);
                self.log.push(json!({"e": "cut"}));
            } else {
                b[n] ^= 1 << (self.harm["bit"].as_u64().unwrap() % 8);
                self.log.push(json!({"e": "changed"}));
            }
        }
        b
    }
}

fn three(meta: &Term, salt: &Term, input: &Term) -> Value {
    json!(["list", [describe(meta), describe(salt), describe(input)]])
}

pub fn script(s: &Value, log: &Arc<Log>) -> bool {
    let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(2).enable_all().build().unwrap();
    let ok = rt.block_on(run(s, log));
    rt.shutdown_timeout(Duration::from_secs(2));
    ok
}

async fn run(s: &Value, log: &Arc<Log>) -> bool {
    let terms: Vec<Term> = s["vs"].as_array().unwrap().iter().map(build).collect();
    let (outer, inner) = (format(&s["cfg"]["f"][0]), format(&s["cfg"]["f"][1]));
    let lab = Lab { log, harm: &s["harm"] };
    match s["place"].as_str().unwrap() {
        "serializer" => {
            for t in &terms {
                lab.send(&describe(t));
                let b = inner.to_bytes(t).expect("to_bytes");
                lab.bytes(0, &b);
                match inner.from_bytes::<Term>(&lab.harm("wire", &b)) {
                    Ok(t) => lab.got(describe(&t)),
                    Err(e) => lab.refused(e.to_string()),
                }
            }
        }
        "error" => {
            for t in &terms {
                let Text(text) = t else { return false };
                lab.send(&describe(t));
                let op = Fails;
                let task = Task { routing_key: "r".into(), metadata: (), op: &op, input: text.clone() };
                let task = task.as_any_task(inner).expect("task");
                let err = task.remote_execute(Default::default()).await.expect_err("it fails");
                let b = outer.to_bytes(&AnyTaskResult::Err(err.to_string())).expect("to_bytes");
                match outer.from_bytes::<AnyTaskResult>(&lab.harm("wire", &b)) {
                    Err(e) => lab.refused(e.to_string()),
                    Ok(r) => match r.into_task_result::<Fails, ()>() {
                        Ok(_) => lab.got(json!(["ok"])),
                        // what is said about the failure may say more than the operation did
                        Err(e) => {
                            let said = e.to_string();
                            let own = if said.ends_with(text.as_str()) { text.clone() } else { said };
                            lab.got(describe(&Text(own)))
                        }
                    },
                }
            }
        }
        "task" => {
            let (meta, salt, input) = (&terms[0], &terms[1 % terms.len()], &terms[2 % terms.len()]);
            lab.send(&three(meta, salt, input));
            if let Err(how) = task(&lab, outer, inner, meta, salt, input).await {
                lab.refused(how);
            }
        }
        "runtime" => {
            let config = Config {
                runtime: config::Runtime::InMemory,
                num_workers: Some(1),
                serializer: match inner {
                    Serializer::Cbor => config::Serializer::Cbor,
                    _ => config::Serializer::Postcard,
                },
                ..Default::default()
            };
            let runtime = Runtime::from_config(&config, Marker).await.expect("runtime");
            for k in 0..terms.len() {
                let (meta, salt, input) = (&terms[k], &terms[(k + 1) % terms.len()], &terms[(k + 2) % terms.len()]);
                lab.send(&three(meta, salt, input));
                let op = Echo { salt: salt.clone() };
                let (routing_key, sender, mut receiver) =
                    runtime.lease_coordinated_task_channel::<Echo, Term>().await.expect("lease");
                let task = Task { routing_key, metadata: meta.clone(), op: &op, input: input.clone() };
                sender.publish(&task).await.expect("publish");
                sender.close().await.expect("close");
                match tokio::time::timeout(Duration::from_secs(8), receiver.next()).await {
                    Err(_) => log.push(json!({"e": "lost"})),
                    Ok(None) => log.push(json!({"e": "ended"})),
                    Ok(Some((Err(e), acker))) => {
                        acker.ack().await.expect("ack");
                        lab.refused(e.to_string());
                        // the worker has stopped
                        break;
                    }
                    Ok(Some((Ok(o), acker))) => {
                        acker.ack().await.expect("ack");
                        lab.got(three(&o.metadata, &o.output.0, &o.output.1));
                    }
                }
            }
        }
        "once" => queue(&lab, InMemoryConnection::new(inner), SyndicationMode::ExactlyOnce, &terms, None).await,
        "broadcast" => queue(&lab, InMemoryConnection::new(inner), SyndicationMode::Broadcast, &terms, None).await,
        place @ ("amqp" | "amqp broadcast") => {
            let wire = Log::new();
            let broker = Broker::start(wire.clone(), s["seed"].as_u64().unwrap());
            let uri = broker.uri("n0");
            let conn = AMQPConnection::new(AMQPConnectionOptions { uri: &uri, qos: Some(1), serializer: inner })
                .await
                .expect("connection");
            let mode = if place == "amqp" { SyndicationMode::ExactlyOnce } else { SyndicationMode::Broadcast };
            queue(&lab, conn.clone(), mode, &terms, Some(&wire)).await;
            _ = tokio::time::timeout(Duration::from_secs(1), conn.close()).await;
            broker.stop();
        }
        _ => unreachable!(),
    }
    log.push(json!({"e": "end"}));
    true
}

async fn task(
    lab: &Lab<'_>,
    outer: Serializer,
    inner: Serializer,
    meta: &Term,
    salt: &Term,
    input: &Term,
) -> std::result::Result<(), String> {
    let op = Echo { salt: salt.clone() };
    let routing_key = "å route \"of\" its own".to_string();
    let task = Task { routing_key: routing_key.clone(), metadata: meta.clone(), op: &op, input: input.clone() };
    let task = task.as_any_task(inner).expect("task");
    lab.bytes(1, &task.metadata);
    lab.bytes(3, &task.input);
    let b = outer.to_bytes(&task).expect("to_bytes");
    let mut task: AnyTask = outer.from_bytes(&lab.harm("wire", &b)).map_err(|e| e.to_string())?;
    if task.routing_key != routing_key && lab.harm["at"] != "wire" {
        lab.log.push(json!({"e": "misrouted", "to": task.routing_key}));
    }
    if lab.harm["how"] == "changed" && lab.harm["at"] == "wire" {
        // anything may have come of it, and it need not be meant to be run
        return Err("not run".into());
    }
    task.op = lab.harm("op", &task.op).into();
    task.input = lab.harm("input", &task.input).into();
    let output = task.remote_execute(Default::default()).await.map_err(|e| e.to_string())?;
    let b = outer.to_bytes(&AnyTaskResult::Ok(output)).expect("to_bytes");
    let r: AnyTaskResult = outer.from_bytes(&lab.harm("result", &b)).map_err(|e| e.to_string())?;
    let r = match r {
        AnyTaskResult::Ok(mut o) => {
            if lab.harm["at"] != "result" {
                lab.bytes(1, &o.metadata);
            }
            o.output = lab.harm("output", &o.output).into();
            o.metadata = lab.harm("metadata", &o.metadata).into();
            AnyTaskResult::Ok(o)
        }
        r => r,
    };
    let o = r.into_task_result::<Echo, Term>().map_err(|e| e.to_string())?;
    lab.got(three(&o.metadata, &o.output.0, &o.output.1));
    Ok(())
}

async fn queue<C: Connection>(lab: &Lab<'_>, conn: C, mode: SyndicationMode, terms: &[Term], wire: Option<&Arc<Log>>) {
    let options = QueueOptions {
        syndication_mode: mode,
        delivery_mode: DeliveryMode::Persistent,
        durability: QueueDurability::NonDurable,
    };
    let queue = conn.declare_queue("q", options).await.expect("declare");
    let mut stream = Box::pin(queue.declare_consumer::<Term>("c").await.expect("consumer"));
    let publisher = queue.publisher::<Term>();
    for t in terms {
        lab.send(&describe(t));
        publisher.publish(t).await.expect("publish");
    }
    for k in 0..terms.len() {
        let next = AssertUnwindSafe(tokio::time::timeout(Duration::from_secs(8), stream.next()));
        match futures::FutureExt::catch_unwind(next).await {
            Err(p) => {
                lab.log.push(json!({"e": "panic", "msg": panic_text(p)}));
                break;
            }
            Ok(Err(_)) => {
                lab.log.push(json!({"e": "lost"}));
                break;
            }
            Ok(Ok(None)) => {
                lab.log.push(json!({"e": "ended"}));
                break;
            }
            Ok(Ok(Some((t, acker)))) => {
                if let Some(wire) = wire {
                    let bodies: Vec<Value> = wire.events().iter().filter(|e| e["e"] == "pub").map(|e| e["body"].clone()).collect();
                    if bodies[k].as_array().unwrap().len() <= 260 {
                        lab.log.push(json!({"e": "bytes", "part": 0, "b": bodies[k]}));
                    }
                }
                acker.ack().await.expect("ack");
                lab.got(describe(&t));
            }
        }
    }
}

/// Bytes from anywhere are read or refused, by everything that reads.
pub fn garbage(s: &Value, log: &Arc<Log>) -> bool {
    let b = bytes(&s["b"]);
    let f = format(&s["cfg"]["f"][0]);
    let ok = |r: std::thread::Result<bool>, what: &str| match r {
        Ok(ok) => log.push(json!({"e": if ok { "read" } else { "notread" }, "what": what})),
        Err(p) => log.push(json!({"e": "panic", "what": what, "msg": panic_text(p)})),
    };
    ok(catch_unwind(|| f.from_bytes::<Term>(&b).is_ok()), "term");
    ok(catch_unwind(|| f.from_bytes::<AnyTask>(&b).is_ok()), "task");
    ok(catch_unwind(|| f.from_bytes::<AnyTaskResult>(&b).is_ok()), "result");
    ok(catch_unwind(|| f.from_bytes::<paladin::runtime::CommandIpc>(&b).is_ok()), "command");
    log.push(json!({"e": "end"}));
    true
}
