//! What the generated programs (bin/props/c21.py) have in common.  There are
//! no operations in this crate.
use std::{
    io::{BufRead, Write},
    sync::{Arc, Mutex},
};

use futures::{future::BoxFuture, FutureExt, StreamExt};
use paladin::{
    directive::{Directive, IndexedStream},
    operation::Operation,
    runtime::Runtime,
    serializer::Serializer,
    task::{AnyTask, AnyTaskOutput, Task, TaskOutput},
};
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub struct Val {
    pub k: u64,
    pub op: u64,
    pub f: u64,
}

static LOG: Mutex<Vec<Value>> = Mutex::new(Vec::new());

fn push(v: Value) {
    LOG.lock().unwrap().push(v);
}

/// Called by the body of operation `op`.
pub fn ran(op: u64, f: u64, k: u64) -> Val {
    push(json!({"e": "ran", "k": k, "op": op, "f": f}));
    Val { k, op, f }
}

type Build = Box<dyn Fn(u64, u64, Serializer) -> AnyTask + Send + Sync>;
type Back = Box<dyn Fn(AnyTaskOutput) -> anyhow::Result<(u64, Val)> + Send + Sync>;
type Direct =
    Box<dyn Fn(u64, Vec<u64>, Arc<Runtime>) -> BoxFuture<'static, Vec<anyhow::Result<Val>>> + Send + Sync>;

/// An operation as the programs use it.
pub struct Entry {
    build: Build,
    back: Back,
    direct: Direct,
}

pub fn entry<Op>(make: fn(u64) -> Op, input: fn(u64) -> Op::Input) -> Entry
where
    Op: Operation<Output = Val> + 'static,
    Op::Input: 'static,
{
    Entry {
        build: Box::new(move |f, k, serializer| {
            Task {
                routing_key: "r".into(),
                metadata: k,
                op: &make(f),
                input: input(k),
            }
            .as_any_task(serializer)
            .unwrap()
        }),
        back: Box::new(|any| {
            let out: TaskOutput<Op, u64> = any.try_into()?;
            Ok((out.metadata, out.output))
        }),
        direct: Box::new(move |f, ks, runtime| {
            async move {
                let op = make(f);
                let stream = IndexedStream::from(ks.into_iter().map(input).collect::<Vec<_>>());
                let result = Directive::map(stream, &op).run(&runtime).await;
                let answers: Vec<_> = match result {
                    Err(e) => vec![Err(e)],
                    Ok(s) => StreamExt::map(s, |r| r.map(|(_, v)| v)).collect().await,
                };
                answers
            }
            .boxed()
        }),
    }
}

fn serializer(n: u64) -> Serializer {
    if n % 2 == 0 {
        Serializer::Postcard
    } else {
        Serializer::Cbor
    }
}

async fn execute(entry: &Entry, k: u64, task: AnyTask) {
    match task.remote_execute(None).await {
        Err(e) => push(json!({"e": "fail", "k": k, "how": format!("{e:?}")})),
        Ok(any) => match (entry.back)(any) {
            Err(e) => push(json!({"e": "fail", "k": k, "how": format!("{e:?}")})),
            Ok((m, v)) if m == v.k => push(json!({"e": "out", "k": v.k, "op": v.op, "f": v.f})),
            Ok(x) => push(json!({"e": "fail", "k": k, "how": format!("{x:?}")})),
        },
    }
}

fn lines(path: &str) -> Vec<Value> {
    std::io::BufReader::new(std::fs::File::open(path).unwrap())
        .lines()
        .map(|l| serde_json::from_str(&l.unwrap()).unwrap())
        .collect()
}

/// `lab stim out`: the calls of each script, tasks executed one after another
/// (`direct`), all at once (`join`), on a runtime (`runtime`), or - in the
/// binary that executes - tasks that another binary wrote (`remote`).
/// `write`: the tasks of the scripts, for another binary.
pub fn main(entries: Vec<Entry>) {
    let args: Vec<String> = std::env::args().collect();
    let scripts = lines(&args[2]);
    let mut out = std::io::BufWriter::new(std::fs::File::create(&args[3]).unwrap());
    let tokio = tokio::runtime::Builder::new_multi_thread()
        .worker_threads(4)
        .enable_all()
        .build()
        .unwrap();
    let runtime = Arc::new(tokio.block_on(Runtime::in_memory()).unwrap());
    let mut hung = false;
    for mut script in scripts {
        let calls: Vec<(u64, u64, usize)> = script["calls"]
            .as_array()
            .unwrap()
            .iter()
            .enumerate()
            .map(|(k, c)| (k as u64, c["f"].as_u64().unwrap(), c["op"].as_u64().unwrap() as usize))
            .collect();
        if args[1] == "write" {
            let tasks: Vec<_> = calls
                .iter()
                .map(|&(k, f, op)| (entries[op - 1].build)(f, k, serializer(k)))
                .collect();
            script["tasks"] = serde_json::to_value(&tasks).unwrap();
            writeln!(out, "{script}").unwrap();
            continue;
        }
        // One run that does not end is enough.
        if hung {
            continue;
        }
        LOG.lock().unwrap().clear();
        for &(k, f, op) in &calls {
            push(json!({"e": "call", "k": k, "op": op, "f": f}));
        }
        tokio.block_on(async {
            let via = script["via"].as_str().unwrap();
            let given: Option<Vec<AnyTask>> = script
                .get("tasks")
                .map(|t| serde_json::from_value(t.clone()).unwrap());
            let task = |&(k, f, op): &(u64, u64, usize)| match &given {
                Some(t) => t[k as usize].clone(),
                None => (entries[op - 1].build)(f, k, serializer(k)),
            };
            match via {
                "direct" => {
                    for c in &calls {
                        execute(&entries[c.2 - 1], c.0, task(c)).await;
                    }
                }
                "join" => {
                    futures::future::join_all(
                        calls.iter().map(|c| execute(&entries[c.2 - 1], c.0, task(c))),
                    )
                    .await;
                }
                _ => {
                    let mut groups: Vec<(u64, usize, Vec<u64>)> = vec![];
                    for &(k, f, op) in &calls {
                        match groups.iter_mut().find(|g| (g.0, g.1) == (f, op)) {
                            Some(g) => g.2.push(k),
                            None => groups.push((f, op, vec![k])),
                        }
                    }
                    futures::future::join_all(groups.into_iter().map(|(f, op, ks)| {
                        let runtime = runtime.clone();
                        let direct = &entries[op - 1].direct;
                        async move {
                            let k = ks[0];
                            let all = (direct)(f, ks, runtime);
                            let limit = std::time::Duration::from_secs(15);
                            match tokio::time::timeout(limit, all).await {
                                Err(_) => push(json!({"e": "fail", "k": k, "how": "no end"})),
                                Ok(vs) => {
                                    for v in vs {
                                        match v {
                                            Ok(v) => push(json!({"e": "out", "k": v.k, "op": v.op, "f": v.f})),
                                            Err(e) => push(json!({"e": "fail", "k": k, "how": format!("{e:?}")})),
                                        }
                                    }
                                }
                            }
                        }
                    }))
                    .await;
                }
            }
        });
        push(json!({"e": "end"}));
        hung = LOG.lock().unwrap().iter().any(|e| e["how"] == "no end");
        let ev = std::mem::take(&mut *LOG.lock().unwrap());
        writeln!(out, "{}", json!({"id": script["id"], "ev": ev})).unwrap();
    }
    out.flush().unwrap();
    println!("{{}}");
    std::process::exit(0);
}
