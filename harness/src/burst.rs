//! Publishers and consumers of one in-memory queue going at full speed
//! (C01, C02, C03).
//!
//! A burst is far too long to be judged as a whole, but leaving messages out
//! of a run of a queue leaves a run of a queue. So each burst is cut into
//! windows of a few consecutive messages of every publisher; what the
//! consumers saw of a window is one observation, and the distinct
//! observations are recorded. As all publishers were at it at the same time,
//! any order of messages of different publishers will do.
use std::{
    collections::BTreeSet,
    sync::{
        atomic::{AtomicBool, Ordering},
        Arc, Barrier,
    },
};

use futures::{executor::block_on, FutureExt, StreamExt};
use paladin::queue::{in_memory::InMemoryConnection, Connection, Publisher, QueueHandle};
use serde_json::{json, Value};

use crate::{
    queues::{options, serializer},
    util::Log,
};

const WINDOW: u64 = 2;

/// script: {cfg: {synd, deliv, ser}, rounds, publishers, n, consumers, late}
/// `late`: the consumers look only when everything has been published.
pub fn script(s: &Value, log: &Arc<Log>) -> bool {
    let get = |k: &str| s[k].as_u64().unwrap();
    let (publishers, n, consumers) = (get("publishers"), get("n"), get("consumers"));
    let once = s["cfg"]["synd"] == "once";
    let mut seen = BTreeSet::new();
    for round in 0..get("rounds") {
        let conn = InMemoryConnection::new(serializer(&s["cfg"]));
        let q = block_on(conn.declare_queue(&format!("q{round}"), options(&s["cfg"]))).unwrap();
        let gate = Arc::new(Barrier::new((publishers + consumers) as usize));
        let over = Arc::new(AtomicBool::new(s["late"] == true));
        let readers: Vec<_> = (0..consumers)
            .map(|c| {
                let name = if once { "n".to_string() } else { format!("{}", c + 1) };
                let mut consumer = block_on(q.declare_consumer::<u64>(&name)).unwrap();
                let (gate, over) = (gate.clone(), over.clone());
                std::thread::spawn(move || {
                    let mut got = vec![];
                    gate.wait();
                    while !over.load(Ordering::SeqCst) {
                        match consumer.next().now_or_never() {
                            Some(Some((m, _))) => got.push(m),
                            Some(None) => break,
                            None => std::thread::yield_now(),
                        }
                    }
                    (consumer, got)
                })
            })
            .collect();
        let writers: Vec<_> = (0..publishers)
            .map(|p| {
                let (publisher, gate) = (q.publisher::<u64>(), gate.clone());
                std::thread::spawn(move || {
                    gate.wait();
                    (0..n).all(|i| block_on(publisher.publish(&(p * n + i))).is_ok())
                })
            })
            .collect();
        let ok = writers.into_iter().all(|w| w.join().unwrap_or(false));
        over.store(true, Ordering::SeqCst);
        let mut got = vec![];
        for r in readers {
            let Ok((mut consumer, mut mine)) = r.join() else {
                log.push(json!({"e": "panic"}));
                return true;
            };
            while let Some(Some((m, _))) = consumer.next().now_or_never() {
                mine.push(m);
            }
            got.push(mine);
        }
        if !ok {
            log.push(json!({"e": "panic"}));
            return true;
        }
        let windows = n / WINDOW;
        // observation: per window, what each consumer got, as <publisher, place in the window>
        let mut views = vec![vec![vec![]; consumers as usize]; windows as usize + 1];
        for (c, mine) in got.iter().enumerate() {
            for m in mine {
                let (p, i) = (m / n, m % n);
                let w = if p < publishers { (i / WINDOW).min(windows) } else { windows };
                views[w as usize][c].push((p, i % WINDOW));
            }
        }
        views.truncate(windows as usize + (!views[windows as usize].iter().all(|v| v.is_empty())) as usize);
        for mut v in views {
            for mine in &mut v {
                mine.sort_by_key(|x| x.0); // stable
            }
            if once && v.iter().all(|mine| mine.windows(2).all(|x| x[0] < x[1])) {
                // who took what is up to the queue
                let mut all = v.concat();
                all.sort();
                v.iter_mut().for_each(|mine| mine.clear());
                v[0] = all;
            }
            if seen.len() < 6 {
                seen.insert(v);
            }
        }
    }
    for c in 1..=consumers {
        let name = if once { "n".to_string() } else { c.to_string() };
        log.push(json!({"e": "substart", "c": c, "n": name}));
        log.push(json!({"e": "subend", "c": c, "n": name, "w": []}));
    }
    let mut base = 0;
    for view in seen {
        let number = |x: (u64, u64)| if x.0 < publishers { base + x.0 * WINDOW + x.1 + 1 } else { 999_999 };
        for p in 0..publishers {
            for i in 0..WINDOW {
                let m = number((p, i));
                log.push(json!({"e": "pubstart", "p": p + 1, "m": m}));
                log.push(json!({"e": "pubend", "p": p + 1, "m": m, "ok": true, "w": []}));
            }
        }
        let mut left: Vec<std::collections::VecDeque<u64>> =
            view.into_iter().map(|v| v.into_iter().map(number).collect()).collect();
        // in the order of publication as far as each consumer's own order allows
        while let Some((m, c)) = left.iter().enumerate().filter_map(|(c, l)| Some((*l.front()?, c))).min() {
            left[c].pop_front();
            log.push(json!({"e": "pollinv", "c": c + 1}));
            log.push(json!({"e": "pollres", "c": c + 1, "m": m}));
        }
        base += publishers * WINDOW;
    }
    log.push(json!({"e": "quiet"}));
    log.push(json!({"e": "drained"}));
    true
}
