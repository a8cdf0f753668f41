//! Drives the real code of /repo through schedules generated from the
//! specifications in /verif/specs and records what it does.
//!
//! usage: vp-harness LAB STIMULI OUT
mod amqp;
mod broker;
mod bulk;
mod burst;
mod codec;
mod config;
mod contig;
mod coord;
mod leader;
mod publish_all;
mod queues;
mod registry;
mod retry;
mod sched;
mod util;
mod worker;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let (lab, stimuli, out) = (args[1].as_str(), args[2].as_str(), args[3].as_str());
    // The output of panics of the code under test is data, not noise for the terminal.
    std::panic::set_hook(Box::new(|_| {}));
    match lab {
        "queues" => util::run_scripts(stimuli, out, 6, queues::script),
        "config" => util::run_scripts(stimuli, out, 1, config::script),
        "bulk" => util::run_scripts(stimuli, out, 2, bulk::script),
        "burst" => util::run_scripts(stimuli, out, 1, burst::script),
        "queues-stress" => util::run_scripts(stimuli, out, 2, queues::stress),
        "registry" => util::run_scripts(stimuli, out, 6, registry::script),
        "registry-race" => util::run_scripts(stimuli, out, 1, registry::race),
        "codec" => util::run_scripts(stimuli, out, 6, codec::script),
        "garbage" => util::run_scripts(stimuli, out, 6, codec::garbage),
        "coord" => util::run_scripts(stimuli, out, 6, coord::script),
        "coord-stress" => util::run_scripts(stimuli, out, 2, coord::stress),
        "composed" => util::run_scripts(stimuli, out, 6, coord::composed),
        "coord-acks" => util::run_scripts(stimuli, out, 1, coord::acks),
        "contig" => util::run_scripts(stimuli, out, 6, contig::script),
        "contig-stress" => util::run_scripts(stimuli, out, 2, contig::stress),
        "publish-all" => util::run_scripts(stimuli, out, 6, publish_all::script),
        "retry" => util::run_scripts(stimuli, out, 6, retry::script),
        "worker-threads" => util::run_scripts(stimuli, out, 2, worker::threads),
        "worker" => util::run_scripts(stimuli, out, 6, worker::script),
        "leader" => util::run_scripts(stimuli, out, 7, leader::script),
        "amqp-directives" => util::run_scripts(stimuli, out, 4, amqp::directives),
        "amqp-queue" => util::run_scripts(stimuli, out, 6, amqp::queue),
        "directives" => util::run_scripts(stimuli, out, 3, leader::real),
        other => {
            eprintln!("no such lab: {other}");
            std::process::exit(2)
        }
    }
}
