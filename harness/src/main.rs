//! Runs the real library and records what it does, for the specification to judge.
mod art;
mod catalog;
mod cli;
mod codec;
mod dict;
mod jsontext;
mod log;
mod rng;
mod scale;
mod session;
mod suites;

use std::collections::HashMap;

fn main() {
    // panics of the library are recorded where they are caught; those of the driver are worth seeing
    std::panic::set_hook(Box::new(|p| {
        if p.location().map_or(true, |l| l.file().starts_with("src/")) {
            eprintln!("driver: {p}");
        }
    }));
    let args: Vec<String> = std::env::args().skip(1).collect();
    let mut opts: HashMap<String, String> = HashMap::new();
    for a in &args[1..] {
        if let Some((k, v)) = a.split_once('=') {
            opts.insert(k.to_string(), v.to_string());
        }
    }
    let get = |k: &str, d: u64| opts.get(k).and_then(|v| v.parse().ok()).unwrap_or(d);
    let job = suites::Job {
        seed: get("seed", 1),
        shard: get("shard", 0),
        shards: get("shards", 1),
        scale: get("scale", 1) as usize,
        input: opts.get("in").cloned().unwrap_or_default(),
    };
    let muted: Vec<&str> = opts.get("mute").map_or(vec![], |m| m.split(',').collect());
    if let Some(path) = opts.get("dict") {
        dict::read(path);
    }
    let log = log::Log::create(opts.get("out").expect("out="), &muted);
    // deep recursion and large arenas are the library's business, not the test's
    let suite = args[0].clone();
    let stats = suites::run(&suite, &job, &log);
    log.flush();
    println!("STATS {stats}");
}
