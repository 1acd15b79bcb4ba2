mod choices;
mod code;
mod engine;
mod gen;
mod props;
mod refs;
mod supervisor;
mod ts;

use engine::{Outcome, Prop, ShardArgs};
use serde_json::Value;
use std::path::Path;

/// Everything the driver needs to know about a property, type-erased.
pub struct Entry {
    pub id: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub shards: u32,
    pub shard: fn(&ShardArgs, &Path) -> Value,
    pub replay: fn(&Value) -> Result<Outcome, String>,
    pub decode: fn(&[u32]) -> Value,
    pub show: fn(&Value) -> Value,
}

fn entry<P: Prop>() -> Entry {
    Entry {
        id: P::ID,
        rule: P::RULE,
        assumptions: P::ASSUMPTIONS,
        shards: P::SHARDS,
        shard: engine::shard::<P>,
        replay: engine::replay::<P>,
        decode: engine::decode::<P>,
        show: |v| match serde_json::from_value::<P::Case>(v.clone()) {
            Ok(c) => P::show(&c),
            Err(_) => v.clone(),
        },
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let code = match args.get(1).map(String::as_str) {
        Some("check") => supervisor::check(&args[2]),
        Some("shard") => supervisor::shard_main(&args[2..]),
        Some("one") => supervisor::one_main(&args[2..]),
        Some("decode") => supervisor::decode_main(&args[2..]),
        Some("replay") => supervisor::replay_main(&args[2]),
        Some("dump") => props::c23::dump_main(),
        Some("list") => {
            for e in props::all() {
                println!("{}", e.id);
            }
            0
        }
        _ => {
            eprintln!("usage: vharness check ID | replay FILE | list");
            2
        }
    };
    std::process::exit(code);
}
