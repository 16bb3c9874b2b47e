mod checks;
mod engine;
mod big;
mod model;
mod mutate;
mod sel;

use engine::{orchestrate, run_worker, Tier, WorkerArgs};
use std::path::PathBuf;

fn tier(s: &str) -> Tier {
	if s == "thorough" {
		Tier::Thorough
	} else {
		Tier::Quick
	}
}

fn main() {
	let a: Vec<String> = std::env::args().collect();
	match a.get(1).map(|s| s.as_str()) {
		Some("worker") => {
			let f = checks::lookup(&a[2]).expect("check");
			run_worker(
				WorkerArgs {
					prop: a[2].clone(),
					tier: tier(&a[3]),
					shard: a[4].parse().unwrap(),
					nshards: a[5].parse().unwrap(),
					only: a[6].parse().ok(),
					fine: a[7] == "fine",
					progress: Some(PathBuf::from(&a[8])),
				},
				f.1,
			)
		}
		Some("check") => {
			let Some(f) = checks::lookup(&a[2]) else {
				eprintln!("unknown property {}", a[2]);
				std::process::exit(2)
			};
			let mut only = None;
			let mut i = 4;
			while i + 1 < a.len() {
				if a[i] == "--case" {
					only = a[i + 1].parse().ok();
				}
				i += 1;
			}
			std::process::exit(orchestrate(&a[2], tier(&a[3]), f.0, only))
		}
		_ => {
			eprintln!("usage: mc check <property> <quick|thorough> [--case N]");
			std::process::exit(2)
		}
	}
}
