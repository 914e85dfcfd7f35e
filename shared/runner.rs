//! Native execution of contracts: `search <prefix> <seed> <millis>` or `replay <name> <hex>`.
use std::{collections::HashSet, io::{Seek, SeekFrom, Write}, sync::Mutex, time::{Duration, Instant}};

use crate::nd::{Outcome, run};

thread_local!(static LOCATION: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) });

fn hex(b: &[u8]) -> String {
    b.iter().map(|b| format!("{b:02x}")).collect()
}

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn list(v: &[String]) -> String {
    format!("[{}]", v.iter().map(|s| esc(&s.chars().take(400).collect::<String>())).collect::<Vec<_>>().join(","))
}

pub fn main(contracts: Vec<(&'static str, fn())>) {
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        LOCATION.with(|l| *l.borrow_mut() = loc);
    }));
    let args = std::env::args().collect::<Vec<_>>();
    match args.get(1).map(String::as_str) {
        Some("list") => {
            for (name, _) in contracts { println!("{name}"); }
        }
        Some("replay") => {
            let f = contracts.iter().find(|c| c.0 == args[2]).expect("unknown contract").1;
            let seed = args[3].strip_prefix("seed:").map(|s| s.parse::<u64>().unwrap());
            let data = seed.is_none().then(|| (0..args[3].len() / 2).map(|i| u8::from_str_radix(&args[3][2 * i..2 * i + 2], 16).unwrap()).collect());
            println!("running {} on {}", args[2], args[3]);
            let (out, _, notes) = run(f, seed.unwrap_or(0), data);
            for n in &notes { println!("input: {n}"); }
            match out {
                Outcome::Pass => { println!("holds on this input"); }
                Outcome::Rejected => { println!("input outside of the precondition"); }
                Outcome::Fail(m) => {
                    println!("violated: {m} (at {})", LOCATION.with(|l| l.borrow().clone()));
                    std::process::exit(1);
                }
            }
        }
        Some("search") => {
            let prefix = args[2].clone();
            let seed: u64 = args[3].parse().unwrap();
            let budget = Duration::from_millis(args[4].parse().unwrap());
            let mine = contracts.into_iter().filter(|c| c.0.starts_with(&prefix)).collect::<Vec<_>>();
            let threads = 8;
            // With fewer contracts than threads, several threads share a contract (with different cases).
            let shards = (threads / mine.len().max(1)).max(1) as u64;
            let mine = mine.into_iter().flat_map(|(n, f)| (0..if n.ends_with("__once") { 1 } else { shards }).map(move |s| (n, f, s)))
                .collect::<Vec<_>>();
            let mine = std::sync::Arc::new(mine);
            let next = std::sync::Arc::new(std::sync::atomic::AtomicUsize::new(0));
            let each = budget * threads as u32 / (mine.len().max(1) as u32);
            let current = std::sync::Arc::new(Mutex::new(vec![None::<(&'static str, u64, Instant)>; threads]));
            let journal = args.get(5).cloned();
            {
                // A contract that does not return within a generous limit is reported as such.
                let current = current.clone();
                std::thread::spawn(move || loop {
                    std::thread::sleep(Duration::from_millis(500));
                    for (name, case, start) in current.lock().unwrap().iter().flatten() {
                        if start.elapsed() > Duration::from_secs(20) && !name.ends_with("__once") {
                            println!("{{\"contract\":\"{name}\",\"runs\":1,\"rejected\":0,\"distinct\":0,\"samples\":[],\"fail\":{{\"message\":\"does not terminate within 20 s\",\"at\":\"\",\"input\":\"seed:{case}\",\"notes\":[]}}}}");
                            std::process::exit(0);
                        }
                    }
                });
            }
            let handles = (0..threads).map(|t| {
                let (mine, next, current) = (mine.clone(), next.clone(), current.clone());
                let mut journal = journal.as_ref().map(|j| std::fs::File::create(format!("{j}.{t}")).unwrap());
                std::thread::Builder::new().stack_size(64 << 20).spawn(move || loop {
                    let k = next.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                    let Some(&(name, f, shard)) = mine.get(k) else { break };
                    let start = Instant::now();
                    let (mut runs, mut rejected) = (0u64, 0u64);
                    let mut distinct = HashSet::new();
                    let mut samples = Vec::new();
                    let mut fail = None;
                    // `<name>__once` contracts enumerate their own cases.
                    let once = name.ends_with("__once");
                    while start.elapsed() < each && runs < 2_000_000 {
                        let case = seed.wrapping_mul(0x1000_0000_01b3) ^ runs.wrapping_mul(0x9e37_79b9) ^ (k as u64) << 40 ^ shard << 52;
                        current.lock().unwrap()[t] = Some((name, case, Instant::now()));
                        if let Some(j) = &mut journal {
                            // Survives an abort, so that the failing case can be named.
                            j.seek(SeekFrom::Start(0)).unwrap();
                            j.write_all(format!("{name} seed:{case} {:40}\n", "").as_bytes()).unwrap();
                        }
                        let (out, used, notes) = run(f, case, None);
                        current.lock().unwrap()[t] = None;
                        runs += 1;
                        match out {
                            Outcome::Pass => {
                                if distinct.len() < 200_000 { distinct.insert(used); }
                                if samples.len() < 2 && !notes.is_empty() { samples.extend(notes.into_iter().take(2)); }
                            }
                            Outcome::Rejected => rejected += 1,
                            Outcome::Fail(m) => {
                                let at = LOCATION.with(|l| l.borrow().clone());
                                fail = Some((m, at, used, notes));
                                break;
                            }
                        }
                        if once { break; }
                    }
                    if let Some(j) = &mut journal { j.set_len(0).unwrap(); }
                    let f = fail.map_or("null".to_owned(), |(m, at, used, notes)| format!(
                        "{{\"message\":{},\"at\":{},\"input\":\"{}\",\"notes\":{}}}", esc(&m), esc(&at), hex(&used), list(&notes)));
                    println!("{{\"contract\":\"{name}\",\"runs\":{runs},\"rejected\":{rejected},\"distinct\":{},\"samples\":{},\"fail\":{f}}}",
                        distinct.len(), list(&samples));
                }).unwrap()
            }).collect::<Vec<_>>();
            for h in handles { h.join().unwrap(); }
        }
        _ => panic!("usage: list | replay <contract> <hex> | search <prefix> <seed> <millis>"),
    }
}
