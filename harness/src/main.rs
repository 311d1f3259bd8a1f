mod alloc;
mod cx;
mod gen;
mod model;
mod obs;
mod props;
mod rng;
mod rows;
#[cfg(feature = "f_serde")]
mod tok;

use cx::*;
use std::io::Write;
use std::sync::atomic::Ordering::Relaxed;

pub fn arg(name: &str) -> Option<String> {
    let v: Vec<String> = std::env::args().collect();
    v.iter().position(|x| x == name).and_then(|i| v.get(i + 1).cloned())
}
pub fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            '\n' => o += "\\n",
            c if (c as u32) < 32 => o += &format!("\\u{:04x}", c as u32),
            c => o.push(c),
        }
    }
    o + "\""
}

fn main() {
    let av: Vec<String> = std::env::args().collect();
    if av.get(1).map(|x| x.as_str()) == Some("merge") {
        // number of distinct observations over several shards
        let mut v: Vec<u64> = vec![];
        for f in &av[2..] {
            let b = std::fs::read(f).unwrap_or_default();
            v.extend(b.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())));
        }
        v.sort_unstable();
        v.dedup();
        println!("{}", v.len());
        return;
    }
    let prop = arg("--prop").expect("--prop");
    let num = |k: &str, d: u64| arg(k).map(|x| x.parse().unwrap()).unwrap_or(d);
    let seed = num("--seed", 1);
    let (shard, shards) = (num("--shard", 0) as usize, num("--shards", 1) as usize);
    let secs = num("--secs", 30);
    let thorough = arg("--tier").as_deref() == Some("thorough");
    let trace = std::env::args().any(|x| x == "--trace");
    let out = arg("--out");
    if let Some(p) = arg("--poison") {
        alloc::POISON.store(p.parse().unwrap(), Relaxed);
    }
    std::panic::set_hook(Box::new(|i| {
        if cfg!(miri) && i.location().map_or(false, |l| l.file().starts_with("/repo/src/")) {
            // interpreted: keep it short
            if let Ok(mut g) = LAST_PANIC.try_lock() {
                g.clear();
                g.push_str("/repo/src/");
            }
            return;
        }
        if let Ok(mut g) = LAST_PANIC.try_lock() {
            let msg = i.payload().downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| i.payload().downcast_ref::<String>().cloned());
            let mut m: String = msg.unwrap_or_default();
            m = m.chars().take(300).collect();
            let mut at = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
            if cfg!(not(miri)) && !at.starts_with("/repo/src/") && !at.starts_with("src/") {
                // raised inside a library: whose call was it?
                let bt = std::backtrace::Backtrace::force_capture().to_string();
                let who = bt.lines().find(|l| l.contains("apint::") || l.contains("/repo/src/") || l.contains("harness::props") || l.contains("harness::obs"));
                if who.map_or(false, |l| !l.contains("harness::")) {
                    at = format!("{} called by apint, /repo/src/", at);
                }
            }
            *g = format!("{} ({})", m, at);
        }
        if std::env::var_os("HARNESS_PANICS").is_some() {
            eprintln!("{}", i);
        }
    }));
    let hang = num("--hang", 60);
    if cfg!(not(miri)) {
        let out = out.clone();
        std::thread::spawn(move || {
            // CPU time of this process, so that a loaded machine is no hang
            let cpu = || -> f64 {
                let s = std::fs::read_to_string("/proc/self/stat").unwrap_or_default();
                let v: Vec<&str> = s.rsplit(')').next().unwrap_or("").split_whitespace().collect();
                if v.len() < 13 { 0.0 } else { (v[11].parse::<f64>().unwrap_or(0.0) + v[12].parse::<f64>().unwrap_or(0.0)) / 100.0 }
            };
            let mut last = (u64::MAX, cpu());
            loop {
                std::thread::sleep(std::time::Duration::from_millis(500));
                let b = BEAT.load(Relaxed);
                if b != last.0 {
                    last = (b, cpu());
                } else if cpu() - last.1 >= hang as f64 {
                    let c = CURRENT.try_lock().map(|x| x.clone()).unwrap_or_default();
                    let j = format!("{{\"hang\":{}}}", esc(&format!("no call finished within {} s of processor time; at or within 64 calls after: {}", hang, c)));
                    if let Some(o) = &out {
                        let _ = std::fs::write(o, j);
                    }
                    std::process::exit(3);
                }
            }
        });
    }
    let mut cx = Cx::new(&prop, seed, shard, shards, thorough, secs, trace);
    if cfg!(not(miri)) {
        let n = model::self_test(&mut gen::R::new(seed ^ 0xABCD));
        cx.count("oracle_self_test_cases", n as u64);
    }
    let ran = match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| props::run(&mut cx))) {
        Ok(x) => x,
        Err(_) => {
            let p = last_panic();
            if !p.contains("/repo/src/") {
                eprintln!("harness panic: {}", p);
                std::process::exit(101);
            }
            cx.fail("panic", format!("a call with valid arguments panicked: {}", p));
            None
        }
    };
    if let Some(digest) = ran {
        // configuration comparison: the digest table is the result
        if let Some(o) = &out {
            std::fs::write(o, digest).unwrap();
        }
        std::process::exit(0);
    }
    if alloc::FAULTS.load(Relaxed) > 0 && !cx.bad() && prop == "C12" {
        cx.fail("heap fault", alloc::fault_name().into());
    }
    cx.count("heap_faults", alloc::FAULTS.load(Relaxed));
    cx.count("heap_blocks_checked_on_release", alloc::CHECKED.load(Relaxed));
    cx.count("observation_fallbacks", obs::ROUTE_FALLBACK.load(Relaxed));
    cx.count("channel_disagreements", obs::CHANNEL_DISAGREE.load(Relaxed));
    if let Some(o) = arg("--distinct") {
        let b: Vec<u8> = cx.distinct.iter().flat_map(|x| x.to_le_bytes()).collect();
        std::fs::write(o, b).unwrap();
    }
    let mut j = String::from("{");
    j += &format!("\"events\":{},\"distinct\":{},\"wall\":{:.3},", cx.events, cx.distinct.len(), cx.start.elapsed().as_secs_f64());
    j += "\"per_op\":{";
    j += &cx.per_op.iter().map(|(k, v)| if cfg!(miri) { format!("\"{}\":{}", k, v) } else { format!("{}:{}", esc(k), v) }).collect::<Vec<_>>().join(",");
    j += "},\"counters\":{";
    j += &cx.counters.iter().map(|(k, v)| format!("{}:{}", esc(k), v)).collect::<Vec<_>>().join(",");
    j += "},\"known\":[";
    j += &cx.known.iter().map(|k| esc(k)).collect::<Vec<_>>().join(",");
    j += "],\"samples\":[";
    j += &cx.samples.iter().map(|k| esc(k)).collect::<Vec<_>>().join(",");
    j += "],\"violation\":";
    j += &match &cx.violation {
        None => "null".to_string(),
        Some(v) => esc(&format!("{}: {}", v.what, v.detail)),
    };
    j += "}\n";
    match &out {
        Some(o) => std::fs::write(o, &j).unwrap(),
        None => std::io::stdout().write_all(j.as_bytes()).unwrap(),
    }
    std::process::exit(if cx.bad() { 1 } else { 0 });
}
