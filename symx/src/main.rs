mod exec;
mod ll;
mod mem;
mod solver;
mod term;
mod val;
use std::collections::{BTreeMap, BTreeSet};

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)), c => o.push(c) }
    }
    o.push('"');
    o
}
fn hex(v: &[u8]) -> String { v.iter().map(|b| format!("{:02x}", b)).collect() }
fn jl(v: impl Iterator<Item = String>) -> String { format!("[{}]", v.collect::<Vec<_>>().join(",")) }

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let get = |k: &str| args.iter().position(|a| a == k).and_then(|i| args.get(i + 1)).cloned();
    let num = |k: &str, d: u64| get(k).map(|s| s.parse().expect("number")).unwrap_or(d);
    let file = args.get(1).expect("usage: symx FILE.ll --entry NAME").clone();
    let entry = get("--entry").expect("--entry");
    let case = num("--case", 0);
    let t0 = std::time::Instant::now();
    let h = std::thread::Builder::new().stack_size(2 << 30).spawn(move || {
        let args: Vec<String> = std::env::args().collect();
        let get = |k: &str| args.iter().position(|a| a == k).and_then(|i| args.get(i + 1)).cloned();
        let num = |k: &str, d: u64| get(k).map(|s| s.parse().expect("number")).unwrap_or(d);
        let m = ll::Module::load(&file);
        let load_s = t0.elapsed().as_secs_f64();
        let lim = exec::Limits {
            max_paths: num("--max-paths", 10_000_000), max_steps: num("--max-steps", 1_000_000_000_000), path_steps: num("--path-steps", 60_000_000), timeout: num("--timeout", 600) as f64,
            depth: num("--depth", 3000) as usize, max_alloc: num("--max-alloc", 64 << 20), max_heap: num("--max-heap", 96 << 20),
        };
        let mut e = exec::Engine::new(m, lim, num("--solver-ms", 60_000) as u32);
        e.max_viol = num("--max-violations", 1) as usize;
        e.no_output = args.iter().any(|a| a == "--no-output");
        e.text = args.iter().any(|a| a == "--text");
        if args.iter().any(|a| a == "--forks") { e.fork_prof = Some(Default::default()); }
        e.nsamples = num("--samples", 24) as usize;
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| e.run(&entry, case)));
        if let Err(p) = r {
            let msg = p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
            e.errors.push(format!("engine panic: {}", msg));
        }
        if let Some(p) = &e.fork_prof { let mut v: Vec<_> = p.iter().collect(); v.sort_by_key(|x| std::cmp::Reverse(*x.1)); for (k, n) in v.iter().take(12) { eprintln!("{n:8} {k}"); } }
        // executed source functions / lines
        let mut fns: BTreeSet<String> = BTreeSet::new();
        let mut lines: BTreeMap<String, BTreeSet<u32>> = BTreeMap::new();
        let root = get("--root").unwrap_or("/repo".into());
        let mut ids: BTreeSet<u32> = BTreeSet::new();
        for f in e.called.keys() { let _ = f; }
        e.collect_dbg(&mut ids);
        let mut n_ins = 0;
        for c in &e.covered { if *c { n_ins += 1; } }
        for id in ids {
            for (file, line, sub) in e.m.dbg_locs(id) {
                let (d, f) = file.split_once('|').unwrap_or(("", &file));
                let full = if f.starts_with('/') { f.to_string() } else { format!("{}/{}", d, f) };
                if let Some(r) = full.strip_prefix(&root) { let r = r.trim_start_matches('/').to_string(); if line > 0 { lines.entry(r).or_default().insert(line); } fns.insert(sub); }
            }
        }
        let status = if !e.violations.is_empty() { "violation" } else if !e.errors.is_empty() { "error" } else { "ok" };
        let s = &e.stats;
        println!("{{\"status\":{},\"entry\":{},\"case\":{},\"paths\":{},\"done\":{},\"pruned\":{},\"pending\":{},\"instructions\":{},\"static_instructions\":{},\"forks\":{},\"concretizations\":{},\"checks\":{},\"checks_solver\":{},\"branch_domain\":{},\"branch_solver\":{},\"domain_confirmed\":{},\"pc_confirmed\":{},\"solver_queries\":{},\"solver_cache_hits\":{},\"solver_s\":{:.3},\"solver_max_s\":{:.3},\"symbolic_bytes\":{},\"max_depth\":{},\"terms\":{},\"load_s\":{:.2},\"wall_s\":{:.2},\"llvm_functions\":{},\"labels\":{{{}}},\"errors\":{},\"violations\":{},\"functions\":{},\"lines\":{{{}}},\"samples\":{}}}",
            esc(status), esc(&entry), case, s.paths, s.done, s.pruned, e.pending(), s.steps, n_ins, s.forks, s.concretizations, s.checks, s.checks_solver, s.branch_domain, s.branch_solver, s.domain_confirmed, s.pc_confirmed, e.sol.queries, e.sol.cache_hits, e.sol.time, e.sol.max_time, s.max_vars, s.max_depth, e.cx.nodes.len(), load_s, t0.elapsed().as_secs_f64(), e.called.len(),
            e.labels.iter().map(|(k, v)| format!("{}:{}", esc(k), v)).collect::<Vec<_>>().join(","),
            jl(e.errors.iter().map(|x| esc(x))),
            jl(e.violations.iter().map(|v| format!("{{\"kind\":{},\"msg\":{},\"input\":{},\"alts\":{},\"stack\":{}}}", esc(&v.kind), esc(&v.msg), esc(&hex(&v.model)), jl(v.alts.iter().map(|a| esc(&hex(a)))), jl(v.stack.iter().map(|x| esc(x)))))),
            jl(fns.iter().map(|x| esc(x))),
            lines.iter().map(|(k, v)| format!("{}:{}", esc(k), jl(v.iter().map(|x| x.to_string())))).collect::<Vec<_>>().join(","),
            jl(e.samples.iter().map(|x| esc(&hex(x)))));
        use std::io::Write;
        std::io::stdout().flush().unwrap();
        std::process::exit(match status { "ok" => 0, "violation" => 1, _ => 2 });
    }).unwrap();
    let _ = case;
    let _ = h.join();
    std::process::exit(3);
}
