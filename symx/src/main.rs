#![allow(warnings)]
mod expr;
mod range;
mod exec;
mod ir;
mod par;
mod z3;
use std::collections::HashMap;
use std::time::Duration;

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn hex(b: &[u8]) -> String { b.iter().map(|x| format!("{:02x}", x)).collect() }
fn kv(v: &[(String, Vec<u8>)]) -> String {
    let x: Vec<String> = v.iter().map(|(n, b)| format!("[{},\"{}\"]", esc(n), hex(b))).collect();
    format!("[{}]", x.join(","))
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.len() < 3 { eprintln!("usage: symx FILE.ll ENTRY [k=v...]"); std::process::exit(3); }
    let mut cfg = exec::Cfg {
        entry: args[2].clone(), params: HashMap::new(), threads: 8, max_steps: 20_000_000, max_alloc: 1 << 20,
        deadline: Duration::from_secs(600), z3_timeout: 60000, max_viol: 8, nsamples: 24, verbose: false, mem_limit_mb: 0, verify_cache: false, exact: false,
    };
    let mut out = None;
    for a in &args[3..] {
        if a == "-v" { cfg.verbose = true; continue }
        let (k, v) = a.split_once('=').expect("k=v");
        match k {
            "--threads" => cfg.threads = v.parse().unwrap(),
            "--max-steps" => cfg.max_steps = v.parse().unwrap(),
            "--max-alloc" => cfg.max_alloc = v.parse().unwrap(),
            "--deadline" => cfg.deadline = Duration::from_secs(v.parse().unwrap()),
            "--verify-cache" => cfg.verify_cache = v == "1",
            "--z3-timeout" => cfg.z3_timeout = v.parse().unwrap(),
            "--max-viol" => cfg.max_viol = v.parse().unwrap(),
            "--samples" => cfg.nsamples = v.parse().unwrap(),
            "--exact" => cfg.exact = v == "1",
            "--out" => out = Some(v.to_string()),
            _ => { cfg.params.insert(k.to_string(), v.parse().expect("numeric param")); }
        }
    }
    let t0 = std::time::Instant::now();
    let m: &'static ir::Module = Box::leak(Box::new(ir::Module::load(&args[1], &exec::is_builtin)));
    let load = t0.elapsed();
    if !m.syms.contains_key(&args[2]) { eprintln!("no entry {}", args[2]); std::process::exit(3); }
    let sh: &'static exec::Shared = Box::leak(Box::new(exec::Shared::new(m, cfg)));
    let mut r = par::coordinate(sh);
    let el = sh.elapsed();
    let left = r.pending;
    if left == 0 && sh.shm.stopped() { r.pending = 1; }
    let exhausted = left == 0 && r.errors.is_empty() && !sh.shm.stopped();
    let mut fs: Vec<String> = r.funcs.iter().map(|i| { let d = &m.funcs[*i as usize]; if d.pretty.is_empty() { d.name.clone() } else { d.pretty.clone() } }).collect();
    fs.sort();
    fs.dedup();
    let mut j = String::from("{\n");
    j += &format!("\"entry\":{},\n\"exhausted\":{},\"timed_out\":{},\"pending\":{},\n", esc(&sh.cfg.entry), exhausted, sh.shm.timed_out(), left);
    j += &format!("\"paths\":{},\"cut\":{},\"branches\":{},\"forks\":{},\"queries\":{},\"solver_queries\":{},\"cache_hits\":{},\"range_decided\":{},\"solver_seconds\":{:.3},\"max_query_ms\":{},\"slow\":{},\"checks\":{},\"checks_by_solver\":{},\"instructions\":{},\"max_path_instructions\":{},\"unknown\":{},\"max_symbolic_bytes\":{},\"arena_restarts\":{},\"exact_text_redos\":{},\"wall_seconds\":{:.3},\"load_seconds\":{:.3},\n",
        r.paths, r.cut, r.branches, r.forks, r.queries, r.solver_queries, r.cache_hits, r.range_decided, r.solver_nanos as f64 / 1e9, r.max_query_ms, r.slow, r.checks, r.checks_solver, r.steps, r.max_path_steps, r.unknown, r.max_vars, r.arena_restarts, r.exact_redo, el.as_secs_f64(), load.as_secs_f64());
    j += "\"covers\":{";
    j += &r.covers.iter().map(|(k, v)| format!("{}:{}", esc(k), v)).collect::<Vec<_>>().join(",");
    j += "},\n\"errors\":{";
    j += &r.errors.iter().map(|(k, v)| format!("{}:{}", esc(k), v)).collect::<Vec<_>>().join(",");
    j += "},\n\"violation_counts\":{";
    j += &r.viol_counts.iter().map(|(k, v)| format!("{}:{}", esc(k), v)).collect::<Vec<_>>().join(",");
    j += "},\n\"violations\":[";
    j += &r.violations.iter().map(|v| format!("\n{{\"msg\":{},\"stack\":[{}],\"inputs\":{},\"log\":{}}}", esc(&v.msg),
        v.stack.iter().map(|x| esc(x)).collect::<Vec<_>>().join(","), kv(&v.inputs), kv(&v.log))).collect::<Vec<_>>().join(",");
    j += "],\n\"samples\":[";
    j += &r.samples.iter().map(|v| format!("\n{{\"inputs\":{},\"log\":{}}}", kv(&v.1), kv(&v.2))).collect::<Vec<_>>().join(",");
    j += "],\n\"functions\":[";
    j += &fs.iter().map(|x| esc(x)).collect::<Vec<_>>().join(",\n");
    j += "]\n}\n";
    match out { Some(p) => std::fs::write(p, &j).unwrap(), None => print!("{}", j) }
    eprintln!("symx {}: paths={} cut={} forks={} queries={} solver={} ({:.1}s) viol={:?} errors={:?} exhausted={} wall={:.1}s", sh.cfg.entry, r.paths, r.cut, r.forks, r.queries, r.solver_queries, r.solver_nanos as f64 / 1e9, r.viol_counts, r.errors, exhausted, el.as_secs_f64());
    use std::io::Write;
    std::io::stderr().flush().ok();
    std::process::exit(0);
}
