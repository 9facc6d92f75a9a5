mod decode;
mod exec;
mod intr;
mod llvm;
mod mem;
mod merge;
mod term;
mod z3;
use std::collections::BTreeMap;
use std::fmt::Write;

unsafe extern "C" { fn fork() -> i32; fn waitpid(p: i32, st: *mut i32, o: i32) -> i32; fn _exit(c: i32) -> !; }

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() { match c { '"' => o += "\\\"", '\\' => o += "\\\\", '\n' => o += "\\n", c if (c as u32) < 32 => { let _ = write!(o, "\\u{:04x}", c as u32); } c => o.push(c) } }
    o + "\""
}
fn hex(b: &[u8]) -> String { b.iter().map(|x| format!("{x:02x}")).collect() }
fn list(v: &[String]) -> String { format!("[{}]", v.join(",")) }

struct Job { id: String, func: String, params: Vec<u64>, opts: BTreeMap<String, String> }

fn run_job(md: &mut decode::Module, j: &Job) -> String {
    let o = |k: &str, d: f64| j.opts.get(k).and_then(|x| x.parse().ok()).unwrap_or(d);
    let lim = exec::Limits { max_paths: o("paths", 20000.0) as u64, max_secs: o("secs", 300.0), max_steps: o("steps", 2e9) as u64, max_samples: o("samples", 40.0) as usize, max_violations: o("viol", 12.0) as usize };
    let t0 = std::time::Instant::now();
    let mut ex = exec::Exec::new(md, j.params.clone(), lim, (o("qtimeout", 60.0) * 1000.0) as u32);
    let r = ex.run_fn(&j.func);
    if let Err(e) = r { ex.errors.push(e); }
    let mut s = String::new();
    let _ = write!(s, "{{\"job\":{},\"func\":{},\"params\":{:?},", js(&j.id), js(&j.func), j.params);
    let _ = write!(s, "\"paths\":{},\"infeasible\":{},\"forks\":{},\"branches\":{},\"steps\":{},\"merges\":{},\"max_sym\":{},", ex.paths, ex.infeasible, ex.forks, ex.branches, ex.steps, ex.merges, ex.max_sym);
    let _ = write!(s, "\"checks_proved\":{},\"checks_trivial\":{},\"unknowns\":{},", ex.checks_proved, ex.checks_trivial, ex.unknowns);
    let _ = write!(s, "\"queries\":{},\"sat\":{},\"unsat\":{},\"z3_unknown\":{},\"solver_s\":{:.3},\"max_query_s\":{:.3},\"terms\":{},\"wall_s\":{:.3},", ex.z3.queries, ex.z3.sat, ex.z3.unsat, ex.z3.unknown, ex.z3.time, ex.z3.maxq, term::tm().nodes.len(), t0.elapsed().as_secs_f64());
    let _ = write!(s, "\"incomplete\":{},", list(&ex.incomplete.iter().map(|x| js(x)).collect::<Vec<_>>()));
    let _ = write!(s, "\"errors\":{},", list(&ex.errors.iter().map(|x| js(x)).collect::<Vec<_>>()));
    let _ = write!(s, "\"reached\":{{{}}},", ex.reached.iter().map(|(k, v)| format!("\"{k}\":{v}")).collect::<Vec<_>>().join(","));
    let _ = write!(s, "\"violations\":{},", list(&ex.violations.iter().map(|v| format!("{{\"kind\":{},\"msg\":{},\"input\":\"{}\",\"trace\":{}}}", js(&v.kind), js(&v.msg), hex(&v.input), list(&v.trace.iter().map(|x| js(x)).collect::<Vec<_>>()))).collect::<Vec<_>>()));
    let _ = write!(s, "\"samples\":{},", list(&ex.samples.iter().map(|p| format!("{{\"input\":\"{}\",\"obs\":\"{:016x}\",\"nobs\":{}}}", hex(&p.input), p.obs, p.nobs)).collect::<Vec<_>>()));
    if ex.verbose { let mut v: Vec<_> = ex.fork_sites.iter().collect(); v.sort_by_key(|x| std::cmp::Reverse(*x.1)); for (k, n) in v.iter().take(25) { eprintln!("FORK {n:6} {k}"); } }
    let lines = std::mem::take(&mut ex.lines);
    drop(ex);
    let mut per: BTreeMap<String, Vec<u32>> = BTreeMap::new();
    for (i, &b) in lines.iter().enumerate() { if b { let (f, l) = md.lines[i]; let f = &md.files[f as usize]; if f.contains("/repo/src/") { per.entry(f.clone()).or_default().push(l); } } }
    let mut v = vec![];
    for (f, mut l) in per { l.sort(); l.dedup(); v.push(format!("{}:{:?}", js(&f), l)); }
    let nf = md.funcs.iter().filter(|f| f.calls > 0).count();
    let _ = write!(s, "\"ir_functions\":{},\"lines\":{{{}}}}}", nf, v.join(","));
    s
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() < 5 { eprintln!("usage: llsym module.bc jobs.txt outdir parallelism"); std::process::exit(2); }
    let mut md = decode::Module::load(&a[1]);
    let mut jobs = vec![];
    for l in std::fs::read_to_string(&a[2]).unwrap().lines() {
        let p: Vec<&str> = l.split_whitespace().collect();
        if p.len() < 2 || p[0].starts_with('#') { continue; }
        let mut params = vec![];
        let mut opts = BTreeMap::new();
        for x in &p[2..] { if let Some((k, v)) = x.split_once('=') { opts.insert(k.to_string(), v.to_string()); } else { params.push(x.parse().unwrap()); } }
        jobs.push(Job { id: p[0].into(), func: p[1].into(), params, opts });
    }
    let par: usize = a[4].parse().unwrap();
    let out = &a[3];
    let _ = std::fs::create_dir_all(out);
    let run = |md: &mut decode::Module, j: &Job| {
        let s = run_job(md, j);
        std::fs::write(format!("{out}/{}.json", j.id), s).unwrap();
    };
    if par == 0 { for j in &jobs { run(&mut md, j); } return; }
    let mut live = 0;
    for j in &jobs {
        unsafe {
            if live >= par { let mut st = 0; waitpid(-1, &mut st, 0); live -= 1; }
            let p = fork();
            if p == 0 { run(&mut md, j); _exit(0); }
            live += 1;
        }
    }
    while live > 0 { unsafe { let mut st = 0; waitpid(-1, &mut st, 0); live -= 1; } }
}
