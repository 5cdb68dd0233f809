mod exec;
mod expr;
mod ir;
mod mem;
mod simp;
mod solver;

use exec::*;
use std::io::Write;
use std::time::{Duration, Instant};

extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, st: *mut i32, opt: i32) -> i32;
    fn mmap(a: *mut u8, n: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn _exit(c: i32) -> !;
    fn kill(pid: i32, sig: i32) -> i32;
}

fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}
fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}
fn clean(s: &str) -> String {
    s.replace(['\n', '\t'], " ")
}

fn ser(r: &Report, p: &str) {
    let mut o = String::new();
    let s = &r.solver;
    o += &format!(
        "n\t{}\t{}\t{}\t{}\t{}\t{}\t{}\t{}\t{}\t{}\t{}\t{}\t{}\t{}\t{}\t{}\n",
        r.paths,
        r.infeasible,
        r.steps,
        r.forks,
        r.asserts,
        r.asserts_solver,
        r.cover,
        r.dom_decisions,
        r.maxlen,
        s.queries,
        s.sat,
        s.unsat,
        s.unknown,
        s.cached,
        s.time,
        r.confirmed
    );
    for v in &r.violations {
        o += &format!("v\t{}\t{}\t{}\t{}\n", clean(&v.kind), clean(&v.msg), hex(&v.input), clean(&v.stack.join(" > ")));
    }
    for i in &r.incomplete {
        o += &format!("i\t{}\n", clean(i));
    }
    for t in &r.traces {
        o += &format!("t\t{}\t{}\n", hex(&t.input), t.obs.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","));
    }
    for f in &r.funcs {
        o += &format!("f\t{}\n", f);
    }
    o += "end\n";
    std::fs::write(p, o).unwrap();
}

fn merge(r: &mut Report, p: &str, max_traces: usize) -> bool {
    let t = match std::fs::read_to_string(p) {
        Ok(t) => t,
        Err(_) => return false,
    };
    if !t.ends_with("end\n") {
        return false;
    }
    for l in t.lines() {
        let f: Vec<&str> = l.split('\t').collect();
        match f[0] {
            "n" => {
                let g = |i: usize| f[i].parse::<u64>().unwrap();
                r.paths += g(1);
                r.infeasible += g(2);
                r.steps += g(3);
                r.forks += g(4);
                r.asserts += g(5);
                r.asserts_solver += g(6);
                r.cover |= g(7);
                r.dom_decisions += g(8);
                r.maxlen = r.maxlen.max(g(9));
                r.solver.queries += g(10);
                r.solver.sat += g(11);
                r.solver.unsat += g(12);
                r.solver.unknown += g(13);
                r.solver.cached += g(14);
                r.solver.time += f[15].parse::<f64>().unwrap();
                r.confirmed += g(16);
            }
            "v" => r.violations.push(Violation {
                kind: f[1].into(),
                msg: f[2].into(),
                input: unhex(f[3]),
                stack: f[4].split(" > ").map(|s| s.to_string()).collect(),
            }),
            "i" => {
                let s = f[1].to_string();
                if !r.incomplete.contains(&s) {
                    r.incomplete.push(s);
                }
            }
            "t" => {
                if r.traces.len() < max_traces {
                    r.traces.push(Trace {
                        input: unhex(f[1]),
                        obs: f[2].split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect(),
                    });
                }
            }
            "f" => {
                r.funcs.insert(f[1].parse().unwrap());
            }
            _ => {}
        }
    }
    true
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            c if (c as u32) < 32 => o += &format!("\\u{:04x}", c as u32),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let mut file = String::new();
    let mut entries: Vec<String> = vec![];
    let mut jobs = 8usize;
    let mut time = 120f64;
    let mut max_steps = 400_000_000u64;
    let mut out = String::new();
    let mut use_dom = true;
    let mut traces_every = 0u64;
    let mut max_traces = 16usize;
    let mut max_viol = 4usize;
    let mut confirm = 1u64;
    let mut smt_timeout = 20000u32;
    let mut trace_calls = false;
    let mut seed = 0u64;
    let mut dump = String::new();
    let mut i = 1;
    while i < args.len() {
        let a = args[i].as_str();
        let mut v = || {
            i += 1;
            args[i].clone()
        };
        match a {
            "--entry" => entries.push(v()),
            "--jobs" => jobs = v().parse().unwrap(),
            "--time" => time = v().parse().unwrap(),
            "--max-steps" => max_steps = v().parse().unwrap(),
            "--out" => out = v(),
            "--no-dom" => use_dom = false,
            "--traces-every" => traces_every = v().parse().unwrap(),
            "--max-traces" => max_traces = v().parse().unwrap(),
            "--max-violations" => max_viol = v().parse().unwrap(),
            "--confirm-every" => confirm = v().parse().unwrap(),
            "--smt-timeout-ms" => smt_timeout = v().parse().unwrap(),
            "--dump-smt" => dump = v(),
            "--seed" => seed = v().parse().unwrap(),
            "--trace-calls" => trace_calls = true,
            _ => file = a.to_string(),
        }
        i += 1;
    }
    let t0 = Instant::now();
    let text = std::fs::read_to_string(&file).expect("IR file");
    let m = ir::Module::load(text);
    let load_s = t0.elapsed().as_secs_f64();
    let deadline = Instant::now() + Duration::from_secs_f64(time);
    let o = Opts {
        max_steps,
        deadline,
        traces_every,
        max_traces,
        use_dom,
        max_violations: max_viol,
        seed,
        confirm_every: confirm,
    };
    let mut eng = Eng::new(m, solver::Solver::new(smt_timeout), o);
    eng.trace_calls = trace_calls;
    if !dump.is_empty() {
        eng.z.dump = Some(std::cell::RefCell::new(std::fs::File::create(&dump).unwrap()));
    }
    let mut js_entries = vec![];
    let mut bad = false;
    for en in &entries {
        let t1 = Instant::now();
        eng.rep = Report::default();
        eng.z.stats = Default::default();
        eng.work.clear();
        let st = eng.initial(en);
        eng.work.push_back(st);
        if jobs <= 1 {
            eng.run_all();
            eng.rep.solver = eng.z.stats.clone();
        } else {
            eng.spread(jobs * 24);
            eng.rep.solver = eng.z.stats.clone();
            if !eng.work.is_empty() && !eng.done() {
                let shared = unsafe { mmap(std::ptr::null_mut(), 4096, 3, 0x21, -1, 0) } as *const std::sync::atomic::AtomicU64;
                let ctr = unsafe { &*shared };
                let nviol = unsafe { &*shared.add(1) };
                let tmp = std::env::temp_dir().join(format!("symex-{}", std::process::id()));
                std::fs::create_dir_all(&tmp).unwrap();
                let mut pids = vec![];
                let _ = std::io::stdout().flush();
                let start: Vec<State> = eng.work.drain(..).collect();
                for w in 0..jobs {
                    let pid = unsafe { fork() };
                    if pid == 0 {
                        eng.rep = Report::default();
                        eng.z.stats = Default::default();
                        loop {
                            let k = ctr.fetch_add(1, std::sync::atomic::Ordering::SeqCst) as usize;
                            if k >= start.len() || nviol.load(std::sync::atomic::Ordering::SeqCst) as usize >= max_viol {
                                break;
                            }
                            eng.work.clear();
                            eng.work.push_back(start[k].clone());
                            let before = eng.rep.violations.len();
                            eng.run_all();
                            let d = eng.rep.violations.len() - before;
                            nviol.fetch_add(d as u64, std::sync::atomic::Ordering::SeqCst);
                            if eng.done() {
                                break;
                            }
                        }
                        eng.rep.solver = eng.z.stats.clone();
                        ser(&eng.rep, tmp.join(format!("{}", w)).to_str().unwrap());
                        unsafe { _exit(0) }
                    }
                    pids.push(pid);
                }
                for (w, pid) in pids.iter().enumerate() {
                    let mut s = 0;
                    unsafe { waitpid(*pid, &mut s, 0) };
                    if !merge(&mut eng.rep, tmp.join(format!("{}", w)).to_str().unwrap(), max_traces) {
                        eng.rep.incomplete.push(format!("worker {} ended abnormally (status {:#x})", w, s));
                    }
                }
                let _ = std::fs::remove_dir_all(&tmp);
                let _ = kill as usize;
            }
        }
        let r = &eng.rep;
        let wall = t1.elapsed().as_secs_f64();
        let mut funcs: Vec<String> = r.funcs.iter().map(|f| eng.fname(*f)).filter(|n| n.contains("laps")).collect();
        funcs.sort();
        funcs.dedup();
        let total_instr: usize = r.funcs.len();
        let mut e = String::new();
        e += &format!(
            "{{\"entry\":{},\"paths\":{},\"assumed_away\":{},\"steps\":{},\"forks\":{},\"asserts\":{},\"asserts_solver\":{},\"asserts_confirmed_raw\":{},\"cover\":{},\"dom_decisions\":{},\"queries\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"cached\":{},\"solver_s\":{:.3},\"wall_s\":{:.2},\"functions_executed\":{},\"max_path_steps\":{}",
            js(en), r.paths, r.infeasible, r.steps, r.forks, r.asserts, r.asserts_solver, r.confirmed, r.cover, r.dom_decisions, r.solver.queries, r.solver.sat, r.solver.unsat, r.solver.unknown, r.solver.cached, r.solver.time, wall, total_instr, r.maxlen
        );
        e += &format!(",\"functions\":[{}]", funcs.iter().map(|f| js(f)).collect::<Vec<_>>().join(","));
        e += &format!(",\"incomplete\":[{}]", r.incomplete.iter().map(|f| js(f)).collect::<Vec<_>>().join(","));
        e += &format!(
            ",\"violations\":[{}]",
            r.violations
                .iter()
                .map(|v| format!(
                    "{{\"kind\":{},\"msg\":{},\"input\":{},\"stack\":[{}]}}",
                    js(&v.kind),
                    js(&v.msg),
                    js(&hex(&v.input)),
                    v.stack.iter().map(|s| js(s)).collect::<Vec<_>>().join(",")
                ))
                .collect::<Vec<_>>()
                .join(",")
        );
        e += &format!(
            ",\"traces\":[{}]}}",
            r.traces
                .iter()
                .map(|t| format!("{{\"input\":{},\"obs\":[{}]}}", js(&hex(&t.input)), t.obs.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")))
                .collect::<Vec<_>>()
                .join(",")
        );
        eprintln!(
            "{}: {} paths, {} forks, {} steps, {} asserts, {} queries ({:.2}s solver), {} violations, {:.2}s{}",
            en,
            r.paths,
            r.forks,
            r.steps,
            r.asserts,
            r.solver.queries,
            r.solver.time,
            r.violations.len(),
            wall,
            if r.incomplete.is_empty() { String::new() } else { format!(", INCOMPLETE {:?}", r.incomplete) }
        );
        for v in r.violations.iter().take(3) {
            eprintln!("  {} {} input={} stack: {}", v.kind, v.msg, hex(&v.input), v.stack.join(" > "));
        }
        bad |= !r.violations.is_empty() || !r.incomplete.is_empty();
        js_entries.push(e);
    }
    let body = format!("{{\"load_s\":{:.2},\"entries\":[{}]}}\n", load_s, js_entries.join(",\n"));
    if out.is_empty() {
        print!("{}", body);
    } else {
        std::fs::write(&out, body).unwrap();
    }
    std::process::exit(if bad { 1 } else { 0 });
}
