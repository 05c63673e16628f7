mod exec;
mod ext;
mod ir;
mod mem;
mod val;
mod z3;
use exec::*;
use std::io::Write;
use std::time::{Duration, Instant};

extern "C" {
    fn fork() -> i32;
    fn waitpid(p: i32, s: *mut i32, o: i32) -> i32;
    fn kill(p: i32, s: i32) -> i32;
    fn mmap(a: *mut u8, l: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
    fn _exit(c: i32) -> !;
}

fn js(s: &str) -> String { let mut o = String::from("\""); for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), c if (c as u32) < 32 => o.push(' '), c => o.push(c) } } o.push('"'); o }

/// line based result of a worker: "key value..."
fn dump(m: &Machine, mo: &ir::Module) -> String {
    let mut o = String::new();
    let s = &m.st;
    let z = &m.solver.st;
    o.push_str(&format!("N {} {} {} {} {} {} {}\nM {}\n", s.paths, s.killed, s.splits, s.instrs, s.asserts, s.assert_queries, s.unknown, s.max_steps));
    o.push_str(&format!("Z {} {} {} {} {} {} {} {}\n", z.queries, z.nl_queries, z.sat, z.unsat, z.unknown, z.time, z.max_time, m.pool_hits));
    for (k, v) in &s.reach { o.push_str(&format!("R {} {}\n", k, v)); }
    for f in &s.funcs { o.push_str(&format!("F {}\n", mo.funcs[*f].name)); }
    for v in &m.violations { o.push_str(&format!("V {} {}\n", v.kind.replace(' ', "_"), v.inputs.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","))); }
    for e in &m.errors { o.push_str(&format!("E {}\n", e.replace('\n', " | "))); }
    for t in &m.traces { let j = |v: &Vec<i64>| if v.is_empty() { "-".to_string() } else { v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",") }; o.push_str(&format!("T {} {} {}\n", j(&t.inputs), j(&t.obs), j(&t.reach))); }
    for (k, v) in &s.prof { o.push_str(&format!("P {} {}\n", v, k)); }
    o
}

fn main() {
    // deep recursion is possible when dropping long path lists
    let h = std::thread::Builder::new().stack_size(512 << 20).spawn(real).unwrap();
    let c = h.join().unwrap_or(3);
    std::process::exit(c);
}

/// a defect of the executor itself leaves its path undecided
fn guarded(m: &mut Machine, s: State, o: &mut Vec<State>, bfs: bool) {
    if let Err(e) = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| m.run(s, o, bfs))) {
        let t = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|x| x.to_string())).unwrap_or_default();
        m.errors.push(format!("executor: {}", t.replace('\n', " ")));
    }
}

fn real() -> i32 {
    let mut args: Vec<String> = std::env::args().skip(1).collect();
    let mut opt = |k: &str| -> Option<String> { let i = args.iter().position(|a| a == k)?; args.remove(i); Some(args.remove(i)) };
    let ll = opt("--ll").expect("--ll");
    let func = opt("--fn").expect("--fn");
    let procs: usize = opt("-j").map(|x| x.parse().unwrap()).unwrap_or(8);
    let budget: f64 = opt("--time").map(|x| x.parse().unwrap()).unwrap_or(600.0);
    let qto: u32 = opt("--qtimeout").map(|x| x.parse().unwrap()).unwrap_or(60000);
    let out = opt("--out");
    let conc = opt("--concrete");
    let maxtrace: usize = opt("--traces").map(|x| x.parse().unwrap()).unwrap_or(24);
    let dumpq = opt("--dumpq");
    let maxviol: u64 = opt("--maxviol").map(|x| x.parse().unwrap()).unwrap_or(8);
    let frontier_n: usize = opt("--frontier").map(|x| x.parse().unwrap()).unwrap_or(128);
    let pin: Vec<Option<i64>> = opt("--pin").map(|p| p.split(',').map(|x| x.parse().ok()).collect()).unwrap_or_default();
    let step_limit: u64 = opt("--steps").map(|x| x.parse().unwrap()).unwrap_or(400_000_000);
    let prof = args.iter().any(|a| a == "--prof");
    let verbose = args.iter().any(|a| a == "-v");
    let t0 = Instant::now();
    let module: &'static ir::Module = Box::leak(Box::new(ir::Module::load(&ll)));
    let tload = t0.elapsed().as_secs_f64();
    let mut m = Machine::new(module, qto);
    m.pin = pin.clone();
    m.prof = prof;
    m.step_limit = step_limit;
    m.deadline = Some(t0 + Duration::from_secs_f64(budget + 30.0));
    m.verbose = verbose;
    m.max_trace = maxtrace;
    if let Some(d) = &dumpq { m.solver.dump = Some((d.into(), 500, 0)); }
    if let Some(c) = conc {
        m.concrete = Some(c.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect());
        m.max_trace = 1;
        let st = m.init(&func);
        let mut o = vec![];
        m.run(st, &mut o, false);
        for t in &m.traces { for x in &t.obs { println!("OBS {}", x); } for x in &t.reach { println!("REACH {}", x); } }
        for v in &m.violations { println!("VIOL {} {:?}", v.kind, v.inputs); }
        for e in &m.errors { println!("ERROR {}", e); }
        println!("instrs {}", m.st.instrs);
        return if m.errors.is_empty() { 0 } else { 2 };
    }
    // phase 1: breadth-first until the frontier is large enough
    let st0 = m.init(&func);
    let mut q: std::collections::VecDeque<State> = Default::default();
    q.push_back(st0);
    let mut incomplete = false;
    while !q.is_empty() && q.len() < frontier_n {
        if t0.elapsed().as_secs_f64() > budget { incomplete = true; break; }
        let s = q.pop_front().unwrap();
        let mut o = vec![];
        guarded(&mut m, s, &mut o, true);
        for x in o { q.push_back(x); }
        if m.violations.len() as u64 >= maxviol { break; }
        if m.errors.len() >= 5 { break; }
    }
    let tfront = t0.elapsed().as_secs_f64();
    let frontier: Vec<State> = q.into_iter().collect();
    let mut outs = vec![dump(&m, module)];
    let nfront = frontier.len();
    if !frontier.is_empty() && (m.violations.len() as u64) < maxviol && m.errors.len() < 5 && !incomplete {
        // phase 2: worker processes share the frontier through an atomic counter
        let shm = unsafe { mmap(std::ptr::null_mut(), 4096, 3, 0x21, -1, 0) } as *const std::sync::atomic::AtomicU64;
        let ctr = unsafe { &*shm };
        let viol = unsafe { &*shm.add(1) };
        let np = procs.min(nfront);
        let mut kids = vec![];
        let dir = std::env::temp_dir().join(format!("symx_{}", std::process::id()));
        std::fs::create_dir_all(&dir).unwrap();
        for k in 0..np {
            let pid = unsafe { fork() };
            if pid == 0 {
                let mut w = Machine::new(module, qto);
                w.pin = pin.clone();
                w.prof = prof;
                w.step_limit = step_limit;
                w.deadline = m.deadline;
                w.max_trace = maxtrace.div_ceil(np).max(1);
                w.trace_every = 7;
                w.next_id = m.next_id + 1_000_000_000 * (k as u64 + 1);
                if let Some(d) = &dumpq { w.solver.dump = Some((d.into(), 500, 0)); }
                let mut inc = false;
                'outer: loop {
                    let i = ctr.fetch_add(1, std::sync::atomic::Ordering::SeqCst) as usize;
                    if i >= nfront { break; }
                    let mut stack = vec![frontier[i].clone()];
                    while let Some(s) = stack.pop() {
                        if t0.elapsed().as_secs_f64() > budget { inc = true; break 'outer; }
                        if viol.load(std::sync::atomic::Ordering::SeqCst) >= maxviol { inc = true; break 'outer; }
                        if w.errors.len() >= 5 { inc = true; break 'outer; }
                        let nv = w.violations.len();
                        guarded(&mut w, s, &mut stack, false);
                        let d = w.violations.len() - nv;
                        if d > 0 { viol.fetch_add(d as u64, std::sync::atomic::Ordering::SeqCst); }
                    }
                }
                let mut s = dump(&w, module);
                if inc { s.push_str("I\n"); }
                s.push_str("END\n");
                let mut f = std::fs::File::create(dir.join(format!("{}", k))).unwrap();
                f.write_all(s.as_bytes()).unwrap();
                drop(f);
                unsafe { _exit(0) };
            }
            kids.push(pid);
        }
        let deadline = t0 + Duration::from_secs_f64(budget + 90.0);
        for (k, p) in kids.iter().enumerate() {
            loop {
                let mut s = 0;
                let r = unsafe { waitpid(*p, &mut s, 1) };
                if r != 0 { break; }
                if Instant::now() > deadline { unsafe { kill(*p, 9) }; }
                std::thread::sleep(Duration::from_millis(5));
            }
            let t = std::fs::read_to_string(dir.join(format!("{}", k))).unwrap_or_default();
            if !t.ends_with("END\n") { outs.push("E worker died\nI\n".into()); }
            outs.push(t);
        }
        let _ = std::fs::remove_dir_all(&dir);
    }
    // merge
    let mut n = [0u64; 7];
    let mut z = [0f64; 8];
    let mut reach: std::collections::BTreeMap<i64, u64> = Default::default();
    let mut funcs: std::collections::BTreeSet<String> = Default::default();
    let mut viols = vec![];
    let mut maxsteps = 0u64;
    let mut errs = vec![];
    let mut traces = vec![];
    let mut profm: std::collections::HashMap<String, u64> = Default::default();
    for t in &outs {
        for l in t.lines() {
            let (k, r) = l.split_once(' ').unwrap_or((l, ""));
            match k {
                "N" => for (i, x) in r.split(' ').enumerate() { n[i] += x.parse::<u64>().unwrap(); },
                "Z" => for (i, x) in r.split(' ').enumerate() { let v: f64 = x.parse().unwrap(); if i == 6 { z[i] = z[i].max(v) } else { z[i] += v } },
                "R" => { let (a, b) = r.split_once(' ').unwrap(); *reach.entry(a.parse().unwrap()).or_insert(0) += b.parse::<u64>().unwrap(); }
                "F" => { funcs.insert(r.to_string()); }
                "M" => maxsteps = maxsteps.max(r.parse().unwrap()),
                "V" => viols.push(r.to_string()),
                "E" => errs.push(r.to_string()),
                "T" => traces.push(r.to_string()),
                "P" => { let (a, b) = r.split_once(' ').unwrap(); *profm.entry(b.to_string()).or_insert(0) += a.parse::<u64>().unwrap(); }
                "I" => incomplete = true,
                _ => {}
            }
        }
    }
    if prof {
        let mut v: Vec<_> = profm.into_iter().collect();
        v.sort_by_key(|x| std::cmp::Reverse(x.1));
        for (k, c) in v.iter().take(25) { eprintln!("{:8} {}", c, k); }
    }
    let wall = t0.elapsed().as_secs_f64();
    let list = |v: &Vec<String>| v.iter().map(|x| js(x)).collect::<Vec<_>>().join(",");
    let json = format!("{{\"fn\":{},\"complete\":{},\"paths\":{},\"killed\":{},\"splits\":{},\"instructions\":{},\"asserts\":{},\"assert_queries\":{},\"unknown\":{},\"queries\":{},\"nonlinear_queries\":{},\"sat\":{},\"unsat\":{},\"solver_s\":{:.3},\"max_query_s\":{:.3},\"pool_hits\":{},\"reach\":{{{}}},\"functions\":[{}],\"violations\":[{}],\"errors\":[{}],\"traces\":[{}],\"max_path_instructions\":{},\"frontier\":{},\"load_s\":{:.2},\"frontier_s\":{:.2},\"wall_s\":{:.2}}}",
        js(&func), !incomplete && errs.is_empty(), n[0], n[1], n[2], n[3], n[4], n[5], n[6], z[0] as u64, z[1] as u64, z[2] as u64, z[3] as u64, z[5], z[6], z[7] as u64,
        reach.iter().map(|(k, v)| format!("\"{}\":{}", k, v)).collect::<Vec<_>>().join(","), list(&funcs.into_iter().collect()), list(&viols), list(&errs), list(&traces), maxsteps, nfront, tload, tfront, wall);
    match out { Some(o) => std::fs::write(o, &json).unwrap(), None => println!("{}", json) }
    if !viols.is_empty() { 1 } else if incomplete || !errs.is_empty() { 2 } else { 0 }
}
