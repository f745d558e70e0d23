mod exec;
mod expr;
mod ir;
mod mem;
mod parse;
mod solver;

use exec::*;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::io::Write;
use std::sync::atomic::{AtomicI32, Ordering};
use std::time::{Duration, Instant};

extern "C" {
    fn fork() -> i32;
    fn mmap(a: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn waitpid(pid: i32, st: *mut i32, opt: i32) -> i32;
    fn _exit(c: i32) -> !;
    fn prctl(op: i32, a: u64, b: u64, c: u64, d: u64) -> i32;
    fn getpid() -> i32;
    fn kill(pid: i32, sig: i32) -> i32;
    fn setpgid(pid: i32, pg: i32) -> i32;
}

#[repr(C)]
struct Shared {
    active: AtomicI32,
    stop: AtomicI32,
    failed: AtomicI32,
    paths: AtomicI32,
}

#[derive(Default)]
struct Res {
    paths: u64,
    assume_killed: u64,
    covers: BTreeMap<u32, u64>,
    viols: Vec<Viol>,
    errors: Vec<String>,
    samples: Vec<(Vec<(u32, u128)>, Vec<u128>)>,
    max_steps: u64,
    max_depth: u32,
    max_vars: usize,
    seen: u64,
}

fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o
}

fn inputs(st: &State) -> Vec<(u32, u128)> {
    st.vars.iter().zip(st.model.iter()).map(|(w, v)| (*w, *v)).collect()
}

fn fmt_inputs(i: &[(u32, u128)]) -> String {
    i.iter().map(|(w, v)| format!("[{},{}]", w, v)).collect::<Vec<_>>().join(",")
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let mut opt: HashMap<String, String> = HashMap::new();
    let mut i = 1;
    while i < args.len() {
        let k = args[i].trim_start_matches("--").to_string();
        let v = args.get(i + 1).cloned().unwrap_or_default();
        opt.insert(k, v);
        i += 2;
    }
    let geti = |k: &str, d: u64| opt.get(k).and_then(|x| x.parse().ok()).unwrap_or(d);
    let ir = &opt["ir"];
    let entry = &opt["entry"];
    let out = &opt["out"];
    let jobs = geti("jobs", 8) as i32;
    let timeout = geti("timeout", 600);
    let max_steps = geti("max-steps", 50_000_000);
    let nsamples = geti("samples", 8) as usize;
    let profile = geti("profile", 0) == 1;
    let max_viols = geti("max-violations", 1) as usize;

    let t0 = Instant::now();
    let text = std::fs::read_to_string(ir).expect("read ir");
    let mut p = parse::Parser::new();
    p.parse(&text);
    // human readable names: rustc writes "; path::name" before each definition
    let mut names = HashMap::new();
    let mut last = String::new();
    for l in text.lines() {
        if l.starts_with("; ") && !l.starts_with("; Function Attrs") && !l.starts_with("; Module") {
            last = l[2..].to_string();
        } else if l.starts_with("define") {
            if let Some(i) = l.find('@') {
                if let Some(j) = l[i..].find('(') {
                    if !last.is_empty() {
                        names.insert(l[i + 1..i + j].trim_matches('"').to_string(), last.clone());
                    }
                }
            }
            last.clear();
        } else if !l.starts_with(';') {
            last.clear();
        }
    }
    drop(text);
    let parse_ms = t0.elapsed().as_millis();
    let deadline = Instant::now() + Duration::from_secs(timeout);
    let (mut eng, mem) = Eng::new(p.m, names, Cfg { max_steps, max_depth: 4000, deadline });
    eng.profile = profile;
    let total_ins: usize = eng.m.funcs.iter().map(|f| f.code.len()).sum();
    let st0 = eng.initial(mem, entry);
    let fe = *eng.m.fmap.get(entry.as_str()).unwrap() as usize;
    eng.touched[fe] = true;
    eng.work.push(st0);

    let sh: &Shared = unsafe {
        let a = mmap(std::ptr::null_mut(), 4096, 3, 0x21, -1, 0);
        &*(a as *const Shared)
    };
    sh.active.store(1, Ordering::SeqCst);
    unsafe {
        prctl(36, 1, 0, 0, 0); // PR_SET_CHILD_SUBREAPER
        setpgid(0, 0);
    }
    let tmpdir = format!("{}.parts", out);
    let _ = std::fs::remove_dir_all(&tmpdir);
    std::fs::create_dir_all(&tmpdir).unwrap();
    let root = unsafe { getpid() };
    let mut res = Res::default();
    let mut is_root = true;

    while let Some(mut st) = eng.work.pop() {
        if sh.stop.load(Ordering::Relaxed) != 0 {
            break;
        }
        let end = loop {
            // run in slices so that work can be handed out and limits observed
            let mut end = eng.run_slice(&mut st, 200_000);
            if Instant::now() > eng.cfg.deadline {
                res.errors.push("time limit".into());
                sh.failed.store(1, Ordering::SeqCst);
                sh.stop.store(1, Ordering::SeqCst);
            }
            if sh.stop.load(Ordering::Relaxed) != 0 {
                break None;
            }
            // hand out the oldest pending state to a new process
            while !eng.work.is_empty() && sh.active.load(Ordering::Relaxed) < jobs {
                let a = sh.active.fetch_add(1, Ordering::SeqCst);
                if a >= jobs {
                    sh.active.fetch_sub(1, Ordering::SeqCst);
                    break;
                }
                let pid = unsafe { fork() };
                if pid == 0 {
                    is_root = false;
                    let s = eng.work.remove(0);
                    eng.work.clear();
                    // the child works on the handed-out state only
                    res = Res::default();
                    eng.steps = 0;
                    eng.forks = 0;
                    eng.obligations = 0;
                    eng.fork_sites.clear();
                    for x in eng.fsteps.iter_mut() {
                        *x = 0;
                    }
                    eng.solver.st = Default::default();
                    st = s;
                    end = None;
                    continue;
                } else if pid < 0 {
                    sh.active.fetch_sub(1, Ordering::SeqCst);
                    break;
                } else {
                    eng.work.remove(0);
                }
            }
            if let Some(e) = end {
                break Some(e);
            }
        };
        let end = match end {
            None => break,
            Some(e) => e,
        };
        res.max_steps = res.max_steps.max(st.steps);
        res.max_depth = res.max_depth.max(st.depth);
        res.max_vars = res.max_vars.max(st.vars.len());
        let viol = |kind: &str, msg: String, eng: &mut Eng, st: &State| Viol {
            kind: kind.into(),
            msg,
            stack: eng.stack(st),
            inputs: inputs(st),
            outs: eng.eval_outs(st),
        };
        match end {
            End::Done => {
                res.paths += 1;
                for c in &st.covers {
                    *res.covers.entry(*c).or_insert(0) += 1;
                }
                // reservoir sample of completed paths
                res.seen += 1;
                let o = (inputs(&st), eng.eval_outs(&st));
                if res.samples.len() < nsamples {
                    res.samples.push(o);
                } else {
                    let r = (res.seen.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407) >> 33) % res.seen;
                    if (r as usize) < nsamples {
                        res.samples[r as usize] = o;
                    }
                }
            }
            End::Assume => res.assume_killed += 1,
            End::Panic(l) => {
                let v = viol("panic", l, &mut eng, &st);
                res.viols.push(v);
            }
            End::Assert(id) => {
                let v = viol("assert", format!("{}", id), &mut eng, &st);
                res.viols.push(v);
            }
            End::Mem(l) => {
                let v = viol("memory", l, &mut eng, &st);
                res.viols.push(v);
            }
            End::Limit(l) => {
                let v = viol("limit", l, &mut eng, &st);
                res.viols.push(v);
            }
            End::Unsupported(s) => {
                if res.errors.len() < 20 {
                    res.errors.push(format!("unsupported: {}", s));
                }
                sh.failed.store(1, Ordering::SeqCst);
            }
            End::Unknown => {
                if res.errors.len() < 20 {
                    res.errors.push("solver returned unknown".into());
                }
                sh.failed.store(1, Ordering::SeqCst);
            }
        }
        if res.viols.len() >= max_viols {
            sh.stop.store(1, Ordering::SeqCst);
        }
    }
    // write this process's part
    {
        let me = unsafe { getpid() };
        let mut f = std::fs::File::create(format!("{}/{}.part", tmpdir, me)).unwrap();
        let s = &eng.solver.st;
        writeln!(f, "n {} {} {} {} {} {} {} {} {} {} {} {} {} {} {} {}", res.paths, res.assume_killed, eng.steps, eng.forks, s.queries, s.z3_queries, s.sat, s.unsat, s.cache_hits, s.model_hits, s.z3_us, s.max_us, res.max_steps, res.max_depth, res.max_vars, eng.obligations).unwrap();
        for (k, v) in &res.covers {
            writeln!(f, "c {} {}", k, v).unwrap();
        }
        for e in &res.errors {
            writeln!(f, "e {}", e.replace('\n', " ")).unwrap();
        }
        for v in &res.viols {
            writeln!(f, "v {{\"kind\":\"{}\",\"msg\":\"{}\",\"stack\":[{}],\"inputs\":[{}],\"outs\":[{}]}}", esc(&v.kind), esc(&v.msg), v.stack.iter().map(|s| format!("\"{}\"", esc(s))).collect::<Vec<_>>().join(","), fmt_inputs(&v.inputs), v.outs.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")).unwrap();
        }
        for (i, o) in &res.samples {
            writeln!(f, "s {{\"inputs\":[{}],\"outs\":[{}]}}", fmt_inputs(i), o.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")).unwrap();
        }
        for (i, t) in eng.touched.iter().enumerate() {
            if *t {
                writeln!(f, "f {}", i).unwrap();
            }
        }
        for (k, v) in &eng.fork_sites {
            writeln!(f, "k {} {}", v, k).unwrap();
        }
        if profile {
            for (i, t) in eng.fsteps.iter().enumerate() {
                if *t > 0 {
                    writeln!(f, "p {} {}", i, t).unwrap();
                }
            }
        }
        f.flush().unwrap();
    }
    sh.active.fetch_sub(1, Ordering::SeqCst);
    if !is_root {
        unsafe { _exit(0) };
    }
    let _ = root;
    // wait for all descendants
    let mut crashed = false;
    loop {
        let mut stt = 0;
        let r = unsafe { waitpid(-1, &mut stt, 0) };
        if r < 0 {
            break;
        }
        if stt != 0 {
            crashed = true;
            eprintln!("worker {} ended with status {:#x}", r, stt);
            sh.stop.store(1, Ordering::SeqCst);
        }
        if Instant::now() > deadline + Duration::from_secs(60) {
            unsafe { kill(0, 9) };
        }
    }
    // merge
    let mut n = [0u64; 16];
    let mut covers: BTreeMap<u32, u64> = BTreeMap::new();
    let mut errors = vec![];
    let mut viols = vec![];
    let mut samples = vec![];
    let mut fs: BTreeSet<usize> = BTreeSet::new();
    let mut ks: BTreeMap<String, u64> = BTreeMap::new();
    let mut ps: BTreeMap<usize, u64> = BTreeMap::new();
    let mut nworkers = 0;
    for ent in std::fs::read_dir(&tmpdir).unwrap() {
        nworkers += 1;
        let t = std::fs::read_to_string(ent.unwrap().path()).unwrap();
        for l in t.lines() {
            let (k, r) = l.split_at(2);
            match k {
                "n " => {
                    for (i, x) in r.split(' ').enumerate() {
                        let x: u64 = x.parse().unwrap();
                        if (11..15).contains(&i) {
                            n[i] = n[i].max(x);
                        } else {
                            n[i] += x;
                        }
                    }
                }
                "c " => {
                    let mut it = r.split(' ');
                    let a: u32 = it.next().unwrap().parse().unwrap();
                    let b: u64 = it.next().unwrap().parse().unwrap();
                    *covers.entry(a).or_insert(0) += b;
                }
                "e " => errors.push(r.to_string()),
                "v " => viols.push(r.to_string()),
                "s " => samples.push(r.to_string()),
                "f " => {
                    fs.insert(r.parse().unwrap());
                }
                "k " => {
                    let (a, b) = r.split_once(' ').unwrap();
                    *ks.entry(b.to_string()).or_insert(0) += a.parse::<u64>().unwrap();
                }
                "p " => {
                    let (a, b) = r.split_once(' ').unwrap();
                    *ps.entry(a.parse().unwrap()).or_insert(0) += b.parse::<u64>().unwrap();
                }
                _ => {}
            }
        }
    }
    let _ = std::fs::remove_dir_all(&tmpdir);
    if crashed {
        errors.push("a worker process crashed".into());
    }
    samples.sort();
    // spread the kept samples over the sorted list
    let mut kept = vec![];
    if !samples.is_empty() {
        let k = nsamples.min(samples.len());
        for i in 0..k {
            kept.push(samples[i * samples.len() / k].clone());
        }
    }
    let mut fnames: Vec<String> = fs.iter().map(|i| eng.pretty(*i as u32)).collect();
    fnames.sort();
    fnames.dedup();
    let complete = errors.is_empty() && sh.stop.load(Ordering::SeqCst) == 0;
    let j = format!(
        "{{\"entry\":\"{}\",\"complete\":{},\"paths\":{},\"assume_killed\":{},\"instructions\":{},\"forks\":{},\"queries\":{},\"z3_queries\":{},\"sat\":{},\"unsat\":{},\"cache_hits\":{},\"model_hits\":{},\"solver_s\":{:.3},\"max_query_s\":{:.3},\"max_path_steps\":{},\"max_fork_depth\":{},\"max_vars\":{},\"obligations\":{},\"workers\":{},\"wall_s\":{:.2},\"parse_ms\":{},\"module_instructions\":{},\"z3\":\"{}\",\n\"covers\":{{{}}},\n\"errors\":[{}],\n\"violations\":[{}],\n\"samples\":[{}],\n\"functions\":[{}]}}\n",
        esc(entry), complete, n[0], n[1], n[2], n[3], n[4], n[5], n[6], n[7], n[8], n[9], n[10] as f64 / 1e6, n[11] as f64 / 1e6, n[12], n[13], n[14], n[15], nworkers,
        t0.elapsed().as_secs_f64(), parse_ms, total_ins, esc(&solver::z3_version()),
        covers.iter().map(|(k, v)| format!("\"{}\":{}", k, v)).collect::<Vec<_>>().join(","),
        errors.iter().map(|s| format!("\"{}\"", esc(s))).collect::<Vec<_>>().join(","),
        viols.join(","),
        kept.join(","),
        fnames.iter().map(|s| format!("\"{}\"", esc(s))).collect::<Vec<_>>().join(","),
    );
    std::fs::write(out, &j).unwrap();
    if profile {
        let mut kv: Vec<_> = ks.into_iter().collect();
        kv.sort_by_key(|x| std::cmp::Reverse(x.1));
        for (k, v) in kv.iter().take(25) {
            eprintln!("fork {:6} {}", v, k);
        }
        let mut pv: Vec<_> = ps.into_iter().collect();
        pv.sort_by_key(|x| std::cmp::Reverse(x.1));
        for (k, v) in pv.iter().take(25) {
            eprintln!("steps {:10} {}", v, eng.pretty(*k as u32));
        }
    }
    std::process::exit(if !viols.is_empty() {
        1
    } else if complete {
        0
    } else {
        2
    });
}
