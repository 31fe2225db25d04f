//! symvm: bounded symbolic execution of Rust code from its LLVM IR.
//!
//! The program is executed concretely and symbolically at once. Whenever a branch depends on a
//! symbolic byte, the solver is asked whether the other outcome is possible on the current path;
//! if so it is queued. When the queue is empty every path within the bounds has been explored,
//! and every assertion has been decided by the solver for all values of the symbolic bytes.
mod expr;
mod ext;
mod ir;
mod vm;
mod z3;

use std::collections::{BTreeMap, HashMap};
use std::fmt::Write as _;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::{Arc, Condvar, Mutex};
use std::time::{Duration, Instant};
use vm::{Found, Item, Shared, Stats, Stop, Vm};

pub fn mix(mut x: u64) -> u64 {
    x = (x ^ (x >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    x = (x ^ (x >> 27)).wrapping_mul(0x94d049bb133111eb);
    x ^ (x >> 31)
}

struct Pool {
    q: Mutex<Vec<Item>>,
    cv: Condvar,
    idle: AtomicUsize,
    stop: AtomicBool,
    queued: AtomicUsize,
}

fn hex(b: &[u8]) -> String {
    let mut s = String::new();
    for x in b {
        let _ = write!(s, "{:02x}", x);
    }
    s
}
fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}
fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 || c as u32 == 127 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn text(v: &[expr::V]) -> String {
    let b: Vec<u8> = v.iter().map(|x| x.c as u8).collect();
    String::from_utf8_lossy(&b).into_owned()
}

#[derive(Default)]
struct Totals {
    found: Vec<Found>,
    counts: BTreeMap<(u32, &'static str), u64>,
    unsupported: BTreeMap<String, u64>,
    samples: Vec<(Vec<u8>, String)>,
}

fn main() {
    let mut a = std::env::args().skip(1);
    let mut file = String::new();
    let mut opt: HashMap<String, String> = HashMap::new();
    let mut stubs = vec![];
    while let Some(x) = a.next() {
        if let Some(k) = x.strip_prefix("--") {
            let v = a.next().unwrap_or_default();
            if k == "stub" {
                stubs.push(v);
            } else {
                opt.insert(k.to_string(), v);
            }
        } else {
            file = x;
        }
    }
    let get = |k: &str, d: u64| opt.get(k).map(|v| v.parse::<u64>().expect("number")).unwrap_or(d);
    let t0 = Instant::now();
    let text_ir = std::fs::read(&file).expect("ir file");
    let text_ir = String::from_utf8_lossy(&text_ir).into_owned();
    let m = ir::Module::load(text_ir);
    let ext = ext::table(&m, &stubs);
    let name = opt.get("main").expect("--main").clone();
    let main = *m.fidx.get(&name).unwrap_or_else(|| {
        eprintln!("no function {name}");
        std::process::exit(3)
    });
    let params: Vec<u64> = opt
        .get("params")
        .map(|p| p.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().expect("param")).collect())
        .unwrap_or_default();
    let mofmt: Vec<bool> = m.funcs.iter().map(|f| f.body.is_some() && f.name.contains("5mofmt")).collect();
    let nargs = m.funcs[main as usize].params.len();
    let sh = Arc::new(Shared {
        ext,
        stub: vec![],
        params,
        cap: get("cap", 20_000_000),
        main,
        entry_args: vec![0; nargs],
        mofmt,
        m,
    });
    let load_s = t0.elapsed().as_secs_f64();

    if let Some(model) = opt.get("run") {
        let mut vm = Vm::new(sh.clone());
        vm.seed = get("seed", 1);
        vm.trace_calls = get("trace", 0) == 1;
        let t = Instant::now();
        let r = vm.run_path(Item { model: unhex(model), from: usize::MAX >> 1, ..Default::default() });
        println!("outcome {:?} after {} instrs in {:?}", r, vm.executed, t.elapsed());
        println!("where {}", vm.where_());
        println!("vars {} model {}", vm.nvars, hex(&vm.model[..vm.nvars]));
        println!("notes {}", String::from_utf8_lossy(&vm.notes));
        println!("stdout {}", text(&vm.stdout));
        println!("stderr {}", text(&vm.stderr));
        return;
    }

    let threads = get("threads", 8) as usize;
    let limit = Duration::from_secs_f64(opt.get("time").map(|v| v.parse().expect("time")).unwrap_or(60.0));
    let max_found = get("max-found", 24);
    let per_key = get("per-key", 4);
    let seed = get("seed", 1);
    let cross = get("cross", 64);
    let nsamples = get("samples", 4);
    let max_paths = get("max-paths", u64::MAX);
    // time to look for more once a violation has been found
    let grace = get("grace", 1_000_000) as usize;
    let first_found = Arc::new(AtomicUsize::new(usize::MAX));
    let pool = Arc::new(Pool {
        q: Mutex::new(vec![Item::default()]),
        cv: Condvar::new(),
        idle: AtomicUsize::new(0),
        stop: AtomicBool::new(false),
        queued: AtomicUsize::new(1),
    });
    let tot = Arc::new(Mutex::new(Totals::default()));
    let start = Instant::now();
    let mut hs = vec![];
    let npaths = Arc::new(AtomicUsize::new(0));
    for _ in 0..threads {
        let (sh, pool, tot, npaths, first_found) =
            (sh.clone(), pool.clone(), tot.clone(), npaths.clone(), first_found.clone());
        hs.push(std::thread::spawn(move || {
            let mut vm = Vm::new(sh.clone());
            vm.seed = seed;
            vm.ex.cross_every = cross;
            let mut local: Vec<Item> = vec![];
            'work: loop {
                if pool.stop.load(Ordering::Relaxed) {
                    break;
                }
                let ff = first_found.load(Ordering::Relaxed);
                let over = ff != usize::MAX && start.elapsed().as_millis() as usize > ff.saturating_add(1000 * grace);
                if over || start.elapsed() > limit || npaths.load(Ordering::Relaxed) as u64 > max_paths {
                    pool.stop.store(true, Ordering::SeqCst);
                    pool.cv.notify_all();
                    break;
                }
                let item = match local.pop() {
                    Some(i) => i,
                    None => {
                        let mut q = pool.q.lock().unwrap();
                        pool.idle.fetch_add(1, Ordering::SeqCst);
                        loop {
                            if pool.stop.load(Ordering::SeqCst) {
                                break 'work;
                            }
                            if let Some(i) = q.pop() {
                                pool.queued.store(q.len(), Ordering::Relaxed);
                                pool.idle.fetch_sub(1, Ordering::SeqCst);
                                break i;
                            }
                            if pool.idle.load(Ordering::SeqCst) == threads {
                                pool.stop.store(true, Ordering::SeqCst);
                                pool.cv.notify_all();
                                break 'work;
                            }
                            let (q2, _) = pool.cv.wait_timeout(q, Duration::from_millis(50)).unwrap();
                            q = q2;
                        }
                    }
                };
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| vm.run_path(item)));
                let r = match r {
                    Ok(r) => r,
                    Err(e) => {
                        let m = e
                            .downcast_ref::<String>()
                            .cloned()
                            .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
                            .unwrap_or_default();
                        Stop::Unsupported(format!("engine: {m}"))
                    }
                };
                npaths.fetch_add(1, Ordering::Relaxed);
                let mut f: Vec<Found> = std::mem::take(&mut vm.found);
                let add = |vm: &Vm, id: u32, kind: &'static str, msg: String| Found {
                    id,
                    kind,
                    msg,
                    model: vm.model[..vm.nvars].to_vec(),
                    notes: String::from_utf8_lossy(&vm.notes).into_owned(),
                };
                let mut unsup = None;
                match r {
                    Stop::Done => {
                        vm.st.done += 1;
                        if vm.st.done <= nsamples {
                            let s = (vm.model[..vm.nvars].to_vec(), String::from_utf8_lossy(&vm.notes).into_owned());
                            tot.lock().unwrap().samples.push(s);
                        }
                    }
                    Stop::Killed => vm.st.killed += 1,
                    Stop::Pruned(i) => vm.st.pruned[(i as usize) & 15] += 1,
                    Stop::Check(id) => f.push(add(&vm, id, "check", String::new())),
                    Stop::Abort => {
                        let s = text(&vm.stderr);
                        f.push(add(&vm, 0, "abort", s))
                    }
                    Stop::Exit(x) => f.push(add(&vm, 0, "exit", format!("exit {x}: {}", text(&vm.stderr)))),
                    Stop::Hang => {
                        let w = vm.where_();
                        f.push(add(&vm, 0, "hang", w))
                    }
                    Stop::Oom => f.push(add(&vm, 0, "oom", String::new())),
                    Stop::Fault(s) => f.push(add(&vm, 0, "fault", s)),
                    Stop::Unsupported(s) => unsup = Some(s),
                }
                if !f.is_empty() {
                    first_found.fetch_min(start.elapsed().as_millis() as usize, Ordering::Relaxed);
                }
                if !f.is_empty() || unsup.is_some() {
                    let mut t = tot.lock().unwrap();
                    if let Some(s) = unsup {
                        *t.unsupported.entry(s).or_default() += 1;
                    }
                    for x in f {
                        let n = t.counts.entry((x.id, x.kind)).or_default();
                        *n += 1;
                        if *n <= per_key {
                            t.found.push(x);
                        }
                    }
                    if t.found.len() as u64 >= max_found {
                        pool.stop.store(true, Ordering::SeqCst);
                        pool.cv.notify_all();
                    }
                }
                local.append(&mut vm.out);
                // share the oldest half of the local work with idle workers
                if pool.idle.load(Ordering::Relaxed) > 0 && local.len() > 1 {
                    let k = local.len() / 2;
                    let give: Vec<Item> = local.drain(..k).collect();
                    let mut q = pool.q.lock().unwrap();
                    q.extend(give);
                    pool.queued.store(q.len(), Ordering::Relaxed);
                    drop(q);
                    pool.cv.notify_all();
                }
            }
            let st = vm.st.clone();
            let qs = vm.ex.st.clone();
            let cov = std::mem::take(&mut vm.cov);
            let fd = std::mem::take(&mut vm.fdone);
            (st, qs, cov, fd, local.len())
        }));
    }
    let mut st = Stats { pruned: vec![0; 16], covers: vec![0; 256], ..Default::default() };
    let mut qs = expr::QStats::default();
    let mut cov: Vec<u8> = vec![];
    let mut fd: Vec<u8> = vec![0; sh.m.funcs.len()];
    let mut frontier = 0;
    for h in hs {
        let (s, q, c, f, left) = h.join().expect("worker");
        frontier += left;
        st.paths += s.paths;
        st.done += s.done;
        st.killed += s.killed;
        for i in 0..16 {
            st.pruned[i] += s.pruned[i];
        }
        for i in 0..256 {
            st.covers[i] += s.covers[i];
        }
        st.instrs += s.instrs;
        st.max_instrs = st.max_instrs.max(s.max_instrs);
        st.decisions += s.decisions;
        st.max_decisions = st.max_decisions.max(s.max_decisions);
        st.checks_concrete += s.checks_concrete;
        st.checks_solved += s.checks_solved;
        st.caught_aborts += s.caught_aborts;
        st.max_vars = st.max_vars.max(s.max_vars);
        st.unknown += s.unknown;
        st.spelled += s.spelled;
        qs.queries += q.queries;
        qs.z3 += q.z3;
        qs.cached += q.cached;
        qs.domain += q.domain;
        qs.sat += q.sat;
        qs.unsat += q.unsat;
        qs.gave_up += q.gave_up;
        qs.z3_ns += q.z3_ns;
        qs.cross += q.cross;
        qs.cross_bad += q.cross_bad;
        if cov.len() < c.len() {
            cov.resize(c.len(), 0);
        }
        for (i, x) in c.iter().enumerate() {
            cov[i] |= x;
        }
        for (i, x) in f.iter().enumerate() {
            fd[i] |= x;
        }
    }
    frontier += pool.q.lock().unwrap().len();
    let t = tot.lock().unwrap();
    // block coverage of the crate's own functions
    let ci = sh.m.covinfo.lock().unwrap();
    let mut blocks: BTreeMap<u32, (u32, u32, Vec<u32>)> = BTreeMap::new();
    for (i, (f, b)) in ci.iter().enumerate() {
        if sh.mofmt[*f as usize] && i > 0 {
            let e = blocks.entry(*f).or_default();
            e.1 += 1;
            if cov.get(i).copied().unwrap_or(0) != 0 {
                e.0 += 1;
            } else {
                e.2.push(*b);
            }
        }
    }
    let mut o = String::from("{\n");
    let _ = writeln!(o, " \"main\": {},", js(&name));
    let _ = writeln!(o, " \"params\": {:?},", sh.params);
    let exhausted = frontier == 0 && st.unknown == 0 && t.unsupported.is_empty() && (t.found.len() as u64) < max_found;
    let _ = writeln!(o, " \"exhausted\": {exhausted},\n \"frontier\": {frontier},");
    let _ = writeln!(
        o,
        " \"paths\": {}, \"done\": {}, \"killed\": {}, \"pruned\": {:?}, \"instrs\": {}, \"max_instrs\": {}, \"decisions\": {}, \"max_decisions\": {},",
        st.paths, st.done, st.killed, st.pruned, st.instrs, st.max_instrs, st.decisions, st.max_decisions
    );
    let _ = writeln!(
        o,
        " \"checks_concrete\": {}, \"checks_solved\": {}, \"caught_aborts\": {}, \"max_vars\": {}, \"unknown\": {}, \"spelled\": {},",
        st.checks_concrete, st.checks_solved, st.caught_aborts, st.max_vars, st.unknown, st.spelled
    );
    let covs: Vec<String> = st.covers.iter().enumerate().filter(|(_, n)| **n > 0).map(|(i, n)| format!("\"{i}\": {n}")).collect();
    let _ = writeln!(o, " \"covers\": {{{}}},", covs.join(", "));
    let _ = writeln!(
        o,
        " \"queries\": {}, \"z3_queries\": {}, \"cached\": {}, \"domain\": {}, \"sat\": {}, \"unsat\": {}, \"gave_up\": {}, \"z3_seconds\": {:.3}, \"cross\": {}, \"cross_bad\": {},",
        qs.queries, qs.z3, qs.cached, qs.domain, qs.sat, qs.unsat, qs.gave_up, qs.z3_ns as f64 / 1e9, qs.cross, qs.cross_bad
    );
    let _ = writeln!(o, " \"seconds\": {:.3}, \"load_seconds\": {:.3}, \"solver\": {},", start.elapsed().as_secs_f64(), load_s, js(&format!("z3 {}", z3::version())));
    let us: Vec<String> = t.unsupported.iter().map(|(k, n)| format!("{}: {}", js(k), n)).collect();
    let _ = writeln!(o, " \"unsupported\": {{{}}},", us.join(", "));
    let cs: Vec<String> = t.counts.iter().map(|((i, k), n)| format!("{{\"id\": {i}, \"kind\": \"{k}\", \"count\": {n}}}")).collect();
    let _ = writeln!(o, " \"violation_counts\": [{}],", cs.join(", "));
    let fs: Vec<String> = t
        .found
        .iter()
        .map(|f| format!("{{\"id\": {}, \"kind\": \"{}\", \"model\": \"{}\", \"msg\": {}, \"notes\": {}}}", f.id, f.kind, hex(&f.model), js(&f.msg), js(&f.notes)))
        .collect();
    let _ = writeln!(o, " \"found\": [{}],", fs.join(",\n  "));
    let ss: Vec<String> = t.samples.iter().map(|(m, n)| format!("{{\"model\": \"{}\", \"notes\": {}}}", hex(m), js(n))).collect();
    let _ = writeln!(o, " \"samples\": [{}],", ss.join(",\n  "));
    let bs: Vec<String> = blocks
        .iter()
        .filter(|(f, _)| fd[**f as usize] != 0)
        .map(|(f, (a, b, miss))| format!("{{\"f\": {}, \"hit\": {a}, \"blocks\": {b}, \"miss\": {:?}}}", js(&sh.m.funcs[*f as usize].name), miss))
        .collect();
    let _ = writeln!(o, " \"functions\": [{}],", bs.join(",\n  "));
    let nf = fd.iter().filter(|x| **x != 0).count();
    let _ = writeln!(o, " \"functions_executed\": {nf}\n}}");
    match opt.get("out") {
        Some(p) => std::fs::write(p, o).expect("write result"),
        None => print!("{o}"),
    }
    let _ = std::mem::size_of::<Instant>();
    std::process::exit(0);
}
