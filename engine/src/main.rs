//! symll: symbolic execution of rustc-emitted LLVM IR, deciding harness assertions with Z3.

mod exec;
mod expr;
mod ll;
mod z3;

use exec::*;
use std::collections::HashMap;
use std::fmt::Write as _;
use std::sync::{Condvar, Mutex};
use std::time::Instant;

#[derive(Default)]
struct Res {
    paths: u64,
    status: HashMap<&'static str, u64>,
    asserts: u64,
    asserts_symbolic: u64,
    steps: u64,
    forks: u64,
    unknown: u64,
    max_vars: usize,
    reach: HashMap<u32, u64>,
    viol: Vec<Violation>,
    samples: Vec<(Vec<u64>, &'static str)>,
    incon: Vec<String>,
    queries: u64,
    sat: u64,
    unsat: u64,
    solver_time: f64,
}

struct Shared {
    q: Vec<Item>,
    active: usize,
    res: Vec<Res>,
    stop: bool,
    max_query: f64,
    funcs: Vec<bool>,
    dumps: Vec<(String, bool)>,
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn main() {
    let mut ll = String::new();
    let mut entries: Vec<String> = vec![];
    let mut prefix: Option<String> = None;
    let mut threads = 8usize;
    let mut max_paths = 1_000_000u64;
    let mut max_steps = 200_000_000u64;
    let mut timeout = 600.0f64;
    let mut qtimeout = 20_000u32;
    let mut dump: Option<String> = None;
    let mut out: Option<String> = None;
    let mut list = false;
    let mut nsamples = 2usize;
    let mut maxviol = 3usize;
    let mut a = std::env::args().skip(1);
    while let Some(x) = a.next() {
        let mut v = || a.next().expect("value");
        match x.as_str() {
            "--ll" => ll = v(),
            "--entry" => entries.extend(v().split(',').map(|s| s.to_string())),
            "--prefix" => prefix = Some(v()),
            "--threads" => threads = v().parse().unwrap(),
            "--max-paths" => max_paths = v().parse().unwrap(),
            "--max-steps" => max_steps = v().parse().unwrap(),
            "--timeout" => timeout = v().parse().unwrap(),
            "--query-timeout-ms" => qtimeout = v().parse().unwrap(),
            "--dump-smt" => dump = Some(v()),
            "--out" => out = Some(v()),
            "--samples" => nsamples = v().parse().unwrap(),
            "--max-viol" => maxviol = v().parse().unwrap(),
            "--list" => list = true,
            _ => panic!("unknown option {}", x),
        }
    }
    let t0 = Instant::now();
    let text = std::fs::read_to_string(&ll).expect("read .ll");
    let m = match ll::Module::parse(text) {
        Ok(m) => m,
        Err(e) => {
            eprintln!("parse error: {}", e);
            std::process::exit(3);
        }
    };
    let tparse = t0.elapsed().as_secs_f64();
    if let Some(p) = &prefix {
        for f in &m.funcs {
            if f.body.is_some() && f.name.starts_with(p.as_str()) {
                entries.push(f.name.clone());
            }
        }
        entries.sort();
    }
    if list {
        for e in &entries {
            println!("{}", e);
        }
        return;
    }
    let hooks: Vec<Hook> = m.funcs.iter().map(|f| hook_for(&f.name, f.body.is_some())).collect();
    let nf = m.funcs.len();
    let mut ids = vec![];
    for e in &entries {
        match m.fidx.get(e) {
            Some(i) => ids.push(*i),
            None => {
                eprintln!("no entry {}", e);
                std::process::exit(3);
            }
        }
    }
    let cx = Ctx { m, hooks, max_steps, debug: std::env::var("SYMLL_DEBUG").is_ok() };
    let sh = Mutex::new(Shared {
        q: (0..entries.len()).rev().map(|i| Item { entry: i, dec: vec![], wit: vec![] }).collect(),
        active: 0,
        res: (0..entries.len()).map(|_| Res::default()).collect(),
        stop: false,
        max_query: 0.0,
        funcs: vec![false; nf],
        dumps: vec![],
    });
    let cv = Condvar::new();
    let t1 = Instant::now();
    std::thread::scope(|s| {
        for _ in 0..threads {
            std::thread::Builder::new()
                .stack_size(256 << 20)
                .spawn_scoped(s, || {
                    let mut ar = expr::Arena::new();
                    let mut so = z3::Solver::new(qtimeout);
                    if dump.is_some() {
                        so.dump = Some(vec![]);
                    }
                    let mut funcs = vec![false; nf];
                    loop {
                        let item = {
                            let mut g = sh.lock().unwrap();
                            loop {
                                if g.stop {
                                    break None;
                                }
                                if let Some(i) = g.q.pop() {
                                    g.active += 1;
                                    break Some(i);
                                }
                                if g.active == 0 {
                                    cv.notify_all();
                                    break None;
                                }
                                g = cv.wait(g).unwrap();
                            }
                        };
                        let Some(item) = item else { break };
                        let en = item.entry;
                        if ar.nodes.len() > 400_000 {
                            ar = expr::Arena::new();
                        }
                        let (q0, s0, u0, tm0) = (so.queries, so.sat, so.unsat, so.time);
                        let mut ex = Exec::new(&cx, &mut ar, &mut so, &mut funcs, item);
                        let r = ex.run(ids[en]);
                        let mut incon = None;
                        let st = match r {
                            Ok(()) => "ok",
                            Err(Stop::Assume) => "assume",
                            Err(Stop::AbortExpected) => "abort-expected",
                            Err(Stop::Failed) => "failed",
                            Err(Stop::Panic(m)) => {
                                ex.report_stop("panic", m);
                                "panic"
                            }
                            Err(Stop::Abort(m)) if m.starts_with("no end after") => {
                                ex.report_stop("endless", m);
                                "endless"
                            }
                            Err(Stop::Abort(m)) => {
                                ex.report_stop("abort", m);
                                "abort"
                            }
                            Err(Stop::Mem(m)) => {
                                ex.report_stop("memory", m);
                                "memory"
                            }
                            Err(Stop::Unreachable(m)) => {
                                ex.report_stop("unreachable", m);
                                "unreachable"
                            }
                            Err(Stop::Unsup(m)) => {
                                incon = Some(m);
                                "unsupported"
                            }
                        };
                        let inputs = if st == "ok" || st == "abort-expected" { Some(ex.inputs()) } else { None };
                        let forked = std::mem::take(&mut ex.forked);
                        let viol = std::mem::take(&mut ex.viol);
                        let stats = std::mem::take(&mut ex.stats);
                        drop(ex);
                        let mut g = sh.lock().unwrap();
                        g.active -= 1;
                        let res = &mut g.res[en];
                        res.paths += 1;
                        *res.status.entry(st).or_default() += 1;
                        res.asserts += stats.asserts;
                        res.asserts_symbolic += stats.asserts_symbolic;
                        res.steps += stats.steps;
                        res.forks += stats.forks;
                        res.unknown += stats.unknown;
                        for (k, v) in stats.reach {
                            *res.reach.entry(k).or_default() += v;
                        }
                        res.queries += so.queries - q0;
                        res.sat += so.sat - s0;
                        res.unsat += so.unsat - u0;
                        res.solver_time += so.time - tm0;
                        for v in viol {
                            res.max_vars = res.max_vars.max(v.values.len());
                            if res.viol.iter().filter(|x| x.id == v.id && x.kind == v.kind).count() < maxviol {
                                res.viol.push(v);
                            }
                        }
                        if let Some(m) = incon {
                            if res.incon.len() < 3 {
                                res.incon.push(m);
                            }
                        }
                        res.max_vars = res.max_vars.max(inputs.as_ref().map_or(0, |v| v.len()));
                        if let Some(v) = inputs {
                            if res.samples.len() < nsamples || (res.paths.is_power_of_two() && res.samples.len() < 2 * nsamples) {
                                res.samples.push((v, st));
                            }
                        }
                        // each of these takes long, and one of them decides
                        let over = res.paths >= max_paths || res.status.get("endless").map_or(false, |n| *n >= 8);
                        let n = forked.len();
                        g.q.extend(forked);
                        if over || t1.elapsed().as_secs_f64() > timeout {
                            g.stop = true;
                        }
                        if so.max_query > g.max_query {
                            g.max_query = so.max_query;
                        }
                        if g.stop || g.active == 0 || n > 0 {
                            cv.notify_all();
                        }
                    }
                    let mut g = sh.lock().unwrap();
                    for (i, b) in funcs.iter().enumerate() {
                        if *b {
                            g.funcs[i] = true;
                        }
                    }
                    if let Some(d) = so.dump.take() {
                        g.dumps.extend(d);
                    }
                })
                .unwrap();
        }
    });
    let g = sh.into_inner().unwrap();
    if let Some(d) = &dump {
        let _ = std::fs::create_dir_all(d);
        for (i, (s, sat)) in g.dumps.iter().enumerate() {
            let _ = std::fs::write(format!("{}/q{:05}-{}.smt2", d, i, if *sat { "sat" } else { "unsat" }), format!("(set-logic QF_BV)\n{}\n(check-sat)\n", s));
        }
    }
    let mut o = String::from("{\n");
    let _ = write!(o, "\"parse_s\":{:.3},\"run_s\":{:.3},\"complete\":{},\"max_query_s\":{:.4},\n", tparse, t1.elapsed().as_secs_f64(), !g.stop && g.q.is_empty(), g.max_query);
    o.push_str("\"functions\":[");
    let mut first = true;
    for (i, b) in g.funcs.iter().enumerate() {
        if *b {
            if !first {
                o.push(',');
            }
            first = false;
            o.push_str(&js(&cx.m.funcs[i].name));
        }
    }
    o.push_str("],\n\"entries\":[\n");
    for (i, r) in g.res.iter().enumerate() {
        if i > 0 {
            o.push_str(",\n");
        }
        let _ = write!(
            o,
            "{{\"entry\":{},\"paths\":{},\"asserts\":{},\"asserts_symbolic\":{},\"steps\":{},\"forks\":{},\"unknown\":{},\"queries\":{},\"sat\":{},\"unsat\":{},\"solver_s\":{:.4},\"status\":{{",
            js(&entries[i]),
            r.paths,
            r.asserts,
            r.asserts_symbolic,
            r.steps,
            r.forks,
            r.unknown,
            r.queries,
            r.sat,
            r.unsat,
            r.solver_time
        );
        let mut st: Vec<_> = r.status.iter().collect();
        st.sort();
        o.push_str(&st.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect::<Vec<_>>().join(","));
        o.push_str("},\"reach\":{");
        let mut st: Vec<_> = r.reach.iter().collect();
        st.sort();
        o.push_str(&st.iter().map(|(k, v)| format!("\"{}\":{}", k, v)).collect::<Vec<_>>().join(","));
        o.push_str("},\"inconclusive\":[");
        o.push_str(&r.incon.iter().map(|s| js(s)).collect::<Vec<_>>().join(","));
        let _ = write!(o, "],\"max_inputs\":{},\"samples\":[", r.max_vars);
        o.push_str(&r.samples.iter().map(|(v, s)| format!("{{\"values\":{:?},\"status\":\"{}\"}}", v, s)).collect::<Vec<_>>().join(","));
        o.push_str("],\"violations\":[");
        for (k, v) in r.viol.iter().enumerate() {
            if k > 0 {
                o.push(',');
            }
            let _ = write!(
                o,
                "{{\"kind\":{},\"id\":{},\"msg\":{},\"values\":{:?},\"notes\":[{}],\"trace\":[{}]}}",
                js(&v.kind),
                v.id,
                js(&v.msg),
                v.values,
                v.notes.iter().map(|s| js(s)).collect::<Vec<_>>().join(","),
                v.trace.iter().map(|s| js(s)).collect::<Vec<_>>().join(",")
            );
        }
        o.push_str("]}");
    }
    o.push_str("\n]}\n");
    match out {
        Some(p) => std::fs::write(p, o).expect("write"),
        None => print!("{}", o),
    }
}
