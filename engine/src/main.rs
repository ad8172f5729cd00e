//! semir: bounded symbolic execution of the LLVM IR of a Rust crate, deciding with Z3.
mod exec;
mod expr;
mod ir;
mod z3;

use exec::*;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::{Condvar, Mutex};
use std::time::{Duration, Instant};

fn hex(b: &[u8]) -> String { b.iter().map(|x| format!("{x:02x}")).collect() }
fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct Shared {
    queue: Vec<Item>,
    active: usize,
    stop: bool,
    why: Option<String>,
    viol: Vec<(String, Vec<u8>, Vec<String>, String)>,
    errors: Vec<(String, Vec<u8>, String)>,
    samples: Vec<(Vec<u8>, Vec<u8>)>,
    ended: u64,
    pending: usize,
    rng: u64,
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let mut ll = String::new();
    let mut entries: Vec<String> = vec![];
    let mut out = String::new();
    let mut threads = 8usize;
    let mut time = 600f64;
    let mut max_instrs = 200_000_000u64;
    let mut max_viol = 4usize;
    let mut nsamples = 200usize;
    let mut seed = 1u64;
    let mut dump_every = 0u64;
    let mut dump_dir = String::new();
    let mut timeout_ms = 20_000u32;
    let mut ite_max = 0u64;
    let mut fork_wide = 64u32;
    let mut first: Option<Vec<u8>> = None;
    let mut trace = false;
    let mut stop_on_violation = false;
    let mut budget = f64::MAX;
    let mut i = 1;
    while i < args.len() {
        let nx = || args[i + 1].clone();
        match args[i].as_str() {
            "--ll" => { ll = nx(); i += 1 }
            "--entry" => { entries.push(nx()); i += 1 }
            "--out" => { out = nx(); i += 1 }
            "--threads" => { threads = nx().parse().unwrap(); i += 1 }
            "--time" => { time = nx().parse().unwrap(); i += 1 }
            "--max-instrs" => { max_instrs = nx().parse().unwrap(); i += 1 }
            "--max-violations" => { max_viol = nx().parse().unwrap(); i += 1 }
            "--samples" => { nsamples = nx().parse().unwrap(); i += 1 }
            "--seed" => { seed = nx().parse().unwrap(); i += 1 }
            "--dump-every" => { dump_every = nx().parse().unwrap(); i += 1 }
            "--dump-dir" => { dump_dir = nx(); i += 1 }
            "--solver-timeout-ms" => { timeout_ms = nx().parse().unwrap(); i += 1 }
            "--ite-max" => { ite_max = nx().parse().unwrap(); i += 1 }
            "--fork-wide" => { fork_wide = nx().parse().unwrap(); i += 1 }
            "--input" => { let h = nx(); first = Some((0..h.len() / 2).map(|k| u8::from_str_radix(&h[2 * k..2 * k + 2], 16).unwrap()).collect()); i += 1 }
            "--stop-on-violation" => stop_on_violation = true,
            "--budget" => { budget = nx().parse().unwrap(); i += 1 }
            "--trace" => trace = true,
            x => { eprintln!("unknown argument {x}"); std::process::exit(2) }
        }
        i += 1;
    }
    let t0 = Instant::now();
    let text = match std::fs::read_to_string(&ll) { Ok(t) => t, Err(e) => { eprintln!("semir: {ll}: {e}"); std::process::exit(2) } };
    let module = match ir::parse_module(&text) { Ok(m) => m, Err(e) => { eprintln!("semir: parse: {e}"); std::process::exit(2) } };
    drop(text);
    let stubs: Vec<Stub> = module.globals.iter().map(|g| stub_for(&g.name)).collect();
    let parse_s = t0.elapsed().as_secs_f64();
    let mut results = vec![];
    let mut found = false;
    let mut dumps: Vec<(String, bool)> = vec![];
    for spec in &entries {
        let t1 = Instant::now();
        if stop_on_violation && found { break; }
        let used = t0.elapsed().as_secs_f64();
        if used > budget { break; }
        // name[@option=value,...]
        let (entry, opts) = spec.split_once('@').unwrap_or((spec, ""));
        let mut cfg = Cfg { max_instrs, timeout_ms, ite_max, fork_wide, profile: std::env::var("SEMIR_FORKS").is_ok(), tab: false, arx: false, sel: false, deadline: None, dump_every, trace };
        let mut time = time;
        for o in opts.split(',').filter(|o| !o.is_empty()) {
            let (k, v) = o.split_once('=').unwrap_or((o, ""));
            match k {
                "time" => time = v.parse().unwrap(),
                "ite" => cfg.ite_max = v.parse().unwrap(),
                "tab" => cfg.tab = v == "1",
                "sel" => cfg.sel = v == "1",
                "arx" => cfg.arx = v == "1",
                "fw" => cfg.fork_wide = v.parse().unwrap(),
                "instrs" => cfg.max_instrs = v.parse().unwrap(),
                x => { eprintln!("unknown option {x}"); std::process::exit(2) }
            }
        }
        let gi = match module.by_name.get(entry) { Some(g) => *g, None => { eprintln!("semir: no function {entry}"); std::process::exit(2) } };
        let fidx = match &module.globals[gi as usize].kind { ir::GlobalKind::Func(f) => *f, _ => { eprintln!("semir: {entry} not defined"); std::process::exit(2) } };
        let sh = Mutex::new(Shared {
            queue: vec![Item { model: first.clone().unwrap_or_default(), bound: 0, excl: vec![], implied: vec![], hash: 0 }],
            active: 0, stop: false, why: None, viol: vec![], errors: vec![], samples: vec![], ended: 0, pending: 0, rng: seed.wrapping_mul(0x9E3779B97F4A7C15) | 1,
        });
        let cv = Condvar::new();
        let merged: Mutex<(Stats, BTreeSet<String>, Vec<bool>, Vec<(String, bool)>)> = Mutex::new((Stats::default(), BTreeSet::new(), vec![false; module.funcs.len()], vec![]));
        let deadline = t1 + Duration::from_secs_f64(time.min(budget - used).min(1e6));
        cfg.deadline = Some(deadline + Duration::from_secs(5));
        std::thread::scope(|s| {
            for _ in 0..threads {
                let (sh, cv, merged, module, stubs, cfg) = (&sh, &cv, &merged, &module, &stubs, &cfg);
                std::thread::Builder::new().stack_size(1 << 30).spawn_scoped(s, move || {
                    let mut w = Worker::new(module, stubs, cfg);
                    loop {
                        let item = {
                            let mut g = sh.lock().unwrap();
                            loop {
                                if g.stop { break None; }
                                if let Some(x) = g.queue.pop() { g.active += 1; break Some(x); }
                                if g.active == 0 { cv.notify_all(); break None; }
                                g = cv.wait(g).unwrap();
                            }
                        };
                        let item = match item { Some(x) => x, None => break };
                        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| w.run(fidx, item)));
                        let mut g = sh.lock().unwrap();
                        g.active -= 1;
                        match r {
                            Err(p) => {
                                let msg = p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                                g.errors.push((format!("engine panic: {msg}"), vec![], String::new()));
                                g.stop = true;
                            }
                            Ok((o, soft)) => {
                                for (t, m) in soft {
                                    g.viol.push((t, m, o.tags.clone(), o.stack.clone()));
                                }
                                match o.end {
                                    End::Done => {
                                        g.ended += 1;
                                        // reservoir sample
                                        if g.samples.len() < nsamples { let x = (o.model, o.obs); g.samples.push(x); }
                                        else if nsamples > 0 {
                                            g.rng ^= g.rng << 13; g.rng ^= g.rng >> 7; g.rng ^= g.rng << 17;
                                            let j = (g.rng % g.ended) as usize;
                                            if j < nsamples { g.samples[j] = (o.model, o.obs); }
                                        }
                                    }
                                    End::Killed => {}
                                    End::Late => { g.pending += 1; if !g.stop { g.stop = true; g.why = Some("time limit".into()); } }
                                    End::Violation(t) => { g.viol.push((t, o.model, o.tags, o.stack)); }
                                    End::Error(t) => { g.errors.push((t, o.model, o.stack)); if g.errors.len() > 3 { g.stop = true; } }
                                }
                                g.queue.append(&mut w.new_items);
                                if g.viol.len() >= max_viol { g.stop = true; g.why = Some("violation limit".into()); }
                            }
                        }
                        if Instant::now() > deadline && !g.stop { g.stop = true; g.why = Some("time limit".into()); }
                        cv.notify_all();
                    }
                    let mut mg = merged.lock().unwrap();
                    mg.0.add(&w.st);
                    for c in &w.covers { mg.1.insert(c.clone()); }
                    for (i, b) in w.seen_funcs.iter().enumerate() { if *b { mg.2[i] = true; } }
                    mg.3.extend(std::mem::take(&mut w.dumps));
                }).unwrap();
            }
        });
        let g = sh.into_inner().unwrap();
        let (st, covers, seen, dd) = merged.into_inner().unwrap();
        dumps.extend(dd);
        let complete = g.queue.is_empty() && !g.stop && g.errors.is_empty() && st.unknown == 0;
        let mut o = String::from("{");
        let mut kv: BTreeMap<&str, String> = BTreeMap::new();
        kv.insert("entry", js(entry));
        kv.insert("complete", complete.to_string());
        kv.insert("stopped", g.why.as_ref().map(|s| js(s)).unwrap_or("null".into()));
        kv.insert("pending", (g.queue.len() + g.pending).to_string());
        kv.insert("wall_s", format!("{:.3}", t1.elapsed().as_secs_f64()));
        kv.insert("parse_s", format!("{parse_s:.3}"));
        kv.insert("paths", st.paths.to_string());
        kv.insert("infeasible_or_assumed_away", st.killed.to_string());
        kv.insert("decisions", st.decisions.to_string());
        kv.insert("queries", st.queries.to_string());
        kv.insert("sat", st.sat.to_string());
        kv.insert("unsat", st.unsat.to_string());
        kv.insert("unknown", st.unknown.to_string());
        kv.insert("cache_hits", st.cache_hits.to_string());
        kv.insert("model_hits", st.model_hits.to_string());
        kv.insert("solver_s", format!("{:.3}", st.solver_ns as f64 / 1e9));
        kv.insert("instructions", st.instrs.to_string());
        kv.insert("max_instructions_per_path", st.max_instrs.to_string());
        kv.insert("max_decisions_per_path", st.max_depth.to_string());
        kv.insert("symbolic_bytes", st.max_inputs.to_string());
        kv.insert("assertions", st.checks.to_string());
        kv.insert("assertion_queries", st.check_queries.to_string());
        kv.insert("covers", format!("[{}]", covers.iter().map(|c| js(c)).collect::<Vec<_>>().join(",")));
        let fs: BTreeSet<String> = seen.iter().enumerate().filter(|(_, b)| **b).map(|(i, _)| module.funcs[i].name.clone()).collect();
        kv.insert("functions", format!("[{}]", fs.iter().map(|c| js(c)).collect::<Vec<_>>().join(",")));
        kv.insert("violations", format!("[{}]", g.viol.iter().map(|(t, m, tg, s)| format!("{{\"msg\":{},\"input\":{},\"tags\":[{}],\"stack\":{}}}", js(t), js(&hex(m)), tg.iter().map(|x| js(x)).collect::<Vec<_>>().join(","), js(s))).collect::<Vec<_>>().join(",")));
        kv.insert("errors", format!("[{}]", g.errors.iter().map(|(t, m, s)| format!("{{\"msg\":{},\"input\":{},\"stack\":{}}}", js(t), js(&hex(m)), js(s))).collect::<Vec<_>>().join(",")));
        kv.insert("samples", format!("[{}]", g.samples.iter().map(|(m, ob)| format!("[{},{}]", js(&hex(m)), js(&hex(ob)))).collect::<Vec<_>>().join(",")));
        o.push_str(&kv.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect::<Vec<_>>().join(","));
        o.push('}');
        eprintln!("semir: {entry}: complete={complete} paths={} killed={} decisions={} queries={} (sat {} unsat {}) hits={}+{} solver={:.1}s instrs={}M max/path={} wall={:.1}s viol={} err={}",
            st.paths, st.killed, st.decisions, st.queries, st.sat, st.unsat, st.cache_hits, st.model_hits, st.solver_ns as f64 / 1e9, st.instrs / 1_000_000, st.max_instrs, t1.elapsed().as_secs_f64(), g.viol.len(), g.errors.len());
        for (t, m, s) in g.errors.iter().take(3) { eprintln!("  error: {t} [{}] {s}", hex(m)); }
        for (t, m, _, s) in g.viol.iter().take(3) { eprintln!("  violation: {t} [{}] {s}", hex(m)); }
        found |= !g.viol.is_empty();
        results.push(o);
    }
    if !dump_dir.is_empty() {
        std::fs::create_dir_all(&dump_dir).ok();
        for (i, (d, sat)) in dumps.iter().enumerate() {
            std::fs::write(format!("{dump_dir}/q{i:04}-{}.smt2", if *sat { "sat" } else { "unsat" }), format!("{d}\n(check-sat)\n")).ok();
        }
    }
    let forks = FORKS.lock().unwrap();
    let mut top: Vec<_> = forks.iter().collect();
    top.sort_by_key(|x| std::cmp::Reverse(*x.1));
    for (k, n) in top.iter().take(40) { eprintln!("{n:8} {k}"); }
    let text = format!("[{}]\n", results.join(",\n"));
    if out.is_empty() { println!("{text}") } else { std::fs::write(&out, text).expect("write") }
}
