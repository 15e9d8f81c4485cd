//! symex: solver-based symbolic execution of LLVM IR produced by rustc.
mod cfg;
mod exec;
mod fx;
mod ir;
mod mem;
mod sat;
mod solver;
mod term;
mod z3;

use std::collections::{BTreeMap, BTreeSet};

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn inputs(v: &[(u32, u32, u128)]) -> String {
    let x: Vec<String> = v.iter().map(|(b, t, x)| format!("[{},{},\"{}\"]", b, t, x)).collect();
    format!("[{}]", x.join(","))
}

fn real_main() {
    let args: Vec<String> = std::env::args().collect();
    let get = |k: &str| args.iter().position(|a| a == k).and_then(|i| args.get(i + 1)).cloned();
    let ir = get("--ir").expect("--ir");
    let entry = get("--entry").expect("--entry");
    let params: Vec<u64> = get("--params")
        .unwrap_or_default()
        .split(',')
        .filter(|s| !s.is_empty())
        .map(|s| s.parse().unwrap())
        .collect();
    let num = |k: &str, d: u64| get(k).map(|s| s.parse::<u64>().unwrap()).unwrap_or(d);
    let lim = exec::Limits {
        max_secs: num("--secs", 300) as f64,
        max_steps: num("--steps", 2_000_000_000),
        max_violations: num("--violations", 3) as usize,
        samples: num("--samples", 6) as usize,
        max_states: num("--states", 200_000) as usize,
    };
    let t0 = std::time::Instant::now();
    let m = ir::Module::load(&ir);
    let load = t0.elapsed().as_secs_f64();
    let mut e = exec::Engine::new(&m, params.clone(), lim, num("--solver-ms", 60_000) as u32);
    e.verbose = args.iter().any(|a| a == "-v");
    if let Some(d) = get("--dump") {
        let _ = std::fs::create_dir_all(&d);
        e.solver.dump_dir = Some(d);
        e.solver.dump_every = num("--dump-every", 1);
    }
    e.property = get("--prop").and_then(|p| p.into_bytes().try_into().ok());
    e.run(&entry);
    // functions and lines of the checked crate that were executed
    let mut funcs: BTreeMap<String, BTreeSet<u32>> = BTreeMap::new();
    let mut ids: Vec<usize> = e.called.iter().copied().collect();
    if let Some(&i) = m.fidx.get(&entry) {
        ids.push(i);
    }
    let mut seen = std::collections::HashSet::new();
    let mut ninst = 0u64;
    for id in ids {
        let Some(f) = m.func(id) else { continue };
        for (b, bl) in f.blocks.iter().enumerate() {
            if !f.cfg.visited[b].get() {
                continue;
            }
            ninst += bl.insts.len() as u64;
            for i in &bl.insts {
                if i.dbg == 0 || !seen.insert(i.dbg) {
                    continue;
                }
                for (name, file, line) in m.loc(i.dbg) {
                    if let Some(at) = file.find("/repo/src/") {
                        let rel = &file[at + 6..];
                        funcs.entry(format!("{}:{}", rel, name)).or_default().insert(line);
                    }
                }
            }
        }
    }
    let mut o = String::from("{");
    o += &format!("\"entry\":{},\"params\":[{}],", esc(&entry), params.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","));
    o += &format!(
        "\"paths\":{},\"killed\":{},\"forks\":{},\"merges\":{},\"steps\":{},\"peak_states\":{},\"terms\":{},\"ir_insts\":{},",
        e.paths, e.killed, e.forks, e.merges, e.steps, e.peak, e.p.nodes.len(), ninst
    );
    o += &format!(
        "\"queries\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"cache_hits\":{},\"portfolio\":{},\"own\":{},\"checked\":{},\"core_hits\":{},\"conflicts\":{},\"solver_s\":{:.3},\"solver_max_s\":{:.3},\"asserts\":{},\"assert_queries\":{},",
        e.solver.queries, e.solver.sat, e.solver.unsat, e.solver.unknown, e.solver.cache_hits, e.solver.portfolio, e.solver.own, e.solver.checked, e.solver.core_hits, e.solver.conflicts(), e.solver.time, e.solver.max_time, e.asserts, e.assert_queries
    );
    o += &format!("\"load_s\":{:.2},\"wall_s\":{:.2},", load, e.t0.elapsed().as_secs_f64());
    o += &format!("\"incomplete\":[{}],", e.incomplete.iter().map(|s| esc(s)).collect::<Vec<_>>().join(","));
    let mut cv: Vec<_> = e.covers.iter().collect();
    cv.sort();
    o += &format!("\"covers\":{{{}}},", cv.iter().map(|(k, v)| format!("{}:{}", esc(k), v)).collect::<Vec<_>>().join(","));
    o += &format!(
        "\"functions\":{{{}}},",
        funcs
            .iter()
            .map(|(k, v)| format!("{}:[{}]", esc(k), v.iter().map(|l| l.to_string()).collect::<Vec<_>>().join(",")))
            .collect::<Vec<_>>()
            .join(",")
    );
    o += &format!(
        "\"samples\":[{}],",
        e.samples
            .iter()
            .map(|s| format!("{{\"inputs\":{},\"obs\":[{}]}}", inputs(&s.inputs), s.obs.iter().map(|x| format!("\"{}\"", x)).collect::<Vec<_>>().join(",")))
            .collect::<Vec<_>>()
            .join(",")
    );
    let list = |v: &[exec::Violation]| -> String {
        v.iter()
            .map(|v| format!(
                "{{\"msg\":{},\"loc\":[{}],\"inputs\":{}}}",
                esc(&v.msg),
                v.loc.iter().map(|l| format!("[{},{},{}]", esc(&l.0), esc(&l.1), l.2)).collect::<Vec<_>>().join(","),
                inputs(&v.inputs)
            ))
            .collect::<Vec<_>>()
            .join(",")
    };
    o += &format!("\"suspects\":[{}],\"violations\":[{}]}}\n", list(&e.suspects), list(&e.violations));
    match get("--out") {
        Some(p) => std::fs::write(p, o).unwrap(),
        None => print!("{}", o),
    }
    std::process::exit(0);
}

fn main() {
    std::thread::Builder::new().stack_size(1 << 30).spawn(real_main).unwrap().join().unwrap();
}
