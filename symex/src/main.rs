mod exec;
mod fix;
mod ir;
mod selftest;
mod solver;
mod term;
use exec::*;
use std::collections::BTreeMap;
use std::fmt::Write;

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for ch in s.chars() {
        match ch {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            ch if (ch as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", ch as u32);
            }
            ch => o.push(ch),
        }
    }
    o.push('"');
    o
}
fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}
fn inputs(v: &[(String, Vec<u8>)]) -> String {
    let xs: Vec<String> = v.iter().map(|(n, b)| format!("[{},{}]", js(n), js(&hex(b)))).collect();
    format!("[{}]", xs.join(","))
}

fn main() {
    // symex IR.ll entry --out FILE [options]
    let args: Vec<String> = std::env::args().collect();
    let args2 = args.clone();
    let opt = move |k: &str, d: &str| -> String {
        args2.iter().position(|a| a == k).and_then(|i| args2.get(i + 1)).cloned().unwrap_or_else(|| d.to_string())
    };
    if args.get(1).map_or(false, |a| a == "--selftest") {
        let ok = selftest::selftest(opt("--rounds", "20000").parse().unwrap(), opt("--seed", "1").parse().unwrap());
        std::process::exit(!ok as i32);
    }
    let text = std::fs::read_to_string(&args[1]).expect("IR file");
    let entry = args[2].clone();
    let t0 = std::time::Instant::now();
    let h = std::thread::Builder::new()
        .stack_size(1 << 30)
        .spawn(move || {
            let m = ir::Module::parse(text);
            let parse_s = t0.elapsed().as_secs_f64();
            let s = solver::Solver::new(&opt("--z3", "z3-new"), opt("--query-ms", "20000").parse().unwrap());
            let o = Opts {
                max_secs: opt("--max-secs", "300").parse().unwrap(),
                max_steps: opt("--max-steps", "20000000").parse().unwrap(),
                max_viol: opt("--max-viol", "12").parse().unwrap(),
                samples: opt("--samples", "4").parse().unwrap(),
                seed: opt("--seed", "1").parse().unwrap(),
                fanout: opt("--fanout", "300").parse().unwrap(),
                merge: opt("--merge", "300").parse().unwrap(),
                trace: args.iter().any(|a| a == "--trace"),
            };
            let mut ex = Exec::new(m, s, o);
            if let Err(e) = ex.run(&entry) {
                eprintln!("symex: {}", e);
                std::process::exit(3);
            }
            let mut out = String::new();
            let _ = write!(
                out,
                "{{\"entry\":{},\"parse_s\":{:.3},\"wall_s\":{:.3},\"paths_ok\":{},\"paths_panic\":{},\"paths_assume\":{},\"paths_viol\":{},\"paths_err\":{},\"insts\":{},\"forks\":{},\"merges\":{},\"checks\":{},\"checks_solver\":{},",
                js(&entry), parse_s, t0.elapsed().as_secs_f64(), ex.st.paths_ok, ex.st.paths_panic, ex.st.paths_assume,
                ex.st.paths_viol, ex.st.paths_err, ex.st.insts, ex.st.forks, ex.st.merges, ex.st.checks, ex.st.checks_solver
            );
            let sv = &ex.solver;
            let _ = write!(
                out,
                "\"queries\":{},\"cache_hits\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"fp_queries\":{},\"fallback\":{},\"solver_s\":{:.3},\"max_query_s\":{:.3},\"terms\":{},",
                sv.queries, sv.cache_hits, sv.sat, sv.unsat, sv.unknown, sv.fp_queries, sv.fallback, sv.secs, sv.max_secs, term::nterms()
            );
            let er: Vec<String> = ex
                .errors
                .iter()
                .map(|(k, v)| {
                    format!("{{\"msg\":{},\"count\":{},\"stack\":[{}]}}", js(k), v.0, v.1.iter().map(|x| js(x)).collect::<Vec<_>>().join(","))
                })
                .collect();
            let _ = write!(out, "\"errors\":[{}],", er.join(","));
            let vs: Vec<String> = ex
                .viols
                .iter()
                .map(|v| {
                    format!(
                        "{{\"kind\":{},\"msg\":{},\"stack\":[{}],\"inputs\":{}}}",
                        js(&v.kind), js(&v.msg), v.stack.iter().map(|x| js(x)).collect::<Vec<_>>().join(","), inputs(&v.inputs)
                    )
                })
                .collect();
            let _ = write!(out, "\"violations\":[{}],", vs.join(","));
            let cs: Vec<String> = ex.covers.iter().map(|(k, v)| format!("{}:{}", js(k), v)).collect();
            let _ = write!(out, "\"covers\":{{{}}},", cs.join(","));
            let bs: Vec<String> = ex.bounds.iter().map(|k| js(k)).collect();
            let _ = write!(out, "\"bounds\":[{}],", bs.join(","));
            let ss: Vec<String> = ex
                .samples
                .iter()
                .map(|s| {
                    format!(
                        "{{\"end\":{},\"inputs\":{},\"obs\":[{}]}}",
                        js(s.end), inputs(&s.inputs), s.obs.iter().map(|o| format!("\"{:x}\"", o)).collect::<Vec<_>>().join(",")
                    )
                })
                .collect();
            let _ = write!(out, "\"samples\":[{}],", ss.join(","));
            // source functions and lines whose code was executed, from the debug locations
            let mut fl: BTreeMap<(String, String), std::collections::BTreeSet<u32>> = BTreeMap::new();
            let mut done = std::collections::HashSet::new();
            let ids: Vec<u32> = ex.dbg_seen.iter().cloned().collect();
            for id in ids {
                let mut id = id;
                while done.insert(id) {
                    if let Some((l, s)) = ex.di_loc(id) {
                        let (file, name, _) = ex.di_scope(s);
                        fl.entry((file, name)).or_default().insert(l);
                    }
                    match ex.di_inlined(id) {
                        Some(n) => id = n,
                        None => break,
                    }
                }
            }
            let fs: Vec<String> = fl
                .iter()
                .filter(|((f, _), _)| f.contains("pasture"))
                .map(|((f, n), ls)| format!("[{},{},{}]", js(f), js(n), ls.len()))
                .collect();
            let _ = write!(out, "\"functions\":[{}]}}", fs.join(","));
            let of = opt("--out", "-");
            if of == "-" {
                println!("{}", out);
            } else {
                std::fs::write(of, out).unwrap();
            }
        })
        .unwrap();
    if h.join().is_err() {
        std::process::exit(4);
    }
}
