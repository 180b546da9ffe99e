mod exec;
mod expr;
mod ir;
mod mem;
mod solver;

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn jl(v: &[String]) -> String {
    format!("[{}]", v.iter().map(|s| js(s)).collect::<Vec<_>>().join(","))
}

fn main() {
    let h = std::thread::Builder::new().stack_size(4 << 30).spawn(real_main).unwrap();
    let c = h.join().unwrap_or(4);
    std::process::exit(c);
}

fn real_main() -> i32 {
    let args: Vec<String> = std::env::args().collect();
    if args.len() < 3 {
        eprintln!("usage: symex FILE.ll ENTRY [--out F] [--max-paths N] [--max-steps N] [--time S] [--qtimeout MS] [--trace] [--prof] [--inputs a,b,c] [--witness N]");
        return 2;
    }
    let (ll, entry) = (&args[1], &args[2]);
    let mut out = None;
    let mut max_paths = u64::MAX;
    let mut max_steps = 200_000_000u64;
    let mut time = 600f64;
    let mut qt = 30_000u32;
    let mut trace = false;
    let mut prof = false;
    let mut eager = false;
    let mut inputs = None;
    let mut wit = 8usize;
    let mut tier = 0u32;
    let mut merge = true;
    let mut i = 3;
    while i < args.len() {
        let v = args.get(i + 1).cloned().unwrap_or_default();
        match args[i].as_str() {
            "--out" => out = Some(v),
            "--max-paths" => max_paths = v.parse().unwrap(),
            "--max-steps" => max_steps = v.parse().unwrap(),
            "--time" => time = v.parse().unwrap(),
            "--qtimeout" => qt = v.parse().unwrap(),
            "--tier" => tier = v.parse().unwrap(),
            "--witness" => wit = v.parse().unwrap(),
            "--inputs" => inputs = Some(v.split(',').filter(|s| !s.is_empty()).map(|s| s.to_string()).collect::<Vec<_>>()),
            "--trace" => {
                trace = true;
                i += 1;
                continue;
            }
            "--eager" => {
                eager = true;
                i += 1;
                continue;
            }
            "--no-merge" => {
                merge = false;
                i += 1;
                continue;
            }
            "--prof" => {
                prof = true;
                i += 1;
                continue;
            }
            o => {
                eprintln!("unknown option {o}");
                return 2;
            }
        }
        i += 2;
    }
    let m = ir::Module::load(ll);
    let mut ex = exec::Exec::new(m, qt);
    ex.max_paths = max_paths;
    ex.max_steps = max_steps;
    ex.trace = trace;
    ex.tier = tier;
    ex.max_witness = wit;
    if prof {
        ex.prof = Some(Default::default());
    }
    ex.concrete = inputs;
    ex.deadline = std::time::Instant::now() + std::time::Duration::from_secs_f64(time);
    ex.s.deadline = Some(ex.deadline);
    ex.merge = merge;
    ex.eager = eager;
    ex.partial = out.clone().map(|f| (f, entry.to_string(), report as fn(&exec::Exec, &str) -> String));
    if let Err(e) = ex.run(entry) {
        ex.rep.errors.push(e);
    }
    let j = report(&ex, entry);
    let r = &ex.rep;
    match out {
        Some(f) => std::fs::write(f, j).unwrap(),
        None => println!("{j}"),
    }
    if let Some(pf) = &ex.prof {
        let mut v: Vec<_> = pf.iter().collect();
        v.sort_by_key(|x| std::cmp::Reverse(*x.1));
        for ((f, b), n) in v.into_iter().take(25) {
            let name = &ex.m.fns[*f as usize].name;
            let bn = ex.m.func(*f).map(|x| x.blocks[*b as usize].name.clone()).unwrap_or_default();
            eprintln!("{n:8} forks {name} %{bn}");
        }
    }
    if !r.errors.is_empty() || !r.incomplete.is_empty() {
        2
    } else if !r.violations.is_empty() {
        1
    } else {
        0
    }
}

fn report(ex: &exec::Exec, entry: &str) -> String {
    let r = &ex.rep;
    let vs: Vec<String> = r
        .violations
        .iter()
        .map(|v| format!("{{\"kind\":{},\"id\":{},\"at\":{},\"stack\":{},\"inputs\":{},\"covers\":{:?}}}", js(&v.kind), v.id, js(&v.at), jl(&v.stack), jl(&v.inputs), v.covers))
        .collect();
    let ws: Vec<String> = r.witnesses.iter().map(|v| format!("{{\"inputs\":{},\"covers\":{:?},\"obs\":{:?}}}", jl(&v.inputs), v.covers, v.obs)).collect();
    let cov: Vec<String> = r.covers.iter().map(|(k, v)| format!("\"{}\":{}", k, v)).collect();
    let funcs: Vec<String> = r.funcs.iter().cloned().collect();
    format!(
        "{{\"entry\":{},\"paths\":{},\"infeasible\":{},\"forks\":{},\"instructions\":{},\"checks\":{},\"checks_folded\":{},\"checks_solver\":{},\"queries\":{},\"sat\":{},\"unsat\":{},\"cache_hits\":{},\"solver_s\":{:.3},\"max_query_s\":{:.3},\"ext_queries\":{},\"merges\":{},\"wall_s\":{:.3},\"exprs\":{},\"z3\":{},\"covers\":{{{}}},\"violations\":[{}],\"witnesses\":[{}],\"incomplete\":{},\"errors\":{},\"functions\":{}}}",
        js(entry), r.paths, r.infeasible, r.forks, r.steps, r.checks, r.checks_const, r.checks_solver, ex.s.queries, ex.s.sat, ex.s.unsat, ex.s.cache_hits, ex.s.time, ex.s.max_time, ex.s.ext_queries, r.merges, r.wall, ex.p.nodes.len(), js(&solver::z3_version()),
        cov.join(","), vs.join(","), ws.join(","), jl(&r.incomplete), jl(&r.errors), jl(&funcs)
    )
}
