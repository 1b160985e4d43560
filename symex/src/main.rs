mod exec; mod expr; mod ir; mod stubs; mod z3;
use exec::*;
fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)), c => o.push(c) } }
    o.push('"');
    o
}
fn hex(b: &[u8]) -> String { b.iter().map(|x| format!("{:02x}", x)).collect() }
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let h = std::thread::Builder::new().stack_size(4 << 30).spawn(move || run(a)).unwrap();
    let code = h.join().unwrap_or(3);
    std::process::exit(code);
}
fn run(a: Vec<String>) -> i32 {
    let mut lim = Limits { max_paths: 2_000_000, max_time: 600., max_steps: 200_000_000, max_depth: 3000, max_viol: 20, max_traces: 200 };
    let (mut ll, mut entry, mut params, mut z3ms, mut prof, mut split) = (String::new(), String::new(), vec![], 30000u32, false, (0u64, 1u64));
    let (mut z3_all, mut seed) = (true, 1u64);
    let mut i = 1;
    while i < a.len() {
        let v = a.get(i + 1).cloned().unwrap_or_default();
        match a[i].as_str() {
            "--ll" => ll = v, "--entry" => entry = v,
            "--params" => params = v.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect(),
            "--max-time" => lim.max_time = v.parse().unwrap(), "--max-paths" => lim.max_paths = v.parse().unwrap(),
            "--max-steps" => lim.max_steps = v.parse().unwrap(), "--max-depth" => lim.max_depth = v.parse().unwrap(),
            "--max-viol" => lim.max_viol = v.parse().unwrap(), "--max-traces" => lim.max_traces = v.parse().unwrap(),
            "--z3-ms" => z3ms = v.parse().unwrap(),
            "--split" => { let p: Vec<u64> = v.split('/').map(|x| x.parse().unwrap()).collect(); split = (p[0], p[1]); }
            "--no-z3-all" => { z3_all = false; i -= 1; }
            "--seed" => seed = v.parse().unwrap(),
            "--prof" => { prof = true; i -= 1; }
            x => { eprintln!("unknown option {}", x); return 3; }
        }
        i += 2;
    }
    let t0 = std::time::Instant::now();
    let m = ir::Module::load(&ll);
    let mut x = Exec::new(&m, lim, z3ms);
    x.params = params;
    x.trace_calls = prof;
    x.split = split;
    x.z3_all = z3_all;
    x.seed = seed.wrapping_mul(0x9e3779b97f4a7c15);
    let id = match m.by_name.get(&entry) { Some(i) => *i, None => { eprintln!("no entry {}", entry); return 3; } };
    x.explore(id, &[]);
    if prof {
        let mut v: Vec<_> = x.prof.iter().collect();
        v.sort_by_key(|p| std::cmp::Reverse(*p.1));
        for (k, n) in v.iter().take(25) { eprintln!("{:8} {}", n, k); }
    }
    let st = &x.stats;
    let mut o = String::from("{");
    o.push_str(&format!("\"entry\":{},\"params\":{:?},\"split\":[{},{}],", js(&entry), x.params, split.0, split.1));
    o.push_str(&format!("\"complete\":{},", x.incomplete.is_none()));
    if let Some(e) = &x.incomplete { o.push_str(&format!("\"incomplete\":{},", js(e))); }
    o.push_str(&format!("\"paths_ok\":{},\"paths_assumed_away\":{},\"paths_viol\":{},\"forks\":{},\"instructions\":{},\"asserts_checked\":{},\"asserts_solver\":{},\"symbolic_branches\":{},\"dom_decided\":{},\"max_depth\":{},", st.paths_ok, st.paths_assumed_away, st.paths_viol, st.forks, st.steps, st.asserts_checked, st.asserts_solver, st.branches_sym, st.dom_decided, st.maxdepth));
    o.push_str(&format!("\"z3_queries\":{},\"z3_cache_hits\":{},\"z3_s\":{:.3},\"z3_max_s\":{:.3},\"wall_s\":{:.3},\"nodes\":{},", x.z.queries, x.cache_hits, x.z.secs, x.z.max_s, t0.elapsed().as_secs_f64(), x.cx.n.len()));
    o.push_str(&format!("\"covers\":{{{}}},", x.covers.iter().map(|(k, v)| format!("\"{}\":{}", k, v)).collect::<Vec<_>>().join(",")));
    o.push_str(&format!("\"functions\":[{}],", x.executed.iter().enumerate().filter(|(_, b)| **b).map(|(i, _)| js(&m.defs[i].name)).collect::<Vec<_>>().join(",")));
    o.push_str(&format!("\"violations\":[{}],", x.viols.iter().map(|v| format!("{{\"kind\":{},\"id\":{},\"msg\":{},\"inputs\":\"{}\",\"stack\":[{}]}}", js(&v.kind), v.id, js(&v.msg), hex(&v.inputs), v.stack.iter().map(|s| js(s)).collect::<Vec<_>>().join(","))).collect::<Vec<_>>().join(",")));
    o.push_str(&format!("\"traces\":[{}]", x.traces.iter().map(|t| format!("{{\"end\":{},\"inputs\":\"{}\",\"asserts\":{},\"notes\":[{}]}}", js(&t.end), hex(&t.inputs), t.asserts, t.notes.iter().map(|(a, b)| format!("[{},{}]", a, b)).collect::<Vec<_>>().join(","))).collect::<Vec<_>>().join(",")));
    o.push('}');
    println!("{}", o);
    0
}
