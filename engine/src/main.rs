//! vsym: bounded symbolic execution of compiled Rust.
//!
//! usage: vsym FILE.ll FUNCTION --out OUT.json [--time S] [--states N] [--steps N] [--samples N]
mod exec;
mod expr;
mod ints;
mod parse;

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn main() {
    // Deeply nested terms are walked recursively.
    let h = std::thread::Builder::new().stack_size(1 << 30).spawn(real).unwrap();
    h.join().unwrap();
}

fn real() {
    let a: Vec<String> = std::env::args().collect();
    let get = |k: &str, d: &str| -> String {
        a.iter().position(|x| x == k).map_or(d.to_string(), |i| a[i + 1].clone())
    };
    let t0 = std::time::Instant::now();
    let text = std::fs::read_to_string(&a[1]).expect("input");
    let m = parse::Module::load(&text).expect("parse");
    drop(text);
    let z3 = get("--solver", "z3 -in -smt2");
    let mut cx = expr::Ctx::new(z3.split_whitespace().map(|s| s.to_string()).collect());
    cx.timeout_ms = get("--query-timeout", "60000").parse().unwrap();
    let lim = exec::Limits {
        time_s: get("--time", "600").parse().unwrap(),
        states: get("--states", "5000000").parse().unwrap(),
        steps: get("--steps", "20000000").parse().unwrap(),
        samples: get("--samples", "8").parse().unwrap(),
    };
    let mut en = exec::Engine::new(m, cx, lim);
    if let Err(e) = en.run(&a[2]) {
        en.incomplete.insert(e);
    }
    let s = &en.stats;
    let mut o = String::from("{\n");
    o.push_str(&format!(" \"harness\": {},\n", esc(&a[2])));
    for (k, v) in [
        ("paths", s.paths),
        ("stops", s.stops),
        ("pruned", s.pruned),
        ("states", s.states),
        ("transitions", s.edges),
        ("merged", s.merged),
        ("forks", s.forks),
        ("instructions", s.instrs),
        ("asserts", s.asserts),
        ("asserts_symbolic", s.asserts_symbolic),
        ("max_threads", s.max_threads),
        ("max_depth", s.max_depth),
        ("queries", en.cx.queries),
        ("sat", en.cx.sat),
        ("unsat", en.cx.unsat),
        ("unknown", en.cx.unknown),
        ("cvc5_queries", en.cx.cvc5_queries),
        ("integer_queries", en.cx.int_queries),
        ("queries_answered_by_model", en.cx.model_hits),
        ("query_cache_hits", en.cx.cache_hits),
        ("terms", en.cx.n.len() as u64),
    ] {
        o.push_str(&format!(" \"{}\": {},\n", k, v));
    }
    o.push_str(&format!(" \"solver_s\": {:.3},\n", en.cx.solver_s));
    o.push_str(&format!(" \"max_query_s\": {:.3},\n", en.cx.max_query_s));
    o.push_str(&format!(" \"wall_s\": {:.3},\n", t0.elapsed().as_secs_f64()));
    let list = |v: Vec<String>| format!("[{}]", v.join(", "));
    o.push_str(&format!(
        " \"incomplete\": {},\n",
        list(en.incomplete.iter().map(|x| esc(x)).collect())
    ));
    o.push_str(&format!(" \"covers\": {},\n", list(en.covers.iter().map(|x| esc(x)).collect())));
    let asserts: Vec<String> =
        en.asserts.iter().map(|(k, v)| format!("{}: {}", esc(k), v)).collect();
    o.push_str(&format!(" \"assertions\": {{{}}},\n", asserts.join(", ")));
    o.push_str(&format!(
        " \"functions\": {},\n",
        list(en.m.decoded_names().iter().map(|x| esc(x)).collect())
    ));
    let hits: Vec<u32> = (0..en.hit.len() as u32).filter(|&i| en.hit[i as usize]).collect();
    let (fns, lines) = en.m.sources(&hits, &get("--src", "/src/"));
    o.push_str(&format!(
        " \"repo_functions\": {},\n",
        list(fns.iter().map(|x| esc(x)).collect())
    ));
    o.push_str(&format!(
        " \"repo_lines\": {},\n",
        list(lines.iter().map(|x| esc(&format!("{}:{}", x.0, x.1))).collect())
    ));
    o.push_str(&format!(
        " \"violations\": {},\n",
        list(
            en.violations
                .iter()
                .map(|v| format!(
                    "{{\"kind\": {}, \"msg\": {}, \"tape\": {}}}",
                    esc(&v.kind),
                    esc(&v.msg),
                    esc(&v.tape)
                ))
                .collect()
        )
    ));
    o.push_str(&format!(
        " \"samples\": {}\n}}\n",
        list(
            en.samples
                .iter()
                .map(|v| format!(
                    "{{\"tape\": {}, \"obs\": [{}]}}",
                    esc(&v.tape),
                    v.obs.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(", ")
                ))
                .collect()
        )
    ));
    let out = get("--out", "-");
    if out == "-" {
        print!("{}", o);
    } else {
        std::fs::write(&out, o).expect("output");
    }
    // Skip the destructors of millions of shared terms.
    use std::io::Write;
    let _ = std::io::stdout().flush();
    std::process::exit(0);
}
