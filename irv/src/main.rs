#![allow(dead_code)]
mod consts;
mod contract;
mod drv;
mod exec;
mod ir;
mod prove;
mod spec;
mod term;
use std::io::{BufRead, Write};

fn unhex(s: &str) -> Vec<u8> {
    if s == "-" {
        return vec![];
    }
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}
fn hex(b: &[u8]) -> String {
    if b.is_empty() {
        return "-".into();
    }
    b.iter().map(|x| format!("{:02x}", x)).collect()
}

fn oracle() {
    let stdin = std::io::stdin();
    let out = std::io::stdout();
    let mut out = out.lock();
    for l in stdin.lock().lines() {
        let l = l.unwrap();
        let f: Vec<&str> = l.split_whitespace().collect();
        if f.len() < 3 {
            continue;
        }
        match spec::digest(f[0], &unhex(f[1]), &unhex(f[2])) {
            Some(d) => writeln!(out, "{}", hex(&d)).unwrap(),
            None => writeln!(out, "?").unwrap(),
        }
    }
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for ch in s.chars() {
        match ch {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 || (c as u32) > 126 => o.push_str(&format!("\\u{:04x}", (c as u32).min(0xffff))),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn jl<T: AsRef<str>>(v: impl IntoIterator<Item = T>) -> String {
    format!("[{}]", v.into_iter().map(|x| js(x.as_ref())).collect::<Vec<_>>().join(","))
}
fn report(v: &contract::V, m: &ir::Module, cl: &drv::Class, cfg: &drv::Config, ms: u64) -> String {
    let s = &v.e.c.stats;
    let ok: Vec<String> = v.rep.ok.iter().map(|((c, n), k)| format!("[{},{},{}]", js(c), js(n), k)).collect();
    let fails: Vec<String> = v.rep.fails.iter().map(|f| format!("{{\"cat\":{},\"name\":{},\"definite\":{},\"msg\":{}}}", js(&f.cat), js(&f.name), f.definite, js(&f.msg))).collect();
    let saf: Vec<String> = v.e.oblig.iter().map(|(k, n)| format!("{}:{}", js(k), n)).collect();
    let mut fns: Vec<String> = v.e.funcs_seen.iter().map(|i| m.funcs[*i].name.clone()).collect();
    fns.sort();
    format!(
        "{{\"class\":{},\"config\":{},\"ms\":{},\"ok\":[{}],\"fails\":[{}],\"done\":{},\"safety\":{{{}}},\"functions\":{},\"assumptions\":{},\"externals\":{},\"loops_cut\":{},\"steps\":{},\"stats\":{{\"structural\":{},\"anf\":{},\"linear\":{},\"exhaustive\":{},\"congruence\":{},\"smt\":{},\"smt_ms\":{},\"prover_ms\":{}}}}}",
        js(cl.id), js(cfg.name), ms, ok.join(","), fails.join(","), jl(&v.rep.done), saf.join(","), jl(&fns), jl(&v.e.assumptions), jl(&v.e.ext_calls), v.e.cuts_done, v.e.steps,
        s.structural, s.anf, s.lin, s.exhaustive, s.congruence, s.smt, s.smt_ms, s.prover_ms / 1000
    )
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    match a.get(1).map(|s| s.as_str()) {
        Some("oracle") => oracle(),
        Some("verify") => {
            let cl = drv::class(&a[2]).expect("class");
            let cfg = drv::config(a.get(3).map(|s| s.as_str()).unwrap_or("cxx14")).expect("config");
            let json = a.iter().position(|x| x == "--json").map(|i| a[i + 1].clone());
            let t0 = std::time::Instant::now();
            let m = match drv::build(&cl, &cfg) {
                Ok(m) => m,
                Err(e) => {
                    println!("FAIL engine build [unproved] {}", e);
                    if let Some(f) = json {
                        std::fs::write(f, format!("{{\"class\":{},\"config\":{},\"build_error\":{}}}", js(cl.id), js(cfg.name), js(&e))).unwrap();
                    }
                    std::process::exit(3);
                }
            };
            eprintln!("build {:?}", t0.elapsed());
            let sp = spec::get(cl.spec).expect("spec");
            let mut v = match contract::V::new(&m, &cl, sp, 1) {
                Ok(v) => v,
                Err(e) => {
                    println!("FAIL engine init [unproved] {}", e);
                    std::process::exit(3);
                }
            };
            v.verify();
            for ((c, n), k) in &v.rep.ok {
                println!("ok   {:8} {:6} {}", c, k, n);
            }
            for f in &v.rep.fails {
                println!("FAIL {:8} {} [{}] {}", f.cat, f.name, if f.definite { "definite" } else { "unproved" }, f.msg);
            }
            println!("safety {:?}", v.e.oblig);
            println!("stats {:?}", v.e.c.stats);
            println!("time {:?}", t0.elapsed());
            if let Some(f) = json {
                std::fs::write(f, report(&v, &m, &cl, &cfg, t0.elapsed().as_millis() as u64)).unwrap();
            }
            if let Ok(k) = std::env::var("IRV_PAIRS") {
                for (i, c) in v.e.c.failed_pairs.iter().filter(|(i, c)| std::env::var("IRV_ALLP").is_ok() || v.e.c.deep_plausible(*i, *c)).take(k.parse().unwrap()) {
                    println!("PAIR\n   impl {}\n   spec {}", v.e.c.show(*i, 5), v.e.c.show(*c, 5));
                }
            }
        }
        Some("parse") => {
            let t = std::fs::read_to_string(&a[2]).unwrap();
            let m = ir::parse(&t).unwrap();
            println!("funcs {} globals {} big {} ptr {}", m.funcs.len(), m.globals.len(), m.big, m.ptr_bits);
        }
        _ => {
            eprintln!("usage: irv oracle|parse|verify|check");
            std::process::exit(2);
        }
    }
}
