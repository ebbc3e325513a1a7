#![feature(rustc_private)]

extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_infer;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_public;
extern crate rustc_public_bridge;
extern crate rustc_span;
extern crate rustc_trait_selection;

mod api;
mod dom;
mod interp;
mod join;
mod mem;
mod models;

use interp::*;
use rustc_public::crate_def::CrateDef;
use rustc_public::mir::mono::Instance;
use rustc_public::ty::FnDef;
use rustc_public::CompilerError;
use std::fmt::Write as _;
use std::ops::ControlFlow;
use std::process::ExitCode;

extern "C" {
    fn fork() -> i32;
    fn prctl(op: i32, sig: u64, ...) -> i32;
    fn waitpid(pid: i32, status: *mut i32, options: i32) -> i32;
    fn _exit(code: i32) -> !;
}

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn list(v: impl IntoIterator<Item = String>) -> String {
    format!("[{}]", v.into_iter().map(|s| esc(&s)).collect::<Vec<_>>().join(","))
}

fn new_interp() -> Interp {
    let env = |k: &str, d: u64| std::env::var(k).ok().and_then(|v| v.parse().ok()).unwrap_or(d);
    Interp {
        bodies: Default::default(),
        lays: Default::default(),
        tails: Default::default(),
        names: Default::default(),
        vts: Default::default(),
        stats: Default::default(),
        findings: Default::default(),
        unsup: Default::default(),
        repo_root: std::env::var("VERIF_REPO").unwrap_or_else(|_| "/repo".into()),
        verbose: std::env::var("VERIF_VERBOSE").is_ok(),
        slevel: env("VERIF_SLEVEL", 20000) as usize,
        steps: Default::default(),
        max_steps: env("VERIF_STEPS", 20_000_000),
        max_secs: env("VERIF_SECS", 400),
        start: std::time::Instant::now(),
        depth: Default::default(),
    }
}

fn run_driver(f: FnDef) -> String {
    let name = f.name().to_string();
    let t0 = std::time::Instant::now();
    let mut it = new_interp();
    if name.ends_with("_far") {
        it.max_steps *= 4;
    }
    let inst = match Instance::resolve(f, &rustc_public::ty::GenericArgs(vec![])) {
        Ok(i) => i,
        Err(_) => return format!("{{\"driver\":{},\"error\":\"resolve\"}}", esc(&name)),
    };
    let st = State::empty();
    let rets = it.run_fn(st, inst, vec![]);
    let s = it.stats.borrow();
    let mut o = String::new();
    let _ = write!(o, "{{\"driver\":{},\"returns\":{}", esc(&name), rets.len());
    let _ = write!(
        o,
        ",\"blocks\":{},\"statements\":{},\"joins\":{},\"partitions\":{},\"mem_obligations\":{},\"arith_obligations\":{},\"atoms\":{},\"ms\":{}",
        s.blocks, s.statements, s.joins, s.partitions, s.mem_obligations, s.arith_obligations, dom::atom_count(), t0.elapsed().as_millis()
    );
    let _ = write!(o, ",\"functions\":{}", list(s.functions.iter().cloned()));
    let _ = write!(o, ",\"call_sites\":{}", list(s.call_sites.iter().cloned()));
    let m = |m: &std::collections::BTreeMap<String, u64>| {
        format!("{{{}}}", m.iter().map(|(k, v)| format!("{}:{}", esc(k), v)).collect::<Vec<_>>().join(","))
    };
    let _ = write!(o, ",\"rules\":{},\"covers\":{}", m(&s.rule_checks), m(&s.covers));
    let _ = write!(o, ",\"unsupported\":{}", m(&it.unsup.borrow()));
    let fs: Vec<String> = it
        .findings
        .borrow()
        .iter()
        .map(|f| {
            format!(
                "{{\"kind\":{},\"rule\":{},\"msg\":{},\"site\":{},\"func\":{},\"chain\":{},\"path\":{}}}",
                esc(f.kind),
                esc(&f.rule),
                esc(&f.msg),
                esc(&f.site),
                esc(&f.func),
                list(f.chain.iter().cloned()),
                list(f.path.iter().cloned())
            )
        })
        .take(200)
        .collect();
    let _ = write!(o, ",\"nfindings\":{},\"findings\":[{}]}}", it.findings.borrow().len(), fs.join(","));
    std::mem::forget(rets);
    o
}

fn analyse() -> ControlFlow<()> {
    let out = std::env::var("VERIF_OUT").expect("VERIF_OUT");
    let pats = std::env::var("VERIF_DRIVERS").unwrap_or_default();
    let jobs: usize = std::env::var("VERIF_JOBS").ok().and_then(|v| v.parse().ok()).unwrap_or(1);
    let krate = rustc_public::local_crate();
    let mut fns: Vec<FnDef> = krate
        .fn_defs()
        .into_iter()
        .filter(|f| {
            let n = f.name().to_string();
            let last = n.rsplit("::").next().unwrap();
            pats.split(',').any(|p| !p.is_empty() && last.starts_with(p))
        })
        .collect();
    fns.sort_by_key(|f| f.name().to_string());
    eprintln!("analyzer: {} drivers in {}", fns.len(), krate.name);
    if jobs <= 1 {
        let r: Vec<String> = fns.into_iter().map(run_driver).collect();
        std::fs::write(&out, r.join("\n") + "\n").unwrap();
        return ControlFlow::Break(());
    }
    let _ = std::fs::write(&out, "");
    // one process per driver, at most `jobs` at a time
    let mut running = 0;
    let mut files = vec![];
    for (i, f) in fns.iter().enumerate() {
        if running >= jobs {
            unsafe {
                let mut st = 0;
                waitpid(-1, &mut st, 0);
            }
            running -= 1;
        }
        let part = format!("{}.{}", out, i);
        let _ = std::fs::remove_file(&part);
        let pid = unsafe { fork() };
        if pid == 0 {
            unsafe { prctl(1, 9) };
            let r = run_driver(*f);
            let _ = std::fs::write(&part, r + "\n");
            unsafe { _exit(0) }
        }
        running += 1;
        files.push((part, f.name().to_string()));
    }
    while running > 0 {
        unsafe {
            let mut st = 0;
            if waitpid(-1, &mut st, 0) < 0 {
                break;
            }
        }
        running -= 1;
    }
    let mut all = String::new();
    for (p, n) in files {
        match std::fs::read_to_string(&p) {
            Ok(s) => all.push_str(&s),
            Err(_) => {
                let _ = writeln!(all, "{{\"driver\":{},\"error\":\"analysis process died\"}}", esc(&n));
            }
        }
        let _ = std::fs::remove_file(&p);
    }
    std::fs::write(&out, all).unwrap();
    ControlFlow::Break(())
}

fn main() -> ExitCode {
    let mut args: Vec<String> = std::env::args().collect();
    // as a wrapper, the first argument is the path of rustc
    let rustc = args.remove(1);
    let krate = args.iter().position(|a| a == "--crate-name").and_then(|i| args.get(i + 1)).cloned().unwrap_or_default();
    let target = std::env::var("VERIF_CRATE").unwrap_or_default();
    if !target.is_empty() && krate == target && !args.iter().any(|a| a == "--print" || a.starts_with("--print=")) {
        unsafe { prctl(1, 9) };
        let r = match std::env::var("VERIF_API") {
            Ok(roots) => rustc_public::run_with_tcx!(&args, |tcx| {
                api::dump(tcx, &roots, &std::env::var("VERIF_OUT").expect("VERIF_OUT"));
                ControlFlow::<()>::Break(())
            }),
            Err(_) => rustc_public::run!(&args, analyse),
        };
        return match r {
            Ok(_) | Err(CompilerError::Interrupted(_)) => ExitCode::SUCCESS,
            Err(_) => ExitCode::FAILURE,
        };
    }
    match std::process::Command::new(rustc).args(&args[1..]).status() {
        Ok(s) => ExitCode::from(s.code().unwrap_or(1) as u8),
        Err(_) => ExitCode::FAILURE,
    }
}
