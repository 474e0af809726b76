//! symex: symbolic execution of optimised LLVM IR with Z3 as the deciding procedure.
//!   symex <ll> <jobs> <out.json> [threads] [--dbg] [--dump DIR]
//! jobs: one per line: name fn arg max_secs max_paths seed
mod exec;
mod expr;
mod hooks;
mod ir;
mod mem;
mod nums;
mod z3;
use exec::*;
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Mutex;

#[derive(Clone, Debug)]
struct Job {
    name: String,
    func: String,
    arg: u64,
    secs: f64,
    paths: u64,
    seed: u64,
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn jl(v: &[(u8, u64)]) -> String {
    let p: Vec<String> = v.iter().map(|(k, x)| format!("[{},{}]", k, x)).collect();
    format!("[{}]", p.join(","))
}
fn jm(m: &BTreeMap<String, u64>) -> String {
    let p: Vec<String> = m.iter().map(|(k, x)| format!("{}:{}", js(k), x)).collect();
    format!("{{{}}}", p.join(","))
}

fn new_exec(m: &'static ir::Module, hooks: Vec<Option<Hook>>) -> Exec {
    Exec {
        m,
        x: expr::Ctx::new(),
        z: z3::Z3::new(),
        hooks: Rc::new(hooks),
        lim: Limits { max_steps: 200_000_000, max_heap: 400 << 20, max_paths: u64::MAX, max_secs: 1e9, max_viol: 12 },
        t0: std::time::Instant::now(),
        paths: 0,
        panics: 0,
        endless: 0,
        infeasible: 0,
        errors: vec![],
        unknowns: 0,
        asserts: 0,
        asserts_solver: 0,
        asserts_const: 0,
        asserts_table: 0,
        refuted: Default::default(),
        confirmed: 0,
        branches: 0,
        forks: 0,
        merges: 0,
        merge_fail: 0,
        steps: 0,
        viols: vec![],
        viol_count: Default::default(),
        used: Default::default(),
        fcache: vec![None; m.funcs.len()],
        models: vec![],
        stuck: vec![],
        covers: Default::default(),
        cover_names: vec![],
        cover_idx: Default::default(),
        qcache: Default::default(),
        seed: 1,
        live: Default::default(),
        over: false,
        dbg: false,
        tokens: Default::default(),
        loose: Default::default(),
        dyadic_frac: Default::default(),
        invars: Default::default(),
        texts: Default::default(),
        queries_solver_names: 0,
        notes: vec![],
        panic_hist: Default::default(),
        asserted_ids: Default::default(),
        sites: Default::default(),
    }
}

static T0: std::sync::OnceLock<std::time::Instant> = std::sync::OnceLock::new();
fn run_job(m: &'static ir::Module, hooks: &[Option<Hook>], j: &Job, deadline: f64, dbg: bool, dump: &Option<String>, used: &Mutex<BTreeSet<String>>) -> String {
    let mut x = new_exec(m, hooks.to_vec());
    x.dbg = dbg;
    x.lim.max_secs = j.secs.min((deadline - T0.get_or_init(std::time::Instant::now).elapsed().as_secs_f64()).max(0.1));
    x.lim.max_paths = j.paths;
    x.seed = j.seed;
    x.z.dump = dump.clone();
    let fid = match m.fmap.get(&j.func) {
        Some(f) => *f,
        None => return format!("{{\"job\":{},\"errors\":[\"no such function\"],\"complete\":false}}", js(&j.name)),
    };
    let f = x.func(fid).expect("undefined harness function");
    let mut regs = vec![Val::I(j.arg)];
    regs.truncate(f.nargs as usize);
    regs.resize(f.nregs as usize, Val::I(0));
    let mut mm = mem::Mem::new(m);
    // scratch page at the start of the heap (errno)
    let _ = mm.write(ir::HEAP_BASE + 16, 8, 0);
    let sp = mm.sp;
    let st = State {
        cur: Frame { f, regs, pc: 0, sp, dst: ir::NONE, ret_edge: None, allocas: vec![] },
        stack: vec![],
        mem: mm,
        model: Rc::new(vec![]),
        dom: Rc::new(vec![]),
        cons: Rc::new(vec![]),
        known: Rc::new(Default::default()),
        inputs: Rc::new(vec![]),
        covers: Rc::new(vec![]),
        merge: 0,
        steps: 0,
        expect_panic: false,
        forks: 0,
        abs: false,
        ext: Rc::new(Default::default()),
    };
    x.used.insert(f.id);
    x.explore(st, Stop::No);
    x.confirm();
    let secs = x.t0.elapsed().as_secs_f64();
    {
        let mut u = used.lock().unwrap();
        for id in &x.used {
            u.insert(m.funcs[*id as usize].name.clone());
        }
    }
    if dbg {
        let mut v: Vec<_> = x.sites.iter().collect();
        v.sort_by_key(|q| std::cmp::Reverse(*q.1));
        for ((f, pc), n) in v.into_iter().take(25) {
            eprintln!("  fork site {} pc {} x{}", short(&m.funcs[*f as usize].name), pc, n);
        }
    }
    let viols: Vec<String> = x.viols.iter().map(|v| format!("{{\"id\":{},\"inputs\":{},\"abstract\":{},\"at\":{}}}", js(&v.id), jl(&v.inputs), v.abstract_, js(&v.trace))).collect();
    let models: Vec<String> = x.models.iter().map(|v| jl(v)).collect();
    let stuck: Vec<String> = x.stuck.iter().map(|v| jl(v)).collect();
    let errs: Vec<String> = x.errors.iter().map(|e| js(e)).collect();
    let covers: Vec<String> = x.covers.iter().map(|e| js(e)).collect();
    format!(
        "{{\"job\":{},\"complete\":{},\"over\":{},\"errors\":[{}],\"paths\":{},\"panics\":{},\"infeasible\":{},\"unknowns\":{},\"asserts\":{},\"asserts_solver\":{},\"asserts_table\":{},\"confirmed\":{},\"asserts_const\":{},\"branches\":{},\"forks\":{},\"merges\":{},\"merge_fail\":{},\"steps\":{},\"queries\":{},\"solver_secs\":{:.3},\"max_query\":{:.3},\"secs\":{:.3},\"vars\":{},\"nodes\":{},\"functions\":{},\"viol_count\":{},\"violations\":[{}],\"covers\":[{}],\"asserted\":{},\"panic_sites\":{},\"models\":[{}],\"stuck\":[{}]}}",
        js(&j.name),
        !x.over && x.errors.is_empty(),
        x.over,
        errs.join(","),
        x.paths,
        x.panics,
        x.infeasible,
        x.unknowns,
        x.asserts,
        x.asserts_solver,
        x.asserts_table,
        x.confirmed,
        x.asserts_const,
        x.branches,
        x.forks,
        x.merges,
        x.merge_fail,
        x.steps,
        x.z.queries,
        x.z.secs,
        x.z.maxq,
        secs,
        x.x.vars.len(),
        x.x.nodes.len(),
        x.used.len(),
        jm(&x.viol_count),
        viols.join(","),
        covers.join(","),
        jm(&x.asserted_ids),
        jm(&x.panic_hist),
        models.join(","),
        stuck.join(",")
    )
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let dbg = a.iter().any(|s| s == "--dbg");
    let dump = a.iter().position(|s| s == "--dump").map(|i| a[i + 1].clone());
    T0.get_or_init(std::time::Instant::now);
    let deadline: f64 = a.iter().position(|s| s == "--deadline").map_or(1e9, |i| a[i + 1].parse().unwrap());
    let text = std::fs::read_to_string(&a[1]).expect("ll");
    let m: &'static ir::Module = Box::leak(Box::new(ir::Module::load(text)));
    if a[2] == "--parse-all" {
        let mut n = 0;
        let mut bad: BTreeMap<String, u64> = Default::default();
        for i in 0..m.funcs.len() {
            if m.funcs[i].text.is_none() {
                continue;
            }
            if let Some(f) = m.func(i as u32) {
                n += 1;
                for k in &f.ins {
                    if let ir::Ins::Bad(t) = k {
                        *bad.entry(t.chars().take(100).collect()).or_insert(0) += 1;
                    }
                }
            }
        }
        println!("functions {} bad {:?}", n, bad);
        let hk = hooks::table(m);
        for (i, f) in m.funcs.iter().enumerate() {
            if f.text.is_none() && hk[i].is_none() {
                println!("unmodelled external {}", f.name);
            }
        }
        return;
    }
    let jobs: Vec<Job> = std::fs::read_to_string(&a[2])
        .expect("jobs")
        .lines()
        .filter(|l| !l.trim().is_empty())
        .map(|l| {
            let p: Vec<&str> = l.split_whitespace().collect();
            Job { name: p[0].into(), func: p[1].into(), arg: p[2].parse().unwrap(), secs: p[3].parse().unwrap(), paths: p[4].parse().unwrap(), seed: p[5].parse().unwrap() }
        })
        .collect();
    let threads: usize = a.get(4).and_then(|s| s.parse().ok()).unwrap_or(8);
    let next = AtomicUsize::new(0);
    let res: Mutex<Vec<(usize, String)>> = Mutex::new(vec![]);
    let used: Mutex<BTreeSet<String>> = Mutex::new(BTreeSet::new());
    let hk = hooks::table(m);
    std::thread::scope(|s| {
        for _ in 0..threads.min(jobs.len()).max(1) {
            let (next, res, used, jobs, dump, hk) = (&next, &res, &used, &jobs, &dump, &hk);
            std::thread::Builder::new()
                .stack_size(1 << 30)
                .spawn_scoped(s, move || loop {
                    let i = next.fetch_add(1, Ordering::SeqCst);
                    if i >= jobs.len() {
                        break;
                    }
                    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| run_job(m, hk, &jobs[i], deadline, dbg, dump, used)));
                    let t = match r {
                        Ok(t) => t,
                        Err(e) => {
                            let msg = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                            format!("{{\"job\":{},\"complete\":false,\"errors\":[{}]}}", js(&jobs[i].name), js(&format!("engine panic: {}", msg)))
                        }
                    };
                    res.lock().unwrap().push((i, t));
                })
                .unwrap();
        }
    });
    let mut r = res.into_inner().unwrap();
    r.sort_by_key(|q| q.0);
    let u: Vec<String> = used.into_inner().unwrap().iter().map(|s| js(s)).collect();
    let jobs: Vec<String> = r.into_iter().map(|q| q.1).collect();
    std::fs::write(&a[3], format!("{{\"jobs\":[\n{}\n],\n\"functions\":[{}]}}\n", jobs.join(",\n"), u.join(","))).unwrap();
}
