mod exec;
mod expr;
mod ext;
mod ir;
mod mem;
mod solver;
mod z3;

use exec::*;
use std::io::Write;
use std::os::raw::{c_int, c_void};
use std::sync::atomic::{AtomicI64, Ordering};

unsafe extern "C" {
    fn fork() -> c_int;
    fn waitpid(pid: c_int, st: *mut c_int, o: c_int) -> c_int;
    fn mmap(a: *mut c_void, n: usize, p: c_int, f: c_int, fd: c_int, o: i64) -> *mut c_void;
    fn _exit(c: c_int) -> !;
}

/// shared between worker processes
#[repr(C)]
struct Shared {
    active: AtomicI64,
    stop: AtomicI64,
    spawned: AtomicI64,
}

fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct Args {
    ll: String,
    entry: Vec<String>,
    out: String,
    workers: i64,
    timeout: u64,
    rlimit: u32,
    max_steps: u64,
    kf: Vec<String>,
    trace: bool,
}

fn main() {
    let mut a = Args {
        ll: String::new(),
        entry: vec![],
        out: "/tmp/symex.out".into(),
        workers: 8,
        timeout: 600,
        rlimit: 200_000_000,
        max_steps: 2_000_000_000,
        kf: vec![],
        trace: false,
    };
    let mut it = std::env::args().skip(1);
    while let Some(x) = it.next() {
        let mut nx = || it.next().expect("argument");
        match x.as_str() {
            "--entry" => a.entry.push(nx()),
            "--out" => a.out = nx(),
            "--workers" => a.workers = nx().parse().unwrap(),
            "--timeout" => a.timeout = nx().parse().unwrap(),
            "--rlimit" => a.rlimit = nx().parse().unwrap(),
            "--max-steps" => a.max_steps = nx().parse().unwrap(),
            "--kf" => a.kf.push(nx()),
            "--trace" => a.trace = true,
            o => a.ll = o.to_string(),
        }
    }
    let h = std::thread::Builder::new().stack_size(4 << 30).spawn(move || go(a)).unwrap();
    let r = h.join().unwrap_or(96);
    std::process::exit(r);
}

fn go(a: Args) -> i32 {
    let src: &'static [u8] = Box::leak(std::fs::read(&a.ll).expect("read ll").into_boxed_slice());
    let sh: &'static Shared = unsafe { &*(mmap(std::ptr::null_mut(), 4096, 3, 0x21, -1, 0) as *const Shared) };
    sh.active.store(1, Ordering::SeqCst);
    let deadline = std::time::Instant::now() + std::time::Duration::from_secs(a.timeout);
    let mut m = ir::Module::load(src);
    let _ = m.types.mk(ir::T::Void);
    let mut en = Engine::new(m, a.rlimit, a.max_steps, deadline);
    en.cfg.kf = a.kf.clone();
    en.cfg.trace = a.trace;
    let mut stack: Vec<State> = vec![];
    for e in &a.entry {
        let st = en.initial(e);
        stack.push(st);
    }
    let mut root = true;
    let mut kids: Vec<c_int> = vec![];
    let _ = std::fs::remove_dir_all(&a.out);
    std::fs::create_dir_all(&a.out).expect("out dir");
    let mut id = 0i64;
    let mut last_spawn = std::time::Instant::now();
    loop {
        let Some(st) = stack.pop() else { break };
        if sh.stop.load(Ordering::SeqCst) != 0 {
            break;
        }
        // the closure only records new states; spawning happens between paths and while forking
        let mut rootp = root;
        let mut idp = id;
        {
            let stack_ref = &mut stack;
            let kids_ref = &mut kids;
            let ls = &mut last_spawn;
            let workers = a.workers;
            let mut push = |en: &mut Engine, s: State| {
                stack_ref.push(s);
                if sh.stop.load(Ordering::SeqCst) != 0 {
                    en.stop_now = true;
                    return;
                }
                if workers > 1 && ls.elapsed().as_millis() > 30 && sh.active.load(Ordering::SeqCst) < workers {
                    if sh.active.fetch_add(1, Ordering::SeqCst) < workers {
                        let k = sh.spawned.fetch_add(1, Ordering::SeqCst) + 1;
                        let pid = unsafe { fork() };
                        if pid == 0 {
                            // child: take the oldest half (at least one)
                            let n = (stack_ref.len() + 1) / 2;
                            let rest: Vec<State> = stack_ref.drain(n..).collect();
                            drop(rest);
                            en.stats = Stats::default();
                            en.fails.clear();
                            en.completed.clear();
                            en.cover.clear();
                            en.obligations.clear();
                            en.s.z3.queries = 0;
                            en.s.z3.time = Default::default();
                            en.s.cache_hits = 0;
                            en.s.model_hits = 0;
                            en.s.sat = 0;
                            en.s.unsat = 0;
                            kids_ref.clear();
                            rootp = false;
                            idp = k;
                            // abandon the path the parent is running
                            en.abandon = true;
                        } else if pid > 0 {
                            let n = (stack_ref.len() + 1) / 2;
                            stack_ref.drain(..n);
                            kids_ref.push(pid);
                        } else {
                            sh.active.fetch_sub(1, Ordering::SeqCst);
                        }
                        *ls = std::time::Instant::now();
                    } else {
                        sh.active.fetch_sub(1, Ordering::SeqCst);
                    }
                }
            };
            en.run(st, &mut push);
        }
        root = rootp;
        id = idp;
        en.abandon = false;
        if en.stop_now {
            sh.stop.store(1, Ordering::SeqCst);
            break;
        }
    }
    sh.active.fetch_sub(1, Ordering::SeqCst);
    report(&mut en, &a, id);
    let mut code = 0;
    for k in kids {
        let mut s = 0;
        unsafe { waitpid(k, &mut s, 0) };
        if s != 0 {
            code = 97;
        }
    }
    if !root {
        unsafe { _exit(code) }
    }
    let n = sh.spawned.load(Ordering::SeqCst);
    for k in 0..=n {
        if !std::path::Path::new(&format!("{}/w{k}.json", a.out)).exists() {
            eprintln!("worker {k} left no report");
            code = 98;
        }
    }
    code
}

fn report(en: &mut Engine, a: &Args, id: i64) {
    let mut o = String::new();
    let s = &en.stats;
    o.push_str(&format!(
        "{{\"paths\":{},\"pruned\":{},\"panics\":{},\"steps\":{},\"asserts\":{},\"asserts_concrete\":{},\"asserts_solver\":{},\"forks\":{},\"queries\":{},\"solver_ms\":{},\"cache_hits\":{},\"model_hits\":{},\"sat\":{},\"unsat\":{},\n",
        s.paths, s.pruned, s.panics, s.steps, s.asserts, s.asserts_concrete, s.asserts_solver, s.forks, en.s.z3.queries,
        en.s.z3.time.as_millis(), en.s.cache_hits, en.s.model_hits, en.s.sat, en.s.unsat
    ));
    let ins = |v: &Vec<(String, u32, u128)>| {
        let x: Vec<String> = v.iter().map(|(n, w, k)| format!("[{},{},\"{}\"]", jstr(n), w, k)).collect();
        format!("[{}]", x.join(","))
    };
    let fs: Vec<String> = en
        .fails
        .iter()
        .map(|f| {
            format!(
                "{{\"kind\":{},\"id\":{},\"kf\":{},\"inputs\":{},\"stack\":[{}]}}",
                jstr(&f.kind),
                jstr(&f.id),
                jstr(&f.kf),
                ins(&f.inputs),
                f.stack.iter().map(|x| jstr(x)).collect::<Vec<_>>().join(",")
            )
        })
        .collect();
    o.push_str(&format!("\"fails\":[{}],\n", fs.join(",\n")));
    let cs: Vec<String> = en
        .completed
        .iter()
        .map(|(i, ob)| {
            format!("{{\"inputs\":{},\"observed\":[{}]}}", ins(i), ob.iter().map(|k| format!("\"{k}\"")).collect::<Vec<_>>().join(","))
        })
        .collect();
    o.push_str(&format!("\"completed\":[{}],\n", cs.join(",\n")));
    let ob: Vec<String> = en.obligations.iter().map(|(k, (n, m))| format!("{}:[{},{}]", jstr(k), n, m)).collect();
    o.push_str(&format!("\"obligations\":{{{}}},\n", ob.join(",")));
    let cv: Vec<String> = en.cover.iter().map(|(k, n)| format!("{}:{}", jstr(k), n)).collect();
    o.push_str(&format!("\"cover\":{{{}}},\n", cv.join(",")));
    if a.trace {
        let mut h: Vec<_> = en.hotforks.iter().collect();
        h.sort_by_key(|x| std::cmp::Reverse(*x.1));
        let hs: Vec<String> = h
            .iter()
            .take(40)
            .map(|((f, b, i), n)| format!("[{},{},{},{}]", jstr(&en.m.syms[*f as usize].name), b, i, n))
            .collect();
        o.push_str(&format!("\"hotforks\":[{}],\n", hs.join(",\n")));
    }
    let fx: Vec<String> = en
        .executed
        .iter()
        .enumerate()
        .filter(|(_, b)| **b)
        .map(|(i, _)| jstr(&en.m.syms[i].name))
        .collect();
    o.push_str(&format!("\"functions\":[{}]}}\n", fx.join(",")));
    let mut f = std::fs::File::create(format!("{}/w{id}.json.tmp", a.out)).expect("report");
    f.write_all(o.as_bytes()).expect("report");
    std::fs::rename(format!("{}/w{id}.json.tmp", a.out), format!("{}/w{id}.json", a.out)).expect("report");
}
