use dv::exec::*;
use dv::props;
use dv::runner::*;
use dv::src::Src;
use std::io::Write;

fn config() -> &'static str {
    if cfg!(feature = "compress") {
        "compress"
    } else {
        "plain"
    }
}

fn opt(args: &[String], k: &str) -> Option<String> {
    args.iter().position(|a| a == k).and_then(|i| args.get(i + 1)).cloned()
}

fn main() {
    install_hook();
    let args: Vec<String> = std::env::args().skip(1).collect();
    let rc = match args.first().map(|s| s.as_str()) {
        Some("run") => run(&args[1..]),
        Some("replay") => replay(&args[1..]),
        Some("case") => case(&args[1..]),
        Some("known") => known(&args[1..]),
        Some("worker") => worker_main(&args[1..]),
        Some("guidedworker") => {
            let num = |i: usize| args[i].parse::<u64>().unwrap();
            let arm = find_arm(&args[1], &args[2]).unwrap();
            dv::guided::worker(&arm, num(4), args[3] == "thorough", num(5), num(6), &args[7], &args[8])
        }
        Some("guidedone") => guidedone(&args[1..]),
        Some("onecase") => onecase(&args[1..]),
        Some("shrink") => shrink_main(&args[1..]),
        Some("c18child") => props::deep::child(&args[1..]),
        Some("arms") => {
            let n = props::arms().iter().filter(|a| a.prop == args[1] && (a.both || config() == "compress")).count();
            println!("{}", n);
            0
        }
        Some("list") => {
            for a in props::arms() {
                println!("{} {} quick={} thorough={} both={}", a.prop, a.name, a.quick, a.thorough, a.both);
            }
            0
        }
        _ => {
            eprintln!("usage: dv run PROP --tier quick --seed N --out FILE --replays DIR | replay FILE | known PROP | list");
            2
        }
    };
    std::process::exit(rc);
}

/// run one generated case: PROP ARM INDEX [--seed N]
fn case(args: &[String]) -> i32 {
    let seed: u64 = opt(args, "--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    for arm in props::arms() {
        if arm.prop == args[0] && arm.name == args[1] {
            let i: u64 = args[2].parse().unwrap();
            let mut src = Src::random(case_seed(seed, &arm, config(), i));
            let mut ctx = Ctx::default();
            ctx.trace = true;
            let r = run_case(arm.f, &mut src, &mut ctx);
            println!("desc: {} labels {:?} discard {:?}", ctx.desc, ctx.labels, ctx.discard);
            match r {
                Outcome::Ok => println!("ok"),
                Outcome::Fail(m) => println!("fail {}", m),
                Outcome::Internal(m) => println!("internal {}", m),
            }
        }
    }
    0
}

fn known(args: &[String]) -> i32 {
    for k in dv::known::all() {
        if k.prop == args[0] {
            println!("{} {}", k.id, if (k.f)() { "fails" } else { "ok" });
        }
    }
    0
}

/// where replay files go
static RDIR: std::sync::Mutex<String> = std::sync::Mutex::new(String::new());

fn report(prop: &str, arm: &str, thorough: bool, seed: u64, f: &Failure) -> String {
    let rdir = RDIR.lock().unwrap().clone();
    let name = format!(
        "{}/{}-{}-{}-{:08x}.replay",
        rdir,
        prop,
        arm,
        config(),
        hash_str(&format!("{:?}{}", f.choices, if f.choices.is_empty() { f.index } else { 0 })) as u32
    );
    let _ = std::fs::create_dir_all(&rdir);
    let mut w = std::fs::File::create(&name).expect("replay file");
    writeln!(w, "prop={}", prop).unwrap();
    writeln!(w, "arm={}", arm).unwrap();
    writeln!(w, "config={}", config()).unwrap();
    writeln!(w, "tier={}", if thorough { "thorough" } else { "quick" }).unwrap();
    if f.choices.is_empty() && cfg!(feature = "guided") {
        writeln!(w, "tail={}", f.desc.split(';').next().unwrap_or("0")).unwrap();
        writeln!(w, "choices={}", f.desc.split(';').nth(1).unwrap_or("")).unwrap();
    } else if f.choices.is_empty() {
        // a generated case that never answers or kills the process cannot be shrunk
        writeln!(w, "seed={}\nindex={}", seed, f.index).unwrap();
    }
    writeln!(
        w,
        "choices={}",
        f.choices.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")
    )
    .unwrap();
    writeln!(w, "case={}", f.desc.replace('\n', "\\n")).unwrap();
    writeln!(w, "found={}", f.msg.replace('\n', "\\n")).unwrap();
    println!("FAIL {}/{} ({}): {}", prop, arm, config(), clip(&f.msg, 1500));
    println!("  minimal case: {}", clip(&f.desc, 1500));
    println!("REPLAY {}", name);
    name
}

fn find_arm(p: &str, a: &str) -> Option<Arm> {
    props::arms().into_iter().find(|x| x.prop == p && x.name == a)
}

/// PROP ARM TIER SEED FROM STEP N LIMIT TIME DIR OUT
fn worker_main(a: &[String]) -> i32 {
    let num = |i: usize| a[i].parse::<u64>().unwrap();
    let arm = find_arm(&a[0], &a[1]).unwrap();
    let job = Job {
        arm: &arm,
        config: config(),
        seed: num(3),
        thorough: a[2] == "thorough",
        limit_s: num(7),
        dir: a[9].clone(),
        time_s: num(8),
    };
    worker(&job, num(4), num(5), num(6), &a[10])
}

fn big_stack<T: Send + 'static>(f: impl FnOnce() -> T + Send + 'static) -> T {
    std::thread::Builder::new().stack_size(64 << 20).spawn(f).unwrap().join().unwrap()
}

/// PROP ARM TIER SEED INDEX: one case, alone
fn onecase(a: &[String]) -> i32 {
    let arm = find_arm(&a[0], &a[1]).unwrap();
    let (seed, i) = (a[3].parse().unwrap(), a[4].parse().unwrap());
    let thorough = a[2] == "thorough";
    start_case_watchdog(60, |_, _| std::process::exit(0));
    case_begins(i);
    big_stack(move || {
        let mut src = Src::random(case_seed(seed, &arm, config(), i));
        let mut ctx = Ctx { thorough, ..Ctx::default() };
        run_case(arm.f, &mut src, &mut ctx);
    });
    0
}

/// PROP ARM TIER FILE: one case of the guided search, alone
fn guidedone(a: &[String]) -> i32 {
    let arm = find_arm(&a[0], &a[1]).unwrap();
    let thorough = a[2] == "thorough";
    let (tail, v) = dv::guided::parse_cur(&std::fs::read_to_string(&a[3]).unwrap());
    start_case_watchdog(60, |_, _| std::process::exit(0));
    case_begins(0);
    big_stack(move || {
        let mut ctx = Ctx { thorough, ..Ctx::default() };
        run_case(arm.f, &mut Src::mixed(v, tail), &mut ctx);
    });
    0
}

/// PROP ARM TIER IN OUT
fn shrink_main(a: &[String]) -> i32 {
    let a = a.to_vec();
    big_stack(move || {
        let arm = find_arm(&a[0], &a[1]).unwrap();
        shrink_child(&arm, a[2] == "thorough", &a[3], &a[4]);
    });
    0
}

fn run(args: &[String]) -> i32 {
    let prop = &args[0];
    let thorough = opt(args, "--tier").as_deref() == Some("thorough");
    let seed: u64 = opt(args, "--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let scale: f64 = opt(args, "--scale").and_then(|s| s.parse().ok()).unwrap_or(1.0);
    let only = opt(args, "--arm");
    let out = opt(args, "--out");
    let rdir = opt(args, "--replays").unwrap_or_else(|| ".".into());
    let limit = opt(args, "--case-limit").and_then(|s| s.parse().ok()).unwrap_or(20);
    *RDIR.lock().unwrap() = rdir;
    let time_s: u64 = opt(args, "--time").and_then(|s| s.parse().ok()).unwrap_or(0);
    // the coverage-guided build searches by mutation, for --time seconds per arm
    let guided = cfg!(feature = "guided");
    if guided && !dv::guided::available() {
        eprintln!("the guided build has no coverage counters");
        return 2;
    }
    let cname = if guided { "guided" } else { config() };
    let scratch = std::env::temp_dir().join(format!("dv-{}-{}", prop, std::process::id()));
    std::fs::create_dir_all(&scratch).expect("scratch directory");
    let dir = scratch.to_str().unwrap().to_string();
    let mut js = vec![];
    let mut rc = 0;
    let mut seen = false;
    for arm in props::arms() {
        if arm.prop != prop {
            continue;
        }
        seen = true;
        if config() == "plain" && !arm.both {
            continue;
        }
        if guided && arm.prop == "C18" {
            // its cases run the code under test in processes of their own
            continue;
        }
        if let Some(o) = &only {
            if o != arm.name {
                continue;
            }
        }
        let t0 = std::time::Instant::now();
        let job = Job {
            arm: &arm,
            config: config(),
            seed,
            thorough,
            limit_s: limit,
            dir: dir.clone(),
            time_s,
        };
        let mut r = if guided { dv::guided::run_arm(&job) } else { run_arm(&job, scale) };
        if let Some(f) = &mut r.failure {
            shrink_in_child(&job, f);
        }
        let dt = t0.elapsed().as_secs_f64();
        if let Some(m) = &r.internal {
            eprintln!("INTERNAL {}/{} {}: {}", arm.prop, arm.name, config(), m);
            rc = 3;
        }
        let mut replay = None;
        if let Some(f) = &r.failure {
            let name = report(arm.prop, arm.name, thorough, seed, f);
            replay = Some(name);
            if rc == 0 {
                rc = 1;
            }
        }
        let map = |m: &std::collections::BTreeMap<String, u64>| {
            let v: Vec<String> = m.iter().map(|(k, v)| format!("{}: {}", json_str(k), v)).collect();
            format!("{{{}}}", v.join(", "))
        };
        js.push(format!(
            "{{\"arm\": {}, \"config\": {}, \"rule\": {}, \"evaluations\": {}, \"nontrivial\": {}, \"distinct_nontrivial\": {}, \"discarded\": {}, \"labels\": {}, \"samples\": [{}], \"guided\": [{}, {}, {}], \"slowest_s\": {:.3}, \"slowest_case\": {}, \"wall_s\": {:.2}, \"failure\": {}, \"replay\": {}}}",
            json_str(arm.name),
            json_str(cname),
            json_str(arm.rule),
            r.evaluations,
            r.nontrivial,
            r.distinct.len(),
            map(&r.discarded),
            map(&r.labels),
            r.samples.iter().map(|(i, d)| json_str(&format!("case {}: {}", i, clip(d, 300)))).collect::<Vec<_>>().join(", "),
            r.guided.0,
            r.guided.1,
            r.guided.2,
            r.slowest.0,
            json_str(&clip(&r.slowest.2, 300)),
            dt,
            r.failure.as_ref().map(|f| json_str(&clip(&f.msg, 1500))).unwrap_or("null".into()),
            replay.map(|x| json_str(&x)).unwrap_or("null".into()),
        ));
        if r.failure.is_some() {
            // one minimal counterexample per run is enough
            break;
        }
    }
    let _ = std::fs::remove_dir_all(&scratch);
    if !seen {
        eprintln!("no such property {}", prop);
        return 2;
    }
    let s = format!("[{}]\n", js.join(",\n"));
    match out {
        Some(o) => std::fs::write(o, s).expect("write"),
        None => print!("{}", s),
    }
    rc
}

fn replay(args: &[String]) -> i32 {
    let txt = std::fs::read_to_string(&args[0]).expect("read replay file");
    let get = |k: &str| -> String {
        txt.lines()
            .find_map(|l| l.strip_prefix(&format!("{}=", k)).map(|x| x.to_string()))
            .unwrap_or_default()
    };
    let (p, a) = (get("prop"), get("arm"));
    if get("config") != config() {
        eprintln!("replay needs the {} build", get("config"));
        return 4;
    }
    let arms = props::arms();
    let arm = match arms.iter().find(|x| x.prop == p && x.name == a) {
        Some(x) => x,
        None => {
            eprintln!("no arm {}/{}", p, a);
            return 2;
        }
    };
    let tail: Option<u64> = get("tail").parse().ok();
    let index: Option<u64> = get("index").parse().ok();
    let seed: u64 = get("seed").parse().unwrap_or(1);
    let start = index.map(|i| case_seed(seed, arm, config(), i));
    if index.is_some() {
        start_case_watchdog(60, |_, why| {
            println!("result: no answer within the {} limit", why);
            std::process::exit(1)
        });
        case_begins(0);
    }
    let choices: Vec<u64> = get("choices").split(',').filter_map(|x| x.parse().ok()).collect();
    let h = std::thread::Builder::new().stack_size(64 << 20);
    let f = arm.f;
    let thorough = get("tier") == "thorough";
    let r = h
        .spawn(move || {
            let mut s = match start {
                Some(x) => Src::random(x),
                None if tail.is_some() => Src::mixed(choices, tail.unwrap()),
                None => Src::replay(choices),
            };
            let mut ctx = Ctx {
                thorough,
                ..Ctx::default()
            };
            let r = run_case(f, &mut s, &mut ctx);
            (r, ctx.desc, ctx.discard)
        })
        .unwrap()
        .join()
        .unwrap();
    println!("case: {}", r.1);
    match r.0 {
        Outcome::Ok => {
            println!("result: holds{}", r.2.map(|d| format!(" (discarded: {})", d)).unwrap_or_default());
            0
        }
        Outcome::Fail(m) => {
            println!("result: {}", m);
            1
        }
        Outcome::Internal(m) => {
            println!("harness error: {}", m);
            3
        }
    }
}
