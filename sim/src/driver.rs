//! Command line: the check of a property (parent), the workers it spawns, the
//! shrinker and the replayer. Only workers, shrinker and replayer execute
//! library code, so that nothing it does can take down the check.

use crate::choice::*;
use crate::scen::*;
use crate::world::*;
use std::collections::HashSet;
use std::fmt::Write as _;
use std::fs;
use std::io::Write as _;
use std::os::unix::fs::FileExt;
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};

/// Runs per worker process; bounds what leaked reference cycles can add up to.
const CHUNK: u64 = 5000;
const HANG: Duration = Duration::from_secs(20);

extern "C" {
    fn setrlimit(resource: i32, rlim: *const [u64; 2]) -> i32;
}
fn limit_memory() {
    const RLIMIT_AS: i32 = 9;
    const RLIMIT_CORE: i32 = 4;
    unsafe {
        setrlimit(RLIMIT_AS, &[3 << 30, 3 << 30]);
        setrlimit(RLIMIT_CORE, &[0, 0]);
    }
}

fn seed() -> u64 {
    std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse::<i64>().ok()).unwrap_or(1) as u64
}
fn run_seed(p: &Prof, seed: u64, index: u64) -> u64 {
    let id = p.id.bytes().fold(7, |h, b| mix(h ^ b as u64));
    mix(mix(seed ^ id).wrapping_add(index))
}
fn choosers(s: u64) -> (Chooser, Chooser) {
    (Chooser::seeded(s), Chooser::seeded(mix(s ^ 0x5eed)))
}

pub fn main(args: &[String]) -> i32 {
    install_panic_hook();
    let arg = |i: usize| args.get(i).map(|s| s.as_str()).unwrap_or("");
    let p = prof(arg(2));
    match (arg(1), p) {
        ("check", Some(p)) => check(p, arg(3)),
        ("worker", Some(p)) => worker(p, arg(3).parse().unwrap(), arg(4).parse().unwrap(), Path::new(arg(5))),
        ("hashes", Some(p)) => hashes(p, arg(3).parse().unwrap(), arg(4).parse().unwrap(), arg(5) == "trace"),
        ("shrink", Some(p)) => shrink(p, Path::new(arg(3)), Path::new(arg(4))),
        ("history", Some(p)) => history(p, arg(3).parse().unwrap(), arg(4).parse().unwrap(), arg(5).parse().unwrap()),
        ("try", Some(p)) => attempt(p, arg(3).parse().unwrap()),
        ("replay", _) => replay(Path::new(arg(2))),
        ("survey", Some(p)) => survey(p, arg(3).parse().unwrap()),
        _ => {
            eprintln!("usage: sim check <property> <quick|thorough> | replay <file> | survey <property> <runs>");
            2
        }
    }
}

// ------------------------------------------------------------------ worker

/// Whether anything happened in the run that a plain single session over an
/// undisturbed source would not have.
fn nontrivial(o: &Outcome) -> bool {
    let p = |k: P| o.probes[k as usize];
    o.faults.iter().sum::<u64>() > 0 || p(P::recovered) + p(P::failed) + p(P::rewind) + p(P::save_future) > 0
}

fn worker(p: &'static Prof, from: u64, to: u64, dir: &Path) -> i32 {
    limit_memory();
    let seed = seed();
    let progress = fs::File::create(dir.join("progress")).unwrap();
    let mut hashes: Vec<u64> = vec![];
    let mut faults = [0u64; F_NAMES.len()];
    let mut probes = [0u64; P_NAMES.len()];
    let (mut time, mut runs, mut nt) = (0u64, 0u64, 0u64);
    let mut samples = String::new();
    let mut nsamples = 0;
    let mut found = None;
    for i in from..to {
        let _ = progress.write_all_at(&i.to_le_bytes(), 0);
        let s = run_seed(p, seed, i);
        let (g, c) = choosers(s);
        let o = execute(p, g, c, false);
        runs += 1;
        time += o.time;
        for (a, b) in faults.iter_mut().zip(o.faults) {
            *a += b;
        }
        for (a, b) in probes.iter_mut().zip(o.probes) {
            *a += b;
        }
        if nontrivial(&o) {
            nt += 1;
            hashes.push(o.hash);
        }
        if let Some(v) = o.viol.iter().find(|v| p.relevant(v)) {
            found = Some((i, s, v.clone(), o.gen.clone(), o.sched.clone()));
            break;
        }
        if from == 0 && nsamples < 3 && i >= 5 && nontrivial(&o) {
            nsamples += 1;
            let o = execute(p, Chooser::replay(o.gen), Chooser::replay(o.sched), true);
            let t: Vec<&str> = o.trace.iter().take(25).map(|s| s.as_str()).collect();
            let text: String = o.text.chars().take(1200).collect();
            let _ = write!(samples, "run {i} seed {s}\n{text}\n{}\n\u{1e}", t.join("\n"));
        }
    }
    let mut bytes = Vec::with_capacity(hashes.len() * 8);
    hashes.iter().for_each(|h| bytes.extend(h.to_le_bytes()));
    fs::write(dir.join("hashes"), bytes).unwrap();
    fs::write(dir.join("samples"), samples).unwrap();
    if let Some((i, s, v, g, c)) = found {
        fs::write(dir.join("violation"), case_text(p, Some((seed, i)), s, &v, &g, &c, 0, "")).unwrap();
    }
    let nums = |a: &[u64]| a.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" ");
    fs::write(dir.join("done"), format!("{runs} {nt} {time}\n{}\n{}\n", nums(&faults), nums(&probes))).unwrap();
    0
}

fn hashes(p: &'static Prof, from: u64, n: u64, tracing: bool) -> i32 {
    limit_memory();
    let mut out = String::new();
    for i in from..from + n {
        let (g, c) = choosers(run_seed(p, seed(), i));
        let o = execute(p, g, c, tracing);
        let _ = writeln!(out, "{i} {:016x} {}", o.hash, o.viol.len());
    }
    print!("{out}");
    0
}

/// All violations of all classes, for development.
fn survey(p: &'static Prof, n: u64) -> i32 {
    let t0 = Instant::now();
    let mut seen = std::collections::BTreeMap::new();
    let mut probes = [0u64; P_NAMES.len()];
    let mut faults = [0u64; F_NAMES.len()];
    for i in 0..n {
        let (g, c) = choosers(run_seed(p, seed(), i));
        let t = Instant::now();
        let o = execute(p, g, c, false);
        if t.elapsed() > Duration::from_millis(500) {
            println!("run {i} took {:?}", t.elapsed());
        }
        for v in &o.viol {
            let e = seen.entry((v.class, v.after_unwind)).or_insert((0u64, i, v.msg.clone()));
            e.0 += 1;
        }
        for (a, b) in probes.iter_mut().zip(o.probes) {
            *a += (b > 0) as u64;
        }
        for (a, b) in faults.iter_mut().zip(o.faults) {
            *a += (b > 0) as u64;
        }
    }
    for (k, (n, i, m)) in &seen {
        println!("{k:?} x{n} first {i}: {}", m.chars().take(500).collect::<String>());
    }
    let show = |names: &[&str], v: &[u64]| names.iter().zip(v).map(|(a, b)| format!("{a}={b}")).collect::<Vec<_>>().join(" ");
    println!("runs in which: {}\nfaults: {}", show(P_NAMES, &probes), show(F_NAMES, &faults));
    println!("{n} runs in {:?}", t0.elapsed());
    0
}

// ------------------------------------------------------- cases and replays

#[allow(clippy::too_many_arguments)]
fn case_text(
    p: &Prof,
    origin: Option<(u64, u64)>,
    s: u64,
    v: &Violation,
    g: &[u32],
    c: &[u32],
    hash: u64,
    rest: &str,
) -> String {
    let nums = |a: &[u32]| a.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" ");
    let (vs, i) = origin.unwrap_or((0, 0));
    format!(
        "property {}\nclass {:?}\nafter_unwind {}\nverif_seed {vs}\nrun {i}\nrun_seed {s}\nhash {hash:016x}\ngen {}\nsched {}\nmessage {}\n----\n{rest}",
        p.id,
        v.class,
        v.after_unwind,
        nums(g),
        nums(c),
        v.msg.replace('\n', " ")
    )
}

struct Case {
    prof: &'static Prof,
    class: String,
    origin: (u64, u64),
    run_seed: u64,
    gen: Option<Vec<u32>>,
    sched: Vec<u32>,
    message: String,
    hash: String,
    /// First of the runs to be executed in one process, the last being the one
    /// that fails: for what depends on the runs before it.
    from_run: Option<u64>,
    /// Number of runs to be executed twice and compared.
    differs: Option<u64>,
}

fn read_case(f: &Path) -> Option<Case> {
    let t = fs::read_to_string(f).ok()?;
    let get = |k: &str| {
        t.lines().take_while(|l| *l != "----").find_map(|l| {
            let (a, b) = l.split_once(' ').unwrap_or((l, ""));
            (a == k).then(|| b.to_string())
        })
    };
    let nums = |s: String| s.split_whitespace().map(|x| x.parse().unwrap_or(0)).collect::<Vec<u32>>();
    Some(Case {
        prof: prof(&get("property")?)?,
        class: get("class")?,
        origin: (get("verif_seed")?.parse().ok()?, get("run")?.parse().ok()?),
        run_seed: get("run_seed")?.parse().ok()?,
        gen: get("gen").map(nums),
        sched: nums(get("sched").unwrap_or_default()),
        message: get("message").unwrap_or_default(),
        hash: get("hash").unwrap_or_default(),
        from_run: get("from_run").and_then(|s| s.parse().ok()),
        differs: get("differs").and_then(|s| s.parse().ok()),
    })
}

/// Executes the run of a seed, to see whether the process survives it.
fn attempt(p: &'static Prof, s: u64) -> i32 {
    limit_memory();
    let (g, c) = choosers(s);
    let o = execute(p, g, c, false);
    o.viol.iter().any(|v| p.relevant(v)) as i32
}

/// Executes several runs one after the other in this process; whether the last
/// one fails (and no other).
fn history(p: &'static Prof, vs: u64, from: u64, to: u64) -> i32 {
    limit_memory();
    for i in from..=to {
        let (g, c) = choosers(run_seed(p, vs, i));
        let o = execute(p, g, c, i == to);
        if let Some(v) = o.viol.iter().find(|v| p.relevant(v)) {
            if i < to {
                return 3;
            }
            println!("{}", o.text);
            o.trace.iter().for_each(|t| println!("{t}"));
            println!("reproduced after runs {from} to {to}: {:?}: {}", v.class, v.msg);
            return 1;
        }
    }
    0
}

fn run_history(p: &Prof, vs: u64, from: u64, to: u64, show: bool) -> bool {
    let mut ch = Command::new(std::env::current_exe().unwrap())
        .args(["history", p.id, &vs.to_string(), &from.to_string(), &to.to_string()])
        .stdout(if show { Stdio::inherit() } else { Stdio::null() })
        .stderr(Stdio::null())
        .spawn()
        .unwrap();
    !matches!(wait_for(&mut ch, HANG * 2), Some(0 | 3))
}

fn replay(f: &Path) -> i32 {
    let Some(case) = read_case(f) else {
        eprintln!("cannot read {}", f.display());
        return 2;
    };
    let p = case.prof;
    if let Some(n) = case.differs {
        std::env::set_var("VERIF_SEED", (case.origin.0 as i64).to_string());
        let (n, bad) = same_again(p, n);
        println!("{bad} of {n} runs went differently when executed again");
        if bad > 0 {
            println!("VIOLATION property={} replay={}", p.id, f.display());
        }
        return (bad > 0) as i32;
    }
    if let Some(from) = case.from_run {
        return if run_history(p, case.origin.0, from, case.origin.1, true) {
            println!("VIOLATION property={} replay={}", p.id, f.display());
            1
        } else {
            println!("not reproduced");
            0
        };
    }
    let Some(g) = case.gen else {
        // The process itself does not survive: replayed in one of its own.
        let mut ch = Command::new(std::env::current_exe().unwrap())
            .args(["try", p.id, &case.run_seed.to_string()])
            .stderr(Stdio::null())
            .spawn()
            .unwrap();
        return match wait_for(&mut ch, HANG) {
            Some(0) => {
                println!("not reproduced: run {} ends normally", case.run_seed);
                0
            }
            how => {
                println!("reproduced: the process {}", ending(how));
                println!("VIOLATION property={} replay={}", p.id, f.display());
                1
            }
        };
    };
    limit_memory();
    let o = execute(p, Chooser::replay(g), Chooser::replay(case.sched), true);
    println!("{}", o.text);
    o.trace.iter().for_each(|t| println!("{t}"));
    match o.viol.iter().find(|v| p.relevant(v) && format!("{:?}", v.class) == case.class) {
        Some(v) => {
            println!("reproduced: {:?}: {}", v.class, v.msg);
            let h = format!("{:016x}", o.hash);
            println!("event hash {h}, recorded {}", case.hash);
            println!("VIOLATION property={} replay={}", p.id, f.display());
            1
        }
        None => {
            println!("not reproduced");
            0
        }
    }
}

fn ending(how: Option<i32>) -> String {
    match how {
        None => "does not end".into(),
        Some(c) => format!("ends abnormally (status {c})"),
    }
}

/// Exit status, -1 for a signal; None if it had to be killed.
fn wait_for(ch: &mut Child, limit: Duration) -> Option<i32> {
    let t0 = Instant::now();
    loop {
        if let Ok(Some(s)) = ch.try_wait() {
            return Some(s.code().unwrap_or(-1));
        }
        if t0.elapsed() > limit {
            let _ = ch.kill();
            let _ = ch.wait();
            return None;
        }
        std::thread::sleep(Duration::from_millis(10));
    }
}

// ---------------------------------------------------------------- shrinker

fn shrink(p: &'static Prof, f: &Path, to: &Path) -> i32 {
    limit_memory();
    let Some(case) = read_case(f) else { return 2 };
    let t0 = Instant::now();
    let mut tries = 0u32;
    let class = case.class;
    let fails = |g: &[u32], c: &[u32], tries: &mut u32| -> Option<(Vec<u32>, Vec<u32>)> {
        *tries += 1;
        let o = execute(p, Chooser::replay(g.to_vec()), Chooser::replay(c.to_vec()), false);
        let v = o.viol.iter().find(|v| p.relevant(v) && format!("{:?}", v.class) == class);
        // What was actually decided, without the zeros at the end that a
        // replay adds anyway.
        v.map(|_| (trim(o.gen), trim(o.sched)))
    };
    let size = |g: &[u32], c: &[u32]| (g.len() + c.len(), g.iter().chain(c).map(|x| *x as u64).sum::<u64>());
    let save = |g: &[u32], c: &[u32]| {
        let o = execute(p, Chooser::replay(g.to_vec()), Chooser::replay(c.to_vec()), true);
        if let Some(v) = o.viol.iter().find(|v| p.relevant(v) && format!("{:?}", v.class) == class) {
            let rest = format!("{}\n{}\n", o.text, o.trace.join("\n"));
            let _ = fs::write(to, case_text(p, Some(case.origin), case.run_seed, v, g, c, o.hash, &rest));
        }
    };
    let Some((mut g, mut c)) = fails(&case.gen.unwrap_or_default(), &case.sched, &mut tries) else {
        return 3;
    };
    save(&g, &c);
    let mut progress = true;
    let mut saved = Instant::now();
    while progress && t0.elapsed() < Duration::from_secs(12) {
        progress = false;
        for which in 0..2 {
            let mut len = if which == 0 { g.len() } else { c.len() };
            let mut block = len.max(1);
            while block > 0 {
                let mut at = 0;
                while at < len {
                    if t0.elapsed() > Duration::from_secs(12) || tries > 60_000 {
                        break;
                    }
                    let cur = if which == 0 { &g } else { &c };
                    let end = (at + block).min(cur.len());
                    let mut better = false;
                    // Leave it out, make it simplest, make it simpler.
                    for how in 0..4 {
                        let mut n = cur.clone();
                        match how {
                            0 => {
                                n.drain(at..end);
                            }
                            1 if n[at..end].iter().any(|x| *x > 0) => n[at..end].iter_mut().for_each(|x| *x = 0),
                            2 if block == 1 && n[at] > 1 => n[at] /= 2,
                            3 if block == 1 && n[at] > 0 => n[at] -= 1,
                            _ => continue,
                        }
                        let (ng, nc) = if which == 0 { (&n, &c) } else { (&g, &n) };
                        if let Some((g2, c2)) = fails(ng, nc, &mut tries) {
                            if size(&g2, &c2) < size(&g, &c) {
                                g = g2;
                                c = c2;
                                better = true;
                                break;
                            }
                        }
                    }
                    if better {
                        progress = true;
                        if saved.elapsed() > Duration::from_millis(300) {
                            save(&g, &c);
                            saved = Instant::now();
                        }
                    } else {
                        at += block;
                    }
                    len = if which == 0 { g.len() } else { c.len() };
                }
                block /= 2;
            }
        }
    }
    save(&g, &c);
    0
}

fn trim(mut v: Vec<u32>) -> Vec<u32> {
    while v.last() == Some(&0) {
        v.pop();
    }
    v
}

// ------------------------------------------------------------------- check

struct Slot {
    child: Child,
    chunk: u64,
    dir: PathBuf,
    last: u64,
    since: Instant,
    /// Whether this is the second time, after a process that ended early.
    again: bool,
}

struct Totals {
    runs: u64,
    nontrivial: u64,
    time: u64,
    faults: [u64; F_NAMES.len()],
    probes: [u64; P_NAMES.len()],
    distinct: HashSet<u64>,
    samples: Vec<String>,
}

fn spawn(p: &Prof, chunk: u64, dir: PathBuf, again: bool) -> Slot {
    let _ = fs::remove_dir_all(&dir);
    fs::create_dir_all(&dir).unwrap();
    let (from, to) = (chunk * CHUNK, (chunk + 1) * CHUNK);
    let child = Command::new(std::env::current_exe().unwrap())
        .args(["worker", p.id, &from.to_string(), &to.to_string()])
        .arg(&dir)
        .stdout(Stdio::null())
        .stderr(Stdio::null())
        .spawn()
        .expect("cannot start a worker");
    Slot { child, chunk, dir, last: u64::MAX, since: Instant::now(), again }
}

fn check(p: &'static Prof, tier: &str) -> i32 {
    let t0 = Instant::now();
    let thorough = tier == "thorough";
    let root = std::env::var("SIM_ROOT").unwrap_or_else(|_| "/verif".into());
    let num = |k: &str, d: u64| std::env::var(k).ok().and_then(|s| s.parse().ok()).unwrap_or(d);
    // Runs are what counts, and the same for every machine; the time is only a
    // limit for slow ones.
    let runs = num("SIM_RUNS", if thorough { p.runs * 40 } else { p.runs * 5 / 2 });
    let wall = Duration::from_secs(num("SIM_WALL", if thorough { 780 } else { 150 }));
    let chunks = runs.div_ceil(CHUNK);
    let out = PathBuf::from(&root).join("out").join(p.id);
    let tmp = out.join(format!("tmp{}", std::process::id()));
    fs::create_dir_all(&tmp).unwrap();
    let ncpu = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).clamp(1, 16);

    let mut slots: Vec<Slot> = vec![];
    let mut next = 0;
    // Lowest chunk in which something was found: all before it are finished.
    let mut found: Option<(u64, PathBuf)> = None;
    let mut t = Totals {
        runs: 0,
        nontrivial: 0,
        time: 0,
        faults: [0; F_NAMES.len()],
        probes: [0; P_NAMES.len()],
        distinct: HashSet::new(),
        samples: vec![],
    };
    loop {
        while slots.len() < ncpu && next < chunks && found.is_none() && t0.elapsed() < wall {
            slots.push(spawn(p, next, tmp.join(format!("c{next}")), false));
            next += 1;
        }
        if slots.is_empty() {
            break;
        }
        let mut i = 0;
        let mut any = false;
        while i < slots.len() {
            let s = &mut slots[i];
            let now = fs::read(s.dir.join("progress")).ok().filter(|b| b.len() >= 8);
            let now = now.map(|b| u64::from_le_bytes(b[..8].try_into().unwrap())).unwrap_or(u64::MAX - 1);
            if now != s.last {
                s.last = now;
                s.since = Instant::now();
            }
            let ended = s.child.try_wait().ok().flatten();
            let hung = ended.is_none() && s.since.elapsed() > if s.again { HANG * 2 } else { HANG };
            if ended.is_none() && !hung {
                i += 1;
                continue;
            }
            any = true;
            let mut s = slots.swap_remove(i);
            if hung {
                let _ = s.child.kill();
                let _ = s.child.wait();
            }
            let ok = !hung && ended.is_some_and(|e| e.success()) && s.dir.join("done").exists();
            let mut bad = None;
            if ok {
                collect(&s.dir, &mut t);
                if s.dir.join("violation").exists() {
                    bad = Some(out.join("found.case"));
                    fs::copy(s.dir.join("violation"), out.join(format!("found{}.case", s.chunk))).unwrap();
                }
            } else if s.last >= u64::MAX - 1 {
                eprintln!("a worker did not start: {ended:?}");
                slots.iter_mut().for_each(|s| {
                    let _ = s.child.kill();
                    let _ = s.child.wait();
                });
                let _ = fs::remove_dir_all(&tmp);
                return 2;
            } else if !s.again {
                // What took the worker down may have been something outside:
                // whatever the library does, it does again.
                slots.push(spawn(p, s.chunk, s.dir, true));
                continue;
            } else {
                // The run that the worker was at took it down.
                let how = if hung { "does not end".to_string() } else { format!("took its process down ({ended:?})") };
                let rs = run_seed(p, seed(), s.last);
                let text = format!(
                    "property {}\nclass Crash\nverif_seed {}\nrun {}\nrun_seed {rs}\nmessage the run {how}\n----\n",
                    p.id,
                    seed(),
                    s.last
                );
                fs::write(out.join(format!("found{}.case", s.chunk)), text).unwrap();
                bad = Some(PathBuf::new());
            }
            let _ = fs::remove_dir_all(&s.dir);
            if bad.is_some() && found.as_ref().is_none_or(|f| s.chunk < f.0) {
                found = Some((s.chunk, out.join(format!("found{}.case", s.chunk))));
                // Nothing after it matters any more.
                let c = s.chunk;
                slots.retain_mut(|s| {
                    if s.chunk > c {
                        let _ = s.child.kill();
                        let _ = s.child.wait();
                        let _ = fs::remove_dir_all(&s.dir);
                        false
                    } else {
                        true
                    }
                });
            }
        }
        if !any {
            std::thread::sleep(Duration::from_millis(5));
        }
    }
    let search = t0.elapsed();

    let mut code = 0;
    let mut violations = 0;
    let mut determinism = (0, 0);
    if let Some((_, case)) = &found {
        violations = 1;
        code = 1;
        report(p, case, &out, &tmp);
    } else {
        // The same runs once more, one by one in other processes, with and
        // without tracing.
        determinism = same_again(p, if thorough { 20_000 } else { 2000 });
        if determinism.1 > 0 {
            eprintln!("{} of {} runs went differently when executed again", determinism.1, determinism.0);
            if p.id == "C13" {
                let f = out.join("nondeterminism.case");
                let text = format!("property C13\nclass Isolation\nverif_seed {}\nrun 0\nrun_seed {}\ndiffers {}\nmessage runs go differently when repeated\n----\n", seed(), run_seed(p, seed(), 0), determinism.0);
                fs::write(&f, text).unwrap();
                println!("VIOLATION property=C13 replay={}", f.display());
                violations = 1;
                code = 1;
            }
        }
    }
    evidence(p, tier, &root, &t, search, t0.elapsed(), violations, determinism, ncpu);
    let _ = fs::remove_dir_all(&tmp);
    println!(
        "{} {tier}: {} runs, {} distinct nontrivial, {:.1} s, {} violation(s)",
        p.id,
        t.runs,
        t.distinct.len(),
        t0.elapsed().as_secs_f64(),
        violations
    );
    code
}

fn collect(dir: &Path, t: &mut Totals) {
    let s = fs::read_to_string(dir.join("done")).unwrap_or_default();
    let rows: Vec<Vec<u64>> = s.lines().map(|l| l.split(' ').filter_map(|x| x.parse().ok()).collect()).collect();
    t.runs += rows[0][0];
    t.nontrivial += rows[0][1];
    t.time += rows[0][2];
    t.faults.iter_mut().zip(&rows[1]).for_each(|(a, b)| *a += b);
    t.probes.iter_mut().zip(&rows[2]).for_each(|(a, b)| *a += b);
    for h in fs::read(dir.join("hashes")).unwrap_or_default().chunks_exact(8) {
        t.distinct.insert(u64::from_le_bytes(h.try_into().unwrap()));
    }
    let s = fs::read_to_string(dir.join("samples")).unwrap_or_default();
    t.samples.extend(s.split('\u{1e}').filter(|s| !s.trim().is_empty()).map(|s| s.to_string()));
}

/// Minimises, replays in a new process and reports.
fn report(p: &Prof, case: &Path, out: &Path, tmp: &Path) {
    let exe = std::env::current_exe().unwrap();
    let small = out.join(format!("{}.replay", case.file_stem().unwrap().to_string_lossy()));
    let _ = fs::remove_file(&small);
    let c = read_case(case).unwrap();
    if c.gen.is_some() {
        let mut ch = Command::new(&exe).args(["shrink", p.id]).arg(case).arg(&small).stderr(Stdio::null()).spawn().unwrap();
        wait_for(&mut ch, Duration::from_secs(40));
    }
    let mut best = None;
    for f in [&small, &case.to_path_buf()] {
        if !f.exists() || best.is_some() {
            continue;
        }
        for n in 0..3 {
            let log = fs::File::create(tmp.join(format!("replay{n}"))).unwrap();
            let mut ch = Command::new(&exe).arg("replay").arg(f).stdout(log).stderr(Stdio::null()).spawn().unwrap();
            // Whatever takes down the replaying process reproduces a crash.
            if wait_for(&mut ch, HANG * 2) != Some(0) {
                best = Some(f.clone());
                break;
            }
        }
    }
    let f = best.or_else(|| {
        // Something outlives a run: the runs of the process before it, as few
        // of them as will do.
        let (vs, run) = c.origin;
        let first = run / CHUNK * CHUNK;
        let mut n = 1;
        let t0 = Instant::now();
        loop {
            let from = run.saturating_sub(n).max(first);
            if run_history(p, vs, from, run, false) {
                let t = format!(
                    "property {}\nclass {}\nverif_seed {}\nrun {run}\nfrom_run {from}\nrun_seed {}\nmessage (after runs {from} to {run} in one process) {}\n----\n",
                    p.id, c.class, vs, c.run_seed, c.message
                );
                fs::write(&small, t).ok()?;
                return Some(small.clone());
            }
            if from == first || t0.elapsed() > Duration::from_secs(60) {
                return None;
            }
            n *= 4;
        }
    });
    let f = f.unwrap_or_else(|| {
        println!("(did not fail again when replayed: what the library does depends on something else than the recorded decisions)");
        case.to_path_buf()
    });
    if let Some(c) = read_case(&f) {
        println!("run {} of VERIF_SEED={}: {}: {}", c.origin.1, c.origin.0 as i64, c.class, c.message.chars().take(1500).collect::<String>());
    }
    println!("VIOLATION property={} replay={}", p.id, f.display());
}

fn same_again(p: &Prof, n: u64) -> (u64, u64) {
    let exe = std::env::current_exe().unwrap();
    let parts = 4;
    let run = |from: u64, n: u64, trace: bool| {
        Command::new(&exe)
            .args(["hashes", p.id, &from.to_string(), &n.to_string(), if trace { "trace" } else { "" }])
            .stderr(Stdio::null())
            .stdout(Stdio::piped())
            .spawn()
            .unwrap()
    };
    let ch: Vec<(Child, Child)> =
        (0..parts).map(|i| (run(i * n / parts, n / parts, false), run(i * n / parts, n / parts, true))).collect();
    let mut bad = 0;
    for (a, b) in ch {
        let a = a.wait_with_output().map(|o| o.stdout).unwrap_or_default();
        let b = b.wait_with_output().map(|o| o.stdout).unwrap_or_default();
        let (a, b) = (String::from_utf8_lossy(&a), String::from_utf8_lossy(&b));
        bad += a.lines().zip(b.lines()).filter(|(x, y)| x != y).count() as u64;
        bad += (a.lines().count() as u64).abs_diff(n / parts) + (b.lines().count() as u64).abs_diff(n / parts);
    }
    (n, bad)
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

#[allow(clippy::too_many_arguments)]
fn evidence(
    p: &Prof,
    tier: &str,
    root: &str,
    t: &Totals,
    search: Duration,
    wall: Duration,
    violations: u32,
    determinism: (u64, u64),
    ncpu: usize,
) {
    let map = |names: &[&str], v: &[u64], all: bool| {
        let xs: Vec<String> =
            names.iter().zip(v).filter(|(_, n)| all || **n > 0).map(|(k, n)| format!("{}: {n}", js(k))).collect();
        format!("{{{}}}", xs.join(", "))
    };
    let list = |xs: &[&str]| format!("[{}]", xs.iter().map(|s| js(s)).collect::<Vec<_>>().join(", "));
    let samples: Vec<String> = t.samples.iter().map(|s| js(s)).collect();
    let per_hour = (t.runs as f64 / search.as_secs_f64().max(0.001) * 3600.0) as u64;
    let tier = if tier == "thorough" { "thorough" } else { "quick" };
    let stubs = ["token sources and links", "clock and timers", "user callbacks", "session scheduler", "allocator accounting"];
    let real = ["stream", "primitives", "combinators", "algorithms", "recovery strategies", "scanners", "recursive", "location trackers", "error types", "parser entry points, streams and tails"];
    let s = format!(
        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"exploration\",\n \"coverage\": {{\n  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n  \"nontrivial_runs\": {},\n  \"samples\": [{}],\n  \"runs_per_hour_one_seed_each\": {per_hour},\n  \"simulated_time_units\": {},\n  \"workers\": {ncpu},\n  \"faults_injected\": {},\n  \"probes\": {},\n  \"determinism_runs_repeated\": {},\n  \"determinism_mismatches\": {},\n  \"real_components\": {},\n  \"simulated_components\": {}\n }},\n \"assumptions\": {},\n \"wall_s\": {:.2},\n \"violations\": {violations}\n}}\n",
        js(p.id),
        js(tier),
        seed() as i64,
        t.runs,
        t.distinct.len(),
        js("one evaluation is one simulated run, generated from one seed (scenario: parsers, sources, operations; schedule: switches and faults at every seam); nontrivial: at least one fault or switch inside an operation happened, or a result was recovered or failed, or a session went back to or saved ahead to another position; distinct: by a hash over all events of the run (schedule, source answers, faults, results, cursors)"),
        t.nontrivial,
        samples.join(", "),
        t.time,
        map(F_NAMES, &t.faults, true),
        map(P_NAMES, &t.probes, true),
        determinism.0,
        determinism.1,
        list(&real),
        list(&stubs),
        list(&[
            "the reference models, generators and comparison code of /verif/sim are right",
            "tokens, mapping functions and predicates of the simulated grammars behave the same for equal tokens",
            "a clean batch of sampled runs is evidence, not proof",
        ]),
        wall.as_secs_f64()
    );
    let dir = PathBuf::from(root).join("evidence");
    fs::create_dir_all(&dir).unwrap();
    let f = dir.join(format!("{}.json", p.id));
    let mut file = fs::File::create(f).unwrap();
    file.write_all(s.as_bytes()).unwrap();
}
