//! The runner: worker processes ("lanes"), supervision (crash, hang, deadlock), confirmation,
//! reduction of a failing case, evidence.
use crate::core::*;
use crate::gen::Case;
use crate::props::{self, Obs};
use crate::special;
use serde_json::{json, Map, Value};
use std::fs;
use std::os::unix::fs::FileExt;
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};

/// Where the stored cases are and the evidence goes.
pub fn verif() -> PathBuf {
    PathBuf::from(std::env::var("MON_VERIF").unwrap_or(concat!(env!("CARGO_MANIFEST_DIR"), "/..").into()))
}
const LANES: u64 = 8;

pub struct Plan {
    pub cases: u64,
    pub secs: u64,
    pub stack_kib: usize,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
}
const MODEL_RULE: &str = "Random small trees with colliding names and option sets aimed at this property, each call compared with an independent reference model of the documented algorithm. Counted: distinct (tree, options, call) in which the mechanism of this property took part.";

pub fn plan(prop: &str, tier: &str) -> Plan {
    let (quick, rule): (u64, &'static str) = match prop {
        "C01" => (60000, "Random small trees (links, several description files) and option sets, requests aimed at what exists. Counted: distinct (tree, options, call) that succeeded with a path, each of which was examined on disk."),
        "C02" => (7000, "Hostile trees, JSON, tsconfigs, options and requests (cycles, multi-byte text, control characters, deep nesting, long paths), on a 2 MiB stack, each case asked cold and warm. Counted: distinct (tree, options, call) that returned."),
        "C22" => (20000, "Cases 0..65 enumerate Node 16's list and the edit-distance-1 neighbourhood, prefixes, suffixes, subpaths and pairs of every entry; later ones are random concatenations of fragments. Counted: distinct specifiers."),
        "C23" => (160000, "Random absolute and relative paths over ordinary, `.`, `..`, empty, multi-byte and non-UTF-8 components. Counted: distinct paths."),
        "C15" => (7000, "2 to 4 resolvers with different options on one cache and each with its own, asked the same calls in shuffled order twice; reference: a fresh resolver per call, and in every 4th case a new process. Counted: distinct (tree, resolver options, call)."),
        "C16" => (2400, "Histories of edits (create, rewrite in place or by rename, delete, move, link, retarget a link, older mtimes, breaking and repairing) interleaved with calls on long-lived resolvers; reference: a fresh resolver after each step, and in every 4th case a new process. Counted: (history, step, resolver, call) whose right answer changed because of the edit."),
        "C17" => (14000, "Each case answered again with the conditions inserted in other orders, on another thread in another order, at another location, in another process with another working directory and environment (every 8th case), and after unrelated additions. Counted: distinct (tree, options, call)."),
        "C18" => (900, "Threads race on cold resolvers sharing one cache; half of the cases also replace description files meanwhile. Reference: the sequential answers, and a fresh resolver when the changes have ceased. Counted: distinct (tree, resolver options, call)."),
        "C19" => (32000, "Requests that mostly fail, through aliases, prefer_relative, exports, imports and broken description files. Counted: distinct (tree, options, call) whose error text was examined."),
        "C20" => (20000, "Content, inode, mode, link count, times of every entry of the tree and its surroundings compared before and after the calls of a case. A batch of cases runs under strace with every state-changing system call between two markers reported. Counted: distinct (tree, options, call)."),
        "C21" => (36000, "The same call with symlinks on and off, on trees with linked files, directories and packages. Counted: distinct (tree, options, call) whose answer goes through a link."),
        "C24" => (6500, "Each case answered before and after a change of what is switched off or not configured. Counted: distinct (tree, options, call, kind of change)."),
        "C03" | "C06" => (18000, MODEL_RULE),
        "C13" => (14000, MODEL_RULE),
        "C10" | "C11" | "C12" | "C07" | "C09" => (30000, MODEL_RULE),
        "C04" | "C05" | "C08" | "C14" => (56000, MODEL_RULE),
        _ => (14000, MODEL_RULE),
    };
    let assumptions: &'static [&'static str] = match prop {
        "C02" => &["known findings K2 and K3 (in the JSONC parser) are replayed separately; exponents and extreme nesting are left out of generated tsconfigs", "a call that uses more than 60 s of processor time counts as endless"],
        "C16" => &["modification times of changed description files differ by at least 1 s, as the property says"],
        "C18" => &["interleavings are those the scheduler produces; data races are looked for with ThreadSanitizer in a phase of its own"],
        "C22" => &["the list of Node 16.x is written down in the monitor"],
        "C03" | "C04" | "C05" | "C06" | "C07" | "C08" | "C09" | "C10" | "C11" | "C12" | "C13" | "C14" => {
            &["the reference model states the documented algorithm; requests on which documentation and enhanced-resolve leave the answer open are not judged"]
        }
        _ => &[],
    };
    let (cases, secs) = if tier == "thorough" { (quick * 40, 600) } else { (quick, 75) };
    // AddressSanitizer's frames are several times larger
    let c02 = if cfg!(mon_asan) { 32 * 1024 } else { 2048 };
    Plan { cases, secs, stack_kib: if prop == "C02" { c02 } else { 64 * 1024 }, rule, assumptions }
}

pub fn make_case(prop: &str, seed: u64, index: u64) -> Case {
    let r = Rng::new(props::hash_of(&[&prop, &seed, &index]));
    match prop {
        "C22" => special::gen_c22(r, index),
        "C23" => special::gen_c23(r),
        _ => {
            let mut r = r;
            let mut r2 = r.fork();
            crate::vary::vary(prop, props::generate(prop, r), &mut r2)
        }
    }
}

pub fn scratch_base() -> PathBuf {
    if let Ok(d) = std::env::var("MON_SCRATCH") {
        return PathBuf::from(d);
    }
    for d in ["/dev/shm", "/tmp"] {
        let p = Path::new(d).join(format!("mon-{}", std::process::id()));
        if fs::create_dir_all(&p).is_ok() && fs::write(p.join("probe"), "x").is_ok() {
            let _ = fs::remove_file(p.join("probe"));
            return p.canonicalize().unwrap();
        }
    }
    panic!("no scratch directory");
}

pub fn on_stack<T: Send + 'static>(kib: usize, f: impl FnOnce() -> T + Send + 'static) -> T {
    std::thread::Builder::new().stack_size(kib * 1024).spawn(f).unwrap().join().unwrap()
}

// -------------------------------------------------------------------- worker
/// mon lane PROP SEED LANE CASES SECS DIR
pub fn lane(a: &[String]) -> i32 {
    let prop = a[0].clone();
    let (seed, lane, cases, secs): (u64, u64, u64, u64) =
        (a[1].parse().unwrap(), a[2].parse().unwrap(), a[3].parse().unwrap(), a[4].parse().unwrap());
    let dir = PathBuf::from(&a[5]);
    let start: u64 = a[6].parse().unwrap();
    let tier = std::env::var("VERIF_TIER").unwrap_or_default();
    let p = plan(&prop, &tier);
    let progress = fs::File::create(dir.join(format!("progress-{lane}"))).unwrap();
    let t0 = Instant::now();
    let mut obs = Obs::default();
    let root = dir.join(format!("lane{lane}")).join("w");
    let mut i = start;
    let mut done = 0u64;
    let mut bad: Option<(u64, String)> = None;
    while i < cases && t0.elapsed() < Duration::from_secs(secs) {
        progress.write_at(format!("{i:020}").as_bytes(), 0).unwrap();
        let (pr, rt) = (prop.clone(), root.clone());
        let o = std::mem::take(&mut obs);
        let (o, v) = on_stack(p.stack_kib, move || {
            let mut o = o;
            let c = make_case(&pr, seed, i);
            let v = props::check(&c, &rt, &mut o);
            (o, v)
        });
        obs = o;
        done += 1;
        if let Err(m) = v {
            bad = Some((i, m));
            break;
        }
        i += LANES;
    }
    props::wipe(&root);
    let hashes: Vec<String> = obs.hashes.iter().map(|h| format!("{h:x}")).collect();
    let j = json!({"evals": obs.evals, "tags": obs.tags, "samples": obs.samples, "cases": done,
        "bad": bad.as_ref().map(|(i, m)| json!({"index": i, "message": m}))});
    fs::write(dir.join(format!("hashes-{lane}")), hashes.join("\n")).unwrap();
    fs::write(dir.join(format!("out-{lane}")), j.to_string()).unwrap();
    if bad.is_some() {
        1
    } else {
        0
    }
}

/// mon case FILE: checks one case in this process. 0 silent, 1 violation.
pub fn case(file: &Path) -> i32 {
    let v: Value = serde_json::from_str(&fs::read_to_string(file).expect("case file")).expect("case json");
    let cv = if v.get("case").is_some() { v["case"].clone() } else { v.clone() };
    let prop = cv["prop"].as_str().unwrap().to_string();
    let base = scratch_base();
    let root = base.join("case").join("w");
    let stack = cv["stack_kib"].as_u64().unwrap_or(plan(&prop, "quick").stack_kib as u64) as usize;
    let times = if prop == "C18" { 20 } else { 1 };
    let b2 = base.clone();
    let res = on_stack(stack, move || {
        let c = Case::from_json(&cv);
        for _ in 0..times {
            props::check(&c, &root, &mut Obs::default())?;
        }
        Ok::<(), String>(())
    });
    if std::env::var("MON_SCRATCH").is_err() {
        let _ = fs::remove_dir_all(&b2);
    } else {
        let _ = fs::remove_dir_all(b2.join("case"));
    }
    match res {
        Ok(()) => {
            println!("held");
            0
        }
        Err(m) => {
            println!("VIOLATED {m}");
            1
        }
    }
}

/// mon eval FILE ROOT: materialised already; prints the answers of the case as a JSON list.
pub fn eval(file: &Path, root: &Path) -> i32 {
    let v: Value = serde_json::from_str(&fs::read_to_string(file).expect("case file")).expect("case json");
    let root = root.to_path_buf();
    let out = on_stack(64 * 1024, move || {
        let c = Case::from_json(&v);
        // markers for the system-call monitor
        let _ = fs::symlink_metadata("/mon-begin-of-calls");
        let a = props::answers(&c, &c.opts, &root);
        let _ = fs::symlink_metadata("/mon-end-of-calls");
        a
    });
    println!("{}", json!(out));
    0
}

// -------------------------------------------------------------------- supervision
/// processor seconds used so far, and whether every thread is asleep
fn cpu_of(pid: u32) -> Option<(f64, bool)> {
    let mut total = 0.0;
    let mut asleep = true;
    for e in fs::read_dir(format!("/proc/{pid}/task")).ok()?.flatten() {
        let s = fs::read_to_string(e.path().join("stat")).ok()?;
        let r = &s[s.rfind(')')? + 2..];
        let f: Vec<&str> = r.split(' ').collect();
        if f[0] != "S" {
            asleep = false;
        }
        total += (f[11].parse::<f64>().ok()? + f[12].parse::<f64>().ok()?) / 100.0;
    }
    Some((total, asleep))
}
#[derive(Debug)]
pub enum End {
    Code(i32, String),
    Died(String),
    Hang,
    Deadlock,
    Wall,
}
/// Runs one case in a process of its own.
fn run_case(file: &Path, cpu_limit: f64, wall: u64) -> End {
    run_case_with(&std::env::current_exe().unwrap(), file, cpu_limit, wall)
}
fn run_case_with(exe: &Path, file: &Path, cpu_limit: f64, wall: u64) -> End {
    let sc = file.parent().unwrap().join(format!("sc-{}", file.file_name().unwrap().to_string_lossy()));
    fs::create_dir_all(&sc).unwrap();
    let mut c = Command::new(exe);
    c.arg("case").arg(file).env("MON_SCRATCH", &sc);
    sanitizer_env(&mut c, &sc);
    let r = run_child(&mut c, cpu_limit, wall, &sc.join("out"));
    let _ = fs::remove_dir_all(&sc);
    r
}
/// The sanitizers write their reports to DIR/san.PID.
fn sanitizer_env(c: &mut Command, dir: &Path) {
    for v in ["TSAN_OPTIONS", "ASAN_OPTIONS"] {
        if let Ok(o) = std::env::var(v) {
            c.env(v, format!("{o}:log_path={}", dir.join("san").display()));
        }
    }
}
/// What the sanitizer found; its own troubles (no memory, unsuitable memory map) are not findings.
fn sanitizer_report(dir: &Path) -> Option<String> {
    for e in fs::read_dir(dir).ok()?.flatten() {
        if e.file_name().to_string_lossy().starts_with("san.") {
            let t = fs::read_to_string(e.path()).unwrap_or_default();
            let sum = t.lines().find_map(|l| l.strip_prefix("SUMMARY: ")).map(|l| l.to_string());
            match sum {
                Some(l) if !l.contains("out-of-memory") && !l.contains("allocation-size") => return Some(l),
                _ => eprintln!("note: {}", t.lines().take(3).collect::<Vec<_>>().join(" | ")),
            }
        }
    }
    None
}
fn run_child(cmd: &mut Command, cpu_limit: f64, wall: u64, outfile: &Path) -> End {
    let f = fs::File::create(outfile).unwrap();
    let mut ch = cmd.stdin(Stdio::null()).stdout(f).stderr(Stdio::null()).spawn().expect("spawn");
    let t0 = Instant::now();
    let mut idle = (0.0f64, 0u32);
    let mut polls = 0u32;
    loop {
        if let Some(st) = ch.try_wait().unwrap() {
            let text = fs::read_to_string(outfile).unwrap_or_default();
            return match st.code() {
                Some(c) if c == 0 || c == 1 => End::Code(c, text),
                Some(66) => match sanitizer_report(outfile.parent().unwrap()) {
                    Some(r) => End::Died(format!("the sanitizer reported: {r}")),
                    None => End::Wall,
                },
                _ => End::Died(format!("{st}")),
            };
        }
        std::thread::sleep(Duration::from_millis(if polls < 200 { 2 } else { 50 }));
        polls += 1;
        if polls < 200 || polls % 4 != 0 {
            continue;
        }
        if let Some((cpu, asleep)) = cpu_of(ch.id()) {
            let end = if cpu > cpu_limit {
                Some(End::Hang)
            } else if t0.elapsed() > Duration::from_secs(wall) {
                Some(End::Wall)
            } else {
                if asleep && cpu - idle.0 < 0.02 {
                    idle.1 += 1;
                } else {
                    idle = (cpu, 0);
                }
                (idle.1 > 300).then_some(End::Deadlock)
            };
            if let Some(e) = end {
                let _ = ch.kill();
                let _ = ch.wait();
                return e;
            }
        }
    }
}
fn describe(e: &End) -> Option<String> {
    match e {
        End::Code(0, _) | End::Wall => None,
        End::Code(_, t) => t.lines().find_map(|l| l.strip_prefix("VIOLATED ")).map(|s| s.to_string()).or(Some("violated".into())),
        End::Died(s) if s.starts_with("the sanitizer") => Some(s.clone()),
        End::Died(s) => Some(format!("the process died ({s}): stack overflow or abort")),
        End::Hang => Some("a call does not return: processor time without end".into()),
        End::Deadlock => Some("calls do not return: every thread sleeps".into()),
    }
}

struct Lane {
    ch: Child,
    idx: String,
    cpu0: f64,
    idle: (f64, u32),
    done: bool,
}

/// mon run PROP
pub fn run(prop: &str) -> i32 {
    let tier = match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => "thorough",
        _ => "quick",
    };
    std::env::set_var("VERIF_TIER", tier);
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let mut p = plan(prop, tier);
    if let Some(n) = std::env::var("MON_CASES").ok().and_then(|s| s.parse().ok()) {
        p.cases = n;
    }
    if let Some(n) = std::env::var("MON_SECS").ok().and_then(|s| s.parse().ok()) {
        p.secs = n;
    }
    let t0 = Instant::now();
    let dir = scratch_base();
    let code = run_in(prop, tier, seed, &p, t0, &dir);
    let _ = fs::remove_dir_all(&dir);
    code
}

fn run_in(prop: &str, tier: &str, seed: u64, p: &Plan, t0: Instant, dir: &Path) -> i32 {
    let exe = std::env::current_exe().unwrap();
    let mut extra: Map<String, Value> = Map::new();
    let mut violation: Option<(Value, String)> = None;

    // known findings, and cases that failed once
    let (known, corpus) = fixed_cases(prop, dir);
    extra.insert("known_findings_replayed".into(), json!(known));
    match corpus {
        Ok(n) => {
            extra.insert("regression_cases".into(), json!(n));
        }
        Err((c, m)) => violation = Some((c, m)),
    }
    let mut obs = Obs::default();
    let mut cases = 0u64;
    let mut inconclusive = 0u64;

    if violation.is_none() {
        violation = phase(&exe, prop, seed, 0, p.cases, p.secs, dir, &mut obs, &mut cases, &mut inconclusive);
    }
    // the same monitor compiled with a sanitizer, on other cases
    if violation.is_none() {
        if let Ok(san) = std::env::var("MON_SAN") {
            let name = std::env::var("MON_SAN_NAME").unwrap_or_default();
            let secs = if tier == "thorough" { 240 } else { 25 };
            let (mut o, mut n, mut inc) = (Obs::default(), 0, 0);
            let from = 10_000_000;
            let t = Instant::now();
            violation = phase(Path::new(&san), prop, seed, from, from + p.cases, secs, dir, &mut o, &mut n, &mut inc);
            extra.insert(
                "sanitizer".into(),
                json!({"name": name, "cases": n, "calls": o.evals, "distinct_nontrivial": o.hashes.len(), "inconclusive_cases": inc,
                    "observed": o.tags, "wall_s": t.elapsed().as_secs()}),
            );
        } else if let Ok(why) = std::env::var("MON_SAN_MISSING") {
            extra.insert("sanitizer".into(), json!({"available": false, "note": why}));
        }
    }
    if violation.is_none() && prop == "C20" {
        match crate::trace::batch(seed, if tier == "thorough" { 400 } else { 40 }, dir) {
            Ok(m) => {
                extra.insert("system_call_monitor".into(), m);
            }
            Err(v) => violation = Some(v),
        }
    }

    let mut code = 0;
    let mut nv = 0;
    if let Some((cj, m)) = &violation {
        nv = 1;
        code = 1;
        let (small, msg) = shrink(prop, cj.clone(), m.clone(), dir);
        let ev = verif().join("evidence");
        fs::create_dir_all(&ev).unwrap();
        let ev = ev.canonicalize().unwrap();
        let replay = ev.join(format!("replay-{prop}.json"));
        let j = json!({"property": prop, "message": msg, "case": small,
            "how": format!("bash /verif/check.sh replay {}", replay.display())});
        fs::write(&replay, serde_json::to_string_pretty(&j).unwrap()).unwrap();
        println!("{prop}: {msg}");
        println!("VIOLATION property={prop} replay={}", replay.display());
    } else if obs.hashes.len() < 30 {
        eprintln!("error: the monitor observed next to nothing ({} cases, {} distinct)", cases, obs.hashes.len());
        code = 2;
    }
    if obs.samples.is_empty() {
        obs.samples.push(violation.map(|(c, m)| json!({"case": c, "observed": m})).unwrap_or(json!("none")));
    }
    let mut cov = json!({
        "evaluations": obs.evals,
        "distinct_nontrivial": obs.hashes.len(),
        "rule": p.rule,
        "samples": obs.samples,
        "cases": cases,
        "cases_planned": p.cases,
        "observed": obs.tags,
        "inconclusive_cases": inconclusive,
    });
    for (k, v) in extra {
        cov[k] = v;
    }
    let ev = json!({"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
        "assumptions": p.assumptions, "wall_s": (t0.elapsed().as_secs_f64() * 100.0).round() / 100.0, "violations": nv});
    let d = verif().join("evidence");
    fs::create_dir_all(&d).unwrap();
    fs::write(d.join(format!("{prop}.json")), serde_json::to_string_pretty(&ev).unwrap()).unwrap();
    if code == 0 {
        println!("{prop}: held on {} observed calls, {} distinct non-trivial, {:.1} s", obs.evals, obs.hashes.len(), t0.elapsed().as_secs_f64());
    }
    code
}

/// Lanes on the cases from..to; what was seen goes to `obs`.
#[allow(clippy::too_many_arguments)]
fn phase(
    exe: &Path,
    prop: &str,
    seed: u64,
    from: u64,
    to: u64,
    secs: u64,
    dir: &Path,
    obs: &mut Obs,
    cases: &mut u64,
    inconclusive: &mut u64,
) -> Option<(Value, String)> {
    let mut violation: Option<(Value, String)> = None;
    let t0 = Instant::now();
    for l in 0..LANES {
        let _ = fs::remove_file(dir.join(format!("out-{l}")));
        let _ = fs::remove_file(dir.join(format!("progress-{l}")));
    }
    let mut lanes: Vec<Lane> = vec![];
    for l in 0..LANES {
        lanes.push(spawn_lane(exe, prop, seed, l, to, secs, dir, from + l));
    }
    'watch: loop {
        std::thread::sleep(Duration::from_millis(50));
        let mut alive = false;
        for l in 0..LANES {
            let ln = &mut lanes[l as usize];
            if ln.done {
                continue;
            }
            let idx = fs::read_to_string(dir.join(format!("progress-{l}"))).unwrap_or_default();
            let mut suspect: Option<&str> = None;
            if let Some(st) = ln.ch.try_wait().unwrap() {
                ln.done = true;
                match st.code() {
                    Some(0) => {}
                    Some(1) => {
                        let j = read_out(dir, l);
                        let i = j["bad"]["index"].as_u64().unwrap();
                        let m = j["bad"]["message"].as_str().unwrap().to_string();
                        violation = Some((make_case_json(prop, seed, i), m));
                        break 'watch;
                    }
                    _ => suspect = Some("died"),
                }
            } else {
                alive = true;
                if let Some((cpu, asleep)) = cpu_of(ln.ch.id()) {
                    if idx != ln.idx {
                        ln.idx = idx.clone();
                        ln.cpu0 = cpu;
                        ln.idle = (cpu, 0);
                    }
                    if cpu - ln.cpu0 > if from == 0 { 20.0 } else { 120.0 } {
                        suspect = Some("hang");
                    }
                    if asleep && cpu - ln.idle.0 < 0.02 {
                        ln.idle.1 += 1;
                        if ln.idle.1 > 1200 {
                            suspect = Some("asleep");
                        }
                    } else {
                        ln.idle = (cpu, 0);
                    }
                }
            }
            if let Some(s) = suspect {
                let _ = ln.ch.kill();
                let _ = ln.ch.wait();
                let i: u64 = idx.trim().parse().unwrap_or(from + l);
                let cj = make_case_json(prop, seed, i);
                let f = dir.join(format!("suspect-{i}.json"));
                fs::write(&f, cj.to_string()).unwrap();
                let mut verdict = None;
                for _ in 0..if s == "asleep" { 5 } else { 2 } {
                    let e = run_case_with(exe, &f, if from == 0 { 60.0 } else { 200.0 }, 400);
                    if let Some(m) = describe(&e) {
                        verdict = Some(m);
                        break;
                    }
                }
                if verdict.is_none() && s == "asleep" {
                    verdict = Some("calls did not return: every thread slept for a minute (seen once)".into());
                }
                match verdict {
                    Some(m) => {
                        violation = Some((cj, m));
                        break 'watch;
                    }
                    None => {
                        // not reproducible (for example memory pressure): say so and go on after it
                        *inconclusive += 1;
                        eprintln!("note: lane {l} {s} at case {i}, which holds when run alone");
                        if *inconclusive > 20 {
                            break 'watch;
                        }
                        let left = secs.saturating_sub(t0.elapsed().as_secs());
                        *ln = spawn_lane(exe, prop, seed, l, to, left, dir, i + LANES);
                        alive = true;
                    }
                }
            }
        }
        if !alive {
            break;
        }
    }
    for ln in &mut lanes {
        if violation.is_some() {
            let _ = ln.ch.kill();
        }
        let _ = ln.ch.wait();
    }
    for l in 0..LANES {
        let j = read_out(dir, l);
        if j.is_null() {
            continue;
        }
        obs.evals += j["evals"].as_u64().unwrap();
        *cases += j["cases"].as_u64().unwrap();
        for (k, n) in j["tags"].as_object().unwrap() {
            obs.add(k, n.as_u64().unwrap());
        }
        let mut s = j["samples"].as_array().unwrap().clone();
        s.truncate(2);
        obs.samples.extend(s);
        for h in fs::read_to_string(dir.join(format!("hashes-{l}"))).unwrap_or_default().lines() {
            obs.hashes.insert(u64::from_str_radix(h, 16).unwrap());
        }
    }
    obs.samples.sort_by_key(|s| s.to_string().len());
    obs.samples.truncate(4);
    violation
}

fn make_case_json(prop: &str, seed: u64, i: u64) -> Value {
    let prop = prop.to_string();
    on_stack(64 * 1024, move || make_case(&prop, seed, i).to_json())
}
fn read_out(dir: &Path, l: u64) -> Value {
    fs::read_to_string(dir.join(format!("out-{l}"))).ok().and_then(|t| serde_json::from_str(&t).ok()).unwrap_or(Value::Null)
}
fn spawn_lane(exe: &Path, prop: &str, seed: u64, l: u64, cases: u64, secs: u64, dir: &Path, start: u64) -> Lane {
    let mut c = Command::new(exe);
    c.arg("lane").arg(prop).arg(seed.to_string()).arg(l.to_string()).arg(cases.to_string()).arg(secs.to_string()).arg(dir);
    c.arg(start.to_string());
    sanitizer_env(&mut c, dir);
    let ch = c.stdin(Stdio::null()).stdout(Stdio::null()).spawn().expect("spawn lane");
    Lane { ch, idx: String::new(), cpu0: 0.0, idle: (0.0, 0), done: false }
}

// -------------------------------------------------------------------- known findings, regressions
fn fixed_cases(prop: &str, dir: &Path) -> (Vec<String>, Result<u64, (Value, String)>) {
    let read = |n: &str| -> Vec<Value> {
        fs::read_to_string(verif().join(n))
            .ok()
            .map(|t| serde_json::from_str::<Value>(&t).unwrap_or_else(|e| panic!("{n}: {e}")))
            .and_then(|v| v.as_array().cloned())
            .unwrap_or_default()
    };
    let mut shown = vec![];
    for (i, k) in read("known-findings.json").iter().enumerate() {
        if k["property"] != prop || k["status"] != "open" {
            continue;
        }
        let f = dir.join(format!("known-{i}.json"));
        fs::write(&f, expand_case(&k["case"]).to_string()).unwrap();
        let e = run_case(&f, 60.0, 200);
        match describe(&e) {
            Some(m) => {
                println!("KNOWN-FINDING: property={prop} {} {}", k["id"].as_str().unwrap(), k["what"].as_str().unwrap());
                shown.push(format!("{}: {m}", k["id"].as_str().unwrap()));
            }
            None => println!("note: the known finding {} of {prop} did not show", k["id"].as_str().unwrap()),
        }
    }
    let all: Vec<Value> = read("harness/corpus.json")
        .into_iter()
        .filter(|c| c["prop"] == prop || c["also"].as_array().map_or(false, |a| a.iter().any(|x| x == prop)))
        .map(|mut c| {
            c["prop"] = json!(prop);
            c
        })
        .collect();
    let n = all.len() as u64;
    let next = std::sync::atomic::AtomicUsize::new(0);
    let bad = std::sync::Mutex::new(None);
    std::thread::scope(|s| {
        for _ in 0..LANES {
            s.spawn(|| loop {
                let i = next.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                if i >= all.len() || bad.lock().unwrap().is_some() {
                    return;
                }
                let c = expand_case(&all[i]);
                let f = dir.join(format!("corpus-{i}.json"));
                fs::write(&f, c.to_string()).unwrap();
                if let Some(m) = describe(&run_case(&f, 60.0, 200)) {
                    *bad.lock().unwrap() = Some((c, m));
                }
                let _ = fs::remove_file(&f);
            });
        }
    });
    match bad.into_inner().unwrap() {
        Some(b) => (shown, Err(b)),
        None => (shown, Ok(n)),
    }
}
/// `{"repeat": [text, n]}` within file contents of a stored case stands for n repetitions;
/// a list of strings and repeats is concatenated.
fn expand_case(c: &Value) -> Value {
    let mut c = c.clone();
    if let Some(w) = c["world"].as_object_mut() {
        for (_, v) in w.iter_mut() {
            if let Some(parts) = v.get("concat").and_then(|p| p.as_array()) {
                let mut s = String::new();
                for p in parts {
                    match p {
                        Value::String(t) => s.push_str(t),
                        _ => s.push_str(&p["repeat"][0].as_str().unwrap().repeat(p["repeat"][1].as_u64().unwrap() as usize)),
                    }
                }
                *v = json!(s);
            }
        }
    }
    if let Some(calls) = c["calls"].as_array_mut() {
        for call in calls {
            for x in call.as_array_mut().unwrap() {
                if let Some(r) = x.get("repeat") {
                    *x = json!(r[0].as_str().unwrap().repeat(r[1].as_u64().unwrap() as usize));
                }
            }
        }
    }
    c
}

// -------------------------------------------------------------------- reduction
fn shrink(prop: &str, c: Value, msg: String, dir: &Path) -> (Value, String) {
    let t0 = Instant::now();
    let f = dir.join("shrink.json");
    let tryit = |c: &Value| -> Option<String> {
        fs::write(&f, c.to_string()).unwrap();
        describe(&run_case(&f, 25.0, 60))
    };
    let mut best = c;
    let mut text = match tryit(&best) {
        Some(m) => m,
        None => return (best, msg), // needs the schedule it had; keep as it is
    };
    if prop == "C18" {
        return (best, text);
    }
    let budget = Duration::from_secs(40);
    let mut progress = true;
    while progress && t0.elapsed() < budget {
        progress = false;
        // calls: halves, then one by one
        let mut chunk = best["calls"].as_array().map_or(0, |c| c.len()) / 2;
        while chunk >= 1 && t0.elapsed() < budget {
            let mut i = 0;
            while i < best["calls"].as_array().unwrap().len() && t0.elapsed() < budget {
                let mut d = best.clone();
                let a = d["calls"].as_array_mut().unwrap();
                let e = (i + chunk).min(a.len());
                if e - i == a.len() {
                    break;
                }
                a.drain(i..e);
                match tryit(&d) {
                    Some(m) => {
                        best = d;
                        text = m;
                        progress = true;
                    }
                    None => i += chunk,
                }
            }
            chunk /= 2;
        }
        let keys: Vec<String> = best["world"].as_object().unwrap().keys().cloned().collect();
        let mut chunk = keys.len() / 2;
        while chunk >= 1 && t0.elapsed() < budget {
            for ks in keys.chunks(chunk) {
                if t0.elapsed() > budget {
                    break;
                }
                let mut d = best.clone();
                let m = d["world"].as_object_mut().unwrap();
                let n = m.len();
                for k in ks {
                    m.shift_remove(k);
                }
                if m.len() == n {
                    continue;
                }
                if let Some(m) = tryit(&d) {
                    best = d;
                    text = m;
                    progress = true;
                }
            }
            chunk /= 2;
        }
        let keys: Vec<String> = best["opts"].as_object().unwrap().keys().cloned().collect();
        for k in keys {
            if t0.elapsed() > budget {
                break;
            }
            let mut d = best.clone();
            d["opts"].as_object_mut().unwrap().shift_remove(&k);
            if let Some(m) = tryit(&d) {
                best = d;
                text = m;
                progress = true;
            }
        }
    }
    (best, text)
}

pub fn dump(prop: &str, seed: u64, i: u64) {
    println!("{}", serde_json::to_string_pretty(&make_case_json(prop, seed, i)).unwrap());
}
