//! Runtime monitor for geom3d: runs the real code under generated workloads and
//! judges what it observably does with independent oracles.
mod ctx;
mod gen;
mod geo;
mod oracle;
mod props;
mod rng;
mod stepfile;
mod sys;

use ctx::{Ctx, Tier, PAGE};
use std::collections::{BTreeMap, BTreeSet};
use std::io::Write;
use std::path::{Path, PathBuf};
use std::sync::atomic::Ordering;
use std::time::{Duration, Instant};

fn esc(s: &str) -> String {
    s.replace('\\', "\\\\").replace('\n', "\\n").replace('\t', "\\t")
}
fn unesc(s: &str) -> String {
    let mut out = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c == '\\' {
            match it.next() {
                Some('n') => out.push('\n'),
                Some('t') => out.push('\t'),
                Some(c) => out.push(c),
                None => {}
            }
        } else {
            out.push(c)
        }
    }
    out
}
fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn clip(s: &str, n: usize) -> String {
    if s.chars().count() <= n {
        s.to_string()
    } else {
        s.chars().take(n).collect::<String>() + "..."
    }
}

fn env_u64(name: &str, default: u64) -> u64 {
    std::env::var(name).ok().and_then(|s| s.trim().parse().ok()).unwrap_or(default)
}
fn tier_of(s: &str) -> Tier {
    if s == "thorough" {
        Tier::Thorough
    } else {
        Tier::Quick
    }
}

/// CPU seconds one call into the code under test may take before it counts as not terminating.
const CALL_CPU_LIMIT: f64 = 25.0;

// ------------------------------------------------------------------ worker --
fn worker(id: &str, tier: Tier, seed: u64, first: u64, end: u64, step: u64, out: &Path, page: &Path) -> i32 {
    let prop = props::find(id).expect("unknown property");
    let f = std::fs::OpenOptions::new().read(true).write(true).open(page).unwrap();
    ctx::set_progress_page(sys::map_shared(&f, PAGE));
    sys::limit(sys::RLIMIT_CORE, 0);
    if std::env::var("MON_NO_AS").is_err() {
        sys::limit(sys::RLIMIT_AS, 4 << 30);
    }
    sys::ignore_sigxfsz();
    ctx::install_panic_hook();
    let max_fail = env_u64("MON_MAXFAIL", 2);
    let wall = Duration::from_secs(env_u64("MON_WALL", if tier == Tier::Quick { 420 } else { 5400 }));

    // watchdog: CPU time, not wall time, of the one call in progress
    std::thread::spawn(|| {
        let (mut seq, mut since) = (0, 0.0);
        loop {
            std::thread::sleep(Duration::from_millis(100));
            let now = ctx::OP_SEQ.load(Ordering::SeqCst);
            let cpu = sys::cpu_seconds();
            if now != seq || !ctx::IN_SUT.load(Ordering::SeqCst) {
                seq = now;
                since = cpu;
            } else if cpu - since > CALL_CPU_LIMIT {
                unsafe { sys::_exit(99) }
            }
        }
    });

    let out = out.to_path_buf();
    let handle = std::thread::Builder::new()
        .stack_size(64 << 20)
        .spawn(move || {
            let mut w = std::io::BufWriter::new(std::fs::File::create(&out).unwrap());
            let start = Instant::now();
            let mut cx = Ctx::new(prop.id, seed, tier);
            let (mut evals, mut bad, mut samples) = (0u64, 0u64, 0);
            let mut idx = first;
            let mut cut = false;
            while idx < end {
                if start.elapsed() > wall {
                    cut = true;
                    break;
                }
                cx.begin(idx);
                let _ = (prop.run)(&mut cx);
                evals += 1;
                if cx.is_nontrivial {
                    writeln!(w, "H\t{:016x}", rng::hash_bytes(cx.input.as_bytes())).unwrap();
                    if samples < 2 {
                        samples += 1;
                        writeln!(w, "S\t{}", esc(&format!("case {} {}: {}", idx, cx.name, clip(&cx.input, 600)))).unwrap();
                    }
                }
                if !cx.fails.is_empty() {
                    bad += 1;
                    for f in &cx.fails {
                        writeln!(w, "F\t{}\t{}\t{}\t{}\t{}", idx, esc(&cx.name), f.class, esc(&f.msg), esc(&clip(&cx.input, 4000))).unwrap();
                    }
                    w.flush().unwrap();
                    // directed cases may all fail as known findings: never stop on those
                    if cx.name.is_empty() && bad >= max_fail {
                        break;
                    }
                }
                idx += step;
            }
            writeln!(w, "E\t{}", evals).unwrap();
            if cut {
                writeln!(w, "C").unwrap();
            }
            for (k, v) in &cx.ops {
                writeln!(w, "O\t{}\t{}", k, v).unwrap();
            }
            for (k, v) in &cx.obs {
                writeln!(w, "B\t{}\t{}", k, v).unwrap();
            }
            for (k, v) in &cx.margins {
                writeln!(w, "M\t{}\t{:e}", k, v).unwrap();
            }
            writeln!(w, "D").unwrap();
            w.flush().unwrap();
        })
        .unwrap();
    match handle.join() {
        Ok(()) => 0,
        Err(_) => {
            let msg = ctx::LAST_PANIC.with(|p| p.borrow().clone());
            eprintln!("monitor error: worker panicked {}", msg);
            98
        }
    }
}

// -------------------------------------------------------------- supervisor --
#[derive(Default)]
struct Merged {
    evals: u64,
    cut: bool,
    hashes: BTreeSet<String>,
    samples: Vec<String>,
    ops: BTreeMap<String, u64>,
    obs: BTreeMap<String, u64>,
    margins: BTreeMap<String, f64>,
    fails: Vec<(u64, String, String, String, String)>,
    done: bool,
}

fn merge(m: &mut Merged, text: &str) {
    m.done = false;
    for line in text.lines() {
        let f: Vec<&str> = line.split('\t').collect();
        match f[0] {
            "H" => {
                m.hashes.insert(f[1].to_string());
            }
            "S" => m.samples.push(unesc(f[1])),
            "F" if f.len() >= 6 => m.fails.push((f[1].parse().unwrap(), unesc(f[2]), f[3].to_string(), unesc(f[4]), unesc(f[5]))),
            "E" => m.evals += f[1].parse::<u64>().unwrap(),
            "C" => m.cut = true,
            "O" => *m.ops.entry(f[1].to_string()).or_insert(0) += f[2].parse::<u64>().unwrap(),
            "B" => *m.obs.entry(f[1].to_string()).or_insert(0) += f[2].parse::<u64>().unwrap(),
            "M" => {
                let v: f64 = f[2].parse().unwrap();
                let e = m.margins.entry(f[1].to_string()).or_insert(0.0);
                if v > *e {
                    *e = v
                }
            }
            "D" => m.done = true,
            _ => {}
        }
    }
}

fn known_findings(root: &Path, id: &str) -> Vec<(String, String, String)> {
    // finding: property=<id> case=<directed case> class=<class> <what fails>
    let mut v = Vec::new();
    if let Ok(text) = std::fs::read_to_string(root.join("known_findings.txt")) {
        for line in text.lines() {
            if let Some(rest) = line.strip_prefix("finding: ") {
                let mut it = rest.splitn(4, ' ');
                let (p, c, k, d) = (it.next().unwrap_or(""), it.next().unwrap_or(""), it.next().unwrap_or(""), it.next().unwrap_or(""));
                if p == format!("property={}", id) {
                    v.push((c.trim_start_matches("case=").to_string(), k.trim_start_matches("class=").to_string(), d.to_string()));
                }
            }
        }
    }
    v
}

/// Run the operations of C28 under Miri, which watches every memory access and thread.
fn interpreted(m: &mut Merged, errors: &mut Vec<String>, seed: u64, scratch: &Path) {
    let harness = env!("CARGO_MANIFEST_DIR");
    let start = |k: u64, groups: u64| {
        let dir = scratch.join(format!("miri{}", k));
        std::fs::create_dir_all(&dir).unwrap();
        std::process::Command::new("cargo")
            .args(["+nightly", "miri", "run", "--offline", "--locked", "--manifest-path"])
            .arg(format!("{}/Cargo.toml", harness))
            .arg("--target-dir")
            .arg(format!("{}/target/miri", harness))
            .args(["--", "ops", &(seed * 1000 + k).to_string(), &groups.to_string()])
            .env("MIRIFLAGS", format!("-Zmiri-disable-isolation -Zmiri-seed={}", k))
            .env_remove("RUSTUP_TOOLCHAIN")
            .current_dir(&dir)
            .stdin(std::process::Stdio::null())
            .stdout(std::fs::File::create(dir.join("out")).unwrap())
            .stderr(std::fs::File::create(dir.join("err")).unwrap())
            .spawn()
    };
    // the first one builds
    let mut kids = Vec::new();
    for (k, groups) in (0..9).map(|k| (k, if k == 0 { 0 } else { 12 })) {
        match start(k, groups) {
            Ok(mut kid) if k == 0 => drop(kid.wait()),
            Ok(kid) => kids.push((k, kid)),
            Err(e) => errors.push(format!("cargo miri could not be started: {}", e)),
        }
    }
    for (k, mut kid) in kids {
        let status = kid.wait().unwrap();
        let text = |name: &str| std::fs::read(scratch.join(format!("miri{}/{}", k, name))).map(|b| String::from_utf8_lossy(&b).to_string()).unwrap_or_default();
        let (out, err) = (text("out"), text("err"));
        let done = out.lines().filter_map(|l| l.strip_prefix("done ")).last().and_then(|n| n.parse::<u64>().ok()).unwrap_or(0);
        *m.obs.entry("operations interpreted by Miri".into()).or_insert(0) += done;
        if let Some(at) = err.find("error: Undefined Behavior") {
            m.fails.push((u64::MAX - k, String::new(), "history.undefined".into(), clip(&err[at..], 2000), format!("monitor ops {} 12 under Miri", seed * 1000 + k)));
        } else if !status.success() {
            let tail: Vec<&str> = err.lines().rev().take(10).collect();
            errors.push(format!("Miri run {} ended with {:?}: {:?}", k, status, tail));
        }
    }
}

fn check(id: &str, root: &Path) -> i32 {
    let prop = match props::find(id) {
        Some(p) => p,
        None => {
            eprintln!("unknown property {}", id);
            return 2;
        }
    };
    let tier = tier_of(&std::env::var("VERIF_TIER").unwrap_or_default());
    let seed = env_u64("VERIF_SEED", 1);
    let cases = env_u64("MON_CASES", if tier == Tier::Quick { prop.quick } else { prop.thorough });
    let shards = env_u64("MON_SHARDS", 8).min(cases.max(1));
    let started = Instant::now();
    let scratch = std::env::temp_dir().join(format!("geom3d-monitor-{}-{}", id, std::process::id()));
    let _ = std::fs::remove_dir_all(&scratch);
    std::fs::create_dir_all(&scratch).unwrap();
    let exe = std::env::current_exe().unwrap();
    let mut kids = Vec::new();
    for s in 0..shards {
        let dir = scratch.join(format!("w{}", s));
        std::fs::create_dir_all(&dir).unwrap();
        let out = scratch.join(format!("out{}", s));
        let page = scratch.join(format!("page{}", s));
        std::fs::write(&page, vec![0u8; PAGE]).unwrap();
        let err = std::fs::File::create(scratch.join(format!("err{}", s))).unwrap();
        let kid = std::process::Command::new(&exe)
            .arg("worker")
            .args([id, tier.name()])
            .args([seed, s, cases, shards].iter().map(|v| v.to_string()))
            .arg(&out)
            .arg(&page)
            .current_dir(&dir)
            .stdin(std::process::Stdio::null())
            .stdout(std::process::Stdio::null())
            .stderr(err)
            .spawn()
            .unwrap();
        kids.push((s, kid, out, page));
    }
    let mut m = Merged::default();
    let mut errors: Vec<String> = Vec::new();
    for (s, mut kid, out, page) in kids {
        let status = kid.wait().unwrap();
        let text = std::fs::read_to_string(&out).unwrap_or_default();
        merge(&mut m, &text);
        if !m.done {
            use std::os::unix::process::ExitStatusExt;
            let pg = std::fs::read(&page).unwrap_or(vec![0; PAGE]);
            let idx = u64::from_le_bytes(pg[0..8].try_into().unwrap());
            let in_sut = pg[16] == 1;
            let op: String = pg[24..88].iter().take_while(|b| **b != 0).map(|b| *b as char).collect();
            let upto = pg[256..].iter().position(|b| *b == 0).unwrap_or(0);
            let input = String::from_utf8_lossy(&pg[256..256 + upto]).to_string();
            let err = std::fs::read(scratch.join(format!("err{}", s))).unwrap_or_default();
            let err = String::from_utf8_lossy(&err).to_string();
            let tail: String = err.lines().rev().take(40).collect::<Vec<_>>().into_iter().rev().collect::<Vec<_>>().join("\n");
            match (status.code(), status.signal()) {
                (Some(99), _) => m.fails.push((idx, String::new(), format!("hang:{}", op), format!("{} did not finish within {} CPU seconds", op, CALL_CPU_LIMIT), input)),
                // the monitor's own death: never a verdict
                (_, Some(9)) | (_, Some(15)) | (_, Some(2)) => errors.push(format!("worker {} was killed (case {}, in {})", s, idx, op)),
                (c, sig) if in_sut => m.fails.push((idx, String::new(), format!("crash:{}", op), format!("the process died inside {} (exit {:?}, signal {:?})\n{}", op, c, sig, clip(&tail, 1500)), input)),
                (c, sig) => errors.push(format!("worker {} ended with {:?}/{:?} at case {}: {}", s, c, sig, idx, tail)),
            }
            m.evals += 1;
        }
    }
    if id == "C28" && tier == Tier::Thorough && std::env::var("MON_NO_MIRI").is_err() {
        interpreted(&mut m, &mut errors, seed, &scratch);
    }
    // one replay record per failing case
    let known = known_findings(root, id);
    let mut known_hit: BTreeSet<usize> = BTreeSet::new();
    let mut violations: BTreeMap<u64, Vec<(String, String, String, String)>> = BTreeMap::new();
    for (idx, name, class, msg, input) in &m.fails {
        if let Some(k) = known.iter().position(|(c, k, _)| !name.is_empty() && c == name && k == class) {
            known_hit.insert(k);
            continue;
        }
        violations.entry(*idx).or_default().push((name.clone(), class.clone(), msg.clone(), input.clone()));
    }
    for k in &known_hit {
        println!("KNOWN-FINDING: property={} case={} class={} {}", id, known[*k].0, known[*k].1, known[*k].2);
    }
    let rdir = root.join("replays");
    let mut shown = 0;
    for (idx, v) in &violations {
        if shown >= env_u64("MON_SHOW", 3) {
            break;
        }
        shown += 1;
        std::fs::create_dir_all(&rdir).unwrap();
        let path = rdir.join(format!("{}-{}-{}-{}.json", id, tier.name(), seed, idx));
        let mut t = format!(
            "{{\n \"property\": {}, \"tier\": {}, \"seed\": {}, \"case\": {},\n \"rerun\": {},\n \"input\": {},\n \"violations\": [\n",
            json_str(id), json_str(tier.name()), seed, idx,
            json_str(&format!("/verif/check.sh replay {} {} {} {}", id, tier.name(), seed, idx)),
            json_str(&v[0].3)
        );
        for (i, (name, class, msg, _)) in v.iter().enumerate() {
            t.push_str(&format!("  {{\"case_name\": {}, \"class\": {}, \"what\": {}}}{}\n", json_str(name), json_str(class), json_str(msg), if i + 1 < v.len() { "," } else { "" }));
        }
        t.push_str(" ]\n}\n");
        std::fs::write(&path, t).unwrap();
        println!("{}: case {} {}: {}", id, idx, v[0].1, clip(&v[0].2, 600));
        println!("VIOLATION property={} replay={}", id, path.display());
    }
    // evidence
    let level = "exploration";
    let mut e = format!("{{\n \"property\": {}, \"tier\": {}, \"seed\": {}, \"level\": {},\n \"coverage\": {{\n", json_str(id), json_str(tier.name()), seed, json_str(level));
    e.push_str(&format!("  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n", m.evals, m.hashes.len(), json_str(prop.rule)));
    m.samples.sort();
    let samples: Vec<String> = m.samples.iter().take(6).map(|s| json_str(s)).collect();
    e.push_str(&format!("  \"samples\": [{}],\n", samples.join(",\n   ")));
    let list = |x: &BTreeMap<String, u64>| x.iter().map(|(k, v)| format!("{}: {}", json_str(k), v)).collect::<Vec<_>>().join(", ");
    e.push_str(&format!("  \"monitored_calls\": {{{}}},\n", list(&m.ops)));
    e.push_str(&format!("  \"observations\": {{{}}},\n", list(&m.obs)));
    e.push_str(&format!("  \"worst_error_over_allowed\": {{{}}},\n", m.margins.iter().map(|(k, v)| format!("{}: {:e}", json_str(k), v)).collect::<Vec<_>>().join(", ")));
    e.push_str(&format!("  \"stopped_by_time\": {},\n  \"known_findings_seen\": {}\n }},\n", m.cut, known_hit.len()));
    e.push_str(&format!(" \"assumptions\": [{}],\n", prop.assumptions.iter().map(|a| json_str(a)).collect::<Vec<_>>().join(", ")));
    e.push_str(&format!(" \"wall_s\": {:.2},\n \"violations\": {}\n}}\n", started.elapsed().as_secs_f64(), violations.len()));
    let evdir = root.join("evidence");
    std::fs::create_dir_all(&evdir).unwrap();
    if std::env::var("MON_NO_EVIDENCE").is_err() {
        std::fs::write(evdir.join(format!("{}.json", id)), e).unwrap();
    }
    let _ = std::fs::remove_dir_all(&scratch);
    println!("{} {} seed {}: {} cases, {} distinct non-trivial, {} monitored calls, {} violating, {:.1}s{}",
        id, tier.name(), seed, m.evals, m.hashes.len(), m.ops.values().sum::<u64>(), violations.len(), started.elapsed().as_secs_f64(), if m.cut { " (stopped by time)" } else { "" });
    if !violations.is_empty() {
        return 1;
    }
    if !errors.is_empty() {
        for e in errors {
            eprintln!("INCONCLUSIVE: {}", e);
        }
        return 3;
    }
    if m.hashes.len() < 5 || m.ops.is_empty() {
        eprintln!("INCONCLUSIVE: too little was observed");
        return 3;
    }
    0
}

fn replay(id: &str, tier: Tier, seed: u64, idx: u64) -> i32 {
    let prop = props::find(id).expect("unknown property");
    ctx::install_panic_hook();
    sys::ignore_sigxfsz();
    let scratch = std::env::temp_dir().join(format!("geom3d-replay-{}", std::process::id()));
    std::fs::create_dir_all(&scratch).unwrap();
    std::env::set_current_dir(&scratch).unwrap();
    let h = std::thread::Builder::new().stack_size(64 << 20).spawn(move || {
        let mut cx = Ctx::new(prop.id, seed, tier);
        cx.verbose = true;
        cx.begin(idx);
        let _ = (prop.run)(&mut cx);
        eprintln!("case {} {}\ninput: {}", idx, cx.name, cx.input);
        for f in &cx.fails {
            eprintln!("FAIL {}: {}", f.class, f.msg);
        }
        cx.fails.len()
    }).unwrap();
    let n = h.join();
    let _ = std::fs::remove_dir_all(&scratch);
    match n {
        Ok(0) => 0,
        Ok(_) => 1,
        Err(_) => 2,
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let root = PathBuf::from(std::env::var("MON_ROOT").unwrap_or("/verif".into()));
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("check") => check(&a[2], &root),
        Some("worker") => worker(&a[2], tier_of(&a[3]), a[4].parse().unwrap(), a[5].parse().unwrap(), a[6].parse().unwrap(), a[7].parse().unwrap(), Path::new(&a[8]), Path::new(&a[9])),
        Some("replay") => replay(&a[2], tier_of(&a[3]), a[4].parse().unwrap(), a[5].parse().unwrap()),
        Some("ops") => {
            props::history::interpret(a[2].parse().unwrap(), a[3].parse().unwrap());
            0
        }
        Some("list") => {
            for p in props::all() {
                println!("{} {}", p.id, p.quick);
            }
            0
        }
        _ => {
            eprintln!("usage: monitor check ID | replay ID TIER SEED CASE | list");
            2
        }
    };
    std::process::exit(code);
}
