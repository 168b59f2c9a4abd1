//! Supervisor: runs the spaces of one property in worker processes for both builds, turns crashes and hangs
//! of the code under test into violations, compares against the known findings and writes the evidence.
use crate::core::*;
use crate::props;
use std::collections::{BTreeMap, BTreeSet};
use std::fs;
use std::io::Write;
use std::process::{Child, Command, Stdio};

fn tier_of(s: &str) -> Tier {
    if s == "thorough" {
        Tier::Thorough
    } else {
        Tier::Quick
    }
}
fn map_progress(path: &str) -> *mut Progress {
    use std::os::fd::AsRawFd;
    let f = fs::OpenOptions::new().read(true).write(true).create(true).open(path).expect("progress file");
    let sz = (std::mem::size_of::<Progress>() + PAGE - 1) / PAGE * PAGE;
    f.set_len(sz as u64).unwrap();
    let p = unsafe { mmap(std::ptr::null_mut(), sz, 3, 1, f.as_raw_fd(), 0) };
    assert!(p as isize != -1);
    std::mem::forget(f);
    p as *mut Progress
}

const MAX_VIOL: usize = 12;

/// worker PROP TIER BUILD SHARD NSHARDS PROGRESS OUT
pub fn worker(a: &[String]) -> i32 {
    quiet_panics();
    unsafe {
        setrlimit(9, &[8u64 << 30, 8u64 << 30]);
        setrlimit(4, &[0, 0]);
    }
    let prop = props::all().into_iter().find(|p| p.id == a[0]).expect("property");
    let tier = tier_of(&a[1]);
    let (shard, nsh): (u64, u64) = (a[3].parse().unwrap(), a[4].parse().unwrap());
    let prog = map_progress(&a[5]);
    let mut cx = Ctx::new(tier, &a[2], prog);
    let verbose = std::env::var("MC_TIMES").is_ok();
    // no case is running while the spaces are built: a panic there is the harness's
    unsafe { std::ptr::addr_of_mut!((*prog).space).write_volatile(u64::MAX) };
    'outer: for (si, sp) in (prop.spaces)(tier).into_iter().enumerate() {
        let blk = (sp.len / (nsh * 8)).max(1);
        let nblk = (sp.len + blk - 1) / blk;
        let t0 = wall();
        let mut b = (shard + nsh - (si as u64 % nsh)) % nsh;
        let mut done = 0u64;
        cx.sample_due = true;
        while b < nblk {
            let end = ((b + 1) * blk).min(sp.len);
            for i in b * blk..end {
                unsafe {
                    std::ptr::addr_of_mut!((*prog).space).write_volatile(si as u64);
                    std::ptr::addr_of_mut!((*prog).idx).write_volatile(i);
                }
                if let Err(f) = (sp.run)(i, &mut cx) {
                    cx.viol.push(Viol { space: sp.name.clone(), idx: i, fail: f });
                    if cx.viol.len() >= MAX_VIOL {
                        break 'outer;
                    }
                }
                done += 1;
            }
            cx.beat();
            b += nsh;
        }
        if done > 0 {
            cx.count(&format!("cases:{}", sp.name), done);
        }
        if verbose && done > 0 {
            eprintln!("[{} {} shard {}] {} cases {:.2}s", prop.id, a[2], shard, sp.name.clone() + &format!(" {done}"), wall() - t0);
        }
    }
    let mut o = String::new();
    for (k, v) in [("evals", cx.evals), ("nontrivial", cx.nontrivial), ("states", cx.states), ("transitions", cx.transitions), ("traces", cx.traces)] {
        o += &format!("C\t{k}\t{v}\n");
    }
    for (k, v) in &cx.counters {
        o += &format!("N\t{}\t{v}\n", esc(k));
    }
    for s in &cx.samples {
        o += &format!("S\t{}\n", esc(s));
    }
    for v in &cx.viol {
        o += &format!("V\t{}\t{}\t{}\t{}\n", esc(&v.space), v.idx, esc(&v.fail.key), esc(&v.fail.msg));
    }
    o += "END\n";
    fs::write(&a[6], o).expect("worker output");
    0
}

/// one PROP TIER BUILD SPACE INDEX PROGRESS : runs a single case; exit 0 holds, 1 violated (message on stdout)
pub fn one(a: &[String]) -> i32 {
    quiet_panics();
    unsafe {
        setrlimit(9, &[8u64 << 30, 8u64 << 30]);
        setrlimit(4, &[0, 0]);
    }
    let prop = props::all().into_iter().find(|p| p.id == a[0]).expect("property");
    let tier = tier_of(&a[1]);
    let mut cx = Ctx::new(tier, &a[2], map_progress(&a[5]));
    cx.verbose = true;
    let idx: u64 = a[4].parse().unwrap();
    for sp in (prop.spaces)(tier) {
        if sp.name == a[3] {
            unsafe { std::ptr::addr_of_mut!((*cx.prog).idx).write_volatile(idx) };
            return match (sp.run)(idx, &mut cx) {
                Ok(()) => {
                    println!("holds");
                    0
                }
                Err(f) => {
                    println!("violated: [{}] {}", f.key, f.msg);
                    1
                }
            };
        }
    }
    eprintln!("no such space");
    2
}

struct W {
    build: String,
    bin: String,
    shard: u64,
    child: Option<Child>,
    prog: *mut Progress,
    ppath: String,
    opath: String,
    last: (u64, u64, u64),
    since: f64,
    hung: bool,
}

fn note_of(p: *mut Progress) -> String {
    unsafe {
        let n = ((*p).note_len as usize).min(8192);
        String::from_utf8_lossy(&(&(*p).note)[..n]).to_string()
    }
}

/// supervise PROP TIER CHECKED_BIN RELEASE_BIN VERIF_DIR
pub fn supervise(a: &[String]) -> i32 {
    let t0 = wall();
    let (id, tier_s, verif) = (a[0].clone(), a[1].clone(), a[4].clone());
    let tier = tier_of(&tier_s);
    let prop = props::all().into_iter().find(|p| p.id == id).expect("property");
    let spaces = (prop.spaces)(tier);
    let tmp = format!("{verif}/target/run/{id}-{}", std::process::id());
    fs::create_dir_all(&tmp).unwrap();
    let nsh: u64 = std::env::var("MC_WORKERS").ok().and_then(|s| s.parse().ok()).unwrap_or(8);
    let hang_s: f64 = std::env::var("MC_HANG").ok().and_then(|s| s.parse().ok()).unwrap_or(100.0);
    let cap_s: f64 = if tier == Tier::Quick { 780.0 } else { 6.0 * 3600.0 };
    let mut ws: Vec<W> = vec![];
    for (build, bin) in [("checked", &a[2]), ("release", &a[3])] {
        for s in 0..nsh {
            let ppath = format!("{tmp}/{build}-{s}.prog");
            let opath = format!("{tmp}/{build}-{s}.out");
            ws.push(W {
                build: build.into(),
                bin: bin.clone(),
                shard: s,
                child: None,
                prog: map_progress(&ppath),
                ppath,
                opath,
                last: (0, 0, 0),
                since: wall(),
                hung: false,
            });
        }
    }
    let spawn = |w: &W| -> Child {
        Command::new(&w.bin)
            .args(["worker", &id, &tier_s, &w.build, &w.shard.to_string(), &nsh.to_string(), &w.ppath, &w.opath])
            .stdin(Stdio::null())
            .stdout(Stdio::null())
            .spawn()
            .expect("spawn worker")
    };
    for w in ws.iter_mut() {
        w.child = Some(spawn(w));
        w.since = wall();
    }
    let mut crashed: Vec<(usize, String)> = vec![];
    let mut running = ws.len();
    while running > 0 {
        std::thread::sleep(std::time::Duration::from_millis(15));
        for (i, w) in ws.iter_mut().enumerate() {
            let Some(c) = w.child.as_mut() else { continue };
            match c.try_wait().unwrap() {
                Some(st) => {
                    w.child = None;
                    running -= 1;
                    if !st.success() {
                        crashed.push((i, if w.hung { "no progress (hang)".into() } else { format!("{st}") }));
                    }
                }
                None => {
                    let cur = unsafe {
                        (
                            std::ptr::addr_of!((*w.prog).space).read_volatile(),
                            std::ptr::addr_of!((*w.prog).idx).read_volatile(),
                            std::ptr::addr_of!((*w.prog).beat).read_volatile(),
                        )
                    };
                    if cur != w.last {
                        w.last = cur;
                        w.since = wall();
                    } else if wall() - w.since > hang_s {
                        w.hung = true;
                        let _ = c.kill();
                    }
                }
            }
        }
        if wall() - t0 > cap_s {
            for w in ws.iter_mut() {
                if let Some(c) = w.child.as_mut() {
                    let _ = c.kill();
                    let _ = c.wait();
                }
            }
            eprintln!("{id}: run exceeded its wall cap of {cap_s}s: no verdict");
            return 3;
        }
    }
    // merge
    let mut sums: BTreeMap<String, BTreeMap<String, u64>> = BTreeMap::new();
    let mut counters: BTreeMap<String, u64> = BTreeMap::new();
    let mut samples: Vec<String> = vec![];
    let mut viols: Vec<(String, String, u64, String, String)> = vec![];
    for w in &ws {
        let Ok(txt) = fs::read_to_string(&w.opath) else { continue };
        for l in txt.lines() {
            let f: Vec<&str> = l.split('\t').collect();
            match f[0] {
                "C" => *sums.entry(w.build.clone()).or_default().entry(f[1].into()).or_insert(0) += f[2].parse::<u64>().unwrap(),
                "N" => {
                    let v = f[2].parse::<u64>().unwrap();
                    let k = unesc(f[1]);
                    if k.starts_with("max:") {
                        let e = counters.entry(k).or_insert(0);
                        *e = (*e).max(v)
                    } else if w.build == "checked" || k.starts_with("release:") {
                        *counters.entry(k).or_insert(0) += v
                    }
                }
                "S" => {
                    if w.build == "checked" && samples.len() < 12 {
                        samples.push(unesc(f[1]))
                    }
                }
                "V" => viols.push((w.build.clone(), unesc(f[1]), f[2].parse().unwrap(), unesc(f[3]), unesc(f[4]))),
                _ => {}
            }
        }
    }
    // crashes: re-run the case alone, then the shard; only a repeated crash is a verdict
    let mut errors = 0;
    let mut handled: BTreeSet<(u64, u64, String)> = BTreeSet::new();
    for (i, why) in &crashed {
        let w = &ws[*i];
        let (si, idx) = unsafe { ((*w.prog).space, (*w.prog).idx) };
        if handled.len() >= 3 || !handled.insert((si, idx, w.build.clone())) {
            continue;
        }
        let Some(sp) = spaces.get(si as usize) else {
            errors += 1;
            continue;
        };
        let first_note = note_of(w.prog);
        let pp = format!("{tmp}/one-{i}.prog");
        let mut c = Command::new(&w.bin)
            .args(["one", &id, &tier_s, &w.build, &sp.name, &idx.to_string(), &pp])
            .stdin(Stdio::null())
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .spawn()
            .unwrap();
        let tstart = wall();
        let mut st = None;
        while wall() - tstart < hang_s {
            if let Some(s) = c.try_wait().unwrap() {
                st = Some(s);
                break;
            }
            std::thread::sleep(std::time::Duration::from_millis(10));
        }
        let note = note_of(map_progress(&pp));
        match st {
            None => {
                let _ = c.kill();
                let _ = c.wait();
                viols.push((w.build.clone(), sp.name.clone(), idx, "hang".into(), format!("the call does not return: {note}")));
            }
            Some(s) if s.code() == Some(1) => {
                let out = c.wait_with_output().unwrap();
                viols.push((w.build.clone(), sp.name.clone(), idx, "crash".into(), String::from_utf8_lossy(&out.stdout).trim().to_string()));
            }
            Some(s) if !s.success() => {
                viols.push((w.build.clone(), sp.name.clone(), idx, "crash".into(), format!("the process dies ({s}) executing: {note}")));
            }
            Some(_) => {
                // not reproducible alone: the whole shard again (memory corrupted by an earlier call?)
                let mut c = spawn(w);
                let tstart = wall();
                let mut st = None;
                while wall() - tstart < cap_s {
                    if let Some(s) = c.try_wait().unwrap() {
                        st = Some(s);
                        break;
                    }
                    std::thread::sleep(std::time::Duration::from_millis(10));
                }
                let (si2, idx2) = unsafe { ((*w.prog).space, (*w.prog).idx) };
                match st {
                    Some(s) if !s.success() => {
                        viols.push((w.build.clone(), sp.name.clone(), idx2, "crash".into(), format!("worker shard dies again ({s}) at case {idx2} of space {si2} (first: {why} at {idx}; {first_note})")));
                    }
                    _ => {
                        let _ = c.kill();
                        eprintln!("{id}: worker {} {} ended with {why} but neither the case nor the shard repeats it", w.build, w.shard);
                        errors += 1;
                    }
                }
            }
        }
    }
    for w in &ws {
        let ended = fs::read_to_string(&w.opath).map(|t| t.ends_with("END\n")).unwrap_or(false);
        if !ended && !crashed.iter().any(|(i, _)| std::ptr::eq(&ws[*i], w)) {
            eprintln!("{id}: worker {} {} produced no result", w.build, w.shard);
            errors += 1;
        }
    }
    // known findings
    let kf = fs::read_to_string(format!("{verif}/known_findings.txt")).unwrap_or_default();
    let mut known: BTreeMap<String, String> = BTreeMap::new();
    for l in kf.lines() {
        if let Some(r) = l.strip_prefix("known: ") {
            let f: Vec<&str> = r.splitn(3, ' ').collect();
            if f.len() == 3 && f[0] == format!("property={id}") {
                if let Some(k) = f[1].strip_prefix("key=") {
                    known.insert(k.to_string(), f[2].to_string());
                }
            }
        }
    }
    let mut seen_known: BTreeSet<String> = BTreeSet::new();
    let mut fresh: Vec<&(String, String, u64, String, String)> = vec![];
    viols.sort_by(|a, b| (a.1.clone(), a.2, a.0.clone()).cmp(&(b.1.clone(), b.2, b.0.clone())));
    for v in &viols {
        if known.contains_key(&v.3) {
            seen_known.insert(v.3.clone());
        } else {
            fresh.push(v);
        }
    }
    for k in &seen_known {
        println!("KNOWN-FINDING: property={id} {}", known[k]);
    }
    let rdir = format!("{verif}/target/replays");
    fs::create_dir_all(&rdir).unwrap();
    let mut shown = 0;
    let mut keys: BTreeSet<String> = BTreeSet::new();
    for v in &fresh {
        if !keys.insert(v.3.clone()) && shown >= 1 {
            continue;
        }
        if shown >= 6 {
            break;
        }
        let path = format!("{rdir}/{id}-{shown}.replay");
        let body = format!(
            "property={id}\ntier={tier_s}\nbuild={}\nspace={}\nindex={}\nkey={}\nmessage={}\n# re-run: ./check replay {path}\n",
            v.0, v.1, v.2, v.3, esc(&v.4)
        );
        fs::write(&path, body).unwrap();
        println!("VIOLATION property={id} replay={path}");
        println!("  [{} build, space {}, case {}] {}", v.0, v.1, v.2, v.4);
        shown += 1;
    }
    // evidence
    let wall_s = wall() - t0;
    let tot = |k: &str| -> u64 { sums.values().map(|m| m.get(k).copied().unwrap_or(0)).sum() };
    let chk = |k: &str| -> u64 { sums.get("checked").and_then(|m| m.get(k)).copied().unwrap_or(0) };
    let mut cov: Vec<(String, String)> = vec![];
    if prop.level == "model_checking" {
        cov.push(("states".into(), tot("states").to_string()));
        cov.push(("transitions".into(), tot("transitions").to_string()));
        cov.push(("traces_validated_against_impl".into(), tot("traces").to_string()));
        if tot("evals") > 0 {
            cov.push(("evaluations".into(), tot("evals").to_string()));
        }
    } else {
        cov.push(("evaluations".into(), tot("evals").to_string()));
        cov.push(("distinct_nontrivial".into(), chk("nontrivial").to_string()));
        if tot("transitions") > 0 {
            cov.push(("states".into(), tot("states").to_string()));
            cov.push(("transitions".into(), tot("transitions").to_string()));
        }
    }
    cov.push(("rule".into(), json(prop.rule)));
    cov.push((
        "samples".into(),
        format!("[{}]", samples.iter().map(|s| json(s)).collect::<Vec<_>>().join(", ")),
    ));
    cov.push(("exhaustive".into(), prop.exhaustive.to_string()));
    let m = counters.iter().map(|(k, v)| format!("{}: {}", json(k), v)).collect::<Vec<_>>().join(", ");
    cov.push(("counts_checked_build".into(), format!("{{{m}}}")));
    cov.push(("builds".into(), "[\"checked: overflow checks and debug assertions on\", \"release: both off\"]".into()));
    let assum = prop.assumptions.iter().map(|s| json(s)).collect::<Vec<_>>().join(", ");
    let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let ev = format!(
        "{{\n \"property\": \"{id}\",\n \"tier\": \"{tier_s}\",\n \"seed\": {seed},\n \"level\": \"{}\",\n \"coverage\": {{\n{}\n }},\n \"assumptions\": [{assum}],\n \"wall_s\": {wall_s:.3},\n \"violations\": {}\n}}\n",
        prop.level,
        cov.iter().map(|(k, v)| format!("  {}: {}", json(k), v)).collect::<Vec<_>>().join(",\n"),
        fresh.len()
    );
    fs::create_dir_all(format!("{verif}/evidence")).unwrap();
    fs::write(format!("{verif}/evidence/{id}.json"), ev).unwrap();
    let _ = std::io::stdout().flush();
    let _ = fs::remove_dir_all(&tmp);
    if !fresh.is_empty() {
        return 1;
    }
    if errors > 0 {
        return 3;
    }
    println!(
        "{id} {tier_s}: held on everything explored (evaluations {}, states {}, transitions {}, traces {}) in {:.1}s",
        tot("evals"), tot("states"), tot("transitions"), tot("traces"), wall_s
    );
    0
}
