//! Runs many simulated executions, each in a freshly forked process, and reports.
use crate::props;
use crate::rt::*;
use crate::sys::make_pool;
use std::collections::{BTreeMap, BTreeSet};
use std::io::Write;
use std::sync::atomic::Ordering::*;
use std::time::Instant;

const WORKERS: usize = 8;

pub struct Outcome {
    /// class and detail
    pub v: Option<(String, String)>,
    pub hash: u64,
    pub sched: u64,
    pub now: u64,
    pub events: u64,
    pub stats: Vec<(String, u64)>,
    pub notes: Vec<String>,
    pub trace: Vec<String>,
    pub harness: Option<String>,
    pub slow: bool,
}

fn new_shm() -> *mut Shm {
    map_shared(std::mem::size_of::<Shm>()) as *mut Shm
}

/// One simulated run, in a process of its own.
pub fn one(prop: &'static str, seed: u64, stream: u64, replay: Option<Vec<u64>>, shm: *mut Shm) -> Outcome {
    unsafe {
        (*shm).n_choices.store(0, SeqCst);
        (*shm).in_lib.store(0, SeqCst);
        (*shm).done.store(0, SeqCst);
        (*shm).result_len.store(0, SeqCst);
        (*shm).phase_len.store(0, SeqCst);
        let pid = libc::fork();
        if pid < 0 {
            return broken("fork failed");
        }
        if pid == 0 {
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            let cpu = libc::rlimit { rlim_cur: 40, rlim_max: 45 };
            libc::setrlimit(libc::RLIMIT_CPU, &cpu);
            let mem = libc::rlimit { rlim_cur: 6 << 30, rlim_max: 6 << 30 };
            libc::setrlimit(libc::RLIMIT_AS, &mem);
            let core = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::setrlimit(libc::RLIMIT_CORE, &core);
            libc::alarm(300);
            let null = libc::open(b"/dev/null\0".as_ptr() as *const _, libc::O_RDWR);
            libc::dup2(null, 0);
            libc::dup2(null, 1);
            if std::env::var("SIM_DEBUG").is_err() {
                libc::dup2(null, 2);
            }
            set_shm(shm);
            init_sim(seed, stream, replay);
            crate::traps::install();
            let v = props::scenario(prop);
            finish(v);
        }
        let mut st = 0;
        while libc::waitpid(pid, &mut st, 0) < 0 {}
        let s = &*shm;
        let n = s.result_len.load(SeqCst) as usize;
        let text = String::from_utf8_lossy(&s.result[..n]).into_owned();
        match s.done.load(SeqCst) {
            1 => parse(&text),
            2 => broken(text.trim()),
            _ => {
                let pl = s.phase_len.load(SeqCst) as usize;
                let phase = String::from_utf8_lossy(&s.phase[..pl]).into_owned();
                let how = if libc::WIFSIGNALED(st) {
                    format!("signal {}", libc::WTERMSIG(st))
                } else {
                    format!("exit {}", libc::WEXITSTATUS(st))
                };
                if s.in_lib.load(SeqCst) == 0 {
                    return broken(&format!("run ended with {} outside the library (last call: {})", how, phase));
                }
                let mut o = broken("");
                o.harness = None;
                o.hash = hash_bytes(hash_bytes(1, how.as_bytes()), phase.as_bytes());
                let sig = if libc::WIFSIGNALED(st) { libc::WTERMSIG(st) } else { 0 };
                o.slow = sig == libc::SIGXCPU || sig == libc::SIGALRM;
                if sig != libc::SIGALRM && props::on_death(prop, &phase) {
                    o.v = Some(("death".into(), format!("process died ({}) in {}", how, phase)));
                } else {
                    o.stats.push(("inconclusive".into(), 1));
                }
                o.trace.push(format!("process died ({}) in {}", how, phase));
                o
            }
        }
    }
}
fn broken(m: &str) -> Outcome {
    Outcome {
        v: None,
        hash: 0,
        sched: 0,
        now: 0,
        events: 0,
        stats: vec![],
        notes: vec![],
        trace: vec![],
        harness: Some(m.to_string()),
        slow: false,
    }
}
fn parse(t: &str) -> Outcome {
    let mut o = broken("no result");
    for l in t.lines() {
        let f: Vec<&str> = l.splitn(2, '\t').collect();
        if f.len() < 2 {
            continue;
        }
        match f[0] {
            "V" => {
                let mut x = f[1].splitn(2, '\t');
                o.v = Some((x.next().unwrap_or("").into(), x.next().unwrap_or("").into()));
            }
            "H" => {
                let x: Vec<&str> = f[1].split('\t').collect();
                o.hash = u64::from_str_radix(x[0], 16).unwrap_or(0);
                o.sched = u64::from_str_radix(x[1], 16).unwrap_or(0);
                o.now = x[2].parse().unwrap_or(0);
                o.events = x[3].parse().unwrap_or(0);
                o.harness = None;
            }
            "S" => {
                let x: Vec<&str> = f[1].split('\t').collect();
                o.stats.push((x[0].into(), x[1].parse().unwrap_or(0)));
            }
            "N" => o.notes.push(f[1].into()),
            "T" => o.trace.push(f[1].into()),
            _ => {}
        }
    }
    o
}
/// What the byzantine provers find out about the verifier before they start.
fn learn(prop: &'static str, shm: *mut Shm) -> Vec<String> {
    if !matches!(prop, "C02" | "C04" | "C06" | "C07" | "KF1") {
        return vec![];
    }
    let o = one("LAY", 0, 0, None, shm);
    props::sound::learned(&o.notes)
}
fn choices(shm: *mut Shm) -> Vec<u64> {
    unsafe {
        let n = (*shm).n_choices.load(SeqCst) as usize;
        (&(*shm).choices)[..n].to_vec()
    }
}

// ------------------------------------------------------------------ minimisation

fn minimise(prop: &'static str, class: &str, start: Vec<u64>, shm: *mut Shm, budget_s: f64) -> (Vec<u64>, usize) {
    let t0 = Instant::now();
    let mut tries = 0;
    let mut best = start;
    let test = |c: &Vec<u64>, tries: &mut usize| -> Option<Vec<u64>> {
        *tries += 1;
        let o = one(prop, 0, 0, Some(c.clone()), shm);
        match o.v {
            Some((k, _)) if k == class && o.harness.is_none() => {
                // what was really used of it
                let mut used = choices(shm);
                while used.last() == Some(&0) {
                    used.pop();
                }
                Some(used)
            }
            _ => None,
        }
    };
    let better = |a: &Vec<u64>, b: &Vec<u64>| {
        let k = |v: &Vec<u64>| (v.iter().filter(|x| **x != 0).count(), v.len(), v.iter().map(|x| *x as u128).sum::<u128>());
        k(a) < k(b)
    };
    let over = |tries: usize| t0.elapsed().as_secs_f64() > budget_s || tries > 1500;
    // cut the tail
    let mut cut = best.len() / 2;
    while cut > 0 && !over(tries) {
        if best.len() > cut {
            let c = best[..best.len() - cut].to_vec();
            if let Some(u) = test(&c, &mut tries) {
                if better(&u, &best) {
                    best = u;
                    continue;
                }
            }
        }
        cut /= 2;
    }
    // remove blocks, zero blocks, shrink single values
    let mut progress = true;
    while progress && !over(tries) {
        progress = false;
        let mut size = (best.len() / 4).max(1);
        loop {
            let mut i = 0;
            while i < best.len() && !over(tries) {
                let j = (i + size).min(best.len());
                let mut done = false;
                let mut c = best.clone();
                c.drain(i..j);
                if let Some(u) = test(&c, &mut tries) {
                    if better(&u, &best) {
                        best = u;
                        progress = true;
                        done = true;
                    }
                }
                if !done && i < best.len() && best[i..j.min(best.len())].iter().any(|x| *x != 0) {
                    let mut c = best.clone();
                    for x in &mut c[i..j] {
                        *x = 0;
                    }
                    if let Some(u) = test(&c, &mut tries) {
                        if better(&u, &best) {
                            best = u;
                            progress = true;
                        }
                    }
                }
                if !done {
                    i += size;
                }
            }
            if size == 1 || over(tries) {
                break;
            }
            size /= 2;
        }
        for i in 0..best.len() {
            if over(tries) {
                break;
            }
            if i >= best.len() || best[i] == 0 {
                continue;
            }
            for v in [1, best[i] / 2] {
                if i < best.len() && v < best[i] {
                    let mut c = best.clone();
                    c[i] = v;
                    if let Some(u) = test(&c, &mut tries) {
                        if better(&u, &best) {
                            best = u;
                            progress = true;
                        }
                    }
                }
            }
        }
    }
    (best, tries)
}

// ------------------------------------------------------------------ files

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 || (c as u32) == 127 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn list(v: &[String]) -> String {
    format!("[{}]", v.iter().map(|s| esc(s)).collect::<Vec<_>>().join(",\n    "))
}
fn root() -> String {
    std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into())
}
fn field<'a>(t: &'a str, k: &str) -> Option<&'a str> {
    let p = t.find(&format!("\"{}\":", k))?;
    Some(t[p + k.len() + 3..].trim_start())
}

pub fn replay_file(path: &str) -> i32 {
    let t = match std::fs::read_to_string(path) {
        Ok(t) => t,
        Err(e) => {
            println!("cannot read {}: {}", path, e);
            return 2;
        }
    };
    let get = |k: &str| -> String {
        field(&t, k).and_then(|s| s.strip_prefix('"')).and_then(|s| s.split('"').next()).unwrap_or("").to_string()
    };
    let (p, class, hash) = (get("property"), get("class"), get("hash"));
    let prop = match prop_id(&p) {
        Some(p) => p,
        None => {
            println!("unknown property {}", p);
            return 2;
        }
    };
    let c: Vec<u64> = field(&t, "choices")
        .and_then(|s| s.strip_prefix('['))
        .and_then(|s| s.split(']').next())
        .map(|s| s.split(',').filter_map(|x| x.trim().parse().ok()).collect())
        .unwrap_or_default();
    let shm = new_shm();
    learn(prop, shm);
    let o = one(prop, 0, 0, Some(c), shm);
    for l in &o.trace {
        println!("{}", l);
    }
    if let Some(h) = &o.harness {
        println!("error of the machinery: {}", h);
        return 2;
    }
    match &o.v {
        Some((k, d)) => {
            println!("{}: {}", k, d);
            println!("same class: {}; same execution: {} ({:016x})", *k == class, format!("{:016x}", o.hash) == hash, o.hash);
            println!("VIOLATION property={} replay={}", p, path);
            1
        }
        None => {
            println!("no violation");
            0
        }
    }
}
fn prop_id(p: &str) -> Option<&'static str> {
    props::IDS.iter().chain(["KF1", "LAY"].iter()).find(|x| **x == p).copied()
}

// ------------------------------------------------------------------ a batch

struct Batch {
    runs: u64,
    inconclusive: u64,
    now: u128,
    events: u64,
    stats: BTreeMap<String, u64>,
    runs_with: BTreeMap<String, u64>,
    hashes: BTreeSet<u64>,
    scheds: BTreeSet<u64>,
    nontrivial: BTreeSet<u64>,
    notes: BTreeMap<String, u64>,
    harness: Vec<String>,
    fails: Vec<(u64, String, String)>,
    repeats: u64,
    mismatches: Vec<u64>,
}
fn empty() -> Batch {
    Batch {
        runs: 0,
        inconclusive: 0,
        now: 0,
        events: 0,
        stats: BTreeMap::new(),
        runs_with: BTreeMap::new(),
        hashes: BTreeSet::new(),
        scheds: BTreeSet::new(),
        nontrivial: BTreeSet::new(),
        notes: BTreeMap::new(),
        harness: vec![],
        fails: vec![],
        repeats: 0,
        mismatches: vec![],
    }
}
/// Counters that make a run count as non-trivial: something was really decided by the library.
fn nontrivial(o: &Outcome) -> bool {
    o.stats.iter().any(|(k, v)| *v > 0 && (k.starts_with("lib.") || k.starts_with("judged.")))
        && !o.stats.iter().any(|(k, _)| k == "inconclusive")
}

fn batch(prop: &'static str, seed: u64, n: u64, cap_s: f64, workers: usize) -> Batch {
    let t0 = Instant::now();
    let stop = map_shared(4096) as *const std::sync::atomic::AtomicU64;
    let stop = unsafe { &*stop };
    stop.store(u64::MAX, SeqCst);
    let mut kids = vec![];
    for wk in 0..workers {
        unsafe {
            let fd = libc::memfd_create(b"sim\0".as_ptr() as *const _, 0);
            let pid = libc::fork();
            if pid == 0 {
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                let shm = new_shm();
                let mut out = String::new();
                let mut i = wk as u64;
                while i < n && i < stop.load(SeqCst) && t0.elapsed().as_secs_f64() < cap_s {
                    let o = one(prop, seed, i, None, shm);
                    out.push_str(&format!(
                        "R\t{}\t{:x}\t{:x}\t{}\t{}\t{}\n",
                        i, o.hash, o.sched, o.now, o.events, nontrivial(&o) as u8
                    ));
                    for (k, v) in &o.stats {
                        out.push_str(&format!("S\t{}\t{}\n", k, v));
                    }
                    for k in &o.notes {
                        out.push_str(&format!("N\t{}\n", k));
                    }
                    if let Some(h) = &o.harness {
                        out.push_str(&format!("E\trun {}: {}\n", i, h));
                    }
                    if let Some((c, d)) = &o.v {
                        out.push_str(&format!("V\t{}\t{}\t{}\n", i, c, d));
                        stop.fetch_min(i, SeqCst);
                    } else if i % 61 == 7 && o.harness.is_none() && !o.slow {
                        // the same run again has to be the same run, step for step
                        let o2 = one(prop, seed, i, None, shm);
                        out.push_str(&format!("D\t{}\t{}\n", i, (o2.hash == o.hash && o2.sched == o.sched) as u8));
                    }
                    i += workers as u64;
                }
                let mut f: std::fs::File = std::os::fd::FromRawFd::from_raw_fd(fd);
                let _ = f.write_all(out.as_bytes());
                exit_now(0);
            }
            kids.push((pid, fd));
        }
    }
    let mut b = empty();
    for (pid, fd) in kids {
        unsafe {
            let mut st = 0;
            while libc::waitpid(pid, &mut st, 0) < 0 {}
            if st != 0 {
                b.harness.push(format!("a worker ended with status {}", st));
            }
            let mut f: std::fs::File = std::os::fd::FromRawFd::from_raw_fd(fd);
            use std::io::{Read, Seek};
            let _ = f.rewind();
            let mut s = String::new();
            let _ = f.read_to_string(&mut s);
            for l in s.lines() {
                let x: Vec<&str> = l.split('\t').collect();
                match x[0] {
                    "R" => {
                        b.runs += 1;
                        let h = u64::from_str_radix(x[2], 16).unwrap_or(0);
                        b.hashes.insert(h);
                        b.scheds.insert(u64::from_str_radix(x[3], 16).unwrap_or(0));
                        b.now += x[4].parse::<u128>().unwrap_or(0);
                        b.events += x[5].parse::<u64>().unwrap_or(0);
                        if x[6] == "1" {
                            b.nontrivial.insert(h);
                        }
                    }
                    "S" => {
                        if x[1] == "inconclusive" {
                            b.inconclusive += 1;
                        }
                        *b.stats.entry(x[1].into()).or_insert(0) += x[2].parse::<u64>().unwrap_or(0);
                        *b.runs_with.entry(x[1].into()).or_insert(0) += 1;
                    }
                    "N" => *b.notes.entry(x[1].into()).or_insert(0) += 1,
                    "E" => b.harness.push(x[1..].join(" ")),
                    "V" => b.fails.push((x[1].parse().unwrap_or(0), x[2].into(), x[3..].join(" "))),
                    "D" => {
                        b.repeats += 1;
                        if x[2] != "1" {
                            b.mismatches.push(x[1].parse().unwrap_or(0));
                        }
                    }
                    _ => {}
                }
            }
        }
    }
    b.fails.sort();
    b
}

/// Runs per tier. Chosen so that a quick check takes well below a minute on eight cores.
fn plan(prop: &str) -> u64 {
    match prop {
        "C01" => 6000,
        "C02" => 6000,
        "C03" => 3600,
        "C04" => 5000,
        "C05" => 6000,
        "C06" => 8000,
        "C07" => 8000,
        "C08" => 6000,
        "C09" => 3600,
        "C10" => 6000,
        "C11" => 10000,
        "C12" => 12000,
        "C13" => 5000,
        "C14" => 6000,
        "C15" => 10000,
        "C16" => 5000,
        _ => 100,
    }
}

fn known(prop: &str) -> Vec<(String, String)> {
    let t = std::fs::read_to_string(format!("{}/known_findings.txt", root())).unwrap_or_default();
    let mut v = vec![];
    for l in t.lines() {
        if let Some(r) = l.strip_prefix("finding: ") {
            let mut it = r.splitn(3, ' ');
            let p = it.next().unwrap_or("").strip_prefix("property=").unwrap_or("");
            let id = it.next().unwrap_or("").strip_prefix("id=").unwrap_or("");
            if p == prop {
                v.push((id.to_string(), it.next().unwrap_or("").to_string()));
            }
        }
    }
    v
}

fn write_replay(prop: &str, name: &str, seed: u64, idx: u64, orig: usize, tries: usize, class: &str, det: &str, c: &[u64], o: &Outcome) -> String {
    let dir = format!("{}/replays", root());
    let _ = std::fs::create_dir_all(&dir);
    let path = format!("{}/{}.json", dir, name);
    let s = format!(
        "{{\n  \"property\": \"{}\",\n  \"class\": {},\n  \"detail\": {},\n  \"seed\": {},\n  \"run\": {},\n  \"hash\": \"{:016x}\",\n  \"minimised\": {{\"choices_before\": {}, \"choices_after\": {}, \"nonzero_after\": {}, \"runs\": {}}},\n  \"choices\": [{}],\n  \"how\": \"replay with: ./check replay {}\",\n  \"trace\": {}\n}}\n",
        prop,
        esc(class),
        esc(det),
        seed,
        idx,
        o.hash,
        orig,
        c.len(),
        c.iter().filter(|x| **x != 0).count(),
        tries,
        c.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","),
        path,
        list(&o.trace)
    );
    if std::fs::write(&path, s).is_err() {
        println!("cannot write {}", path);
    }
    path
}

pub fn check(prop: &'static str) -> i32 {
    let t0 = Instant::now();
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let tier = if std::env::var("VERIF_TIER").ok().as_deref() == Some("thorough") { "thorough" } else { "quick" };
    let mut n = plan(prop);
    let mut cap = 240.0;
    if tier == "thorough" {
        n *= 60;
        cap = 760.0;
    }
    if let Ok(s) = std::env::var("SIM_RUNS") {
        n = s.parse().unwrap_or(n);
    }
    println!("{}: seed {}, {} tier, up to {} runs", prop, seed, tier, n);
    let shm = new_shm();
    let odd = learn(prop, shm);
    for l in &odd {
        println!("note: {}", l);
    }
    let b = batch(prop, seed, n, cap, WORKERS);
    let mut violations = vec![];
    let mut unrepeatable = vec![];
    // the lowest failing run first
    for (i, class, det) in b.fails.iter() {
        if !violations.is_empty() {
            break;
        }
        let first = one(prop, seed, *i, None, shm);
        let full = choices(shm);
        let again = one(prop, 0, 0, Some(full.clone()), shm);
        let same = |o: &Outcome| o.harness.is_none() && o.v.as_ref().map(|x| x.0 == *class).unwrap_or(false);
        if !same(&first) || !same(&again) {
            unrepeatable.push(format!("run {}: {} {}", i, class, det));
            continue;
        }
        let (c, tries) = if first.slow { (full.clone(), 0) } else { minimise(prop, class, full.clone(), shm, 40.0) };
        let o = one(prop, 0, 0, Some(c.clone()), shm);
        let (c, o) = if same(&o) { (c, o) } else { (full.clone(), again) };
        let d = o.v.as_ref().map(|x| x.1.clone()).unwrap_or_default();
        let path = write_replay(prop, &format!("{}-seed{}-run{}", prop, seed, i), seed, *i, full.len(), tries, class, &d, &c, &o);
        println!("run {}: {}: {}", i, class, d);
        println!("minimised from {} to {} choices in {} runs", full.len(), c.len(), tries);
        println!("VIOLATION property={} replay={}", prop, path);
        violations.push(path);
    }
    // findings recorded for this property
    let mut found = vec![];
    if prop == "C04" {
        let o = one("KF1", seed, 0, None, shm);
        let c = choices(shm);
        if let Some(h) = &o.harness {
            println!("known finding KF1: error of the machinery: {}", h);
            return 2;
        }
        if let Some((class, d)) = &o.v {
            match known(prop).iter().find(|x| x.0 == "KF1") {
                Some((id, what)) => {
                    println!("KNOWN-FINDING: property={} {} {}", prop, id, what);
                    found.push(format!("{} {}", id, what));
                }
                None => {
                    let path = write_replay("KF1", "KF1", seed, 0, c.len(), 0, class, d, &c, &o);
                    println!("{}: {}", class, d);
                    println!("VIOLATION property={} replay={}", prop, path);
                    violations.push(path);
                }
            }
        }
    }
    let wall = t0.elapsed().as_secs_f64();
    // three runs written out
    let mut samples = vec![];
    for i in [0u64, 1, 2] {
        if i < b.runs {
            let o = one(prop, seed, i, None, shm);
            let c = choices(shm);
            let t: Vec<String> = o.trace.iter().take(25).cloned().collect();
            samples.push(format!(
                "{{\"run\": {}, \"hash\": \"{:016x}\", \"simulated_ms\": {}, \"choices\": {}, \"trace\": {}}}",
                i,
                o.hash,
                o.now / 1_000_000,
                c.len(),
                list(&t)
            ));
        }
    }
    let obj = |m: &BTreeMap<String, u64>, pre: &str| -> String {
        format!(
            "{{{}}}",
            m.iter()
                .filter(|(k, _)| k.starts_with(pre))
                .map(|(k, v)| format!("{}: {}", esc(&k[pre.len()..]), v))
                .collect::<Vec<_>>()
                .join(", ")
        )
    };
    let text = props::text(prop);
    let bw = wall.max(0.001);
    let s = format!(
        "{{\n  \"property\": \"{}\",\n  \"tier\": \"{}\",\n  \"seed\": {},\n  \"level\": \"exploration\",\n  \"coverage\": {{\n    \"evaluations\": {},\n    \"distinct_nontrivial\": {},\n    \"rule\": {},\n    \"samples\": [{}],\n    \"runs_per_hour\": {:.0},\n    \"seeds\": \"one seed per run: ({}, run index), run indices 0..{}\",\n    \"simulated_seconds\": {:.1},\n    \"scheduler_events\": {},\n    \"distinct_executions\": {},\n    \"distinct_interleavings\": {},\n    \"interleaving_measure\": \"hash of the sequence (node, reason, simulated time) of all context switches\",\n    \"inconclusive_runs\": {},\n    \"determinism\": {{\"runs_repeated\": {}, \"different\": {}}},\n    \"faults_injected\": {},\n    \"runs_with_fault\": {},\n    \"scheduling\": {},\n    \"network\": {},\n    \"library\": {},\n    \"application\": {},\n    \"judged\": {},\n    \"strategies\": {},\n    \"real_code\": {},\n    \"stubs\": {}\n  }},\n  \"assumptions\": {},\n  \"known_findings\": {},\n  \"wall_s\": {:.1},\n  \"violations\": {}\n}}\n",
        prop,
        tier,
        seed,
        b.runs,
        b.nontrivial.len(),
        esc(&text),
        samples.join(",\n      "),
        b.runs as f64 * 3600.0 / bw,
        seed,
        n,
        b.now as f64 / 1e9,
        b.events,
        b.hashes.len(),
        b.scheds.len(),
        b.inconclusive,
        b.repeats,
        b.mismatches.len(),
        obj(&b.stats, "fault."),
        obj(&b.runs_with, "fault."),
        obj(&b.stats, "sched."),
        obj(&b.stats, "net."),
        obj(&b.stats, "lib."),
        obj(&b.stats, "app."),
        obj(&b.stats, "judged."),
        obj(&b.runs_with, "strategy."),
        list(&["all of /repo/src (built with --cfg qesa_sim from the working tree)".into(), "curve25519-dalek, sha3, keccak, byteorder, rand_core".into(), "merlin's STROBE transcript".into(), "OS threads, parked and released one at a time".into()]),
        list(&["entropy source (rand::thread_rng, getrandom): seeded stream per call with faults".into(), "merlin: real code, with a hook that can observe messages and override challenges".into(), "network, clocks, application around the library, wire encoding: simulator".into(), "system calls made inside library calls: recorded, not executed".into()]),
        list(&["seeded exploration: a clean batch is evidence, not proof".into(), "discrete logarithms between the generators of the statement are unknown to the prover, and Keccak behaves as a random oracle".into()]),
        list(&found),
        wall,
        violations.len()
    );
    let dir = format!("{}/evidence", root());
    let _ = std::fs::create_dir_all(&dir);
    if std::fs::write(format!("{}/{}.json", dir, prop), s).is_err() {
        println!("cannot write the evidence file");
        return 2;
    }
    println!(
        "{} runs, {} distinct non-trivial, {} distinct interleavings, {:.0} simulated s, {:.1} s, {} inconclusive, {} of {} repeats differ",
        b.runs,
        b.nontrivial.len(),
        b.scheds.len(),
        b.now as f64 / 1e9,
        wall,
        b.inconclusive,
        b.mismatches.len(),
        b.repeats
    );
    if std::env::var("SIM_STATS").is_ok() {
        for (k, v) in &b.stats {
            println!("  {:<50} {:>8} in {} runs", k, v, b.runs_with[k]);
        }
    }
    for (k, v) in &b.notes {
        println!("note ({} runs): {}", v, k);
    }
    if !violations.is_empty() {
        return 1;
    }
    if !b.harness.is_empty() {
        println!("error of the machinery in {} runs, first: {}", b.harness.len(), b.harness[0]);
        return 2;
    }
    if !unrepeatable.is_empty() {
        println!("not repeatable: {}", unrepeatable.join("; "));
        return 2;
    }
    if b.runs == 0 || b.nontrivial.is_empty() {
        println!("nothing was decided");
        return 2;
    }
    0
}

/// Same seed, different worker counts and processes: same executions.
fn selftest(n: u64) -> i32 {
    let mut bad = 0;
    for p in props::IDS {
        learn(p, new_shm());
        let a = batch(p, 5, n, 600.0, 8);
        let b = batch(p, 5, n, 600.0, 3);
        let c = batch(p, 5, n, 600.0, 1);
        let ok = a.hashes == b.hashes && a.hashes == c.hashes && a.scheds == b.scheds && a.scheds == c.scheds && a.stats == b.stats && a.stats == c.stats;
        println!("{}: {} runs at 8, 3 and 1 workers: {}", p, a.runs, if ok { "identical" } else { "DIFFERENT" });
        for e in a.harness.iter().chain(&b.harness).take(3) {
            println!("  {}", e);
        }
        if !ok {
            bad += 1;
        }
    }
    (bad > 0) as i32
}

pub fn main() {
    // so that its buffer exists before the first run, whatever was printed until then
    let _ = std::io::stdout().flush();
    make_pool();
    install();
    let a: Vec<String> = std::env::args().collect();
    let arg = |i: usize| a.get(i).map(|s| s.as_str()).unwrap_or("");
    let code = match arg(1) {
        "check" => match prop_id(arg(2)) {
            Some(p) => check(p),
            None => 2,
        },
        "replay" => replay_file(arg(2)),
        "one" => {
            let p = prop_id(arg(2)).unwrap_or("C01");
            let shm = new_shm();
            learn(p, shm);
            let o = one(p, arg(3).parse().unwrap_or(1), arg(4).parse().unwrap_or(0), None, shm);
            for t in &o.trace {
                println!("{}", t);
            }
            for (k, v) in &o.stats {
                println!("  {} {}", k, v);
            }
            for k in &o.notes {
                println!("  note: {}", k);
            }
            println!("hash {:016x} {:?} {:?}", o.hash, o.v, o.harness);
            0
        }
        "selftest" => selftest(arg(2).parse().unwrap_or(200)),
        _ => {
            println!("usage: qesa-sim check <property> | replay <file> | one <property> <seed> <run> | selftest <runs>");
            2
        }
    };
    let _ = std::io::stdout().flush();
    exit_now(code)
}
