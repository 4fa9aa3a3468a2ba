//! Check driver: a parent process that spawns workers, attributes crashes and hangs to the input a
//! worker was feeding to the parser, and turns what the workers observed into evidence.
use crate::util::*;
use std::collections::{BTreeMap, HashSet};
use std::fs;
use std::io::{Read, Seek, SeekFrom, Write};
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};

pub type CaseFn = fn(&mut W, u64);
pub struct Prop {
    pub id: &'static str,
    /// cases per quick run (over all workers)
    pub quick: u64,
    pub thorough: u64,
    pub case: CaseFn,
    pub rule: &'static str,
    /// features (prefixes of counters) that a run must have observed, or it is inconclusive
    pub must: &'static [&'static str],
    pub assumptions: &'static [&'static str],
}

#[derive(Clone)]
pub struct Viol {
    pub idx: u64,
    pub what: String,
    pub input: Vec<u8>,
}

/// State of one worker.
pub struct W {
    pub seed: u64,
    pub id: &'static str,
    pub thorough: bool,
    pub idx: u64,
    pub evals: u64,
    pub distinct: HashSet<u64>,
    pub feats: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    pub viol: Vec<Viol>,
    cur: Option<fs::File>,
    pub scratch: PathBuf,
}
impl W {
    pub fn new(id: &'static str, seed: u64, thorough: bool, cur: Option<fs::File>) -> W {
        W {
            seed,
            id,
            thorough,
            idx: 0,
            evals: 0,
            distinct: HashSet::new(),
            feats: BTreeMap::new(),
            samples: vec![],
            viol: vec![],
            cur,
            scratch: PathBuf::from("/nonexistent"),
        }
    }
    pub fn rng(&self, stream: &str, i: u64) -> Rng {
        Rng::new(self.seed, &format!("{}/{}", self.id, stream), i)
    }
    /// Announces the input about to be fed to the parser.
    pub fn feed(&mut self, input: &[u8]) {
        if let Some(f) = &mut self.cur {
            let mut b = Vec::with_capacity(input.len() + 16);
            b.extend_from_slice(&self.idx.to_le_bytes());
            b.extend_from_slice(&(input.len() as u64).to_le_bytes());
            b.extend_from_slice(input);
            let _ = f.seek(SeekFrom::Start(0));
            let _ = f.write_all(&b);
        }
    }
    /// Counts one judged execution; `nontrivial` by the property's rule.
    pub fn done(&mut self, input: &[u8], nontrivial: bool) {
        self.evals += 1;
        if nontrivial {
            self.distinct.insert(hash64(input));
        }
        if self.samples.len() < 3 && input.len() < 160 && nontrivial && (self.evals % 37) == 1 {
            self.samples.push(String::from_utf8_lossy(input).into_owned());
        }
    }
    pub fn note(&mut self, k: &str) {
        if let Some(x) = self.feats.get_mut(k) {
            *x += 1;
        } else {
            self.feats.insert(k.to_string(), 1);
        }
    }
    pub fn add(&mut self, k: &str, n: u64) {
        *self.feats.entry(k.to_string()).or_insert(0) += n;
    }
    pub fn fail(&mut self, what: impl Into<String>, input: &[u8]) {
        let idx = self.idx;
        self.viol.push(Viol { idx, what: what.into(), input: input.to_vec() });
    }
}

fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}
fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap_or(0)).collect()
}

/// Worker entry: `rbmon worker ID tier seed start step total seconds dir`
pub fn worker(p: &'static Prop, a: &[String]) {
    let tier = &a[0];
    let seed: u64 = a[1].parse().unwrap();
    let start: u64 = a[2].parse().unwrap();
    let step: u64 = a[3].parse().unwrap();
    let total: u64 = a[4].parse().unwrap();
    let secs: u64 = a[5].parse().unwrap();
    let dir = Path::new(&a[6]);
    let wid: u64 = a[7].parse().unwrap();
    let cur = fs::File::create(dir.join(format!("cur.{}", wid))).ok();
    let mut w = W::new(p.id, seed, tier == "thorough", cur);
    w.scratch = dir.join(format!("s{}", wid));
    let _ = fs::create_dir_all(&w.scratch);
    let t0 = Instant::now();
    let mut i = start;
    let mut complete = true;
    while i < total {
        w.idx = i;
        (p.case)(&mut w, i);
        if w.viol.len() >= 4 {
            break;
        }
        i += step;
        if t0.elapsed().as_secs() > secs {
            complete = i >= total;
            break;
        }
    }
    let mut o = String::new();
    o.push_str(&format!("evals {}\n", w.evals));
    o.push_str(&format!("complete {}\n", complete as u8));
    for (k, v) in &w.feats {
        o.push_str(&format!("feat {} {}\n", v, k));
    }
    for s in &w.samples {
        o.push_str(&format!("sample {}\n", hex(s.as_bytes())));
    }
    for v in &w.viol {
        o.push_str(&format!("viol {} {} {}\n", v.idx, hex(v.what.as_bytes()), hex(&v.input)));
    }
    let mut d: Vec<u8> = Vec::with_capacity(w.distinct.len() * 8);
    for h in &w.distinct {
        d.extend_from_slice(&h.to_le_bytes());
    }
    let _ = fs::write(dir.join(format!("dist.{}", wid)), d);
    let _ = fs::write(dir.join(format!("res.{}", wid)), o);
}

struct Run {
    child: Child,
    wid: u64,
    start: u64,
    last_idx: Vec<u8>,
    cpu_at: f64,
}

fn cpu_secs(pid: u32) -> f64 {
    let s = fs::read_to_string(format!("/proc/{}/stat", pid)).unwrap_or_default();
    let t = s.rsplit(')').next().unwrap_or("");
    let f: Vec<&str> = t.split_whitespace().collect();
    let g = |i: usize| f.get(i).and_then(|x| x.parse::<f64>().ok()).unwrap_or(0.0);
    (g(11) + g(12)) / 100.0
}
fn read_cur(dir: &Path, wid: u64) -> Option<(u64, Vec<u8>)> {
    let mut v = vec![];
    fs::File::open(dir.join(format!("cur.{}", wid))).ok()?.read_to_end(&mut v).ok()?;
    if v.len() < 16 {
        return None;
    }
    let idx = u64::from_le_bytes(v[0..8].try_into().ok()?);
    let n = u64::from_le_bytes(v[8..16].try_into().ok()?) as usize;
    Some((idx, v.get(16..16 + n)?.to_vec()))
}

/// CPU seconds after which a single parse counts as hanging.
pub const HANG_CPU: u64 = 40;

/// Re-runs one case alone, twice: Some(description) if it crashes or hangs both times.
fn confirm(dir: &Path, id: &str, tier: &str, seed: u64, idx: u64) -> Option<String> {
    let exe = std::env::current_exe().ok()?;
    let err = dir.join("confirm.err");
    for round in 0..2 {
        let st = Command::new("bash")
            .arg("-c")
            .arg(format!("e=$1; shift; ulimit -c 0; [ -n \"$RBMON_NOLIMIT\" ] || ulimit -v 6000000; ulimit -t {}; exec \"$0\" \"$@\" >/dev/null 2>\"$e\"", HANG_CPU))
            .arg(&exe)
            .arg(&err)
            .arg("replay")
            .arg(id)
            .arg(tier)
            .arg(seed.to_string())
            .arg(idx.to_string())
            .stdin(Stdio::null())
            .status()
            .ok()?;
        use std::os::unix::process::ExitStatusExt;
        match (st.code(), st.signal()) {
            (Some(0), _) => return None,
            (_, Some(s)) if round == 1 => {
                return Some(match s {
                    9 | 24 => format!("did not terminate within {} s of CPU time", HANG_CPU),
                    s => format!("killed the process with signal {}", s),
                })
            }
            (Some(c), _) if round == 1 => {
                let e = fs::read_to_string(&err).unwrap_or_default();
                return Some(format!("ended the process with status {}: {}", c, e.lines().find(|l| !l.trim().is_empty()).unwrap_or("")));
            }
            _ => {}
        }
    }
    None
}

pub fn findings(id: &str) -> Vec<(String, String)> {
    let mut v = vec![];
    let p = std::env::var("RBMON_FINDINGS").unwrap_or("/verif/known-findings.txt".into());
    for l in fs::read_to_string(p).unwrap_or_default().lines() {
        // finding: property=C01 input=<hex> <what>
        if let Some(r) = l.strip_prefix("finding: property=") {
            let mut it = r.splitn(3, ' ');
            let (p, i, t) = (it.next().unwrap_or(""), it.next().unwrap_or(""), it.next().unwrap_or(""));
            if p == id {
                v.push((i.trim_start_matches("input=").to_string(), t.to_string()));
            }
        }
    }
    v
}

pub fn parent(p: &'static Prop, tier: &str, seed: u64) -> i32 {
    let t0 = Instant::now();
    let base = PathBuf::from(std::env::var("RBMON_WORK").unwrap_or("/verif/.work".into()));
    let dir = base.join("run").join(p.id);
    let _ = fs::remove_dir_all(&dir);
    fs::create_dir_all(&dir).expect("work dir");
    let replay = base.join("replay").join(p.id);
    let _ = fs::remove_dir_all(&replay);
    fs::create_dir_all(&replay).expect("replay dir");
    let nw: u64 = std::env::var("RBMON_WORKERS").ok().and_then(|x| x.parse().ok()).unwrap_or(8);
    let total = std::env::var("RBMON_CASES").ok().and_then(|x| x.parse().ok()).unwrap_or(if tier == "thorough" { p.thorough } else { p.quick });
    let secs: u64 = std::env::var("RBMON_SECS").ok().and_then(|x| x.parse().ok()).unwrap_or(if tier == "thorough" { 3000 } else { 300 });
    let exe = std::env::current_exe().unwrap();
    let spawn = |wid: u64, start: u64| -> Child {
        Command::new("bash")
            .arg("-c")
            .arg("ulimit -c 0; [ -n \"$RBMON_NOLIMIT\" ] || ulimit -v 6000000; exec \"$0\" \"$@\"")
            .arg(&exe)
            .arg("worker")
            .arg(p.id)
            .arg(tier)
            .arg(seed.to_string())
            .arg(start.to_string())
            .arg(nw.to_string())
            .arg(total.to_string())
            .arg(secs.to_string())
            .arg(&dir)
            .arg(wid.to_string())
            .stdin(Stdio::null())
            .stdout(Stdio::null())
            .stderr(fs::File::create(dir.join(format!("err.{}", wid))).unwrap())
            .spawn()
            .expect("spawn worker")
    };
    let mut runs: Vec<Run> = vec![];
    let mut next_wid = nw;
    for i in 0..nw {
        runs.push(Run { child: spawn(i, i), wid: i, start: i, last_idx: vec![], cpu_at: 0.0 });
    }
    let mut viol: Vec<Viol> = vec![];
    let mut notes: Vec<String> = vec![];
    let mut done: Vec<u64> = vec![];
    let mut respawns = 0;
    let mut found: Option<Instant> = None;
    while !runs.is_empty() {
        std::thread::sleep(Duration::from_millis(100));
        if found.is_none() && !viol.is_empty() {
            found = Some(Instant::now());
        }
        if found.map_or(false, |f| f.elapsed().as_secs() > 15) {
            // one confirmed death decides; the others may hang for as long
            for r in runs.iter_mut() {
                let _ = r.child.kill();
                let _ = r.child.wait();
                notes.push(format!("worker {} stopped after the violation", r.wid));
            }
            break;
        }
        let mut i = 0;
        while i < runs.len() {
            let r = &mut runs[i];
            let st = r.child.try_wait().ok().flatten();
            let mut dead = None;
            match st {
                Some(s) if s.success() => {
                    done.push(r.wid);
                    runs.remove(i);
                    continue;
                }
                Some(s) => {
                    dead = Some(format!("{}", s));
                }
                None => {
                    // progress by the announced input, time by the worker's own CPU clock
                    let mut h = vec![];
                    if let Ok(mut f) = fs::File::open(dir.join(format!("cur.{}", r.wid))) {
                        let mut b = [0u8; 4096];
                        let n = f.read(&mut b).unwrap_or(0);
                        h.extend_from_slice(&b[..n]);
                    }
                    let c = cpu_secs(r.child.id());
                    if h != r.last_idx {
                        r.last_idx = h;
                        r.cpu_at = c;
                    } else if c - r.cpu_at > (HANG_CPU + 20) as f64 {
                        let _ = r.child.kill();
                        let _ = r.child.wait();
                        dead = Some("no progress".into());
                    }
                    if t0.elapsed().as_secs() > secs + 240 {
                        let _ = r.child.kill();
                        let _ = r.child.wait();
                        notes.push(format!("worker {} stopped by the watchdog", r.wid));
                        runs.remove(i);
                        continue;
                    }
                }
            }
            if let Some(why) = dead {
                let (wid, start) = (r.wid, r.start);
                runs.remove(i);
                let err = fs::read_to_string(dir.join(format!("err.{}", wid))).unwrap_or_default();
                match read_cur(&dir, wid) {
                    Some((idx, _)) if !viol.is_empty() => notes.push(format!("worker {} ended ({}) at case {}", wid, why, idx)),
                    Some((idx, input)) => {
                        match confirm(&dir, p.id, tier, seed, idx) {
                            Some(w) => viol.push(Viol { idx, what: format!("parsing {}", w), input }),
                            None => notes.push(format!("worker {} ended ({}) at case {} but the case alone is fine: {}", wid, why, idx, err.lines().last().unwrap_or(""))),
                        }
                        respawns += 1;
                        if respawns < 12 && viol.len() < 3 {
                            let s = idx + nw;
                            if s < total {
                                runs.push(Run { child: spawn(next_wid, s), wid: next_wid, start: s, last_idx: vec![], cpu_at: 0.0 });
                                next_wid += 1;
                            }
                        }
                    }
                    None => notes.push(format!("worker {} (from case {}) ended ({}): {}", wid, start, why, err.lines().last().unwrap_or(""))),
                }
                continue;
            }
            i += 1;
        }
    }
    // aggregate
    let mut evals = 0u64;
    let mut feats: BTreeMap<String, u64> = BTreeMap::new();
    let mut samples: Vec<String> = vec![];
    let mut distinct: HashSet<u64> = HashSet::new();
    let mut complete = true;
    for wid in 0..next_wid {
        let r = fs::read_to_string(dir.join(format!("res.{}", wid))).unwrap_or_default();
        for l in r.lines() {
            let mut it = l.splitn(2, ' ');
            let (k, v) = (it.next().unwrap(), it.next().unwrap_or(""));
            match k {
                "evals" => evals += v.parse::<u64>().unwrap_or(0),
                "complete" => complete &= v == "1",
                "feat" => {
                    if let Some((n, k)) = v.split_once(' ') {
                        *feats.entry(k.into()).or_insert(0) += n.parse::<u64>().unwrap_or(0);
                    }
                }
                "sample" if samples.len() < 8 => samples.push(String::from_utf8_lossy(&unhex(v)).into_owned()),
                "viol" => {
                    let f: Vec<&str> = v.split(' ').collect();
                    viol.push(Viol { idx: f[0].parse().unwrap_or(0), what: String::from_utf8_lossy(&unhex(f[1])).into_owned(), input: unhex(f.get(2).unwrap_or(&"")) });
                }
                _ => {}
            }
        }
        for c in fs::read(dir.join(format!("dist.{}", wid))).unwrap_or_default().chunks_exact(8) {
            distinct.insert(u64::from_le_bytes(c.try_into().unwrap()));
        }
    }
    let known = findings(p.id);
    for (i, w) in &known {
        let _ = i;
        println!("KNOWN-FINDING: property={} {}", p.id, w);
    }
    viol.retain(|v| !known.iter().any(|(i, _)| *i == hex(&v.input)));
    viol.sort_by_key(|v| v.input.len());
    let nviol = viol.len();
    let mut printed = 0;
    let mut seen: HashSet<String> = HashSet::new();
    for v in viol.iter() {
        let sig: String = v.what.chars().filter(|c| !c.is_ascii_digit()).take(80).collect();
        if !seen.insert(sig) || printed >= 6 {
            continue;
        }
        let f = replay.join(format!("{}.txt", printed));
        let inp = replay.join(format!("{}.input", printed));
        let _ = fs::write(&inp, &v.input);
        let _ = fs::write(
            &f,
            format!(
                "property: {}\ntier: {}\nseed: {}\ncase: {}\ninput: {}\nreplay: /verif/run.sh replay {} {} {} {}\n\n{}\n\n--- input ---\n{}\n",
                p.id,
                tier,
                seed,
                v.idx,
                inp.display(),
                p.id,
                tier,
                seed,
                v.idx,
                v.what,
                String::from_utf8_lossy(&v.input)
            ),
        );
        println!("VIOLATION property={} replay={}", p.id, f.display());
        println!("  {}", v.what.lines().next().unwrap_or(""));
        printed += 1;
    }
    for n in &notes {
        eprintln!("note: {}", n);
    }
    let mut missing: Vec<String> = vec![];
    for m in p.must {
        if !feats.iter().any(|(k, v)| k.starts_with(m) && *v > 0) {
            missing.push(m.to_string());
        }
    }
    let wall = t0.elapsed().as_secs_f64();
    let cov = J::O(vec![
        ("evaluations".into(), J::I(evals as i64)),
        ("distinct_nontrivial".into(), J::I(distinct.len() as i64)),
        ("rule".into(), J::s(p.rule)),
        ("samples".into(), J::A(samples.iter().map(|s| J::s(s.clone())).collect())),
        ("observed".into(), counts(&feats)),
        ("cases_planned".into(), J::I(total as i64)),
        ("planned_cases_all_run".into(), J::I((complete && notes.is_empty()) as i64)),
        ("workers".into(), J::I(nw as i64)),
        ("notes".into(), J::A(notes.iter().map(|s| J::s(s.clone())).collect())),
    ]);
    let ev = J::O(vec![
        ("property".into(), J::s(p.id)),
        ("tier".into(), J::s(tier)),
        ("seed".into(), J::I(seed as i64)),
        ("level".into(), J::s("exploration")),
        ("coverage".into(), cov),
        ("assumptions".into(), J::A(p.assumptions.iter().map(|s| J::s(*s)).collect())),
        ("wall_s".into(), J::F(wall)),
        ("violations".into(), J::I(nviol as i64)),
    ]);
    let evd = PathBuf::from(std::env::var("RBMON_EVIDENCE").unwrap_or("/verif/evidence".into()));
    let _ = fs::create_dir_all(&evd);
    fs::write(evd.join(format!("{}.json", p.id)), ev.to() + "\n").expect("evidence");
    let _ = fs::remove_dir_all(&dir);
    println!("{}: {} executions judged, {} distinct, {} violations, {:.1} s", p.id, evals, distinct.len(), nviol, wall);
    if nviol > 0 {
        return 1;
    }
    if evals == 0 || !missing.is_empty() {
        eprintln!("INCONCLUSIVE property={}: {} executions judged; never observed: {:?}", p.id, evals, missing);
        return 2;
    }
    0
}
