//! The runner: cases, groups, evidence, verdicts, replays.
use std::cell::RefCell;
use std::collections::HashSet;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub type R = Result<(), String>;

/// SplitMix64: small, seedable, and independent of the crate under test.
#[derive(Clone)]
pub struct Rng(pub u64);

impl Rng {
    pub fn u64(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    /// Uniform in [0, n).
    pub fn below(&mut self, n: usize) -> usize {
        assert!(n > 0);
        ((self.u64() as u128 * n as u128) >> 64) as usize
    }
    /// Uniform in [lo, hi].
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    pub fn f64(&mut self) -> f64 {
        (self.u64() >> 11) as f64 / (1u64 << 53) as f64
    }
    pub fn uniform(&mut self, lo: f64, hi: f64) -> f64 {
        lo + (hi - lo) * self.f64()
    }
    pub fn bool(&mut self) -> bool {
        self.u64() >> 63 == 1
    }
    pub fn chance(&mut self, p: f64) -> bool {
        self.f64() < p
    }
    pub fn pick<T: Clone>(&mut self, xs: &[T]) -> T {
        xs[self.below(xs.len())].clone()
    }
    pub fn normal(&mut self) -> f64 {
        let u = 1.0 - self.f64();
        let v = self.f64();
        (-2.0 * u.ln()).sqrt() * (2.0 * std::f64::consts::PI * v).cos()
    }
    pub fn shuffle<T>(&mut self, xs: &mut [T]) {
        for i in (1..xs.len()).rev() {
            let j = self.below(i + 1);
            xs.swap(i, j);
        }
    }
}

pub fn hash(s: &str) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    Rng(h).u64()
}

pub struct Case {
    pub rng: Rng,
    pub idx: u64,
    /// 0 = tiny (Miri), 1 = small (sanitizers), 2 = quick, 3 = thorough
    pub scale: u8,
    pub desc: String,
    pub events: u64,
}

impl Case {
    pub fn desc(&mut self, s: impl AsRef<str>) {
        if !self.desc.is_empty() {
            self.desc.push_str("; ");
        }
        self.desc.push_str(s.as_ref());
    }
    /// Count values a monitor has compared against its oracle.
    pub fn ev(&mut self, n: usize) {
        self.events += n as u64;
    }
    /// Scale a size down for the slow builds.
    pub fn size(&self, tiny: usize, small: usize, full: usize) -> usize {
        match self.scale {
            0 => tiny,
            1 => small,
            _ => full,
        }
    }
}

pub struct Group {
    pub name: &'static str,
    pub quick: u64,
    pub thorough: u64,
    /// How many cases under a sanitizer / under Miri.
    pub small: u64,
    pub tiny: u64,
    pub f: Box<dyn Fn(&mut Case) -> R + Sync + Send>,
}

pub fn group(
    name: &'static str,
    quick: u64,
    thorough: u64,
    f: impl Fn(&mut Case) -> R + Sync + Send + 'static,
) -> Group {
    Group {
        name,
        quick,
        thorough,
        small: (quick / 40).clamp(1, 12),
        tiny: 0,
        f: Box::new(f),
    }
}

impl Group {
    pub fn tiny(mut self, n: u64) -> Self {
        self.tiny = n;
        self
    }
    pub fn small(mut self, n: u64) -> Self {
        self.small = n;
        self
    }
}

thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "(no message)".into()
        };
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{msg} at {loc}"));
    }));
}

/// Run `f`, turning a panic into its message.
pub fn catch<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| LAST_PANIC.with(|p| p.borrow().clone()))
}

pub fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub struct Opts {
    pub prop: String,
    pub seed: u64,
    pub scale: u8,
    pub budget: Duration,
    pub threads: usize,
    /// Replay a single case.
    pub only: Option<(String, u64)>,
    pub verif: String,
    /// Where evidence and replays go.
    pub out: String,
    /// Write evidence/replay files (off under sanitizers, whose driver does).
    pub files: bool,
    /// Print every stored violation.
    pub all: bool,
}

pub struct Summary {
    pub planned: u64,
    pub evaluations: u64,
    pub distinct: u64,
    pub events: u64,
    pub violations: u64,
}

struct Viol {
    group: &'static str,
    idx: u64,
    desc: String,
    msg: String,
}

fn known_findings(verif: &str, prop: &str) -> Vec<String> {
    let Ok(text) = std::fs::read_to_string(format!("{verif}/known_findings.txt")) else {
        return vec![];
    };
    let head = format!("known: property={prop} match=");
    text.lines()
        .filter_map(|l| l.strip_prefix(&head).map(|s| s.to_string()))
        .collect()
}

/// A case under way, for the watchdog.
struct Running {
    /// The worker's directory below /proc/self/task.
    task: String,
    cpu: f64,
    since: Instant,
    group: &'static str,
    idx: u64,
}

/// State and processor seconds of a thread, or of the process.
fn cpu_of(dir: &str) -> Option<(char, f64)> {
    let s = std::fs::read_to_string(format!("/proc/{dir}/stat")).ok()?;
    let f: Vec<&str> = s[s.rfind(')')? + 1..].split_whitespace().collect();
    let t: f64 = f[11].parse::<f64>().ok()? + f[12].parse::<f64>().ok()?;
    Some((f[0].chars().next()?, t / 100.0))
}

/// Reports a case that never ends: one that computes for `limit` seconds of
/// processor time (ordinary ones need a second or two), one that waits while the
/// whole process stands still, one that has taken 20 GB.
fn watch(running: &Mutex<Vec<Option<Running>>>, done: &AtomicBool, o: &Opts, limit: f64) {
    let mut still = (Instant::now(), 0.0);
    while !done.load(Ordering::Relaxed) {
        std::thread::sleep(Duration::from_millis(200));
        let total = cpu_of("self").map_or(0.0, |x| x.1);
        if total > still.1 + 0.3 {
            still = (Instant::now(), total);
        }
        let pages: f64 = std::fs::read_to_string("/proc/self/statm").ok().and_then(|s| s.split_whitespace().nth(1)?.parse().ok()).unwrap_or(0.0);
        let full = pages * 4096.0 > 20e9;
        let run = running.lock().unwrap();
        let oldest = run.iter().flatten().min_by_key(|r| r.since);
        let why = run.iter().flatten().find_map(|r| {
            let (_, cpu) = cpu_of(&r.task)?;
            if cpu - r.cpu > limit {
                Some((r, format!("the case did not end in {limit} s of processor time")))
            } else {
                None
            }
        });
        let why = why.or_else(|| match oldest {
            Some(r) if full => Some((r, "the process holds 20 GB of memory".to_string())),
            Some(r) if r.since.elapsed().as_secs() > 120 && still.0.elapsed().as_secs() > 120 && matches!(cpu_of(&r.task), Some(('S', _))) => {
                Some((r, "the case waits for something that never comes".to_string()))
            }
            _ => None,
        });
        if let Some((r, why)) = why {
            let path = format!("{}/replays/{}-{}-{}-{}.txt", o.out, o.prop, o.seed, r.group, r.idx);
            println!("  {} #{}\n    => {why}", r.group, r.idx);
            if o.files {
                let _ = std::fs::create_dir_all(format!("{}/replays", o.out));
                let _ = std::fs::write(
                    &path,
                    format!(
                        "property {}\ncase {} #{} seed {} scale {}\n=> {why}\nreplay: cd /verif && VERIF_SEED={} VERIF_TIER={} bash run.sh {} {}:{}\n",
                        o.prop, r.group, r.idx, o.seed, o.scale, o.seed,
                        if o.scale >= 3 { "thorough" } else { "quick" },
                        o.prop, r.group, r.idx
                    ),
                );
            }
            println!("VIOLATION property={} replay={path}", o.prop);
            std::process::exit(1);
        }
    }
}

pub fn run(groups: &[Group], rule: &str, o: &Opts) -> Summary {
    let start = Instant::now();
    let count = |g: &Group| match o.scale {
        0 => g.tiny,
        1 => g.small,
        2 => g.quick,
        _ => g.thorough,
    };
    let mut tasks: Vec<(f64, usize, u64)> = vec![];
    for (gi, g) in groups.iter().enumerate() {
        match &o.only {
            Some((name, idx)) => {
                if g.name == name {
                    tasks.push((0.0, gi, *idx));
                }
            }
            None => {
                let n = count(g);
                for i in 0..n {
                    tasks.push((i as f64 / n as f64, gi, i));
                }
            }
        }
    }
    tasks.sort_by(|a, b| a.0.partial_cmp(&b.0).unwrap().then(a.1.cmp(&b.1)));

    let next = AtomicUsize::new(0);
    let stop = AtomicBool::new(false);
    struct Acc {
        evaluations: u64,
        events: u64,
        fps: HashSet<u64>,
        per_group: Vec<(u64, u64, u64)>,
        samples: Vec<Option<String>>,
        viols: Vec<Viol>,
        known: std::collections::BTreeSet<usize>,
        nviol: u64,
    }
    let acc = Mutex::new(Acc {
        evaluations: 0,
        events: 0,
        fps: HashSet::new(),
        per_group: vec![(0, 0, 0); groups.len()],
        samples: vec![None; groups.len()],
        viols: vec![],
        known: Default::default(),
        nviol: 0,
    });
    let known = known_findings(&o.verif, &o.prop);
    let running: Mutex<Vec<Option<Running>>> = Mutex::new(vec![]);
    let done = AtomicBool::new(false);
    let watched = !cfg!(miri) && o.scale >= 2;
    let one = |slot: usize| -> bool {
        if stop.load(Ordering::Relaxed) || start.elapsed() > o.budget {
            return false;
        }
        let t = next.fetch_add(1, Ordering::Relaxed);
        if t >= tasks.len() {
            return false;
        }
        let (_, gi, idx) = tasks[t];
        let g = &groups[gi];
        let case_seed = hash(&format!("{}/{}/{}/{}", o.seed, o.prop, g.name, idx));
        let mut c = Case {
            rng: Rng(case_seed),
            idx,
            scale: o.scale,
            desc: String::new(),
            events: 0,
        };
        let t0 = Instant::now();
        if watched {
            let task = std::fs::read_link("/proc/thread-self").ok().and_then(|p| Some(format!("self/task/{}", p.file_name()?.to_str()?)));
            if let Some(task) = task {
                let cpu = cpu_of(&task).map_or(0.0, |x| x.1);
                running.lock().unwrap()[slot] = Some(Running { task, cpu, since: t0, group: g.name, idx });
            }
        }
        let res = match catch_unwind(AssertUnwindSafe(|| (g.f)(&mut c))) {
            Ok(r) => r,
            Err(_) => Err(format!("panic: {}", LAST_PANIC.with(|p| p.borrow().clone()))),
        };
        if watched {
            running.lock().unwrap()[slot] = None;
        }
        let ms = t0.elapsed().as_millis() as u64;
        let mut a = acc.lock().unwrap();
        a.evaluations += 1;
        a.events += c.events;
        if c.events > 0 {
            a.fps.insert(hash(&format!("{}|{}", g.name, c.desc)));
        }
        a.per_group[gi].0 += 1;
        a.per_group[gi].1 += c.events;
        a.per_group[gi].2 += ms;
        if a.samples[gi].is_none() && c.events > 0 {
            a.samples[gi] = Some(c.desc.clone());
        }
        if let Err(msg) = res {
            let sig = format!("{}: {}: {}", g.name, c.desc, msg);
            if let Some(k) = known.iter().position(|k| sig.contains(k.as_str())) {
                a.known.insert(k);
                return true;
            }
            a.nviol += 1;
            if o.all && (msg.contains("overflow") || msg.contains("out of ")) || a.viols.iter().filter(|v| v.group == g.name).count() < 3 && a.viols.len() < 40 {
                a.viols.push(Viol { group: g.name, idx, desc: c.desc.clone(), msg });
            }
            if a.nviol > 200 {
                stop.store(true, Ordering::Relaxed);
            }
        }
        true
    };
    let threads = o.threads.max(1);
    running.lock().unwrap().resize_with(threads, || None);
    let work = |slot: usize| while one(slot) {};
    let limit = if o.scale >= 3 { 900.0 } else { 90.0 };
    std::thread::scope(|s| {
        if watched {
            s.spawn(|| watch(&running, &done, o, limit));
        }
        if threads == 1 {
            work(0);
        } else {
            let hs: Vec<_> = (0..threads).map(|i| s.spawn(move || work(i))).collect();
            for h in hs {
                let _ = h.join();
            }
        }
        done.store(true, Ordering::Relaxed);
    });
    let a = acc.into_inner().unwrap();
    for &k in &a.known {
        println!("KNOWN-FINDING: property={} {}", o.prop, known[k]);
    }
    let unlisted: Vec<&Viol> = a.viols.iter().collect();
    let wall = start.elapsed().as_secs_f64();
    if o.files && o.only.is_none() {
        let mut groups_json = String::new();
        for (gi, g) in groups.iter().enumerate() {
            if gi > 0 {
                groups_json.push_str(", ");
            }
            let (n, e, ms) = a.per_group[gi];
            groups_json.push_str(&format!(
                "{}: {{\"cases\": {n}, \"planned\": {}, \"values_compared\": {e}, \"cpu_ms\": {ms}}}",
                json_str(g.name),
                count(g)
            ));
        }
        let samples: Vec<String> = groups
            .iter()
            .zip(&a.samples)
            .filter_map(|(g, s)| s.as_ref().map(|s| json_str(&format!("{}: {}", g.name, trunc(s, 300)))))
            .collect();
        let ev = format!(
            "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"exploration\",\n \"coverage\": {{\n  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n  \"values_compared\": {},\n  \"cases_planned\": {},\n  \"groups\": {{{}}},\n  \"samples\": [{}]\n }},\n \"wall_s\": {:.2},\n \"violations\": {}\n}}\n",
            json_str(&o.prop),
            json_str(if o.scale >= 3 { "thorough" } else { "quick" }),
            o.seed,
            a.evaluations,
            a.fps.len(),
            json_str(rule),
            a.events,
            tasks.len(),
            groups_json,
            samples.join(", "),
            wall,
            a.nviol
        );
        let _ = std::fs::create_dir_all(format!("{}/evidence", o.out));
        if let Err(e) = std::fs::write(format!("{}/evidence/{}.json", o.out, o.prop), ev) {
            eprintln!("cannot write evidence: {e}");
            std::process::exit(2);
        }
    }
    println!(
        "{}: {} of {} cases, {} distinct non-trivial, {} values compared, {} violations, {:.1} s",
        o.prop,
        a.evaluations,
        tasks.len(),
        a.fps.len(),
        a.events,
        a.nviol,
        wall
    );
    if !unlisted.is_empty() {
        for v in unlisted.iter().take(if o.all { 200 } else { 8 }) {
            println!("  {} #{}: {}\n    => {}", v.group, v.idx, trunc(&v.desc, 600), trunc(&v.msg, 600));
        }
        let v = unlisted[0];
        let dir = format!("{}/replays", o.out);
        let path = format!("{dir}/{}-{}-{}-{}.txt", o.prop, o.seed, v.group, v.idx);
        if o.files {
            let _ = std::fs::create_dir_all(&dir);
            let _ = std::fs::write(
                &path,
                format!(
                    "property {}\ncase {} #{} seed {} scale {}\n{}\n=> {}\nreplay: cd /verif && VERIF_SEED={} VERIF_TIER={} bash run.sh {} {}:{}\n",
                    o.prop, v.group, v.idx, o.seed, o.scale, v.desc, v.msg, o.seed,
                    if o.scale >= 3 { "thorough" } else { "quick" },
                    o.prop, v.group, v.idx
                ),
            );
        }
        println!("VIOLATION property={} replay={}", o.prop, path);
    }
    Summary {
        planned: tasks.len() as u64,
        evaluations: a.evaluations,
        distinct: a.fps.len() as u64,
        events: a.events,
        violations: unlisted.len() as u64,
    }
}

pub fn trunc(s: &str, n: usize) -> String {
    if s.len() <= n {
        s.to_string()
    } else {
        let mut k = n;
        while !s.is_char_boundary(k) {
            k -= 1;
        }
        format!("{}…", &s[..k])
    }
}
