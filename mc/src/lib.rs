//! Engine of the explorers: enumerates finite spaces completely, runs the real library on every element,
//! and reports coverage, violations (with a replay file) and known findings.
use std::{
    alloc::{GlobalAlloc, Layout, System},
    cell::{Cell, RefCell},
    collections::{BTreeMap, BTreeSet, HashSet},
    fmt::Write as _,
    hash::{BuildHasherDefault, Hasher},
    panic::{catch_unwind, AssertUnwindSafe},
    path::PathBuf,
    sync::{
        atomic::{AtomicBool, AtomicU64, Ordering::SeqCst},
        Mutex,
    },
    time::{Duration, Instant},
};

pub mod exact;
pub mod step;
pub mod util;

// ---------------------------------------------------------------------------------------------------------------
// Memory guard: a case that allocates without bound is parked inside the allocator and reported by the watchdog.

pub struct Guard;
const CASE_MEMORY_LIMIT: i64 = 1 << 30;
thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static GUARDED: Cell<bool> = const { Cell::new(false) };
    static PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}
static RUNAWAY: AtomicBool = AtomicBool::new(false);

fn account(delta: i64) {
    let _ = LIVE.try_with(|l| {
        let v = l.get() + delta;
        l.set(v);
        if v > CASE_MEMORY_LIMIT && GUARDED.try_with(|g| g.get()).unwrap_or(false) {
            RUNAWAY.store(true, SeqCst);
            loop {
                std::thread::sleep(Duration::from_secs(3600));
            }
        }
    });
}

unsafe impl GlobalAlloc for Guard {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if let Some(p) = step::arena_alloc(l) {
            return p;
        }
        account(l.size() as i64);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if step::in_arenas(p as usize) {
            return;
        }
        account(-(l.size() as i64));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if step::in_arenas(p as usize) || step::arena_active() {
            let q = self.alloc(Layout::from_size_align_unchecked(n, l.align()));
            if !q.is_null() {
                std::ptr::copy_nonoverlapping(p, q, n.min(l.size()));
                self.dealloc(p, l);
            }
            return q;
        }
        account(n as i64 - l.size() as i64);
        System.realloc(p, l, n)
    }
}
#[global_allocator]
static ALLOC: Guard = Guard;

// ---------------------------------------------------------------------------------------------------------------

#[derive(Default, Clone, Copy)]
pub struct IdHasher(u64);
impl Hasher for IdHasher {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, _: &[u8]) {
        unreachable!()
    }
    fn write_u64(&mut self, v: u64) {
        self.0 = v
    }
}
pub type HashSet64 = HashSet<u64, BuildHasherDefault<IdHasher>>;

/// Order-sensitive 64-bit hash of a canonical form.
#[derive(Clone, Copy)]
pub struct H(pub u64);
impl Default for H {
    fn default() -> Self {
        H(0x9E37_79B9_7F4A_7C15)
    }
}
impl H {
    pub fn new(tag: u64) -> Self {
        H::default().u(tag)
    }
    pub fn u(self, v: u64) -> Self {
        let mut x = (self.0 ^ v).wrapping_mul(0xff51_afd7_ed55_8ccd);
        x ^= x >> 32;
        x = x.wrapping_mul(0xc4ce_b9fe_1a85_ec53);
        x ^= x >> 29;
        H(x.wrapping_add(0x9E37_79B9_7F4A_7C15))
    }
    pub fn i(self, v: i64) -> Self {
        self.u(v as u64)
    }
    pub fn f(self, v: f64) -> Self {
        self.u(if v == 0.0 { 0 } else { v.to_bits() })
    }
}

/// What one worker saw.
#[derive(Default)]
pub struct Ctx {
    pub evaluations: u64,
    pub transitions: u64,
    pub traces: u64,
    pub trivial: u64,
    states: HashSet64,
    outcomes: HashSet64,
    counters: BTreeMap<&'static str, u64>,
    pub space: u64,
}
impl Ctx {
    /// one execution of the code under test, compared with the oracle
    pub fn eval(&mut self) {
        self.evaluations += 1
    }
    pub fn evals(&mut self, n: u64) {
        self.evaluations += n
    }
    pub fn steps(&mut self, n: u64) {
        self.transitions += n
    }
    pub fn trace(&mut self) {
        self.traces += 1
    }
    /// a canonical state reached (deduplicated)
    pub fn state(&mut self, h: H) {
        self.states.insert(h.0);
    }
    /// an observed non-trivial outcome (deduplicated)
    pub fn outcome(&mut self, h: H) {
        self.outcomes.insert(h.u(self.space).0);
    }
    pub fn count(&mut self, name: &'static str, n: u64) {
        *self.counters.entry(name).or_default() += n
    }
}

pub struct Failure {
    /// identifies a known finding, empty if the failure can not be one
    pub key: String,
    pub msg: String,
}
impl From<String> for Failure {
    fn from(msg: String) -> Self {
        Failure { key: String::new(), msg }
    }
}
impl From<&str> for Failure {
    fn from(msg: &str) -> Self {
        Failure { key: String::new(), msg: msg.into() }
    }
}
pub type Res = Result<(), Failure>;

type Run = Box<dyn Fn(u64, &mut Ctx) -> Res + Sync + Send>;
type Describe = Box<dyn Fn(u64) -> String + Sync + Send>;

/// A finite space: its elements are numbered, simplest first.
pub struct Space {
    pub name: String,
    pub size: u64,
    pub describe: Describe,
    pub run: Run,
}
impl Space {
    pub fn new(
        name: impl Into<String>,
        size: u64,
        describe: impl Fn(u64) -> String + Sync + Send + 'static,
        run: impl Fn(u64, &mut Ctx) -> Res + Sync + Send + 'static,
    ) -> Self {
        Space { name: name.into(), size, describe: Box::new(describe), run: Box::new(run) }
    }
}

pub struct Plan {
    pub level: &'static str,
    pub rule: &'static str,
    pub assumptions: Vec<&'static str>,
    pub spaces: Vec<Space>,
    /// seconds of wall clock a single case may take before it counts as not terminating
    pub case_timeout: u64,
}
impl Plan {
    pub fn new(level: &'static str, rule: &'static str) -> Self {
        Plan { level, rule, assumptions: vec![], spaces: vec![], case_timeout: 60 }
    }
    pub fn assume(mut self, a: &'static str) -> Self {
        self.assumptions.push(a);
        self
    }
    pub fn add(&mut self, mut s: Space) {
        // names identify spaces in replay files
        let twins = self.spaces.iter().filter(|x| x.name == s.name || x.name.starts_with(&format!("{} #", s.name))).count();
        if twins > 0 {
            s.name = format!("{} #{}", s.name, twins + 1);
        }
        self.spaces.push(s)
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}
impl Tier {
    pub fn thorough(self) -> bool {
        self == Tier::Thorough
    }
    pub fn pick<T>(self, quick: T, thorough: T) -> T {
        if self.thorough() {
            thorough
        } else {
            quick
        }
    }
    fn name(self) -> &'static str {
        self.pick("quick", "thorough")
    }
}

pub fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn clip(s: &str) -> String {
    if s.chars().count() > 1500 {
        s.chars().take(1500).collect::<String>() + "..."
    } else {
        s.into()
    }
}

fn verif_dir() -> PathBuf {
    std::env::var("VERIF_DIR").map(PathBuf::from).unwrap_or_else(|_| PathBuf::from("/verif"))
}

/// Runs `f` and turns a panic of the code under test into a failure.
pub fn no_panic<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| format!("panicked: {}", PANIC.with(|p| p.borrow().clone())))
}

struct Found {
    space: usize,
    index: u64,
    msg: String,
}

fn known_findings(id: &str) -> BTreeMap<String, String> {
    let text = std::fs::read_to_string(verif_dir().join("KNOWN_FINDINGS.txt")).unwrap_or_default();
    let mut m = BTreeMap::new();
    for l in text.lines() {
        if let Some(rest) = l.strip_prefix(&format!("KNOWN-FINDING: property={id} key=")) {
            if let Some((key, what)) = rest.split_once(' ') {
                m.insert(key.to_string(), what.to_string());
            }
        }
    }
    m
}

fn report_violation(id: &str, tier: Tier, space: &str, index: u64, case: &str, msg: &str) -> PathBuf {
    let dir = verif_dir().join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let path = dir.join(format!("{id}-{}-{index}.json", space.replace(|c: char| !c.is_ascii_alphanumeric(), "_")));
    let _ = std::fs::write(
        &path,
        format!(
            "{{\"property\": {}, \"tier\": {}, \"space\": {}, \"index\": {index}, \"case\": {}, \"failure\": {}}}\n",
            json_str(id),
            json_str(tier.name()),
            json_str(space),
            json_str(&clip(case)),
            json_str(&clip(msg))
        ),
    );
    println!("counterexample in space '{space}' #{index}: {}", clip(case));
    println!("  {}", clip(msg));
    println!("VIOLATION property={id} replay={}", path.display());
    path
}

fn json_field(text: &str, key: &str) -> Option<String> {
    let at = text.find(&format!("\"{key}\": "))? + key.len() + 4;
    let rest = &text[at..];
    if let Some(r) = rest.strip_prefix('"') {
        let mut o = String::new();
        let mut it = r.chars();
        while let Some(c) = it.next() {
            match c {
                '"' => return Some(o),
                '\\' => o.push(it.next()?),
                c => o.push(c),
            }
        }
        None
    } else {
        Some(rest.chars().take_while(|c| c.is_ascii_digit()).collect())
    }
}

/// Entry point of every explorer binary: `<bin> <property> [--replay FILE | --space NAME --index N]`.
pub fn main(plan_of: impl Fn(&str, Tier) -> Option<Plan>) -> ! {
    std::panic::set_hook(Box::new(|info| {
        let msg = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_else(|| "?".into());
        let at = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        PANIC.with(|p| *p.borrow_mut() = format!("{msg} at {at}"));
    }));
    let args: Vec<String> = std::env::args().skip(1).collect();
    let arg = |name: &str| args.iter().position(|a| a == name).and_then(|i| args.get(i + 1)).cloned();
    let mut tier = match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    };
    let Some(mut id) = args.first().cloned() else {
        eprintln!("usage: <explorer> <property> [--replay FILE]");
        std::process::exit(2)
    };
    let (mut only_space, mut only_index) = (arg("--space"), arg("--index").and_then(|s| s.parse::<u64>().ok()));
    if let Some(f) = arg("--replay") {
        let text = std::fs::read_to_string(&f).expect("replay file");
        id = json_field(&text, "property").expect("property");
        if json_field(&text, "tier").as_deref() == Some("thorough") {
            tier = Tier::Thorough
        }
        only_space = json_field(&text, "space");
        only_index = json_field(&text, "index").and_then(|s| s.parse().ok());
    }
    let Some(mut plan) = plan_of(&id, tier) else {
        eprintln!("property {id} is not checked by this explorer");
        std::process::exit(2)
    };
    if let (Some(s), Some(i)) = (&only_space, only_index) {
        let space = plan.spaces.iter().find(|x| &x.name == s).expect("no such space");
        println!("replaying {id} space '{s}' #{i}: {}", (space.describe)(i));
        let r = catch_unwind(AssertUnwindSafe(|| (space.run)(i, &mut Ctx::default())));
        match r {
            Ok(Ok(())) => {
                println!("held");
                std::process::exit(0)
            }
            Ok(Err(f)) => println!("  {}", f.msg),
            Err(_) => println!("  panicked: {}", PANIC.with(|p| p.borrow().clone())),
        }
        println!("VIOLATION property={id} replay={}", arg("--replay").unwrap_or_default());
        std::process::exit(1)
    }
    // the runs in other configurations (C29) leave out the largest spaces
    if let Some(most) = std::env::var("MC_MAX_CASES").ok().and_then(|s| s.parse::<u64>().ok()) {
        plan.spaces.retain(|s| s.size <= most);
        // with few cases, also those whose cases are long
        if most < 10_000 {
            plan.spaces.retain(|s| !["large clouds", "long runs", "default stack", "every order of the voxels"].iter().any(|w| s.name.contains(w)));
        }
    }
    explore(&id, tier, plan, only_space)
}

fn explore(id: &str, tier: Tier, plan: Plan, only_space: Option<String>) -> ! {
    let t0 = Instant::now();
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse::<i64>().ok()).unwrap_or(1);
    let budget = std::env::var("MC_BUDGET_S").ok().and_then(|s| s.parse::<u64>().ok()).unwrap_or(tier.pick(420, 3 * 3600));
    let deadline = t0 + Duration::from_secs(budget);
    let workers = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4);
    let known = known_findings(id);
    let mut known_seen: BTreeSet<String> = BTreeSet::new();
    let mut total = Ctx::default();
    let mut spaces_json = Vec::new();
    let mut samples = Vec::new();
    let mut found: Option<Found> = None;
    let mut exhaustive = true;
    let mut total_size = 0u64;

    for (si, space) in plan.spaces.iter().enumerate() {
        if only_space.as_ref().is_some_and(|s| s != &space.name) {
            exhaustive = false;
            continue;
        }
        let ts = Instant::now();
        let next = AtomicU64::new(0);
        let first_bad = AtomicU64::new(u64::MAX);
        let done = AtomicU64::new(0);
        let bad: Mutex<BTreeMap<u64, String>> = Mutex::new(BTreeMap::new());
        let seen: Mutex<BTreeSet<String>> = Mutex::new(BTreeSet::new());
        let chunk = (space.size / (workers as u64 * 64)).clamp(1, 4096);
        let beats: Vec<(AtomicU64, AtomicU64)> = (0..workers).map(|_| (AtomicU64::new(u64::MAX), AtomicU64::new(0))).collect();
        let finished = AtomicBool::new(false);
        let merged: Mutex<Ctx> = Mutex::new(Ctx::default());
        let space_tag = space.name.bytes().fold(7u64, |a, b| a.wrapping_mul(131).wrapping_add(b as u64));
        std::thread::scope(|scope| {
            let handles: Vec<_> = (0..workers)
                .map(|w| {
                    let (next, first_bad, done, bad, seen, beats, merged, known) =
                        (&next, &first_bad, &done, &bad, &seen, &beats, &merged, &known);
                    std::thread::Builder::new()
                        .stack_size(16 << 20)
                        .spawn_scoped(scope, move || {
                            let mut ctx = Ctx { space: space_tag, ..Default::default() };
                            loop {
                                let lo = next.fetch_add(chunk, SeqCst);
                                if lo >= space.size || Instant::now() > deadline {
                                    break;
                                }
                                for i in lo..(lo + chunk).min(space.size) {
                                    if i > first_bad.load(SeqCst) {
                                        break;
                                    }
                                    beats[w].1.store(t0.elapsed().as_millis() as u64, SeqCst);
                                    beats[w].0.store(i, SeqCst);
                                    LIVE.with(|l| l.set(0));
                                    GUARDED.with(|g| g.set(true));
                                    let r = catch_unwind(AssertUnwindSafe(|| (space.run)(i, &mut ctx)));
                                    GUARDED.with(|g| g.set(false));
                                    beats[w].0.store(u64::MAX, SeqCst);
                                    let failure = match r {
                                        Ok(Ok(())) => None,
                                        Ok(Err(f)) => Some(f),
                                        Err(_) => Some(Failure::from(format!("panicked: {}", PANIC.with(|p| p.borrow().clone())))),
                                    };
                                    if let Some(f) = failure {
                                        if !f.key.is_empty() && known.contains_key(&f.key) {
                                            seen.lock().unwrap().insert(f.key);
                                        } else {
                                            first_bad.fetch_min(i, SeqCst);
                                            bad.lock().unwrap().insert(i, f.msg);
                                        }
                                    }
                                    done.fetch_add(1, SeqCst);
                                }
                            }
                            let mut m = merged.lock().unwrap();
                            m.evaluations += ctx.evaluations;
                            m.transitions += ctx.transitions;
                            m.traces += ctx.traces;
                            m.trivial += ctx.trivial;
                            m.states.extend(ctx.states);
                            m.outcomes.extend(ctx.outcomes);
                            for (k, v) in ctx.counters {
                                *m.counters.entry(k).or_default() += v;
                            }
                        })
                        .unwrap()
                })
                .collect();
            let watch = {
                let (beats, finished) = (&beats, &finished);
                scope.spawn(move || loop {
                    std::thread::sleep(Duration::from_millis(20));
                    if finished.load(SeqCst) {
                        return;
                    }
                    let runaway = RUNAWAY.load(SeqCst);
                    let now = t0.elapsed().as_millis() as u64;
                    // the slowest worker is the stuck one
                    let stuck = beats
                        .iter()
                        .map(|(i, t)| (t.load(SeqCst), i.load(SeqCst)))
                        .filter(|(t, i)| *i != u64::MAX && (runaway && now > t + 15 || now > t + plan.case_timeout * 1000))
                        .min();
                    if let Some((t, i)) = stuck {
                        if runaway && now < t + 200 {
                            continue;
                        }
                        let what = if runaway { "allocates without bound (over 1 GiB for this input)" } else { "does not terminate" };
                        report_violation(id, tier, &space.name, i, &(space.describe)(i), &format!("the call {what}"));
                        std::process::exit(1);
                    }
                })
            };
            for h in handles {
                h.join().unwrap();
            }
            finished.store(true, SeqCst);
            watch.join().unwrap();
        });
        let m = merged.into_inner().unwrap();
        let covered = done.load(SeqCst);
        let complete = covered == space.size;
        exhaustive &= complete;
        total_size += covered;
        known_seen.extend(seen.into_inner().unwrap());
        for (k, n) in [("first", 0u64), ("middle", space.size / 2), ("last", space.size.saturating_sub(1))] {
            if samples.len() < 60 && space.size > 0 {
                samples.push(format!(
                    "{{\"space\": {}, \"which\": \"{k}\", \"index\": {n}, \"case\": {}}}",
                    json_str(&space.name),
                    json_str(&clip(&(space.describe)(n)))
                ));
            }
        }
        let mut counters = String::new();
        for (k, v) in &m.counters {
            let _ = write!(counters, ", {}: {v}", json_str(k));
        }
        println!(
            "{id} {:<44} cases {covered}/{} evaluations {} states {} transitions {} outcomes {}{counters} {:.2}s",
            space.name,
            space.size,
            m.evaluations,
            m.states.len(),
            m.transitions,
            m.outcomes.len(),
            ts.elapsed().as_secs_f64()
        );
        spaces_json.push(format!(
            "{{\"space\": {}, \"size\": {}, \"covered\": {covered}, \"complete\": {complete}, \"evaluations\": {}, \"distinct_states\": {}, \"transitions\": {}, \"distinct_outcomes\": {}{counters}}}",
            json_str(&space.name), space.size, m.evaluations, m.states.len(), m.transitions, m.outcomes.len()
        ));
        total.evaluations += m.evaluations;
        total.transitions += m.transitions;
        total.traces += m.traces;
        total.trivial += m.trivial;
        total.states.extend(m.states);
        total.outcomes.extend(m.outcomes);
        let bad = bad.into_inner().unwrap();
        if let Some((i, msg)) = bad.into_iter().next() {
            found = Some(Found { space: si, index: i, msg });
            exhaustive = false;
            break;
        }
    }

    let wall = t0.elapsed().as_secs_f64();
    let mut cov = String::new();
    let _ = write!(
        cov,
        "\"evaluations\": {}, \"distinct_nontrivial\": {}, \"rule\": {}, \"cases\": {total_size}, \"exhaustive\": {exhaustive}",
        total.evaluations,
        total.outcomes.len(),
        json_str(plan.rule)
    );
    if plan.level == "model_checking" {
        let _ = write!(
            cov,
            ", \"states\": {}, \"transitions\": {}, \"traces_validated_against_impl\": {}",
            total.states.len(),
            total.transitions,
            total.traces
        );
    }
    let _ = write!(cov, ", \"samples\": [{}], \"spaces\": [{}]", samples.join(", "), spaces_json.join(", "));
    let assumptions: Vec<String> = plan.assumptions.iter().map(|a| json_str(a)).collect();
    let evidence = format!(
        "{{\"property\": {}, \"tier\": {}, \"seed\": {seed}, \"level\": {}, \"coverage\": {{{cov}}}, \"assumptions\": [{}], \"wall_s\": {wall:.3}, \"violations\": {}}}\n",
        json_str(id),
        json_str(tier.name()),
        json_str(plan.level),
        assumptions.join(", "),
        found.is_some() as u8
    );
    let dir = verif_dir().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    if let Err(e) = std::fs::write(dir.join(format!("{id}.json")), evidence) {
        eprintln!("cannot write evidence: {e}");
        std::process::exit(2);
    }
    for k in &known_seen {
        println!("KNOWN-FINDING: property={id} key={k} {}", known[k]);
    }
    if let Some(f) = found {
        let s = &plan.spaces[f.space];
        report_violation(id, tier, &s.name, f.index, &(s.describe)(f.index), &f.msg);
        std::process::exit(1);
    }
    println!(
        "{id} held: {total_size} cases, {} evaluations, exhaustive={exhaustive}, {wall:.1}s",
        total.evaluations
    );
    std::process::exit(0)
}
