//! Exploration engine shared by every check: case runner, counters, violation
//! reporting, evidence writer, and the finite function spaces the checks enumerate.
//!
//! Nothing here samples: every driver enumerates its space completely, in a fixed order.
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::fmt::{Debug, Write as _};
use std::hash::{Hash, Hasher};
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::sync::Mutex;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};
use std::time::Instant;

pub mod iters;
pub mod codec;
pub mod dom;
pub mod fam;
pub mod prog;
pub mod pv;

pub type Res = Result<(), String>;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

struct Found {
    group: String,
    label: String,
    what: String,
}

#[derive(Default, Clone)]
struct GroupStats {
    cases: u64,
    transitions: u64,
    first: Option<String>,
    last: Option<String>,
    note: String,
}

pub struct Ctx {
    pub id: &'static str,
    pub tier: Tier,
    start: Instant,
    found: Mutex<Vec<Found>>,
    known_hit: Mutex<BTreeMap<String, u64>>,
    known: Vec<(String, String)>,
    groups: Mutex<BTreeMap<String, GroupStats>>,
    states: Mutex<HashSet<u64>>,
    stop: AtomicBool,
    incomplete: AtomicBool,
    only: Option<String>,
    assumptions: Mutex<Vec<String>>,
    extra: Mutex<serde_json::Map<String, serde_json::Value>>,
    root: String,
}

static BEAT: AtomicU64 = AtomicU64::new(0);
static CURRENT: Mutex<Option<String>> = Mutex::new(None);
const MAX_FOUND: usize = 4;
const STATE_CAP: usize = 6_000_000;

thread_local! {
    static PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
    static CATCHING: Cell<u32> = const { Cell::new(0) };
}

/// Runs `f`, turning a panic into its message.
pub fn catch<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    CATCHING.with(|c| c.set(c.get() + 1));
    let r = catch_unwind(AssertUnwindSafe(f));
    CATCHING.with(|c| c.set(c.get() - 1));
    r.map_err(|_| {
        PANIC
            .with(|p| p.borrow_mut().take())
            .unwrap_or_else(|| "panic".into())
    })
}

/// Tells the watchdog that the exploration is making progress.
pub fn beat() {
    BEAT.fetch_add(1, Relaxed);
}

/// True if `f` panics.
pub fn panics<R>(f: impl FnOnce() -> R) -> bool {
    catch(f).is_err()
}

fn install_hook() {
    std::panic::set_hook(Box::new(|i| {
        let m = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        let loc = i
            .location()
            .map(|l| format!(" at {}:{}", l.file(), l.line()))
            .unwrap_or_default();
        if CATCHING.with(|c| c.get()) == 0 && std::thread::current().name() == Some("main") {
            eprintln!("panic outside a case: {m}{loc}");
        }
        PANIC.with(|p| *p.borrow_mut() = Some(format!("panic: {m}{loc}")));
    }));
}

/// Entry point of every check binary.
pub fn run(id: &'static str, f: impl FnOnce(&Ctx)) -> ! {
    install_hook();
    let args: Vec<String> = std::env::args().collect();
    let mut tier = match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    };
    let mut only = None;
    let mut i = 1;
    while i < args.len() {
        match args[i].as_str() {
            "quick" => tier = Tier::Quick,
            "thorough" => tier = Tier::Thorough,
            "--only" => {
                i += 1;
                only = Some(args[i].clone());
            },
            a => panic!("unknown argument {a}"),
        }
        i += 1;
    }
    let root = std::env::var("VERIF_ROOT").unwrap_or_else(|_| "/verif".into());
    let mut known = Vec::new();
    if let Ok(t) = std::fs::read_to_string(format!("{root}/known_findings.txt")) {
        for l in t.lines() {
            // finding: property=C01 key=<group>|<label> :: description
            if let Some(r) = l.strip_prefix(&format!("finding: property={id} key=")) {
                let (k, d) = r.split_once(" :: ").unwrap_or((r, ""));
                known.push((k.trim().to_string(), d.to_string()));
            }
        }
    }
    let ctx = Ctx {
        id,
        tier,
        start: Instant::now(),
        found: Mutex::new(vec![]),
        known_hit: Mutex::new(BTreeMap::new()),
        known,
        groups: Mutex::new(BTreeMap::new()),
        states: Mutex::new(HashSet::new()),
        stop: AtomicBool::new(false),
        incomplete: AtomicBool::new(false),
        only,
        assumptions: Mutex::new(vec![]),
        extra: Mutex::new(serde_json::Map::new()),
        root: root.clone(),
    };
    // Watchdog: no case finishing for HANG seconds is a non-terminating operation.
    let hang: u64 = std::env::var("VERIF_HANG").ok().and_then(|s| s.parse().ok()).unwrap_or(75);
    let (wid, wroot) = (id, root.clone());
    std::thread::spawn(move || {
        let mut last = (BEAT.load(Relaxed), Instant::now());
        loop {
            std::thread::sleep(std::time::Duration::from_millis(500));
            let b = BEAT.load(Relaxed);
            if b != last.0 {
                last = (b, Instant::now());
            } else if last.1.elapsed().as_secs() > hang {
                let g = CURRENT.lock().map(|g| g.clone()).ok().flatten().unwrap_or_default();
                let p = write_replay(&wroot, wid, 0, &g, "?", "no case finished: non-terminating operation or deadlock");
                println!("VIOLATION property={wid} replay={p}");
                std::process::exit(1);
            }
        }
    });
    if let Err(m) = catch(|| f(&ctx)) {
        ctx.report("preparation", "preparation".into(), m);
    }
    ctx.finish()
}

fn write_replay(root: &str, id: &str, n: usize, group: &str, label: &str, what: &str) -> String {
    let dir = format!("{root}/replays");
    let _ = std::fs::create_dir_all(&dir);
    let p = format!("{dir}/{id}-{n}.json");
    let j = serde_json::json!({
        "property": id, "group": group, "case": label, "what": what,
        "replay": format!("/verif/check.sh {id} quick --only '{}'", format!("{group}|{label}").replace('\'', "'\\''")),
    });
    let _ = std::fs::write(&p, serde_json::to_string_pretty(&j).unwrap());
    p
}

impl Ctx {
    pub fn thorough(&self) -> bool {
        self.tier == Tier::Thorough
    }
    /// `q` in the quick tier, `t` in the thorough one.
    pub fn pick<X>(&self, q: X, t: X) -> X {
        if self.thorough() { t } else { q }
    }
    pub fn assume(&self, s: &str) {
        self.assumptions.lock().unwrap().push(s.into());
    }
    pub fn extra(&self, k: &str, v: impl Into<serde_json::Value>) {
        self.extra.lock().unwrap().insert(k.into(), v.into());
    }
    pub fn note(&self, group: &str, s: &str) {
        self.groups.lock().unwrap().entry(group.into()).or_default().note = s.into();
    }
    pub fn stopped(&self) -> bool {
        self.stop.load(Relaxed)
    }
    /// Records that some space was not explored completely.
    pub fn incomplete(&self) {
        self.incomplete.store(true, Relaxed);
    }

    /// Runs one group of cases on the calling thread.
    pub fn seq(&self, group: &str, f: impl FnOnce(&mut W)) {
        let mut w = W::new(self, group);
        if let Err(m) = catch(|| f(&mut w)) {
            w.fail("preparation".into(), m);
        }
        w.done();
    }

    /// Runs a group of cases, the items spread over all cores.
    pub fn par<I: Sync>(&self, group: &str, items: &[I], f: impl Fn(&mut W, &I) + Sync) {
        self.par_stack(group, items, 64 << 20, f)
    }

    /// As `par`, on threads with a stack of the given size.
    pub fn par_stack<I: Sync>(&self, group: &str, items: &[I], stack: usize, f: impl Fn(&mut W, &I) + Sync) {
        let next = AtomicUsize::new(0);
        let n = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(8);
        std::thread::scope(|s| {
            for _ in 0..n.min(items.len().max(1)) {
                std::thread::Builder::new()
                    .stack_size(stack)
                    .spawn_scoped(s, || {
                        let mut w = W::new(self, group);
                        loop {
                            let i = next.fetch_add(1, Relaxed);
                            if i >= items.len() || self.stopped() {
                                break;
                            }
                            // a panic outside a case (while preparing one) still comes from the code explored
                            if let Err(m) = catch(|| f(&mut w, &items[i])) {
                                w.fail(format!("item {i}"), m);
                            }
                        }
                        w.done();
                    })
                    .unwrap();
            }
        });
    }

    fn report(&self, group: &str, label: String, what: String) {
        let key = format!("{group}|{label}");
        if let Some((k, _)) = self.known.iter().find(|(k, _)| *k == key) {
            *self.known_hit.lock().unwrap().entry(k.clone()).or_default() += 1;
            return;
        }
        let mut f = self.found.lock().unwrap();
        // one report per group is enough to act on; keep the list short
        if f.iter().filter(|x| x.group == group).count() == 0 {
            f.push(Found { group: group.into(), label, what });
        }
        if f.len() >= MAX_FOUND {
            self.stop.store(true, Relaxed);
        }
    }

    fn finish(self) -> ! {
        let wall = self.start.elapsed().as_secs_f64();
        let groups = self.groups.into_inner().unwrap();
        let states = self.states.into_inner().unwrap();
        let found = self.found.into_inner().unwrap();
        let known_hit = self.known_hit.into_inner().unwrap();
        let (mut cases, mut trans) = (0, 0);
        let mut samples = vec![];
        let mut gj = serde_json::Map::new();
        for (k, g) in &groups {
            cases += g.cases;
            trans += g.transitions;
            for s in g.first.iter().chain(g.last.iter()) {
                if samples.len() < 40 {
                    samples.push(serde_json::json!(format!("{k}|{s}")));
                }
            }
            let mut o = serde_json::json!({"cases": g.cases, "transitions": g.transitions});
            if !g.note.is_empty() {
                o["bound"] = g.note.clone().into();
            }
            gj.insert(k.clone(), o);
        }
        for (k, d) in &self.known {
            if known_hit.contains_key(k) {
                println!("KNOWN-FINDING: property={} {} :: {}", self.id, k, d);
            } else if self.only.is_none() {
                println!("note: listed finding not reproduced: {k}");
            }
        }
        let mut cov = serde_json::json!({
            "states": states.len(), "transitions": trans,
            "traces_validated_against_impl": cases, "samples": samples,
            "exhaustive": self.only.is_none() && found.is_empty() && !self.incomplete.load(Relaxed), "groups": gj,
            "explanation": "states: distinct observed results/states (hashed, deduplicated); transitions: operations of the real library executed and compared with the reference; traces: complete cases (histories, programs, schedules or input tuples) run on the real library and compared step by step with the reference model.",
        });
        for (k, v) in self.extra.into_inner().unwrap() {
            cov[k] = v;
        }
        let ev = serde_json::json!({
            "property": self.id,
            "tier": if self.tier == Tier::Quick { "quick" } else { "thorough" },
            "seed": std::env::var("VERIF_SEED").ok().and_then(|s| s.parse::<i64>().ok()).unwrap_or(1),
            "level": "model_checking", "coverage": cov,
            "assumptions": self.assumptions.into_inner().unwrap(),
            "wall_s": wall, "violations": found.len(),
        });
        if self.only.is_none() {
            let dir = format!("{}/evidence", self.root);
            let _ = std::fs::create_dir_all(&dir);
            std::fs::write(
                format!("{dir}/{}.json", self.id),
                serde_json::to_string_pretty(&ev).unwrap(),
            )
            .expect("write evidence");
        }
        println!(
            "{}: {} cases, {} transitions, {} distinct states, {:.1} s",
            self.id, cases, trans, states.len(), wall
        );
        if cases == 0 && found.is_empty() {
            eprintln!("no case ran");
            std::process::exit(2);
        }
        for (n, v) in found.iter().enumerate() {
            println!("  {} [{}]: {}", v.group, v.label, v.what);
            let p = write_replay(&self.root, self.id, n, &v.group, &v.label, &v.what);
            println!("VIOLATION property={} replay={p}", self.id);
        }
        std::process::exit(if found.is_empty() { 0 } else { 1 })
    }
}

/// Per-thread worker: counts what it runs.
pub struct W<'c> {
    pub ctx: &'c Ctx,
    group: String,
    cases: u64,
    pub transitions: u64,
    states: HashSet<u64>,
    first: Option<String>,
    last: Option<String>,
}

impl<'c> W<'c> {
    fn new(ctx: &'c Ctx, group: &str) -> Self {
        *CURRENT.lock().unwrap() = Some(group.to_string());
        W {
            ctx,
            group: group.into(),
            cases: 0,
            transitions: 0,
            states: HashSet::new(),
            first: None,
            last: None,
        }
    }
    pub fn stopped(&self) -> bool {
        self.ctx.stopped()
    }
    /// Runs one case: `label` identifies it (only built when needed), `body` explores
    /// it on the real code and compares with the reference.
    pub fn case(&mut self, label: impl Fn() -> String, body: impl FnOnce(&mut W<'c>) -> Res) -> bool {
        if self.ctx.stopped() {
            return false;
        }
        if let Some(o) = &self.ctx.only
            && format!("{}|{}", self.group, label()) != *o
        {
            return true;
        }
        self.cases += 1;
        BEAT.fetch_add(1, Relaxed);
        if self.first.is_none() {
            self.first = Some(label());
        } else if self.cases & (self.cases - 1) == 0 {
            self.last = Some(label());
        }
        let r = match catch(|| body(self)) {
            Ok(r) => r,
            Err(p) => Err(format!("unexpected {p}")),
        };
        match r {
            Ok(()) => true,
            Err(e) => {
                self.ctx.report(&self.group, label(), e);
                false
            },
        }
    }
    pub fn fail(&mut self, label: String, what: String) {
        self.ctx.report(&self.group, label, what);
    }
    /// Records a distinct observed state.
    pub fn state(&mut self, h: u64) {
        if self.states.len() < STATE_CAP {
            self.states.insert(h);
        }
    }
    pub fn op(&mut self, n: u64) {
        self.transitions += n;
    }
    /// Counts `n` complete cases run inside one `case` body.
    pub fn add_cases(&mut self, n: u64) {
        self.cases += n;
        BEAT.fetch_add(1, Relaxed);
    }
    /// Compares one result of the library with the reference.
    pub fn eq<A: Debug + PartialEq<B>, B: Debug>(&mut self, what: &str, got: &A, want: &B) -> Res {
        self.transitions += 1;
        let h = hash_debug(got);
        self.state(h);
        if got == want {
            Ok(())
        } else {
            Err(format!("{what}: got {} want {}", clip(got), clip(want)))
        }
    }
    /// As `eq`, without hashing the value (for long values).
    pub fn same<A: Debug + PartialEq<B>, B: Debug>(&mut self, what: &str, got: &A, want: &B) -> Res {
        self.transitions += 1;
        if got == want {
            Ok(())
        } else {
            Err(format!("{what}: got {} want {}", clip(got), clip(want)))
        }
    }
    pub fn ok(&mut self, what: &str, cond: bool) -> Res {
        self.transitions += 1;
        if cond { Ok(()) } else { Err(format!("{what}: does not hold")) }
    }
    fn done(self) {
        let mut g = self.ctx.groups.lock().unwrap();
        let e = g.entry(self.group).or_default();
        e.cases += self.cases;
        e.transitions += self.transitions;
        if e.first.is_none() {
            e.first = self.first;
        }
        if self.last.is_some() {
            e.last = self.last;
        }
        drop(g);
        let mut s = self.ctx.states.lock().unwrap();
        for h in self.states {
            if s.len() < STATE_CAP * 2 {
                s.insert(h);
            }
        }
    }
}

pub fn clip(x: &impl Debug) -> String {
    let mut s = format!("{x:?}");
    if s.len() > 700 {
        let mut n = 700;
        while !s.is_char_boundary(n) {
            n -= 1;
        }
        s.truncate(n);
        s.push('…');
    }
    s
}

#[derive(Default)]
struct FnvW(u64);
impl std::fmt::Write for FnvW {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        for b in s.bytes() {
            self.0 = (self.0 ^ b as u64).wrapping_mul(0x100000001b3);
        }
        Ok(())
    }
}
pub fn hash_debug(x: &impl Debug) -> u64 {
    let mut w = FnvW(0xcbf29ce484222325);
    let _ = write!(w, "{x:?}");
    w.0
}
pub fn hash_of(x: &impl Hash) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}

/// A value whose live instances are counted: every creation and clone must be matched
/// by exactly one drop, and a dropped instance must never be dropped or read again.
pub mod live {
    use std::cell::RefCell;
    use std::collections::HashMap;
    use std::sync::atomic::{AtomicU64, Ordering::*};
    static NEXT: AtomicU64 = AtomicU64::new(1);
    thread_local! { static BAD: RefCell<Option<String>> = const { RefCell::new(None) }; }
    thread_local! { static LIVE: RefCell<HashMap<u64, u32>> = RefCell::new(HashMap::new()); }
    thread_local! { static FUSE: std::cell::Cell<Option<usize>> = const { std::cell::Cell::new(None) }; }
    /// After `n` more clones and comparisons, the next one panics; `None`: never.
    pub fn arm(n: Option<usize>) {
        FUSE.with(|f| f.set(n));
    }
    /// One step towards the armed panic.
    pub fn burn() {
        FUSE.with(|f| match f.get() {
            Some(0) => {
                f.set(None);
                panic!("the element's own code failed")
            },
            Some(n) => f.set(Some(n - 1)),
            None => {},
        })
    }
    /// Steps left of the armed panic.
    pub fn left() -> Option<usize> {
        FUSE.with(|f| f.get())
    }
    /// Instances must be created and dropped on the same thread.
    pub struct Live {
        tag: u64,
        pub v: u32,
    }
    fn birth() -> u64 {
        let t = NEXT.fetch_add(1, Relaxed);
        LIVE.with(|l| l.borrow_mut().insert(t, 1));
        t
    }
    impl Live {
        pub fn new(v: u32) -> Self {
            Live { tag: birth(), v }
        }
    }
    impl Clone for Live {
        fn clone(&self) -> Self {
            if !LIVE.with(|l| l.borrow().contains_key(&self.tag)) {
                let v = self.v;
                BAD.with(|b| *b.borrow_mut() = Some(format!("clone of a dead instance (value {v})")));
            }
            burn();
            Live::new(self.v)
        }
    }
    impl Default for Live {
        fn default() -> Self {
            Live::new(0)
        }
    }
    impl Drop for Live {
        fn drop(&mut self) {
            if LIVE.with(|l| l.borrow_mut().remove(&self.tag)).is_none() {
                let v = self.v;
                BAD.with(|b| *b.borrow_mut() = Some(format!("instance dropped twice (value {v})")));
            }
        }
    }
    impl PartialEq for Live {
        fn eq(&self, o: &Self) -> bool {
            burn();
            self.v == o.v
        }
    }
    impl Eq for Live {}
    impl PartialOrd for Live {
        fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
            Some(self.cmp(o))
        }
    }
    impl Ord for Live {
        fn cmp(&self, o: &Self) -> std::cmp::Ordering {
            burn();
            self.v.cmp(&o.v)
        }
    }
    impl std::fmt::Debug for Live {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            write!(f, "{}", self.v)
        }
    }
    impl std::hash::Hash for Live {
        fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
            self.v.hash(h)
        }
    }
    /// Number of live instances created on this thread.
    pub fn count() -> usize {
        LIVE.with(|l| l.borrow().len())
    }
    pub fn take_bad() -> Option<String> {
        BAD.with(|b| b.borrow_mut().take())
    }
}
