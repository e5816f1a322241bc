//! Check framework: sub-checks (generator + oracle), sharding over worker processes, shrinking, replay files,
//! detection of crashes, deadlocks and endless loops, evidence.

use proptest::strategy::{BoxedStrategy, Strategy};
#[cfg(feature = "guided")]
use proptest::strategy::ValueTree;
use proptest::test_runner::{Config, RngAlgorithm, TestCaseError, TestError, TestRng, TestRunner};
use serde::de::DeserializeOwned;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::io::{Read, Write};
use std::os::unix::process::ExitStatusExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::PathBuf;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub const SHARDS: u32 = 8;

/// Byte string that serialises as a (latin-1) string, to keep replay files readable.
#[derive(Clone, PartialEq, Eq, Hash, Default, PartialOrd, Ord)]
pub struct B(pub Vec<u8>);
impl Debug for B {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "b\"{}\"", self.0.escape_ascii())
    }
}
impl Serialize for B {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        let t: String = self.0.iter().map(|&b| b as char).collect();
        s.serialize_str(&t)
    }
}
impl<'de> Deserialize<'de> for B {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<B, D::Error> {
        let t = String::deserialize(d)?;
        t.chars()
            .map(|c| u8::try_from(c as u32).map_err(|_| serde::de::Error::custom("char > U+00FF")))
            .collect::<Result<Vec<u8>, _>>()
            .map(B)
    }
}
impl std::ops::Deref for B {
    type Target = [u8];
    fn deref(&self) -> &[u8] {
        &self.0
    }
}

pub type Res = Result<(), String>;

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($t:tt)*) => { if !($c) { return Err(format!($($t)*)); } };
}
#[macro_export]
macro_rules! ensure_eq {
    ($a:expr, $b:expr, $($t:tt)*) => {{
        match (&$a, &$b) {
            (a, b) => if *a != *b { return Err(format!("{}: got {:?}, expected {:?}", format!($($t)*), a, b)); }
        }
    }};
}

/// What a case turned out to exercise.
#[derive(Default)]
pub struct Obs {
    pub nontrivial: bool,
    pub classes: Vec<&'static str>,
}
impl Obs {
    pub fn class(&mut self, c: &'static str) {
        if !self.classes.contains(&c) {
            self.classes.push(c);
        }
    }
    pub fn class_if(&mut self, cond: bool, c: &'static str) {
        if cond {
            self.class(c)
        }
    }
    pub fn nontrivial_if(&mut self, cond: bool) {
        self.nontrivial |= cond;
    }
}

#[derive(Serialize, Deserialize, Default, Clone)]
pub struct SubStats {
    pub name: String,
    pub rule: String,
    pub evaluations: u64,
    pub nontrivial: u64,
    pub classes: BTreeMap<String, u64>,
    pub samples: Vec<String>,
}

#[derive(Serialize, Deserialize, Clone)]
pub struct Failure {
    pub sub: String,
    pub case: Value,
    pub message: String,
}

#[derive(Serialize, Deserialize, Default)]
struct ShardResult {
    subs: Vec<SubStats>,
    failure: Option<Failure>,
    error: Option<String>,
    hashes: Vec<u64>,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

enum Mode {
    Run,
    /// only this sub-check, with cases made from inputs that evolve towards more coverage of the code under test
    #[cfg_attr(not(feature = "guided"), allow(dead_code))]
    Guided { sub: String },
    Replay { sub: String, case: Value, ran: bool },
}

pub struct Suite {
    pub id: String,
    pub tier: Tier,
    pub seed: u64,
    pub shard: u32,
    mode: Mode,
    res: ShardResult,
    hashes: HashSet<u64>,
    only_sub: Option<String>,
}

// ---- shared with the monitor thread and the panic hook ----
static PANICS: Mutex<Vec<String>> = Mutex::new(Vec::new());
static CASE_NO: AtomicU64 = AtomicU64::new(0);
static IN_CASE: AtomicBool = AtomicBool::new(false);
static CLOSED_SYSTEM: AtomicBool = AtomicBool::new(true);
static CPU_LIMIT_S: AtomicU64 = AtomicU64::new(60);
static JOURNAL: Mutex<Option<(std::fs::File, String)>> = Mutex::new(None);

pub fn take_panics() -> Vec<String> {
    std::mem::take(&mut PANICS.lock().unwrap_or_else(|e| e.into_inner()))
}

/// Declares that the current sub-check waits for things outside this process, so that an idle process is
/// not a deadlock.
pub fn set_closed_system(b: bool) {
    CLOSED_SYSTEM.store(b, SeqCst);
}

pub fn verif_dir() -> PathBuf {
    match std::env::var_os("VT6CHECK_VERIF_DIR") {
        Some(d) => PathBuf::from(d),
        None => PathBuf::from("/verif"),
    }
}

thread_local! { static SCRATCH: RefCell<Option<PathBuf>> = RefCell::new(None); }
/// A scratch directory of this worker, removed by the parent.
pub fn scratch_dir() -> PathBuf {
    PathBuf::from(std::env::var_os("VT6CHECK_SCRATCH").expect("VT6CHECK_SCRATCH"))
}

fn hash_str(s: &str) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    s.hash(&mut h);
    h.finish()
}

fn run_case<T>(f: &dyn Fn(&T, &mut Obs) -> Res, case: &T, sub: &str, journal: &dyn Fn() -> String) -> (Res, Obs) {
    let mut obs = Obs::default();
    take_panics();
    {
        let mut j = JOURNAL.lock().unwrap();
        if let Some((file, name)) = j.as_mut() {
            use std::os::unix::fs::FileExt;
            *name = sub.to_string();
            let text = format!("{{\"sub\":{},\"case\":{}}}", serde_json::to_string(sub).unwrap(), journal());
            let _ = file.set_len(0);
            let _ = file.write_all_at(text.as_bytes(), 0);
        }
    }
    CASE_NO.fetch_add(1, SeqCst);
    IN_CASE.store(true, SeqCst);
    let r = catch_unwind(AssertUnwindSafe(|| f(case, &mut obs)));
    IN_CASE.store(false, SeqCst);
    let panics = take_panics();
    let r = match r {
        Ok(Ok(())) if panics.is_empty() => Ok(()),
        Ok(Ok(())) => Err(format!("panic in code under test: {}", panics.join(" | "))),
        Ok(Err(e)) if panics.is_empty() => Err(e),
        Ok(Err(e)) => Err(format!("{} (panics: {})", e, panics.join(" | "))),
        Err(_) => Err(format!("panic: {}", panics.join(" | "))),
    };
    (r, obs)
}

impl Suite {
    fn seed_for(&self, sub: &str) -> [u8; 32] {
        let mut out = [0u8; 32];
        for i in 0..4 {
            let h = hash_str(&format!("{}/{}/{}/{}/{}", self.seed, self.id, sub, self.shard, i));
            out[i * 8..i * 8 + 8].copy_from_slice(&h.to_le_bytes());
        }
        out
    }

    pub fn done(&self) -> bool {
        self.res.failure.is_some() || self.res.error.is_some()
    }

    fn fail(&mut self, sub: &str, case: Value, message: String) {
        self.res.failure = Some(Failure { sub: sub.into(), case, message });
    }

    fn replay_if_wanted<T: DeserializeOwned>(&mut self, name: &str, f: &dyn Fn(&T, &mut Obs) -> Res) -> bool {
        let (case, sub) = match &mut self.mode {
            Mode::Run => {
                if let Some(ref o) = self.only_sub {
                    return o != name;
                }
                return false;
            }
            Mode::Guided { sub } => return sub != name,
            Mode::Replay { sub, case, ran } => {
                if sub != name || *ran {
                    return true;
                }
                *ran = true;
                (case.clone(), sub.clone())
            }
        };
        match serde_json::from_value::<T>(case.clone()) {
            Err(e) => self.res.error = Some(format!("cannot decode replay case: {}", e)),
            Ok(t) => {
                let (r, obs) = run_case(f, &t, name, &|| case.to_string());
                self.res.subs.push(SubStats {
                    name: name.into(),
                    rule: "replay".into(),
                    evaluations: 1,
                    nontrivial: obs.nontrivial as u64,
                    ..Default::default()
                });
                if let Err(m) = r {
                    self.fail(&sub, case, m);
                }
            }
        }
        true
    }

    /// Runs `n.0` (quick) or `n.1` (thorough) generated cases, split over the shards.
    pub fn sub<S>(
        &mut self,
        name: &str,
        n: (u32, u32),
        rule: &str,
        strat: S,
        f: impl Fn(&S::Value, &mut Obs) -> Res,
    ) where
        S: Strategy,
        S::Value: Debug + Clone + Serialize + DeserializeOwned,
    {
        if self.done() || self.replay_if_wanted::<S::Value>(name, &f) {
            return;
        }
        if let Mode::Guided { .. } = self.mode {
            #[cfg(feature = "guided")]
            guided::drive(self, name, rule, &strat, &f);
            return;
        }
        let total = if self.tier == Tier::Quick { (n.0 * quick_factor(&self.id)).min(n.1) } else { n.1 };
        let cases = (total + SHARDS - 1) / SHARDS;
        let t0 = Instant::now();
        let cfg = Config {
            cases,
            failure_persistence: None,
            max_shrink_iters: std::env::var("VT6CHECK_SHRINK").ok().and_then(|s| s.parse().ok()).unwrap_or(4000),
            max_shrink_time: 90_000,
            max_global_rejects: 1_000_000,
            ..Config::default()
        };
        let rng = TestRng::from_seed(RngAlgorithm::ChaCha, &self.seed_for(name));
        let mut runner = TestRunner::new_with_rng(cfg, rng);
        let stats = RefCell::new(SubStats { name: name.into(), rule: rule.into(), ..Default::default() });
        let hashes = RefCell::new(std::mem::take(&mut self.hashes));
        let failed = RefCell::new(false);
        let last_msg = RefCell::new(String::new());
        let result = runner.run(&strat, |case| {
            let text = RefCell::new(None);
            let ser = || serde_json::to_string(&case).unwrap();
            let (r, obs) = run_case(&f, &case, name, &|| {
                let s = ser();
                *text.borrow_mut() = Some(s.clone());
                s
            });
            let text = text.into_inner().unwrap_or_else(ser);
            if !*failed.borrow() {
                let mut st = stats.borrow_mut();
                st.evaluations += 1;
                for c in obs.classes {
                    *st.classes.entry(c.into()).or_default() += 1;
                }
                if obs.nontrivial && hashes.borrow_mut().insert(hash_str(&format!("{}:{}", name, text))) {
                    st.nontrivial += 1;
                    if st.samples.len() < 2 || (st.nontrivial % 977 == 0 && st.samples.len() < 4) {
                        st.samples.push(truncate(&text, 600));
                    }
                }
            }
            match r {
                Ok(()) => Ok(()),
                Err(m) => {
                    *failed.borrow_mut() = true;
                    *last_msg.borrow_mut() = m.clone();
                    Err(TestCaseError::fail(m))
                }
            }
        });
        self.hashes = hashes.into_inner();
        if std::env::var_os("VT6CHECK_VERBOSE").is_some() {
            eprintln!("[{} shard {}] {}: {} cases in {:?}", self.id, self.shard, name, cases, t0.elapsed());
        }
        self.res.subs.push(stats.into_inner());
        match result {
            Ok(()) => {}
            Err(TestError::Fail(reason, case)) => {
                self.fail(name, serde_json::to_value(&case).unwrap(), reason.message().to_string())
            }
            Err(TestError::Abort(reason)) => {
                self.res.error = Some(format!("{}: generator gave up: {}", name, reason.message()))
            }
        }
    }

    /// Coverage-guided only: the fuzzer's bytes themselves are (mapped to) the case; it starts from generated ones.
    pub fn raw<T>(&mut self, name: &str, rule: &str, seeds: BoxedStrategy<Vec<u8>>, from: impl Fn(&[u8]) -> T, f: impl Fn(&T, &mut Obs) -> Res)
    where
        T: Debug + Clone + Serialize + DeserializeOwned,
    {
        if self.done() || self.replay_if_wanted::<T>(name, &f) {
            return;
        }
        if let Mode::Guided { .. } = self.mode {
            #[cfg(feature = "guided")]
            guided::drive_raw(self, name, rule, &seeds, &from, &f);
        }
        let _ = (rule, seeds, from);
    }

    /// Runs an enumerated (finite, complete) list of cases, split over the shards.
    pub fn each<T>(&mut self, name: &str, rule: &str, cases: impl Iterator<Item = T>, f: impl Fn(&T, &mut Obs) -> Res)
    where
        T: Debug + Clone + Serialize + DeserializeOwned,
    {
        if self.done() || self.replay_if_wanted::<T>(name, &f) || matches!(self.mode, Mode::Guided { .. }) {
            return;
        }
        let mut st = SubStats { name: name.into(), rule: rule.into(), ..Default::default() };
        for (i, case) in cases.enumerate() {
            if (i as u64 + i as u64 / SHARDS as u64) % SHARDS as u64 != self.shard as u64 {
                continue;
            }
            let text = serde_json::to_string(&case).unwrap();
            let (r, obs) = run_case(&f, &case, name, &|| text.clone());
            st.evaluations += 1;
            for c in obs.classes {
                *st.classes.entry(c.into()).or_default() += 1;
            }
            if obs.nontrivial && self.hashes.insert(hash_str(&format!("{}:{}", name, text))) {
                st.nontrivial += 1;
                if st.samples.len() < 2 {
                    st.samples.push(truncate(&text, 600));
                }
            }
            if let Err(m) = r {
                let v = serde_json::to_value(&case).unwrap();
                self.res.subs.push(st);
                self.fail(name, v, m);
                return;
            }
        }
        self.res.subs.push(st);
    }
}

/// Coverage-guided generation: libFuzzer evolves the stream of random numbers from which the strategy makes a case.
#[cfg(feature = "guided")]
mod guided {
    use super::*;
    use std::ffi::{c_char, c_int, CString};

    extern "C" {
        fn LLVMFuzzerRunDriver(argc: *mut c_int, argv: *mut *mut *mut c_char, cb: extern "C" fn(*const u8, usize) -> c_int) -> c_int;
    }
    struct Run {
        one: Box<dyn FnMut(&[u8]) -> c_int>,
        result: PathBuf,
    }
    static mut RUN: Option<Run> = None;
    /// odd while a case is being generated
    static GENERATING: AtomicU64 = AtomicU64::new(0);
    static STATS: Mutex<Option<(SubStats, HashSet<u64>)>> = Mutex::new(None);

    extern "C" fn one(data: *const u8, len: usize) -> c_int {
        let b = if len == 0 { &[] } else { unsafe { std::slice::from_raw_parts(data, len) } };
        #[allow(static_mut_refs)]
        match unsafe { RUN.as_mut() } {
            Some(r) => (r.one)(b),
            None => 0,
        }
    }
    fn write_result(failure: Option<Failure>) {
        let (st, hashes) = STATS.lock().unwrap().take().unwrap_or_default();
        let r = ShardResult { subs: vec![st], failure, error: None, hashes: hashes.into_iter().collect() };
        #[allow(static_mut_refs)]
        if let Some(run) = unsafe { RUN.as_ref() } {
            let _ = std::fs::write(&run.result, serde_json::to_string(&r).unwrap());
        }
    }
    extern "C" fn at_end() {
        write_result(None);
    }

    /// follows the evolved bytes, so that the stream does not end: samplers that reject would not return on zeros
    fn tail() -> &'static [u8] {
        static TAIL: std::sync::OnceLock<Vec<u8>> = std::sync::OnceLock::new();
        TAIL.get_or_init(|| {
            use proptest::prelude::Rng as _;
            let mut v = vec![0u8; 128 << 10];
            TestRng::from_seed(RngAlgorithm::ChaCha, &[7; 32]).fill_bytes(&mut v);
            v
        })
    }
    fn tree<S: Strategy>(strat: &S, data: &[u8]) -> Option<S::Tree> {
        let mut bytes = Vec::with_capacity(data.len() + tail().len());
        bytes.extend_from_slice(data);
        bytes.extend_from_slice(tail());
        let cfg = Config { failure_persistence: None, max_local_rejects: 200, ..Config::default() };
        let rng = TestRng::from_seed(RngAlgorithm::PassThrough, &bytes);
        strat.new_tree(&mut TestRunner::new_with_rng(cfg, rng)).ok()
    }

    pub fn drive<S>(suite: &mut Suite, name: &str, rule: &str, strat: &S, f: &dyn Fn(&S::Value, &mut Obs) -> Res)
    where
        S: Strategy,
        S::Value: Debug + Clone + Serialize + DeserializeOwned,
    {
        let make = |data: &[u8]| {
            GENERATING.fetch_add(1, SeqCst);
            let t = tree(strat, data).map(|t| t.current());
            GENERATING.fetch_add(1, SeqCst);
            t
        };
        let shrink = |data: &[u8], fails: &mut dyn FnMut(&S::Value) -> bool| {
            let mut t = match tree(strat, data) {
                Some(t) => t,
                None => return,
            };
            let mut more = t.simplify();
            while more {
                more = if fails(&t.current()) { t.simplify() } else { t.complicate() };
            }
        };
        crate::oneof::ONE_STREAM.store(true, SeqCst);
        let max_len: usize = [256, 4096, 512, 1024][suite.shard as usize % 4];
        let mut rng = TestRng::from_seed(RngAlgorithm::ChaCha, &suite.seed_for(&format!("{} guided", name)));
        let corpus = (0..48)
            .map(|i| {
                use proptest::prelude::Rng as _;
                let mut v = vec![0u8; max_len >> (i % 5)];
                rng.fill_bytes(&mut v);
                v
            })
            .collect();
        run(suite, name, rule, corpus, max_len, &make, &shrink, f)
    }

    pub fn drive_raw<T>(
        suite: &mut Suite,
        name: &str,
        rule: &str,
        seeds: &BoxedStrategy<Vec<u8>>,
        from: &dyn Fn(&[u8]) -> T,
        f: &dyn Fn(&T, &mut Obs) -> Res,
    ) where
        T: Debug + Clone + Serialize + DeserializeOwned,
    {
        let cfg = Config { failure_persistence: None, ..Config::default() };
        let mut runner = TestRunner::new_with_rng(cfg, TestRng::from_seed(RngAlgorithm::ChaCha, &suite.seed_for(&format!("{} guided", name))));
        let max_len: usize = if suite.shard % 2 == 0 { 128 } else { 1100 };
        let mut corpus = vec![];
        for _ in 0..400 {
            if let Ok(t) = seeds.new_tree(&mut runner) {
                let v = t.current();
                if v.len() <= max_len {
                    corpus.push(v);
                }
            }
        }
        let shrink = |data: &[u8], fails: &mut dyn FnMut(&T) -> bool| {
            let mut v = data.to_vec();
            let mut n = v.len();
            while n > 0 {
                let mut i = 0;
                while i + n <= v.len() {
                    let mut w = v.clone();
                    w.drain(i..i + n);
                    if fails(&from(&w)) {
                        v = w;
                    } else {
                        i += 1;
                    }
                }
                n /= 2;
            }
            for i in 0..v.len() {
                for c in [b'a', b'0', 0] {
                    let mut w = v.clone();
                    w[i] = c;
                    if w[i] != v[i] && fails(&from(&w)) {
                        v = w;
                        break;
                    }
                }
            }
        };
        run(suite, name, rule, corpus, max_len, &|d| Some(from(d)), &shrink, f)
    }

    fn run<T>(
        suite: &mut Suite,
        name: &str,
        rule: &str,
        seeds: Vec<Vec<u8>>,
        max_len: usize,
        make: &dyn Fn(&[u8]) -> Option<T>,
        shrink: &dyn Fn(&[u8], &mut dyn FnMut(&T) -> bool),
        f: &dyn Fn(&T, &mut Obs) -> Res,
    ) where
        T: Debug + Clone + Serialize + DeserializeOwned,
    {
        let shown = format!("{} (coverage-guided)", name);
        *STATS.lock().unwrap() = Some((SubStats { name: shown.clone(), rule: rule.into(), ..Default::default() }, HashSet::new()));
        let name2 = name.to_string();
        let one = move |data: &[u8]| -> c_int {
            let case = match make(data) {
                Some(c) => c,
                None => return -1,
            };
            let text = serde_json::to_string(&case).unwrap();
            let (r, obs) = run_case(f, &case, &name2, &|| text.clone());
            {
                let mut g = STATS.lock().unwrap();
                let (st, hashes) = g.as_mut().unwrap();
                st.evaluations += 1;
                for c in obs.classes {
                    *st.classes.entry(c.into()).or_default() += 1;
                }
                if obs.nontrivial && hashes.insert(hash_str(&format!("{}:{}", name2, text))) {
                    st.nontrivial += 1;
                    if st.samples.len() < 2 || (st.nontrivial % 9770 == 0 && st.samples.len() < 4) {
                        st.samples.push(truncate(&text, 600));
                    }
                }
            }
            let mut msg = match r {
                Ok(()) => return 0,
                Err(m) => m,
            };
            let t0 = Instant::now();
            let mut best = case;
            shrink(data, &mut |c| {
                if t0.elapsed() > Duration::from_secs(60) {
                    return false;
                }
                let text = serde_json::to_string(c).unwrap();
                match run_case(f, c, &name2, &|| text.clone()).0 {
                    Err(m) => {
                        best = c.clone();
                        msg = m;
                        true
                    }
                    Ok(()) => false,
                }
            });
            write_result(Some(Failure { sub: name2.clone(), case: serde_json::to_value(&best).unwrap(), message: msg }));
            unsafe { libc::_exit(1) };
        };
        // libFuzzer ends the process, so nothing borrowed here goes away before
        let boxed: Box<dyn FnMut(&[u8]) -> c_int + '_> = Box::new(one);
        let boxed: Box<dyn FnMut(&[u8]) -> c_int + 'static> = unsafe { std::mem::transmute(boxed) };
        let result = PathBuf::from(std::env::var_os("VT6CHECK_GUIDED_RESULT").unwrap());
        unsafe {
            RUN = Some(Run { one: boxed, result });
            libc::atexit(at_end);
        }
        // a stream too short for its case: end with what has been covered
        std::thread::spawn(|| {
            let (mut last, mut same) = (0, 0);
            loop {
                std::thread::sleep(Duration::from_secs(1));
                let g = GENERATING.load(SeqCst);
                same = if g == last && g % 2 == 1 { same + 1 } else { 0 };
                last = g;
                if same > 20 {
                    eprintln!("guided: generation does not end");
                    write_result(None);
                    unsafe { libc::_exit(0) };
                }
            }
        });
        let corpus = scratch_dir().join("corpus");
        let _ = std::fs::create_dir_all(&corpus);
        for (i, v) in seeds.iter().enumerate() {
            std::fs::write(corpus.join(format!("s{}", i)), v).unwrap();
        }
        let seconds = std::env::var("VT6CHECK_GUIDED_S").unwrap_or("10".into());
        let mut args: Vec<String> = vec![
            "guided".into(),
            format!("-seed={}", (hash_str(&format!("{}/{}/{}", suite.seed, shown, suite.shard)) as u32).max(1)),
            format!("-max_total_time={}", seconds),
            format!("-max_len={}", max_len),
            "-len_control=0".into(),
            "-timeout=100000".into(),
            "-rss_limit_mb=0".into(),
            "-detect_leaks=0".into(),
            format!("-verbosity={}", std::env::var_os("VT6CHECK_VERBOSE").map_or(0, |_| 1)),
            "-print_final_stats=0".into(),
            format!("-use_value_profile={}", suite.shard / 4 % 2),
        ];
        for h in ["abrt", "bus", "fpe", "ill", "segv", "int", "term", "usr1", "usr2", "xfsz"] {
            args.push(format!("-handle_{}=0", h));
        }
        args.push(corpus.to_string_lossy().into_owned());
        let c: Vec<CString> = args.into_iter().map(|a| CString::new(a).unwrap()).collect();
        let mut ptrs: Vec<*mut c_char> = c.iter().map(|a| a.as_ptr() as *mut c_char).collect();
        ptrs.push(std::ptr::null_mut());
        let mut argc = c.len() as c_int;
        let mut argv = ptrs.as_mut_ptr();
        unsafe {
            LLVMFuzzerRunDriver(&mut argc, &mut argv, one_ptr());
        }
        std::process::exit(0);
    }
    fn one_ptr() -> extern "C" fn(*const u8, usize) -> c_int {
        one
    }
}

fn truncate(s: &str, n: usize) -> String {
    if s.len() <= n {
        return s.to_string();
    }
    let mut k = n;
    while !s.is_char_boundary(k) {
        k -= 1;
    }
    format!("{}... ({} bytes)", &s[..k], s.len())
}

// ---------------------------------------------------------------------------------------------------------
// monitor: endless loops (CPU time of one case) and deadlocks (closed system, nothing can run)

fn thread_stats(tid: &str) -> Option<(char, u64, u64)> {
    let stat = std::fs::read_to_string(format!("/proc/self/task/{}/stat", tid)).ok()?;
    let rest = &stat[stat.rfind(')')? + 2..];
    let f: Vec<&str> = rest.split(' ').collect();
    let state = f[0].chars().next()?;
    let cpu: u64 = f[11].parse::<u64>().ok()? + f[12].parse::<u64>().ok()?;
    let status = std::fs::read_to_string(format!("/proc/self/task/{}/status", tid)).ok()?;
    let mut sw = 0u64;
    for l in status.lines() {
        if l.starts_with("voluntary_ctxt_switches") || l.starts_with("nonvoluntary_ctxt_switches") {
            sw += l.split_whitespace().last()?.parse::<u64>().ok()?;
        }
    }
    Some((state, cpu, sw))
}

fn monitor(result_path: PathBuf) {
    let me = unsafe { libc::syscall(libc::SYS_gettid) }.to_string();
    let mut last: Option<(u64, Vec<(String, u64, u64)>)> = None;
    let mut idle = 0;
    let mut cpu_at_start = 0u64;
    let mut cur_case = u64::MAX;
    loop {
        std::thread::sleep(Duration::from_millis(500));
        let case = CASE_NO.load(SeqCst);
        if !IN_CASE.load(SeqCst) {
            last = None;
            idle = 0;
            cur_case = u64::MAX;
            continue;
        }
        let mut total_cpu = 0;
        let mut all_asleep = true;
        let mut v = vec![];
        if let Ok(rd) = std::fs::read_dir("/proc/self/task") {
            for e in rd.flatten() {
                let tid = e.file_name().to_string_lossy().to_string();
                if tid == me {
                    continue;
                }
                if let Some((state, cpu, sw)) = thread_stats(&tid) {
                    total_cpu += cpu;
                    all_asleep &= state == 'S';
                    v.push((tid, cpu, sw));
                }
            }
        }
        v.sort();
        if cur_case != case {
            cur_case = case;
            cpu_at_start = total_cpu;
        }
        let hz = 100;
        let limit = CPU_LIMIT_S.load(SeqCst);
        let mut verdict = None;
        if total_cpu.saturating_sub(cpu_at_start) > limit * hz {
            verdict = Some(format!("the case does not finish: it used more than {} CPU seconds", limit));
        }
        match &last {
            Some((c, l)) if *c == case && *l == v && all_asleep && CLOSED_SYSTEM.load(SeqCst) => idle += 1,
            _ => idle = 0,
        }
        if idle >= 30 {
            verdict = Some(
                "deadlock: all threads of the closed system (server and clients) sleep and none can be woken".into(),
            );
        }
        last = Some((case, v));
        if let Some(msg) = verdict {
            if CASE_NO.load(SeqCst) != case || !IN_CASE.load(SeqCst) {
                continue;
            }
            let mut text = String::new();
            if let Some(p) = std::env::var_os("VT6CHECK_JOURNAL") {
                let _ = std::fs::File::open(p).and_then(|mut f| f.read_to_string(&mut text));
            }
            let j: Value = serde_json::from_str(&text).unwrap_or(Value::Null);
            let panics = PANICS.try_lock().map(|p| p.join(" | ")).unwrap_or_default();
            let msg = if panics.is_empty() { msg } else { format!("{} (panics: {})", msg, panics) };
            let r = ShardResult {
                failure: Some(Failure {
                    sub: j["sub"].as_str().unwrap_or("?").into(),
                    case: j["case"].clone(),
                    message: msg,
                }),
                ..Default::default()
            };
            let _ = std::fs::write(&result_path, serde_json::to_string(&r).unwrap());
            unsafe { libc::_exit(1) };
        }
    }
}

// ---------------------------------------------------------------------------------------------------------
// worker

pub struct CheckDef {
    pub id: &'static str,
    pub run: fn(&mut Suite),
    pub assumptions: &'static [&'static str],
    /// sub-checks that are also driven by coverage-guided generation
    pub guided: &'static [&'static str],
}

fn env_u64(name: &str, default: u64) -> u64 {
    std::env::var(name).ok().and_then(|s| s.parse().ok()).unwrap_or(default)
}

/// How often the quick tier repeats the counts given in the checks, so that each check takes some 10 to 30 s.
fn quick_factor(id: &str) -> u32 {
    match id {
        "C26" | "C28" => 1,
        "C22" => 2,
        "C20" | "C23" | "C27" => 3,
        "C01" | "C03" | "C04" | "C06" | "C19" | "C24" | "C30" | "C32" => 4,
        "C05" | "C08" | "C11" | "C17" | "C25" | "C29" => 6,
        _ => 8,
    }
}

fn tier() -> Tier {
    match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    }
}

fn worker(def: &CheckDef, shard: u32, result_path: PathBuf, replay: Option<Value>, regress: Vec<Value>, guided: Option<String>) -> i32 {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        if std::env::var_os("VT6CHECK_BACKTRACE").is_some() {
            eprintln!("panic: {} at {}\n{}", msg, loc, std::backtrace::Backtrace::force_capture());
        }
        let mut p = PANICS.lock().unwrap_or_else(|e| e.into_inner());
        if p.len() < 5 {
            p.push(format!("{} at {}", msg, loc));
        }
    }));
    let jp = std::env::var_os("VT6CHECK_JOURNAL").expect("journal");
    *JOURNAL.lock().unwrap() = Some((std::fs::File::create(jp).expect("journal file"), String::new()));
    let rp = result_path.clone();
    std::thread::spawn(move || monitor(rp));

    // the checks run on a thread with a stack of known size (the default size of Rust threads)
    let id = def.id.to_string();
    let run = def.run;
    let h = std::thread::Builder::new()
        .stack_size(2 << 20)
        .name("check".into())
        .spawn(move || {
            let mut suite = Suite {
                id,
                tier: tier(),
                seed: env_u64("VERIF_SEED", 1),
                shard,
                mode: Mode::Run,
                res: ShardResult::default(),
                hashes: HashSet::new(),
                only_sub: std::env::var("VT6CHECK_ONLY").ok(),
            };
            if let Some(sub) = guided {
                suite.mode = Mode::Guided { sub };
                (run)(&mut suite);
                suite.res.error = Some("guided mode: unknown sub-check".into());
                return suite.res;
            }
            for c in regress {
                suite.mode =
                    Mode::Replay { sub: c["sub"].as_str().unwrap_or("").into(), case: c["case"].clone(), ran: false };
                (run)(&mut suite);
                if suite.done() {
                    break;
                }
            }
            if let Some(c) = replay {
                suite.mode =
                    Mode::Replay { sub: c["sub"].as_str().unwrap_or("").into(), case: c["case"].clone(), ran: false };
                (run)(&mut suite);
                if let Mode::Replay { ran: false, .. } = suite.mode {
                    suite.res.error = Some("replay file names an unknown sub-check".into());
                }
            } else if !suite.done() {
                suite.mode = Mode::Run;
                (run)(&mut suite);
            }
            suite.res.hashes = suite.hashes.iter().copied().collect();
            suite.res
        })
        .unwrap();
    let res = match h.join() {
        Ok(r) => r,
        Err(_) => ShardResult {
            error: Some(format!("harness panicked outside a case: {}", take_panics().join(" | "))),
            ..Default::default()
        },
    };
    std::fs::write(&result_path, serde_json::to_string(&res).unwrap()).unwrap();
    if res.error.is_some() {
        2
    } else if res.failure.is_some() {
        1
    } else {
        0
    }
}

// ---------------------------------------------------------------------------------------------------------
// parent

fn write_replay(id: &str, f: &Failure) -> PathBuf {
    let dir = verif_dir().join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let body = json!({"property": id, "sub": f.sub, "case": f.case, "message": f.message});
    let text = serde_json::to_string_pretty(&body).unwrap();
    let path = dir.join(format!("{}-{}-{:016x}.json", id, f.sub, hash_str(&f.case.to_string())));
    let _ = std::fs::write(&path, text);
    path
}

struct Job {
    child: std::process::Child,
    result: PathBuf,
    journal: PathBuf,
    shard: u32,
}

fn spawn_worker(
    id: &str,
    shard: u32,
    scratch: &std::path::Path,
    tag: &str,
    replay: Option<&std::path::Path>,
    guided: Option<(&str, &std::ffi::OsStr, u64)>,
) -> Job {
    let result = scratch.join(format!("result-{}", tag));
    let journal = scratch.join(format!("journal-{}", tag));
    let sdir = scratch.join(format!("scratch-{}", tag));
    std::fs::create_dir_all(&sdir).unwrap();
    // half of the workers run the build without debug assertions and overflow checks
    let exe = match (guided, std::env::var_os("VT6CHECK_PLAIN")) {
        (Some((_, exe, _)), _) => PathBuf::from(exe),
        (None, Some(exe)) if shard % 2 == 1 => PathBuf::from(exe),
        _ => std::env::current_exe().unwrap(),
    };
    let mut c = std::process::Command::new(exe);
    c.arg(id).arg("--worker").arg(shard.to_string()).arg(&result);
    if let Some(r) = replay {
        c.arg("--replay").arg(r);
    }
    if let Some((sub, _, seconds)) = guided {
        c.arg("--guided").arg(sub);
        c.env("VT6CHECK_GUIDED_RESULT", &result).env("VT6CHECK_GUIDED_S", seconds.to_string());
        c.current_dir(&sdir);
        if std::env::var_os("VT6CHECK_VERBOSE").is_none() {
            c.stderr(std::process::Stdio::null());
        }
    }
    c.env("VT6CHECK_JOURNAL", &journal).env("VT6CHECK_SCRATCH", &sdir).env("RUST_BACKTRACE", "0");
    c.stdin(std::process::Stdio::null());
    let child = c.spawn().expect("cannot spawn worker");
    Job { child, result, journal, shard }
}

enum Outcome {
    Done(ShardResult),
    Crash { signal: i32, journal: Value },
    Error(String),
}

fn collect(job: &mut Job, status: std::process::ExitStatus) -> Outcome {
    if let Some(sig) = status.signal() {
        let text = std::fs::read_to_string(&job.journal).unwrap_or_default();
        let journal = serde_json::from_str(&text).unwrap_or(Value::Null);
        if [libc::SIGSEGV, libc::SIGABRT, libc::SIGBUS, libc::SIGILL, libc::SIGFPE].contains(&sig) {
            return Outcome::Crash { signal: sig, journal };
        }
        return Outcome::Error(format!("worker killed by signal {}", sig));
    }
    match std::fs::read_to_string(&job.result).ok().and_then(|t| serde_json::from_str::<ShardResult>(&t).ok()) {
        Some(r) => match r.error {
            Some(e) => Outcome::Error(e),
            None => Outcome::Done(r),
        },
        None => Outcome::Error(format!("worker exited with {:?} without a result", status.code())),
    }
}

pub fn main_with(checks: &[CheckDef]) -> i32 {
    let args: Vec<String> = std::env::args().collect();
    if args.len() < 2 {
        eprintln!("usage: vt6check <ID> [--replay FILE] | --list");
        return 2;
    }
    if args[1] == "--list" {
        for c in checks {
            println!("{}", c.id);
        }
        return 0;
    }
    let def = match checks.iter().find(|c| c.id == args[1]) {
        Some(d) => d,
        None => {
            eprintln!("unknown check {}", args[1]);
            return 2;
        }
    };
    let replay_path = args.iter().position(|a| a == "--replay").map(|i| PathBuf::from(&args[i + 1]));
    let load = |p: &PathBuf| -> Result<Value, String> {
        let t = std::fs::read_to_string(p).map_err(|e| e.to_string())?;
        serde_json::from_str(&t).map_err(|e| e.to_string())
    };
    if args.get(2).map(|s| s.as_str()) == Some("--worker") {
        let shard: u32 = args[3].parse().unwrap();
        let replay = replay_path.as_ref().map(|p| load(p).expect("replay file"));
        let mut regress = vec![];
        if replay.is_none() && shard < 2 {
            let dir = verif_dir().join("regress").join(def.id);
            if let Ok(rd) = std::fs::read_dir(dir) {
                let mut ps: Vec<PathBuf> = rd.flatten().map(|e| e.path()).collect();
                ps.sort();
                regress = ps.iter().filter_map(|p| load(p).ok()).collect();
            }
        }
        let guided = args.iter().position(|a| a == "--guided").map(|i| args[i + 1].clone());
        if guided.is_some() {
            regress.clear();
        }
        let code = worker(def, shard, PathBuf::from(&args[4]), replay, regress, guided);
        // skip destructors of whatever threads are left
        std::process::exit(code);
    }

    let t0 = Instant::now();
    let seed = env_u64("VERIF_SEED", 1);
    let tier = tier();
    let scratch = std::env::temp_dir().join(format!("vt6check-{}-{}", def.id, std::process::id()));
    std::fs::create_dir_all(&scratch).expect("scratch dir");
    let budget = Duration::from_secs(env_u64("VT6CHECK_BUDGET_S", if tier == Tier::Quick { 780 } else { 36_000 }));

    let mut jobs: Vec<Job> = vec![];
    if let Some(ref p) = replay_path {
        jobs.push(spawn_worker(def.id, 0, &scratch, "replay", Some(p), None));
        jobs.push(spawn_worker(def.id, 1, &scratch, "replay-plain", Some(p), None));
    } else {
        for s in 0..SHARDS {
            jobs.push(spawn_worker(def.id, s, &scratch, &format!("s{}", s), None, None));
        }
    }
    // afterwards, if these find nothing
    let guided_exe = std::env::var_os("VT6CHECK_GUIDED").filter(|_| replay_path.is_none());
    let guided_total = env_u64("VT6CHECK_GUIDED_TOTAL_S", if tier == Tier::Quick { 12 } else { 1200 });
    let mut guided_left: Vec<&str> = match &guided_exe {
        Some(_) => {
            let only = std::env::var("VT6CHECK_ONLY").ok();
            def.guided.iter().copied().filter(|g| only.as_ref().map_or(true, |o| o == g)).collect()
        }
        None => vec![],
    };
    let guided_s = (guided_total / guided_left.len().max(1) as u64).max(1);

    let mut outcomes: Vec<(u32, Outcome)> = vec![];
    let mut first_bad: Option<Instant> = None;
    let mut timed_out = false;
    while !jobs.is_empty() {
        let mut i = 0;
        while i < jobs.len() {
            match jobs[i].child.try_wait() {
                Ok(Some(status)) => {
                    let mut job = jobs.swap_remove(i);
                    let o = collect(&mut job, status);
                    let bad = match &o {
                        Outcome::Done(r) => r.failure.is_some(),
                        _ => true,
                    };
                    if bad && first_bad.is_none() {
                        first_bad = Some(Instant::now());
                    }
                    outcomes.push((job.shard, o));
                }
                _ => i += 1,
            }
        }
        let give_up = first_bad.map_or(false, |t| t.elapsed() > Duration::from_secs(100));
        if t0.elapsed() > budget || give_up {
            timed_out = !give_up;
            for j in &mut jobs {
                let _ = j.child.kill();
                let _ = j.child.wait();
            }
            break;
        }
        if jobs.is_empty() && first_bad.is_none() {
            if let (Some(sub), Some(exe)) = (guided_left.pop(), &guided_exe) {
                for s in 0..SHARDS {
                    let tag = format!("g{}-{}", guided_left.len(), s);
                    jobs.push(spawn_worker(def.id, s, &scratch, &tag, None, Some((sub, exe, guided_s))));
                }
            }
            continue;
        }
        std::thread::sleep(Duration::from_millis(20));
    }
    outcomes.sort_by_key(|o| o.0);

    let mut merged: BTreeMap<String, SubStats> = BTreeMap::new();
    let mut order: Vec<String> = vec![];
    let mut hashes: HashSet<u64> = HashSet::new();
    let mut failures: Vec<Failure> = vec![];
    let mut errors: Vec<String> = vec![];
    for (shard, o) in outcomes {
        match o {
            Outcome::Error(e) => errors.push(format!("shard {}: {}", shard, e)),
            Outcome::Crash { signal, journal } => {
                let f = Failure {
                    sub: journal["sub"].as_str().unwrap_or("?").into(),
                    case: journal["case"].clone(),
                    message: format!("the process died of signal {} (crash or stack overflow)", signal),
                };
                // confirm in fresh processes
                let mut confirmed = replay_path.is_some();
                let p = scratch.join("crash.json");
                std::fs::write(&p, json!({"sub": f.sub, "case": f.case}).to_string()).unwrap();
                for k in 0..10 {
                    if confirmed {
                        break;
                    }
                    let mut j = spawn_worker(def.id, shard, &scratch, &format!("crash{}", k), Some(&p), None);
                    if let Ok(st) = j.child.wait() {
                        match collect(&mut j, st) {
                            Outcome::Crash { .. } => confirmed = true,
                            Outcome::Done(r) if r.failure.is_some() => confirmed = true,
                            _ => {}
                        }
                    }
                }
                if confirmed {
                    failures.push(f);
                } else {
                    errors.push(format!("shard {}: unreproducible crash (signal {}): {}", shard, signal, journal));
                }
            }
            Outcome::Done(r) => {
                for s in r.subs {
                    if !merged.contains_key(&s.name) {
                        order.push(s.name.clone());
                    }
                    let m = merged.entry(s.name.clone()).or_insert_with(|| SubStats {
                        name: s.name.clone(),
                        rule: s.rule.clone(),
                        ..Default::default()
                    });
                    if m.rule == "replay" {
                        m.rule = s.rule.clone();
                    }
                    m.evaluations += s.evaluations;
                    m.nontrivial += s.nontrivial;
                    for (k, v) in s.classes {
                        *m.classes.entry(k).or_default() += v;
                    }
                    if m.samples.len() < 4 {
                        m.samples.extend(s.samples.into_iter().take(1));
                    }
                }
                hashes.extend(r.hashes);
                if let Some(f) = r.failure {
                    failures.push(f);
                }
            }
        }
    }
    let _ = std::fs::remove_dir_all(&scratch);

    let evals: u64 = merged.values().map(|s| s.evaluations).sum();
    let mut code = 0;
    for f in failures.iter().take(1) {
        let path = write_replay(def.id, f);
        println!("{}: {} fails: {}", def.id, f.sub, truncate(&f.message, 3000));
        println!("{}: case {}", def.id, truncate(&f.case.to_string(), 3000));
        println!("VIOLATION property={} replay={}", def.id, path.display());
        code = 1;
    }
    if code == 0 {
        for e in &errors {
            eprintln!("{}: ERROR {}", def.id, truncate(e, 3000));
            code = 2;
        }
        if replay_path.is_none() {
            for s in merged.values().filter(|s| s.evaluations >= 100 && s.nontrivial == 0) {
                eprintln!("{}: ERROR sub-check {} is vacuous: {} cases, none of them non-trivial", def.id, s.name, s.evaluations);
                code = 2;
            }
        }
        if timed_out {
            eprintln!("{}: ERROR time budget exhausted (inconclusive)", def.id);
            code = 2;
        }
    }
    if replay_path.is_none() {
        let rule: Vec<String> = order.iter().map(|n| format!("{}: {}", n, merged[n].rule)).collect();
        let samples: Vec<Value> = order
            .iter()
            .flat_map(|n| merged[n].samples.iter().map(move |s| json!({"sub": n, "case": s})))
            .collect();
        let subs: Vec<Value> = order
            .iter()
            .map(|n| {
                let s = &merged[n];
                json!({"name": n, "evaluations": s.evaluations, "nontrivial": s.nontrivial, "classes": s.classes})
            })
            .collect();
        let ev = json!({
            "property": def.id,
            "tier": if tier == Tier::Quick { "quick" } else { "thorough" },
            "seed": seed,
            "level": "exploration",
            "coverage": {
                "evaluations": evals,
                "distinct_nontrivial": hashes.len(),
                "rule": rule.join("; "),
                "samples": samples,
                "subchecks": subs,
            },
            "assumptions": def.assumptions,
            "wall_s": t0.elapsed().as_secs_f64(),
            "violations": failures.len().min(1),
        });
        let dir = verif_dir().join("evidence");
        let _ = std::fs::create_dir_all(&dir);
        let mut f = std::fs::File::create(dir.join(format!("{}.json", def.id))).expect("evidence file");
        f.write_all(serde_json::to_string_pretty(&ev).unwrap().as_bytes()).unwrap();
    }
    if code == 0 {
        println!(
            "{}: ok, {} cases, {} distinct non-trivial, {:.1}s",
            def.id,
            evals,
            hashes.len(),
            t0.elapsed().as_secs_f64()
        );
    }
    code
}
