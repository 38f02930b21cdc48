use serde_json::json;
use std::collections::hash_map::DefaultHasher;
use std::collections::HashSet;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

/// what one property run has done so far; shared with the watchdog
#[derive(Default)]
pub struct State {
    pub evaluations: u64,
    pub distinct: HashSet<u64>,
    pub samples: Vec<String>,
    pub current: Option<(u64, String, Instant)>,
    pub known: Vec<String>,
}

pub struct Ctx {
    pub rng: Rng,
    pub thorough: bool,
    pub deadline: Instant,
    st: Arc<Mutex<State>>,
    out: String,
    prop: String,
    seed: u64,
    only: Option<u64>,
    n: u64,
    pub rule: &'static str,
    /// further inputs to try, found by the analysis of the source
    pub extra: Vec<String>,
}

pub struct Rng(pub u64);
/// numbers and texts that occur in the source under test: inputs that meet them reach what depends on them
#[derive(Default)]
pub struct Dict {
    pub ints: Vec<u64>,
    pub words: Vec<String>,
}
pub static DICT: std::sync::OnceLock<Dict> = std::sync::OnceLock::new();
const WORDS: [&str; 44] = [
    "connect", "disconnect", "connecting", "connect_error", "error", "message", "ping", "pong", "open", "close", "reconnect", "newListener", "event", "ack", "__proto__", "constructor", "admin", "socket.io",
    "*", "..", "a.b", "a:b", "a/b", "a b", " a", "a ", "A", "\u{e9}", "e\u{301}", "\u{df}", "SS", "\u{feff}a", "a\u{0}b", "null", "true", "0", "-1", "[]", "{}", "[0]", "%2F", "a?b", "a#b", "\u{1f468}\u{200d}\u{1f469}",
];
const SIZES: [usize; 20] = [5, 7, 8, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1023, 1025];
impl Rng {
    fn dict(&self) -> &'static Dict {
        DICT.get_or_init(Dict::default)
    }
    /// a number: any, a notable one, or one next to a number of the source
    pub fn int(&mut self) -> u64 {
        let d = self.dict();
        match self.below(4) {
            0 if !d.ints.is_empty() => {
                let x = *self.pick(&d.ints);
                x.wrapping_add(self.below(3) as u64).wrapping_sub(1)
            }
            1 => (1u64 << self.below(64)).wrapping_add(self.below(3) as u64).wrapping_sub(1),
            2 => *self.pick(&[0, 1, 9, 10, 99, 100, 999, 1000, 9007199254740991, 9007199254740992, 9007199254740993, i64::MAX as u64, i64::MAX as u64 + 1, u64::MAX - 1, u64::MAX]),
            _ => {
                let s = self.below(64);
                self.next() >> s
            }
        }
    }
    /// a size up to `max`: notable ones and those next to the numbers of the source
    pub fn size(&mut self, max: usize) -> usize {
        let d = self.dict();
        for _ in 0..4 {
            let n = if !d.ints.is_empty() && self.chance(1, 2) {
                (*self.pick(&d.ints) as usize).wrapping_add(self.below(3)).wrapping_sub(1)
            } else {
                *self.pick(&SIZES)
            };
            if n <= max {
                return n;
            }
        }
        self.below(max + 1)
    }
    /// a text: one of the source, or one that programs tend to treat apart
    pub fn word(&mut self) -> String {
        let d = self.dict();
        if !d.words.is_empty() && self.chance(1, 2) {
            self.pick(&d.words).clone()
        } else {
            self.pick(&WORDS).to_string()
        }
    }
    /// a text close to `w` and different from it
    pub fn near(&mut self, w: &str) -> String {
        let x = match self.below(8) {
            0 => w.to_uppercase(),
            1 => format!("{} ", w),
            2 => format!("{}/", w),
            3 => format!("{}{}", w, w),
            4 => w.chars().rev().collect(),
            5 => w.chars().take(w.chars().count().saturating_sub(1)).collect(),
            6 => format!("{}\u{0}", w),
            _ => format!("{}x", w),
        };
        if x == w {
            format!("{}1", w)
        } else {
            x
        }
    }
    /// a namespace other than the root (no comma: the protocol has no way to write one)
    pub fn ns(&mut self) -> String {
        let mut t = "/".to_string();
        for _ in 0..1 + self.below(2) {
            let w = self.word();
            t += w.trim_start_matches('/');
            match self.below(6) {
                0 => t.push('/'),
                1 => t += "?q=1",
                2 => {
                    let n = self.size(300);
                    t += &"n".repeat(n);
                }
                _ => {}
            }
        }
        let t = t.replace(',', ".");
        if t == "/" {
            "/x".into()
        } else {
            t
        }
    }
    /// distinct namespaces, the root among them, some close to each other
    pub fn some_ns(&mut self, n: usize) -> Vec<String> {
        let mut v = vec!["/".to_string()];
        while v.len() < n {
            let x = if v.len() > 1 && self.chance(1, 2) {
                let b = self.pick(&v[1..]).clone();
                let y = self.near(&b);
                if y.starts_with('/') && y.len() > 1 {
                    y
                } else {
                    format!("/{}", y)
                }
            } else {
                self.ns()
            };
            if !v.contains(&x) {
                v.push(x);
            }
        }
        v
    }
    /// distinct event names, some close to each other
    pub fn some_names(&mut self, n: usize) -> Vec<String> {
        let mut v: Vec<String> = vec![];
        while v.len() < n {
            let x = if !v.is_empty() && self.chance(1, 2) {
                let b = self.pick(&v).clone();
                self.near(&b)
            } else {
                self.word()
            };
            if !v.contains(&x) {
                v.push(x);
            }
        }
        v
    }
    pub fn next(&mut self) -> u64 {
        // splitmix64
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % (n as u64)) as usize
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.next() % den < num
    }
}

fn write(out: &str, prop: &str, seed: u64, rule: &str, st: &State, failure: Option<serde_json::Value>) {
    let v = json!({
        "property": prop, "seed": seed, "evaluations": st.evaluations,
        "distinct_nontrivial": st.distinct.len(), "samples": st.samples, "rule": rule,
        "known": st.known, "failure": failure,
    });
    std::fs::write(out, serde_json::to_string_pretty(&v).unwrap()).unwrap();
}

impl Ctx {
    /// Runs one case.  `desc` describes the input; `f` checks it.  `nontrivial` says whether the
    /// case reaches the behaviour the property is about.
    pub fn case<D, F>(&mut self, nontrivial: bool, desc: D, f: F)
    where
        D: Fn() -> String,
        F: FnOnce() -> Result<(), String>,
    {
        self.n += 1;
        let id = self.n;
        if let Some(o) = self.only {
            if o != id {
                return;
            }
        }
        let d = desc();
        {
            let mut s = self.st.lock().unwrap();
            s.evaluations += 1;
            if nontrivial {
                let mut h = DefaultHasher::new();
                d.hash(&mut h);
                s.distinct.insert(h.finish());
            }
            if s.samples.len() < 5 && (s.evaluations % 97 == 1) {
                let x: String = d.chars().take(300).collect();
                s.samples.push(x);
            }
            s.current = Some((id, d.clone(), Instant::now()));
        }
        let r = catch_unwind(AssertUnwindSafe(f));
        let msg = match r {
            Ok(Ok(())) => None,
            Ok(Err(m)) => Some(m),
            Err(p) => Some(format!("panicked: {}", panic_text(&p))),
        };
        if let Some(m) = msg {
            self.fail(id, &d, &m);
        }
        self.st.lock().unwrap().current = None;
    }
    fn fail(&self, id: u64, d: &str, m: &str) -> ! {
        let s = self.st.lock().unwrap();
        let f = json!({"case": id, "input": d, "what": m});
        write(&self.out, &self.prop, self.seed, self.rule, &s, Some(f));
        eprintln!("FAILURE case {}: {}\n  {}", id, d, m);
        std::process::exit(1);
    }
    pub fn more(&self) -> bool {
        Instant::now() < self.deadline
    }
    /// random cases to try at this tier
    pub fn budget(&self, quick: usize) -> usize {
        if self.thorough {
            quick * 100
        } else {
            quick * 12
        }
    }
    pub fn known(&self, what: &str) {
        let mut s = self.st.lock().unwrap();
        if !s.known.iter().any(|k| k == what) {
            s.known.push(what.to_string());
        }
    }
}

pub fn panic_text(p: &Box<dyn std::any::Any + Send>) -> String {
    p.downcast_ref::<String>()
        .cloned()
        .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
        .unwrap_or_else(|| "?".into())
}

pub fn drive(prop: &str, seed: u64, thorough: bool, out: String, only: Option<u64>, extra: Vec<String>, run: fn(&mut Ctx)) {
    std::panic::set_hook(Box::new(|_| {}));
    let st = Arc::new(Mutex::new(State::default()));
    let secs = if thorough { 240 } else { 60 };
    let mut ctx = Ctx {
        rng: Rng(seed.wrapping_mul(0x9E37).wrapping_add(77)),
        thorough,
        deadline: Instant::now() + Duration::from_secs(secs),
        st: st.clone(),
        out: out.clone(),
        prop: prop.to_string(),
        seed,
        only,
        n: 0,
        rule: "",
        extra,
    };
    {
        let (st, out, prop) = (st.clone(), out.clone(), prop.to_string());
        std::thread::spawn(move || loop {
            std::thread::sleep(Duration::from_millis(200));
            let s = st.lock().unwrap();
            if let Some((id, d, t)) = &s.current {
                if t.elapsed() > Duration::from_secs(20) {
                    let f = json!({"case": id, "input": d, "what": "no answer within 20 s (deadlock or endless loop)"});
                    write(&out, &prop, seed, "", &s, Some(f));
                    eprintln!("FAILURE (hang) case {}: {}", id, d);
                    std::process::exit(1);
                }
            }
        });
    }
    // a big stack: deeply nested inputs are legitimate
    let h = std::thread::Builder::new()
        .stack_size(256 << 20)
        .spawn(move || {
            run(&mut ctx);
            ctx.rule
        })
        .unwrap();
    let rule = match h.join() {
        Ok(r) => r,
        Err(p) => {
            eprintln!("oracle itself panicked: {}", panic_text(&p));
            std::process::exit(4);
        }
    };
    let s = st.lock().unwrap();
    write(&out, prop, seed, rule, &s, None);
}

/// first difference helper
pub fn eq<T: PartialEq + std::fmt::Debug>(what: &str, got: T, want: T) -> Result<(), String> {
    if got == want {
        Ok(())
    } else {
        let (g, w) = (format!("{:?}", got), format!("{:?}", want));
        Err(format!("{}: got {} expected {}", what, short(&g), short(&w)))
    }
}
pub fn short(s: &str) -> String {
    if s.chars().count() > 400 {
        let x: String = s.chars().take(400).collect();
        format!("{}…", x)
    } else {
        s.to_string()
    }
}
