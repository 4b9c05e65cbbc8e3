//! Exhaustive explorers of the front end. `fe c01|c02|c03 quick|thorough`, `fe replay c01|c02|c03 <hex>`.
//! Output: JSON lines {"v":...} per violation (capped), last line {"stats":...}.
#![allow(dead_code, unused_imports)]
mod yul2ir {
    use lalrpop_util::lalrpop_mod;
    lalrpop_mod!(pub yul);
    pub mod ast;
    pub mod utils;
}
mod c01;
mod c02;
mod c03;

pub fn jstr(s: &str) -> String {
    let mut r = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => r.push_str("\\\""),
            '\\' => r.push_str("\\\\"),
            '\n' => r.push_str("\\n"),
            '\r' => r.push_str("\\r"),
            '\t' => r.push_str("\\t"),
            c if (c as u32) < 0x20 || (c as u32) == 0x7f => r.push_str(&format!("\\u{:04x}", c as u32)),
            c => r.push(c),
        }
    }
    r.push('"');
    r
}

#[derive(Default, Clone)]
pub struct Report {
    pub states: u64,      // members of the explored space
    pub transitions: u64, // executions of the real code
    pub nviol: u64,
    pub viols: Vec<(String, String, String)>, // input, expected, actual
    pub samples: Vec<String>,
    pub classes: std::collections::BTreeMap<String, u64>,
}
impl Report {
    pub fn viol(&mut self, i: &str, e: &str, a: &str) {
        self.nviol += 1;
        if self.viols.len() < 40 {
            self.viols.push((i.into(), e.into(), a.into()));
        }
    }
    pub fn class(&mut self, c: &str) {
        if let Some(x) = self.classes.get_mut(c) { *x += 1 } else { self.classes.insert(c.into(), 1); }
    }
    pub fn merge(&mut self, o: Report) {
        self.states += o.states;
        self.transitions += o.transitions;
        self.nviol += o.nviol;
        self.viols.extend(o.viols);
        self.viols.sort_by(|a, b| (a.0.len(), &a.0).cmp(&(b.0.len(), &b.0)));
        self.viols.truncate(400);
        for s in o.samples { if self.samples.len() < 12 { self.samples.push(s) } }
        for (k, v) in o.classes { *self.classes.entry(k).or_insert(0) += v; }
    }
    pub fn print(&self) {
        for (i, e, a) in &self.viols {
            println!("{{\"v\":{{\"input\":{},\"expected\":{},\"actual\":{}}}}}", jstr(i), jstr(e), jstr(a));
        }
        let c: Vec<String> = self.classes.iter().map(|(k, v)| format!("{}:{}", jstr(k), v)).collect();
        let s: Vec<String> = self.samples.iter().map(|x| jstr(x)).collect();
        println!("{{\"stats\":{{\"states\":{},\"transitions\":{},\"violations\":{},\"classes\":{{{}}},\"samples\":[{}]}}}}",
            self.states, self.transitions, self.nviol, c.join(","), s.join(","));
    }
}

/// Run `f(shard, nshards)` on every core and merge.
pub fn par<F: Fn(usize, usize) -> Report + Sync>(f: F) -> Report {
    let n = std::thread::available_parallelism().map(|x| x.get()).unwrap_or(4);
    let mut r = Report::default();
    std::thread::scope(|s| {
        let hs: Vec<_> = (0..n).map(|i| { let f = &f; std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(s, move || f(i, n)).unwrap() }).collect();
        for h in hs { r.merge(h.join().expect("explorer thread")); }
    });
    r
}

// What each explorer thread is executing, for the watchdog: (running since, input).
type Slot = std::sync::Arc<std::sync::Mutex<(Option<std::time::Instant>, String)>>;
static SLOTS: std::sync::Mutex<Vec<Slot>> = std::sync::Mutex::new(Vec::new());
thread_local! { static SLOT: Slot = { let s = Slot::default(); SLOTS.lock().unwrap().push(s.clone()); s } }
const LIMIT_S: u64 = 10;

/// An execution of the real code that does not end is a violation: say on which input, and stop.
fn watchdog() {
    std::thread::spawn(|| loop {
        std::thread::sleep(std::time::Duration::from_millis(500));
        for s in SLOTS.lock().unwrap().iter() {
            let s = s.lock().unwrap();
            if let Some(t) = s.0 {
                if t.elapsed().as_secs() >= LIMIT_S {
                    let mut r = Report::default();
                    r.states = 1; r.transitions = 1;
                    r.viol(&s.1, "an end of the execution", &format!("no end within {LIMIT_S} s"));
                    r.print();
                    std::process::exit(0);
                }
            }
        }
    });
}

/// Run real code that may panic; a panic is an observable outcome.
pub fn guard<T, F: FnOnce() -> T>(input: &str, f: F) -> Result<T, String> {
    SLOT.with(|s| { let mut s = s.lock().unwrap(); s.1.clear(); s.1.push_str(input); s.0 = Some(std::time::Instant::now()); });
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|p| {
        p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or("panic".into())
    });
    SLOT.with(|s| s.lock().unwrap().0 = None);
    r
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    watchdog();
    let a: Vec<String> = std::env::args().skip(1).collect();
    let get = |i: usize| a.get(i).map(|s| s.as_str()).unwrap_or("");
    if get(0) == "replay" {
        let h = get(2).as_bytes();
        let bytes: Vec<u8> = (0..h.len() / 2).map(|i| u8::from_str_radix(&get(2)[2 * i..2 * i + 2], 16).unwrap()).collect();
        let text = String::from_utf8(bytes).unwrap();
        match get(1) { "c01" => c01::replay(&text), "c02" => c02::replay(&text), _ => c03::replay(&text) }
        return;
    }
    let thorough = get(1) == "thorough";
    let r = match get(0) {
        "c01" => c01::explore(thorough),
        "c02" => c02::explore(thorough),
        "c03" => c03::explore(thorough),
        _ => panic!("usage"),
    };
    r.print();
}
