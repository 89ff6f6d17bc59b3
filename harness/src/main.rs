//! Executes test cases against the real `nondestructive` crate, through its
//! public API only, and records what it observed.
//!
//! stdin: one JSON case per line. stdout: one JSON observation per line.
//! Byte strings travel as Latin-1 (one char per byte).

mod ops;
mod serdes;
mod views;

use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

use nondestructive::yaml;
use serde_json::{json, Map, Value as J};

pub fn enc(b: &[u8]) -> String {
    b.iter().map(|b| *b as char).collect()
}

pub fn dec(s: &str) -> Vec<u8> {
    s.chars().map(|c| c as u32 as u8).collect()
}

static PANIC: Mutex<String> = Mutex::new(String::new());
static CUR: AtomicU64 = AtomicU64::new(u64::MAX);
static STARTED: AtomicU64 = AtomicU64::new(0);

/// Run `f`, turning a panic into `Err(message)`.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => Err(std::mem::take(&mut *PANIC.lock().unwrap())),
    }
}

fn parse_outcome(input: &[u8], full: bool) -> (J, Option<yaml::Document>) {
    match guard(|| yaml::from_slice(input)) {
        Err(p) => (json!({"r": "panic", "m": p}), None),
        Ok(Err(e)) => {
            let s = e.span();
            let mut m = json!({"r": "err", "s": s.start, "e": s.end, "kind": format!("{:?}", e.kind())});
            if full {
                m["m"] = J::from(enc(e.to_string().as_bytes()));
                m["km"] = J::from(enc(e.kind().to_string().as_bytes()));
            }
            (m, None)
        }
        Ok(Ok(d)) => (json!({"r": "ok"}), Some(d)),
    }
}

/// An output which takes as much as it likes of what it is given, is
/// interrupted now and then, and fails for good once it is full.
struct Output {
    got: Vec<u8>,
    calls: usize,
    room: usize,
    /// Fail only once.
    once: bool,
}

impl Write for Output {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.calls += 1;
        if self.calls % 7 == 3 {
            return Err(std::io::ErrorKind::Interrupted.into());
        }
        let left = self.room - self.got.len();
        if left == 0 && !b.is_empty() {
            if self.once {
                self.room = usize::MAX;
            }
            return Err(std::io::Error::new(std::io::ErrorKind::Other, "full"));
        }
        let n = b.len().min(left).min([1, 3, 64, 2, usize::MAX][self.calls % 5]);
        self.got.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

impl Output {
    fn new(room: usize) -> Self {
        // Outputs of different room take different parts of what they get.
        Self { got: vec![], calls: if room == usize::MAX { 0 } else { room }, room, once: false }
    }
}

impl std::fmt::Write for Output {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        let left = self.room - self.got.len();
        let n = s.len().min(left);
        self.got.extend_from_slice(&s.as_bytes()[..n]);
        if n == s.len() {
            return Ok(());
        }
        if self.once {
            self.room = usize::MAX;
        }
        Err(std::fmt::Error)
    }
}

pub fn write_text(doc: &yaml::Document) -> Result<String, String> {
    guard(|| {
        let mut out = Output::new(usize::MAX);
        doc.write_to(&mut out).expect("write_to into a Vec");
        enc(&out.got)
    })
}

/// What outputs got which fail after so many bytes: the room, whether writing
/// succeeded, and what was written, for bytes and for text.
fn faults(doc: &yaml::Document) -> J {
    let mut out = Output::new(usize::MAX);
    doc.write_to(&mut out).expect("write_to");
    let n = out.got.len();
    let utf8 = std::str::from_utf8(&out.got).is_ok();
    let step = 1 + n / 40;
    let mut at: Vec<usize> = (0..=n + 1).step_by(step).collect();
    at.extend([n.saturating_sub(1), n, n + 1]);
    let mut rows = vec![];
    for (room, once) in at.into_iter().flat_map(|room| [(room, false), (room, true)]) {
        let mut w = Output::new(room);
        w.once = once;
        let r = doc.write_to(&mut w);
        let kept = match &r {
            Err(e) => e.to_string() == "full",
            Ok(()) => true,
        };
        rows.push(json!({"room": room, "ok": r.is_ok(), "kept": kept, "got": enc(&w.got)}));
        if utf8 {
            let mut w = Output::new(room);
            w.once = once;
            let r = std::fmt::Write::write_fmt(&mut w, format_args!("{doc}"));
            rows.push(json!({"room": room, "ok": r.is_ok(), "kept": true, "got": enc(&w.got)}));
        }
    }
    json!(rows)
}

fn put(m: &mut Map<String, J>, k: &str, v: Result<J, String>, bad: &mut Vec<String>) {
    match v {
        Ok(v) => {
            m.insert(k.to_owned(), v);
        }
        Err(p) => bad.push(format!("{k}: {p}")),
    }
}

/// Everything asked for in `want`, observed on `doc`.
pub fn observe(doc: &yaml::Document, want: &[&str]) -> J {
    let mut m = Map::new();
    let mut bad = Vec::new();
    for w in want {
        match *w {
            "text" => put(&mut m, "text", write_text(doc).map(J::from), &mut bad),
            "disp" => put(&mut m, "disp", guard(|| J::from(enc(doc.to_string().as_bytes()))), &mut bad),
            "tree" => put(&mut m, "tree", guard(|| views::tree(doc.as_ref().as_any())), &mut bad),
            "ids" => put(&mut m, "ids", guard(|| views::ids(&doc.as_ref())), &mut bad),
            "views" => put(&mut m, "views", guard(|| views::views(doc)), &mut bad),
            "debug" => put(&mut m, "debug", guard(|| {
                views::debug(doc);
                J::Null
            }), &mut bad),
            "faults" => put(&mut m, "faults", guard(|| faults(doc)), &mut bad),
            "vtext" => put(&mut m, "vtext", guard(|| views::vtext(doc)), &mut bad),
            "scal" => put(&mut m, "scal", guard(|| views::scalars(doc)), &mut bad),
            "ser" => put(&mut m, "ser", guard(|| serdes::ser(doc)), &mut bad),
            "de" => put(&mut m, "de", guard(|| serdes::de(doc)), &mut bad),
            "dety" => put(&mut m, "dety", guard(|| serdes::dety(doc)), &mut bad),
            "re" | "rescal" => {
                if let Ok(t) = write_text(doc) {
                    let (mut o, d) = parse_outcome(&dec(&t), false);
                    if let Some(d) = d {
                        put(o.as_object_mut().unwrap(), "tree", guard(|| views::tree(d.as_ref().as_any())), &mut bad);
                        if *w == "rescal" {
                            put(o.as_object_mut().unwrap(), "scal", guard(|| views::scalars(&d)), &mut bad);
                        }
                        put(o.as_object_mut().unwrap(), "text", write_text(&d).map(J::from), &mut bad);
                    }
                    m.insert("re".into(), o);
                }
            }
            "persist" => {
                let r = guard(|| serdes::persist(doc)).and_then(|d| d);
                match r {
                    Ok(d) => {
                        m.insert("persist".into(), json!({
                            "text": write_text(&d).unwrap_or_else(|p| format!("panic {p}")),
                            "tree": guard(|| views::tree(d.as_ref().as_any())).unwrap_or(J::Null),
                            "ids": guard(|| views::ids(&d.as_ref())).unwrap_or(J::Null),
                        }));
                    }
                    Err(p) => bad.push(format!("persist: {p}")),
                }
            }
            _ => panic!("harness: unknown want {w}"),
        }
    }
    m.insert("bad".into(), json!(bad));
    J::Object(m)
}

fn run_case(case: &J) -> J {
    let id = case["id"].clone();
    let input = dec(case["in"].as_str().unwrap_or(""));
    let want: Vec<&str> = case["want"]
        .as_array()
        .map(|a| a.iter().filter_map(|v| v.as_str()).collect())
        .unwrap_or_else(|| vec!["text", "tree"]);
    let (mut out, doc) = parse_outcome(&input, case["full"].as_bool().unwrap_or(false));
    out["id"] = id;
    let Some(mut doc) = doc else {
        return out;
    };
    if let Some(script) = case["iter"].as_array() {
        out["iter"] = match guard(|| views::iter_script(&doc, case, script)) {
            Ok(v) => v,
            Err(p) => json!({"panic": p}),
        };
        return out;
    }
    out["o"] = observe(&doc, &want);
    if let Some(list) = case["ops"].as_array() {
        out["steps"] = J::Array(ops::run(&mut doc, list, &want));
    }
    out
}

fn now_ms(t0: &Instant) -> u64 {
    t0.elapsed().as_millis() as u64
}

fn real_main() {
    let limit: u64 = std::env::var("NDH_LIMIT_MS").ok().and_then(|s| s.parse().ok()).unwrap_or(10_000);
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| l.to_string()).unwrap_or_default();
        let msg = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_default();
        if let Ok(mut p) = PANIC.lock() {
            *p = format!("{msg} @ {loc}");
        }
    }));
    let t0 = Instant::now();
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_millis(100));
        let cur = CUR.load(Ordering::SeqCst);
        let started = STARTED.load(Ordering::SeqCst);
        if cur != u64::MAX && now_ms(&t0) > started + limit && CUR.load(Ordering::SeqCst) == cur {
            // stdout may be locked by nobody: the main thread only locks to print.
            let mut o = std::io::stdout().lock();
            let _ = writeln!(o, "{}", json!({"id": cur, "r": "hang"}));
            let _ = o.flush();
            std::process::exit(7);
        }
    });
    let stdin = std::io::stdin();
    for line in stdin.lock().lines() {
        let Ok(line) = line else { break };
        if line.trim().is_empty() {
            continue;
        }
        let case: J = serde_json::from_str(&line).expect("harness: bad case");
        STARTED.store(now_ms(&t0), Ordering::SeqCst);
        CUR.store(case["id"].as_u64().expect("harness: id"), Ordering::SeqCst);
        let out = run_case(&case);
        CUR.store(u64::MAX, Ordering::SeqCst);
        let mut o = std::io::stdout().lock();
        writeln!(o, "{out}").unwrap();
        o.flush().unwrap();
    }
}

fn main() {
    // Generous and fixed: whatever nesting the cases use must fit comfortably.
    std::thread::Builder::new()
        .stack_size(64 << 20)
        .spawn(real_main)
        .unwrap()
        .join()
        .unwrap();
}
