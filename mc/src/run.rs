//! Shared machinery: panic capture, per-thread journal, watchdog.
use std::cell::RefCell;
use std::io::{Seek, SeekFrom, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::PathBuf;
use std::sync::atomic::{AtomicU64, Ordering::*};
use std::sync::OnceLock;

pub fn threads() -> usize {
    static N: OnceLock<usize> = OnceLock::new();
    *N.get_or_init(|| std::env::var("MC_THREADS").ok().and_then(|x| x.parse().ok()).unwrap_or_else(|| std::thread::available_parallelism().map(|x| x.get()).unwrap_or(4)).clamp(1, MAXT))
}
pub const MAXT: usize = 16;

thread_local! {
    static GUARD: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
    static LAST: RefCell<String> = const { RefCell::new(String::new()) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|i| {
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let p = i.payload();
        let m = p.downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| p.downcast_ref::<String>().cloned()).unwrap_or_default();
        if !GUARD.with(|g| g.get()) {
            eprintln!("panic outside an explored operation at {loc}: {m}");
        }
        LAST.with(|l| {
            let mut l = l.borrow_mut();
            if l.is_empty() {
                *l = format!("panic at {loc}: {m}");
            }
        });
    }));
}

/// Runs `f`, turning a panic into Err(description).
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    LAST.with(|l| l.borrow_mut().clear());
    let was = GUARD.with(|g| g.replace(true));
    let r = catch_unwind(AssertUnwindSafe(f)).map_err(|_| LAST.with(|l| l.borrow().clone()));
    GUARD.with(|g| g.set(was));
    r
}

static STARTS: [AtomicU64; MAXT] = [const { AtomicU64::new(0) }; MAXT];
static JDIR: OnceLock<PathBuf> = OnceLock::new();

fn now_ms() -> u64 {
    static T: OnceLock<std::time::Instant> = OnceLock::new();
    T.get_or_init(std::time::Instant::now).elapsed().as_millis() as u64 + 1
}

pub fn set_journal(dir: &str) {
    let p = PathBuf::from(dir);
    let _ = std::fs::create_dir_all(&p);
    let _ = JDIR.set(p);
}

fn slot_path(w: usize) -> Option<PathBuf> {
    JDIR.get().map(|d| d.join(format!("slot{w}")))
}

/// A journal file a crash leaves behind: the first line is the operation under way, the rest a
/// replay file of the state it ran on.
pub struct Slot {
    w: usize,
    f: Option<std::fs::File>,
}

const LINE: usize = 4096;

impl Slot {
    pub fn open(w: usize) -> Slot {
        let f = slot_path(w).and_then(|p| std::fs::OpenOptions::new().create(true).write(true).truncate(false).open(p).ok());
        Slot { w, f }
    }
    pub fn state(&mut self, text: &str) {
        if let Some(f) = &mut self.f {
            let mut b = vec![b' '; LINE];
            b[LINE - 1] = b'\n';
            b.extend_from_slice(text.as_bytes());
            let _ = f.seek(SeekFrom::Start(0));
            let _ = f.write_all(&b);
            let _ = f.set_len(b.len() as u64);
        }
    }
    pub fn op(&mut self, s: &str) {
        STARTS[self.w].store(now_ms(), Relaxed);
        if let Some(f) = &mut self.f {
            use std::os::unix::fs::FileExt;
            let l = format!("cur {s} #\n");
            let _ = f.write_at(&l.as_bytes()[..l.len().min(LINE - 1)], 0);
        }
    }
    pub fn idle(&mut self) {
        STARTS[self.w].store(0, Relaxed);
    }
}

/// Reads a journal slot back as a replay text (the operation under way appended to its history).
pub fn slot_to_replay(text: &str) -> Option<String> {
    let cur = text.strip_prefix("cur ")?;
    let cur = cur[..cur.find(" #\n")?].to_string();
    let body = &text[text.find("engine ")?..];
    let mut out = String::new();
    for l in body.lines() {
        if let Some(o) = l.strip_prefix("ops ") {
            out.push_str(&format!("ops {}{}{}\n", o, if o.is_empty() { "" } else { ";" }, cur));
        } else {
            out.push_str(l);
            out.push('\n');
        }
    }
    Some(out)
}

fn rss_mb() -> u64 {
    std::fs::read_to_string("/proc/self/statm").ok().and_then(|s| s.split_whitespace().nth(1).and_then(|x| x.parse::<u64>().ok())).unwrap_or(0) * 4096 >> 20
}

/// Ends the process with a violation when one operation does not come back.
pub fn watchdog(limit_s: u64, mem_mb: u64) {
    std::thread::spawn(move || loop {
        std::thread::sleep(std::time::Duration::from_millis(200));
        let n = now_ms();
        let big = rss_mb() > mem_mb;
        for w in 0..MAXT {
            let s = STARTS[w].load(Relaxed);
            if s == 0 {
                continue;
            }
            let age = n.saturating_sub(s);
            if age > limit_s * 1000 || (big && age > 2000) {
                let text = slot_path(w).and_then(|p| std::fs::read(p).ok()).map(|b| String::from_utf8_lossy(&b).into_owned()).and_then(|t| slot_to_replay(&t)).unwrap_or_default();
                println!("HANG {}", age / 1000);
                println!("REPLAY-BEGIN\n{text}REPLAY-END");
                std::process::exit(3);
            }
        }
        if big && rss_mb() > mem_mb * 5 / 4 {
            println!("OUT-OF-MEMORY-BUDGET");
            std::process::exit(4);
        }
    });
}
