//! A watchdog for operations that do not return, and the account of what is going on, which is
//! reported when the process dies.

use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

static TICK: AtomicU64 = AtomicU64::new(0);
static NOTEFILE: Mutex<Option<std::fs::File>> = Mutex::new(None);
static NOTE: Mutex<String> = Mutex::new(String::new());

/// Called before each case or operation: says that there is progress, and what comes next.
pub fn note(s: impl FnOnce() -> String) {
    TICK.fetch_add(1, Ordering::Relaxed);
    let mut n = NOTE.lock().unwrap_or_else(|e| e.into_inner());
    *n = s();
    // Left behind for the case that the process is killed.
    if let Some(f) = NOTEFILE.lock().unwrap_or_else(|e| e.into_inner()).as_mut() {
        use std::io::{Seek, Write};
        let _ = f.seek(std::io::SeekFrom::Start(0));
        let _ = f.write_all(format!("{n:<400}\n").as_bytes());
    }
}
pub fn tick() {
    TICK.fetch_add(1, Ordering::Relaxed);
}

/// Ends the process with status 97 when nothing has happened for `secs` seconds.
pub fn start(secs: u64, out: &str) {
    let path = format!("{out}.hang");
    *NOTEFILE.lock().unwrap() = std::fs::File::create(format!("{out}.note")).ok();
    std::thread::spawn(move || {
        let mut last = (TICK.load(Ordering::Relaxed), Instant::now());
        loop {
            std::thread::sleep(Duration::from_millis(500));
            let t = TICK.load(Ordering::Relaxed);
            if t != last.0 {
                last = (t, Instant::now());
            } else if last.1.elapsed() > Duration::from_secs(secs) {
                let n = NOTE.lock().unwrap_or_else(|e| e.into_inner()).clone();
                let _ = std::fs::write(&path, &n);
                eprintln!("no progress for {secs} s: {n}");
                std::process::exit(97);
            }
        }
    });
}

/// Panics of the code under test are data; keep them quiet but remember the message.
pub static LAST_PANIC: Mutex<String> = Mutex::new(String::new());
/// Whether code under test is running.
pub static GUARDED: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
pub fn quiet_panics() {
    let hook = |info: &std::panic::PanicHookInfo| {
        if GUARDED.load(Ordering::Relaxed) == 0 {
            eprintln!("the harness itself panicked: {info}");
        }
        if let Ok(mut m) = LAST_PANIC.lock() {
            *m = info.to_string().replace(['"', '\\', '\n', '\t'], " ");
        }
    };
    // Not what the code under test allocates and frees.
    std::panic::set_hook(Box::new(move |info| crate::own::off(|| hook(info))));
}
pub fn last_panic() -> String {
    LAST_PANIC.lock().map(|m| m.clone()).unwrap_or_default()
}
