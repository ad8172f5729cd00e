//! Native replay: runs the same harness code on recorded inputs against the natively compiled crate.
//! Reads lines `<entry> <hex input>`; prints one line `<status> <hex observations> <message>` each.
use std::cell::RefCell;
use std::io::{BufRead, Write};
use std::panic;

/// Refuses allocations that no harness should need, as the executor does.
struct Alloc;
unsafe impl std::alloc::GlobalAlloc for Alloc {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        if l.size() > 64 << 20 {
            return std::ptr::null_mut();
        }
        std::alloc::System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
        std::alloc::System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: std::alloc::Layout, n: usize) -> *mut u8 {
        if n > 64 << 20 {
            return std::ptr::null_mut();
        }
        std::alloc::System.realloc(p, l, n)
    }
}
#[global_allocator]
static ALLOC: Alloc = Alloc;

struct St {
    input: Vec<u8>,
    pos: usize,
    obs: Vec<u8>,
}
thread_local!(static ST: RefCell<St> = const { RefCell::new(St { input: Vec::new(), pos: 0, obs: Vec::new() }) });

struct Killed;
struct Failed(String);

unsafe fn text(p: *const u8, n: usize) -> String {
    String::from_utf8_lossy(std::slice::from_raw_parts(p, n)).into_owned()
}

#[no_mangle]
pub extern "C-unwind" fn se_byte() -> u8 {
    ST.with(|s| {
        let mut s = s.borrow_mut();
        let i = s.pos;
        s.pos += 1;
        s.input.get(i).copied().unwrap_or(0)
    })
}
#[no_mangle]
pub extern "C-unwind" fn se_assume(c: u32) {
    if c == 0 {
        panic::panic_any(Killed)
    }
}
#[no_mangle]
pub unsafe extern "C-unwind" fn se_fail(p: *const u8, n: usize) {
    panic::panic_any(Failed(text(p, n)))
}
#[no_mangle]
pub unsafe extern "C-unwind" fn se_check(c: u32, p: *const u8, n: usize) {
    if c == 0 {
        panic::panic_any(Failed(text(p, n)))
    }
}
#[no_mangle]
pub extern "C-unwind" fn se_cover(_: *const u8, _: usize) {}
#[no_mangle]
pub extern "C-unwind" fn se_tag(_: *const u8, _: usize) {}
#[no_mangle]
pub unsafe extern "C-unwind" fn se_observe(p: *const u8, n: usize) {
    let b = std::slice::from_raw_parts(p, n);
    ST.with(|s| {
        let mut s = s.borrow_mut();
        s.obs.extend_from_slice(&(n as u32).to_le_bytes());
        s.obs.extend_from_slice(b);
    })
}
#[no_mangle]
pub extern "C-unwind" fn se_concretize(v: u64) -> u64 {
    v
}

fn hex(b: &[u8]) -> String {
    if b.is_empty() {
        return "-".into();
    }
    b.iter().map(|x| format!("{x:02x}")).collect()
}

fn main() {
    panic::set_hook(Box::new(|_| {}));
    let stdin = std::io::stdin();
    let mut out = std::io::stdout();
    for line in stdin.lock().lines() {
        let line = line.unwrap();
        let mut it = line.split_whitespace();
        let (Some(entry), Some(h)) = (it.next(), it.next()) else { continue };
        let h = if h == "-" { "" } else { h };
        let input: Vec<u8> = (0..h.len() / 2).map(|k| u8::from_str_radix(&h[2 * k..2 * k + 2], 16).unwrap()).collect();
        let Some(f) = hx::entry(entry) else {
            writeln!(out, "NOENTRY - {entry}").unwrap();
            continue;
        };
        // every run in its own thread: fresh per-thread state, stack overflow stays contained to the process
        let (st, obs, msg) = std::thread::Builder::new()
            .stack_size(8 << 20)
            .spawn(move || {
                ST.with(|s| *s.borrow_mut() = St { input, pos: 0, obs: Vec::new() });
                phash::reset();
                let r = panic::catch_unwind(|| f());
                let obs = ST.with(|s| std::mem::take(&mut s.borrow_mut().obs));
                let (st, msg) = match r {
                    Ok(()) => ("OK", String::new()),
                    Err(e) => {
                        if e.is::<Killed>() {
                            ("ASSUME", String::new())
                        } else if let Some(x) = e.downcast_ref::<Failed>() {
                            ("FAIL", x.0.clone())
                        } else if let Some(x) = e.downcast_ref::<String>() {
                            ("PANIC", x.clone())
                        } else if let Some(x) = e.downcast_ref::<&str>() {
                            ("PANIC", x.to_string())
                        } else {
                            ("PANIC", "?".into())
                        }
                    }
                };
                (st, obs, msg)
            })
            .unwrap()
            .join()
            .unwrap();
        writeln!(out, "{st} {} {}", hex(&obs), msg.replace('\n', " ")).unwrap();
        out.flush().unwrap();
    }
}
