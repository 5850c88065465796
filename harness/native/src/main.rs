// Native replay of a harness entry on concrete inputs.
//
// usage: vh_native FILE   where FILE holds lines:
//   entry NAME
//   param N          (in order)
//   sym HEX          (in order of the vh_sym calls; '-' for an empty one)
// Several cases may follow each other; each starts with an `entry` line.
//
// Prints per case: "case NAME" then events, then "end ok|check|panic|assume|input".
#[allow(unused_extern_crates)]
extern crate rescan;
use std::cell::RefCell;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};

include!(concat!(env!("RESCAN_VERIF"), "/table.rs"));

#[derive(Default)]
struct St {
    params: Vec<u64>,
    syms: Vec<Vec<u8>>,
    next: usize,
    failed: Vec<String>,
    events: Vec<String>,
    observed: Vec<String>,
}
thread_local!(static ST: RefCell<St> = RefCell::new(St::default()));
struct Stop(&'static str);

unsafe fn text(p: *const u8, n: usize) -> String {
    String::from_utf8_lossy(std::slice::from_raw_parts(p, n)).into_owned()
}
fn event(kind: u8, s: &str) {
    ST.with(|st| {
        let mut st = st.borrow_mut();
        if kind != b'c' {
            st.events.push(format!("{} {}", kind as char, s));
        }
    })
}

#[no_mangle]
pub unsafe extern "C-unwind" fn vh_sym(p: *mut u8, n: usize, np: *const u8, nl: usize) {
    let r = ST.with(|st| {
        let mut st = st.borrow_mut();
        let i = st.next;
        st.next += 1;
        match st.syms.get(i).cloned() {
            Some(v) if v.len() == n => {
                std::ptr::copy_nonoverlapping(v.as_ptr(), p, n);
                st.events.push(format!("s {} = {:02x?}", text(np, nl), v));
                true
            }
            _ => false,
        }
    });
    if !r {
        resume_unwind(Box::new(Stop("input")));
    }
}
#[no_mangle]
pub extern "C-unwind" fn vh_assume(b: bool) {
    if !b {
        resume_unwind(Box::new(Stop("assume")));
    }
}
#[no_mangle]
pub unsafe extern "C-unwind" fn vh_check(b: bool, p: *const u8, n: usize) {
    let s = text(p, n);
    event(b'c', &s);
    if !b {
        ST.with(|st| {
            let mut st = st.borrow_mut();
            st.events.push(format!("CHECK FAILED: {}", s));
            st.failed.push(s);
        });
    }
}
#[no_mangle]
pub unsafe extern "C-unwind" fn vh_cover(p: *const u8, n: usize) {
    event(b'v', &text(p, n));
}
#[no_mangle]
pub unsafe extern "C-unwind" fn vh_observe(v: u64, p: *const u8, n: usize) {
    let s = format!("{}={}", text(p, n), v);
    ST.with(|st| st.borrow_mut().observed.push(s))
}
#[no_mangle]
pub extern "C-unwind" fn vh_param(i: u64) -> u64 {
    ST.with(|st| st.borrow().params.get(i as usize).copied().unwrap_or(0))
}
#[no_mangle]
pub extern "C-unwind" fn vh_concretize(v: u64) -> u64 {
    v
}
#[no_mangle]
pub extern "C-unwind" fn vh_catch(f: fn(*mut u8), p: *mut u8) -> u32 {
    match catch_unwind(AssertUnwindSafe(|| f(p))) {
        Ok(()) => 0,
        Err(e) => {
            if e.is::<Stop>() {
                resume_unwind(e);
            }
            event(b'p', "");
            1
        }
    }
}

fn run(name: &str, params: Vec<u64>, syms: Vec<Vec<u8>>) {
    println!("case {}", name);
    let f = match TABLE.iter().find(|t| t.0 == name) {
        Some(t) => t.1,
        None => {
            println!("end noentry");
            return;
        }
    };
    ST.with(|st| {
        *st.borrow_mut() = St {
            params,
            syms,
            ..St::default()
        }
    });
    use std::io::Write;
    std::io::stdout().flush().unwrap();
    let r = catch_unwind(AssertUnwindSafe(|| unsafe { f() }));
    let st = ST.with(|st| std::mem::take(&mut *st.borrow_mut()));
    for e in st.events.iter().take(400) {
        println!("  {}", e);
    }
    for e in st.observed.iter() {
        println!("o {}", e);
    }
    if !st.failed.is_empty() {
        println!("end check");
        return;
    }
    match r {
        Ok(()) => println!("end ok"),
        Err(e) => match e.downcast_ref::<Stop>() {
            Some(s) => println!("end {}", s.0),
            None => println!("end panic"),
        },
    }
}

fn main() {
    let file = std::env::args().nth(1).expect("replay file");
    let txt = std::fs::read_to_string(file).expect("readable");
    std::panic::set_hook(Box::new(|i| println!("  panic: {}", i)));
    let mut cur: Option<(String, Vec<u64>, Vec<Vec<u8>>)> = None;
    for l in txt.lines() {
        let mut w = l.split_whitespace();
        match w.next() {
            Some("entry") => {
                if let Some((n, p, s)) = cur.take() {
                    run(&n, p, s);
                }
                cur = Some((w.next().unwrap().to_string(), vec![], vec![]));
            }
            Some("param") => cur.as_mut().unwrap().1.push(w.next().unwrap().parse().unwrap()),
            Some("sym") => {
                let h = w.next().unwrap();
                let v = if h == "-" {
                    vec![]
                } else {
                    (0..h.len() / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap()).collect()
                };
                cur.as_mut().unwrap().2.push(v);
            }
            _ => {}
        }
    }
    if let Some((n, p, s)) = cur.take() {
        run(&n, p, s);
    }
}
