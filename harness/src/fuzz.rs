//! Coverage-guided search: libFuzzer chooses the bytes from which a check's generator draws.

use crate::engine::*;
use crate::props;
use serde_json::json;
use std::ffi::{c_char, c_int, CString};
use std::sync::Mutex;
use std::time::Instant;

extern "C" {
    fn LLVMFuzzerRunDriver(argc: *mut c_int, argv: *mut *mut *mut c_char, one: extern "C" fn(*const u8, usize) -> c_int) -> c_int;
    fn atexit(f: extern "C" fn()) -> c_int;
}

struct State {
    property: &'static str,
    sub: Sub,
    out: String,
    stats: Stats,
    start: Instant,
    failure: Option<Failure>,
}

static STATE: Mutex<Option<State>> = Mutex::new(None);

extern "C" fn one(data: *const u8, size: usize) -> c_int {
    let data = if size == 0 { &[] } else { unsafe { std::slice::from_raw_parts(data, size) } };
    let mut guard = STATE.lock().unwrap();
    let s = guard.as_mut().unwrap();
    s.failure = s.sub.body.fuzz(data, &mut s.stats);
    if s.failure.is_some() {
        drop(guard);
        std::process::exit(1);
    }
    0
}

/// Writes the report when libFuzzer ends the process.
extern "C" fn report() {
    let Ok(mut guard) = STATE.try_lock() else { return };
    let Some(s) = guard.take() else { return };
    let failure = s.failure.map(|f| {
        json!({
            "property": s.property, "check": s.sub.name, "config": "fuzz",
            "message": f.message, "case": f.case, "shrinks": f.shrinks,
        })
    });
    let v = json!({"coverage": coverage(&s.sub, &s.stats, s.start.elapsed().as_secs_f64()), "failure": failure});
    let _ = std::fs::write(&s.out, v.to_string());
}

/// `args` go to libFuzzer.
pub fn run(id: &str, check: &str, out: &str, args: &[String]) -> i32 {
    let Some(p) = props::find(id) else { return 2 };
    let Some(sub) = p.subs.into_iter().find(|s| s.name == check) else { return 2 };
    working_on(p.id, sub.name);
    *STATE.lock().unwrap() = Some(State { property: p.id, sub, out: out.into(), stats: Stats::default(), start: Instant::now(), failure: None });
    let mut argv: Vec<*mut c_char> = std::iter::once("fm-harness")
        .chain(args.iter().map(|a| a.as_str()))
        .map(|a| CString::new(a).unwrap().into_raw())
        .collect();
    let mut argc = argv.len() as c_int;
    argv.push(std::ptr::null_mut());
    let mut argv = argv.as_mut_ptr();
    unsafe {
        atexit(report);
        LLVMFuzzerRunDriver(&mut argc, &mut argv, one)
    }
}
