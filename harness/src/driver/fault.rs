//! Faults: the engine is interrupted after so many of its steps, or the database may not grow.
use rusqlite::ffi;
use serde_json::Value as J;
use std::os::raw::{c_int, c_void};
use std::sync::atomic::{AtomicI64, Ordering};

static LEFT: AtomicI64 = AtomicI64::new(-1);

unsafe extern "C" fn step(_: *mut c_void) -> c_int {
    if LEFT.fetch_sub(1, Ordering::SeqCst) == 0 { 1 } else { 0 }
}

/// Arm what the operation asks for: {"steps": n} or {"pages": n}.
pub fn arm(c: &rusqlite::Connection, op: &J) {
    let f = &op["fault"];
    if let Some(n) = f["steps"].as_i64() {
        LEFT.store(n, Ordering::SeqCst);
        unsafe { ffi::sqlite3_progress_handler(c.handle(), 1, Some(step), std::ptr::null_mut()); }
    }
    if let Some(n) = f["pages"].as_i64() {
        let now: i64 = c.query_row("PRAGMA page_count", rusqlite::NO_PARAMS, |r| r.get(0)).unwrap();
        let _: i64 = c.query_row(&format!("PRAGMA max_page_count = {}", now + n), rusqlite::NO_PARAMS, |r| r.get(0)).unwrap();
    }
}

pub fn disarm(c: &rusqlite::Connection, op: &J) {
    if op["fault"].is_null() { return; }
    unsafe { ffi::sqlite3_progress_handler(c.handle(), 0, None, std::ptr::null_mut()); }
    let _: i64 = c.query_row("PRAGMA max_page_count = 1073741823", rusqlite::NO_PARAMS, |r| r.get(0)).unwrap();
}
