//! The command line of a simulated process. The standard library keeps the pointer to the original
//! argument vector, which is rewritten in place (the harness is started with enough dummies).
use std::ffi::CString;
use std::os::raw::{c_char, c_int};
use std::sync::atomic::{AtomicPtr, AtomicUsize, Ordering};

static ARGV: AtomicPtr<*const c_char> = AtomicPtr::new(std::ptr::null_mut());
static ARGC: AtomicUsize = AtomicUsize::new(0);

extern "C" fn capture(argc: c_int, argv: *mut *const c_char, _env: *const *const c_char) {
    ARGV.store(argv, Ordering::Relaxed);
    ARGC.store(argc as usize, Ordering::Relaxed);
}
#[used]
#[link_section = ".init_array.00098"]
static CAPTURE: extern "C" fn(c_int, *mut *const c_char, *const *const c_char) = capture;

/// One include directory, in one of the spellings that the command line knows.
pub fn include(args: &mut Vec<String>, dir: &str, spelling: u64) {
    match spelling % 8 {
        4 => args.push(format!("--include={dir}")),
        5 if !dir.is_empty() => args.push(format!("-i{dir}")),
        6 => args.push(format!("-i={dir}")),
        s => {
            args.push((if s % 2 == 0 { "-i" } else { "--include" }).into());
            args.push(dir.into())
        }
    }
}

pub const DUMMIES: usize = 40;

pub fn set(args: &[String]) {
    let argv = ARGV.load(Ordering::Relaxed);
    let argc = ARGC.load(Ordering::Relaxed);
    assert!(!argv.is_null() && args.len() <= argc, "not enough argument slots ({argc})");
    for (i, a) in args.iter().enumerate() {
        let c = CString::new(a.as_bytes()).unwrap_or_default();
        // leaked: a simulated process may keep references
        unsafe { *argv.add(i) = c.into_raw() };
    }
    unsafe { *argv.add(args.len()) = std::ptr::null() };
}
