//! The few system calls the runner needs.
use std::ffi::c_void;
use std::os::fd::AsRawFd;
use std::sync::atomic::Ordering;

extern "C" {
	fn dup(fd: i32) -> i32;
	fn dup2(a: i32, b: i32) -> i32;
	fn mmap(addr: *mut c_void, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut c_void;
	fn setrlimit(res: i32, lim: *const [u64; 2]) -> i32;
}

/// The code under test prints a lot; send it to /dev/null.
pub fn silence_stdout() -> i32 {
	use std::io::Write;
	let _ = std::io::stdout().flush();
	unsafe {
		let saved = dup(1);
		if let Ok(f) = std::fs::OpenOptions::new().write(true).open("/dev/null") { dup2(f.as_raw_fd(), 1); }
		saved
	}
}
pub fn restore_stdout(saved: i32) { use std::io::Write; let _ = std::io::stdout().flush(); unsafe { dup2(saved, 1); } }
pub fn limit_memory(bytes: u64) { unsafe { let l = [bytes, bytes]; setrlimit(9, &l); } }
pub fn map_shared(path: &std::path::Path, len: usize) -> Option<*mut c_void> {
	let f = std::fs::OpenOptions::new().read(true).write(true).create(true).open(path).ok()?;
	f.set_len(len as u64).ok()?;
	let p = unsafe { mmap(std::ptr::null_mut(), len, 3, 1, f.as_raw_fd(), 0) };
	if p as isize == -1 { None } else { Some(p) }
}

/// Hash keys of the standard library's `RandomState` come from here, so set iteration order is a
/// reproducible function of `HASH_SEED`.
#[no_mangle]
pub extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
	let mut z = crate::engine::HASH_SEED.load(Ordering::Relaxed).wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03;
	for i in 0..len {
		z ^= z << 13; z ^= z >> 7; z ^= z << 17;
		unsafe { *buf.add(i) = (z >> 24) as u8; }
	}
	len as isize
}
