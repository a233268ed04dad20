//! The tokio runtime the code under test runs on: one per explorer thread.

use std::cell::RefCell;
use std::future::Future;
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use std::sync::Arc;

use crate::explore::*;
use crate::shim::{self, Session};
use crate::util::*;

static GROUPS: AtomicUsize = AtomicUsize::new(1);

struct Local {
    rt: Option<tokio::runtime::Runtime>,
    multi: Option<(tokio::runtime::Runtime, usize)>,
}
impl Drop for Local {
    fn drop(&mut self) {
        self.rt.take();
        self.multi.take();
        shim::unregister();
    }
}

thread_local! {
    static RT: RefCell<Local> = RefCell::new(Local { rt: None, multi: None });
}

/// Run a future to completion on this explorer thread.
pub fn block_on<F: Future>(f: F) -> F::Output {
    RT.with(|r| {
        let mut r = r.borrow_mut();
        let rt = r.rt.get_or_insert_with(|| {
            tokio::runtime::Builder::new_current_thread()
                .max_blocking_threads(4)
                .on_thread_start(|| shim::register(usize::MAX))
                .on_thread_stop(shim::unregister)
                .build()
                .expect("runtime")
        });
        rt.block_on(f)
    })
}

/// Run `f` inside the context of a runtime driven by its own worker thread, whose threads
/// (worker and blocking pool) form the thread group passed to `f`.
pub fn with_multi<T>(f: impl FnOnce(&tokio::runtime::Runtime, usize) -> T) -> T {
    RT.with(|r| {
        let mut r = r.borrow_mut();
        let (rt, group) = r.multi.get_or_insert_with(|| {
            let group = GROUPS.fetch_add(1, SeqCst);
            shim::register(0);
            let rt = tokio::runtime::Builder::new_multi_thread()
                .worker_threads(1)
                .max_blocking_threads(16)
                .on_thread_start(move || shim::register(group))
                .on_thread_stop(shim::unregister)
                .build()
                .expect("runtime");
            (rt, group)
        });
        let _g = rt.enter();
        f(rt, *group)
    })
}

/// A scratch directory of this explorer thread, emptied and observed.
pub struct Dir {
    pub s: Arc<Session>,
    pub path: String,
}

impl Dir {
    pub fn new(ctx: &Ctx, tag: &str) -> Dir {
        let path = format!("{}/p{}-w{}-{}", scratch_root(), std::process::id(), ctx.worker, tag);
        std::fs::remove_dir_all(&path).ok();
        Dir {
            s: Session::new(&path),
            path,
        }
    }
    pub fn file(&self, name: &str) -> String {
        format!("{}/{}", self.path, name)
    }
    /// Content of a file, read without passing through the observer.
    pub fn content(&self, name: &str) -> Result<Vec<u8>, String> {
        raw_read(&self.file(name))
    }
    /// Sorted names of everything in the directory.
    pub fn list(&self) -> Vec<String> {
        let mut v = vec![];
        fn walk(p: &std::path::Path, base: &str, v: &mut Vec<String>) {
            if let Ok(d) = std::fs::read_dir(p) {
                for e in d.flatten() {
                    let q = e.path();
                    if q.is_dir() {
                        v.push(format!("{}/", &q.to_string_lossy()[base.len() + 1..]));
                        walk(&q, base, v);
                    } else {
                        v.push(q.to_string_lossy()[base.len() + 1..].to_string());
                    }
                }
            }
        }
        walk(std::path::Path::new(&self.path), &self.path, &mut v);
        v.sort();
        v
    }
}

impl Drop for Dir {
    fn drop(&mut self) {
        self.s.open_gate();
        self.s.end();
    }
}

pub fn raw_read(path: &str) -> Result<Vec<u8>, String> {
    let c = std::ffi::CString::new(path).unwrap();
    unsafe {
        let fd = libc::syscall(libc::SYS_openat, libc::AT_FDCWD as i64, c.as_ptr(), libc::O_RDONLY as i64, 0i64);
        if fd < 0 {
            return Err(format!("{}: {}", path, std::io::Error::last_os_error()));
        }
        let mut st: libc::stat = std::mem::zeroed();
        libc::fstat(fd as i32, &mut st);
        let mut v = vec![0u8; st.st_size as usize];
        let mut got = 0;
        while got < v.len() {
            let n = libc::syscall(libc::SYS_read, fd, v[got..].as_mut_ptr(), v.len() - got);
            if n <= 0 {
                break;
            }
            got += n as usize;
        }
        libc::syscall(libc::SYS_close, fd);
        v.truncate(got);
        Ok(v)
    }
}

pub fn raw_write(path: &str, data: &[u8]) {
    let c = std::ffi::CString::new(path).unwrap();
    unsafe {
        let fd = libc::syscall(
            libc::SYS_openat,
            libc::AT_FDCWD as i64,
            c.as_ptr(),
            (libc::O_WRONLY | libc::O_CREAT | libc::O_TRUNC) as i64,
            0o600i64,
        );
        assert!(fd >= 0, "{}cannot create {}", HARNESS, path);
        let mut put = 0;
        while put < data.len() {
            let n = libc::syscall(libc::SYS_write, fd, data[put..].as_ptr(), data.len() - put);
            assert!(n > 0, "{}cannot write {}", HARNESS, path);
            put += n as usize;
        }
        libc::syscall(libc::SYS_close, fd);
    }
}

/// Part of a file, read without passing through the observer; short at the end of the file.
pub fn raw_read_at(path: &str, at: u64, n: usize) -> Result<Vec<u8>, String> {
    let c = std::ffi::CString::new(path).unwrap();
    unsafe {
        let fd = libc::syscall(libc::SYS_openat, libc::AT_FDCWD as i64, c.as_ptr(), libc::O_RDONLY as i64, 0i64);
        if fd < 0 {
            return Err(format!("{}: {}", path, std::io::Error::last_os_error()));
        }
        let mut v = vec![0u8; n];
        let mut got = 0;
        while got < n {
            let k = libc::syscall(libc::SYS_pread64, fd, v[got..].as_mut_ptr(), n - got, at as i64 + got as i64);
            if k <= 0 {
                break;
            }
            got += k as usize;
        }
        libc::syscall(libc::SYS_close, fd);
        v.truncate(got);
        Ok(v)
    }
}

pub fn raw_len(path: &str) -> Result<u64, String> {
    let c = std::ffi::CString::new(path).unwrap();
    unsafe {
        let mut st: libc::stat = std::mem::zeroed();
        if libc::stat(c.as_ptr(), &mut st) != 0 {
            return Err(format!("{}: {}", path, std::io::Error::last_os_error()));
        }
        Ok(st.st_size as u64)
    }
}
