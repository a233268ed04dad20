//! Interposed file system calls. The harness binary defines the libc symbols std uses, so
//! every file operation of the code under test on a file below a registered directory passes
//! through here: it is logged, can be made to fail or to be partial, and reads can be held
//! back until the scheduler releases them. Everything else goes straight to the kernel.

#![allow(invalid_runtime_symbol_definitions, suspicious_runtime_symbol_definitions)]

use std::collections::HashMap;
use std::ffi::CStr;
use std::os::raw::{c_char, c_int, c_void};
use std::sync::atomic::{AtomicU8, Ordering::SeqCst};
use std::sync::{Arc, Condvar, Mutex, RwLock};

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub enum Call {
    Open,
    Write,
    Read,
    Sync,
    Seek,
    Truncate,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Act {
    Go,
    /// fail with errno, this call only
    Fail(c_int),
    /// fail with errno, this and every later call of this kind
    FailOn(c_int),
    /// transfer at most n bytes
    Short(usize),
    /// interrupted before anything happened
    Intr,
}

/// Fault for the `nth` call of kind `call` on the file called `file`.
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Fault {
    pub file: String,
    pub call: Call,
    pub nth: usize,
    pub act: Act,
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Event {
    Open { file: String, trunc: bool },
    Write { file: String, off: u64, data: Vec<u8> },
    SyncStart { file: String, id: usize },
    SyncEnd { file: String, id: usize, ok: bool },
    /// a sync failed: what had not reached the device may be gone, and a later sync succeeds all the same
    Lost { file: String },
    Truncate { file: String, len: u64 },
    /// the name appeared in the directory
    Named { file: String },
    Unlink { file: String },
    /// recorded by the harness: an operation returned success
    Mark(&'static str),
}

impl Event {
    pub fn file(&self) -> Option<&String> {
        match self {
            Event::Open { file, .. }
            | Event::Write { file, .. }
            | Event::SyncStart { file, .. }
            | Event::SyncEnd { file, .. }
            | Event::Lost { file }
            | Event::Truncate { file, .. }
            | Event::Named { file }
            | Event::Unlink { file } => Some(file),
            Event::Mark(_) => None,
        }
    }
    fn set_file(&mut self, to: &str) {
        match self {
            Event::Open { file, .. }
            | Event::Write { file, .. }
            | Event::SyncStart { file, .. }
            | Event::SyncEnd { file, .. }
            | Event::Lost { file }
            | Event::Truncate { file, .. }
            | Event::Named { file }
            | Event::Unlink { file } => *file = to.to_string(),
            Event::Mark(_) => {}
        }
    }
}

pub struct Gated {
    pub id: usize,
    pub off: u64,
    pub len: usize,
    pub released: Option<Act>,
}

/// A call (or a point of the harness) that waits for the scheduler.
#[derive(Clone, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub struct Held {
    pub group: usize,
    pub file: String,
    pub what: &'static str,
    pub id: usize,
}

#[derive(Default)]
pub struct State {
    /// every call that opens, changes, syncs or renames something waits for the scheduler
    pub hold: bool,
    held: Vec<Held>,
    pub faults: Vec<Fault>,
    pub counts: HashMap<(String, Call), usize>,
    pub log: Vec<Event>,
    pub hit: usize,
    pub gate: bool,
    /// writes to files whose names end so take so many microseconds
    pub slow: Vec<(&'static str, u64)>,
    /// reads at this offset take so many microseconds
    pub slow_reads: Vec<(u64, u64)>,
    pub gated: Vec<Gated>,
    /// writes of 16 KiB and more leave holes; what they were is noted in `holes`
    pub discard: bool,
    /// file, offset, length, and the byte if they were all equal
    pub holes: Vec<(String, u64, usize, Option<u8>)>,
    next: usize,
    /// paths opened, with whether they were opened for writing
    pub opened: Vec<(String, bool)>,
}

/// One observed directory.
pub struct Session {
    pub dir: String,
    pub st: Mutex<State>,
    cv: Condvar,
}

struct Fd {
    session: Arc<Session>,
    file: String,
    append: bool,
}

const MAXFD: usize = 4096;
#[allow(clippy::declare_interior_mutable_const)]
const Z: AtomicU8 = AtomicU8::new(0);
static TRACKED: [AtomicU8; MAXFD] = [Z; MAXFD];
static FDS: Mutex<Option<HashMap<c_int, Arc<Fd>>>> = Mutex::new(None);
static SESSIONS: RwLock<Vec<Arc<Session>>> = RwLock::new(Vec::new());

impl Session {
    /// Observe `dir` (created if needed).
    pub fn new(dir: &str) -> Arc<Session> {
        std::fs::create_dir_all(dir).expect("scratch dir");
        let s = Arc::new(Session {
            dir: format!("{}/", dir.trim_end_matches('/')),
            st: Mutex::new(State::default()),
            cv: Condvar::new(),
        });
        SESSIONS.write().unwrap().push(s.clone());
        s
    }
    pub fn end(&self) {
        SESSIONS.write().unwrap().retain(|s| s.dir != self.dir);
    }
    pub fn count(&self, file: &str, call: Call) -> usize {
        let st = self.st.lock().unwrap();
        st.counts.get(&(file.to_string(), call)).copied().unwrap_or(0)
    }
    pub fn counts(&self) -> Vec<(String, Call, usize)> {
        let st = self.st.lock().unwrap();
        let mut v: Vec<_> = st.counts.iter().map(|((f, c), n)| (f.clone(), *c, *n)).collect();
        v.sort();
        v
    }
    pub fn hits(&self) -> usize {
        self.st.lock().unwrap().hit
    }
    pub fn mark(&self, m: &'static str) {
        self.st.lock().unwrap().log.push(Event::Mark(m));
    }
    pub fn take_log(&self) -> Vec<Event> {
        std::mem::take(&mut self.st.lock().unwrap().log)
    }
    /// The name of `file` is on stable storage when sync returns: its directory was synced
    /// after it appeared, unless it was there before.
    pub fn check_named(log: &[Event], file: &str) -> Result<(), String> {
        let mark = log.iter().rposition(|e| *e == Event::Mark("sync")).ok_or("no sync")?;
        let named = match log[..mark].iter().rposition(|e| matches!(e, Event::Named { file: f } if f == file)) {
            None => return Ok(()),
            Some(n) => n,
        };
        let log = &log[named..mark];
        if log.contains(&Event::Lost { file: ".".into() }) {
            return Err(format!("sync had returned, although syncing the directory of {} failed", file));
        }
        let synced = log.iter().any(|e| match e {
            Event::SyncEnd { file: f, id, ok: true } if f == "." => log
                .iter()
                .any(|s| matches!(s, Event::SyncStart { id: h, .. } if h == id)),
            _ => false,
        });
        if synced {
            Ok(())
        } else {
            Err(format!("sync had returned, but a crash can lose {}: its directory was not synced", file))
        }
    }
    /// Reads waiting at the gate: (id, offset, length), ordered by offset.
    pub fn waiting(&self) -> Vec<(usize, u64, usize)> {
        let st = self.st.lock().unwrap();
        let mut v: Vec<_> = st
            .gated
            .iter()
            .filter(|g| g.released.is_none())
            .map(|g| (g.id, g.off, g.len))
            .collect();
        v.sort_by_key(|g| (g.1, g.2, g.0));
        v
    }
    pub fn release(&self, id: usize, act: Act) {
        let mut st = self.st.lock().unwrap();
        if let Some(g) = st.gated.iter_mut().find(|g| g.id == id) {
            g.released = Some(act);
        }
        self.cv.notify_all();
    }
    /// What waits for the scheduler, in a fixed order.
    pub fn held(&self) -> Vec<Held> {
        let mut v = self.st.lock().unwrap().held.clone();
        v.sort();
        v
    }
    pub fn let_go(&self, id: usize) {
        self.st.lock().unwrap().held.retain(|h| h.id != id);
        self.cv.notify_all();
    }
    /// Waits for the scheduler if there is one.
    pub fn hold(&self, file: &str, what: &'static str) {
        let mut st = self.st.lock().unwrap();
        if !st.hold {
            return;
        }
        let group = THREADS.lock().unwrap().as_ref().and_then(|m| m.get(&gettid()).copied());
        let id = st.next;
        st.next += 1;
        st.held.push(Held { group: group.unwrap_or(0), file: file.to_string(), what, id });
        while st.held.iter().any(|h| h.id == id) {
            st = self.cv.wait(st).unwrap();
        }
    }
    pub fn open_gate(&self) {
        let mut st = self.st.lock().unwrap();
        st.hold = false;
        st.held.clear();
        st.gate = false;
        for g in st.gated.iter_mut() {
            g.released.get_or_insert(Act::Go);
        }
        self.cv.notify_all();
    }
}

impl State {
    fn next_act(&mut self, file: &str, call: Call) -> Act {
        let n = self.counts.entry((file.to_string(), call)).or_insert(0);
        let k = *n;
        *n += 1;
        for f in &self.faults {
            if f.file == file && f.call == call {
                let sticky = matches!(f.act, Act::FailOn(_));
                if f.nth == k || (sticky && k > f.nth) {
                    self.hit += 1;
                    return f.act;
                }
            }
        }
        Act::Go
    }
}

fn errno(e: c_int) {
    unsafe { *libc::__errno_location() = e }
}

fn lookup(fd: c_int) -> Option<Arc<Fd>> {
    if fd < 0 || fd as usize >= MAXFD || TRACKED[fd as usize].load(SeqCst) == 0 {
        return None;
    }
    FDS.lock().unwrap().as_ref().and_then(|m| m.get(&fd).cloned())
}

/// The absolute path without `.`, `..` and repeated slashes. (No links are involved.)
fn normalised(s: &str) -> Option<String> {
    let mut b = [0u8; 4096];
    let mut parts: Vec<&str> = vec![];
    if !s.starts_with('/') {
        let n = unsafe { libc::syscall(libc::SYS_getcwd, b.as_mut_ptr(), b.len()) };
        if n > 1 {
            parts.extend(std::str::from_utf8(&b[..n as usize - 1]).ok()?.split('/'));
        }
    }
    for x in s.split('/') {
        parts.push(x);
    }
    let mut out: Vec<&str> = vec![];
    for x in parts {
        match x {
            "" | "." => {}
            ".." => {
                out.pop();
            }
            x => out.push(x),
        }
    }
    Some(format!("/{}", out.join("/")))
}

fn tracked_path(p: *const c_char) -> Option<(Arc<Session>, String)> {
    let s = unsafe { CStr::from_ptr(p) }.to_str().ok()?;
    let list = SESSIONS.read().ok()?;
    if list.is_empty() {
        return None;
    }
    let plain;
    let s = if s.starts_with('/') && !s.contains("/.") && !s.contains("//") {
        s
    } else {
        plain = normalised(s)?;
        &plain
    };
    list.iter().find_map(|x| {
        if s.starts_with(x.dir.as_str()) {
            let rest = s[x.dir.len()..].trim_start_matches("./").trim_matches('/');
            let rest = if rest.is_empty() { "." } else { rest };
            Some((x.clone(), rest.to_string()))
        } else if s.len() + 1 == x.dir.len() && x.dir.starts_with(s) {
            Some((x.clone(), ".".to_string()))
        } else {
            None
        }
    })
}

unsafe fn do_open(dirfd: c_int, path: *const c_char, flags: c_int, mode: libc::c_uint) -> c_int {
    let t = tracked_path(path);
    let raw = |flags: c_int| {
        libc::syscall(libc::SYS_openat, dirfd as i64, path, flags as i64, mode as i64) as c_int
    };
    match t {
        None => raw(flags),
        Some((session, file)) => {
            session.hold(&file, "open");
            let act = session.st.lock().unwrap().next_act(&file, Call::Open);
            match act {
                Act::Fail(e) | Act::FailOn(e) => {
                    errno(e);
                    return -1;
                }
                Act::Intr => {
                    errno(libc::EINTR);
                    return -1;
                }
                _ => {}
            }
            let existed = flags & libc::O_CREAT == 0
                || libc::syscall(libc::SYS_faccessat, dirfd as i64, path, libc::F_OK as i64) == 0;
            let fd = raw(flags);
            if fd >= 0 && !existed {
                session.st.lock().unwrap().log.push(Event::Named { file: file.clone() });
            }
            if fd >= 0 && (fd as usize) < MAXFD {
                let writing = flags & libc::O_ACCMODE != libc::O_RDONLY;
                {
                    let mut st = session.st.lock().unwrap();
                    st.opened.push((file.clone(), writing));
                    if writing {
                        st.log.push(Event::Open {
                            file: file.clone(),
                            trunc: flags & libc::O_TRUNC != 0,
                        });
                    }
                }
                FDS.lock().unwrap().get_or_insert_with(HashMap::new).insert(
                    fd,
                    Arc::new(Fd {
                        session,
                        file,
                        append: flags & libc::O_APPEND != 0,
                    }),
                );
                TRACKED[fd as usize].store(1, SeqCst);
            }
            fd
        }
    }
}

#[no_mangle]
pub unsafe extern "C" fn open64(path: *const c_char, flags: c_int, mode: libc::c_uint) -> c_int {
    do_open(libc::AT_FDCWD, path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn open(path: *const c_char, flags: c_int, mode: libc::c_uint) -> c_int {
    do_open(libc::AT_FDCWD, path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn openat64(d: c_int, path: *const c_char, flags: c_int, mode: libc::c_uint) -> c_int {
    do_open(d, path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn openat(d: c_int, path: *const c_char, flags: c_int, mode: libc::c_uint) -> c_int {
    do_open(d, path, flags, mode)
}

#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    if lookup(fd).is_some() {
        TRACKED[fd as usize].store(0, SeqCst);
        if let Some(m) = FDS.lock().unwrap().as_mut() {
            m.remove(&fd);
        }
    }
    libc::syscall(libc::SYS_close, fd as i64) as c_int
}

unsafe fn do_write(fd: c_int, buf: *const c_void, n: usize, at: Option<i64>) -> isize {
    let raw = |n: usize| match at {
        None => libc::syscall(libc::SYS_write, fd as i64, buf, n) as isize,
        Some(o) => libc::syscall(libc::SYS_pwrite64, fd as i64, buf, n, o) as isize,
    };
    let f = match lookup(fd) {
        None => return raw(n),
        Some(f) => f,
    };
    f.session.hold(&f.file, "write");
    let (act, slow) = {
        let mut st = f.session.st.lock().unwrap();
        let slow = st.slow.iter().find(|s| f.file.ends_with(s.0)).map_or(0, |s| s.1);
        (st.next_act(&f.file, Call::Write), slow)
    };
    if slow > 0 {
        std::thread::sleep(std::time::Duration::from_micros(slow));
    }
    let n = match act {
        Act::Fail(e) | Act::FailOn(e) => {
            errno(e);
            return -1;
        }
        Act::Intr => {
            errno(libc::EINTR);
            return -1;
        }
        Act::Short(k) => k.min(n),
        Act::Go => n,
    };
    let off = match at {
        Some(o) => o as u64,
        None => {
            let whence = if f.append { libc::SEEK_END } else { libc::SEEK_CUR };
            libc::syscall(libc::SYS_lseek, fd as i64, 0i64, whence as i64) as u64
        }
    };
    // the log entry must be in place before anybody can observe the write's completion
    let mut st = f.session.st.lock().unwrap();
    if st.discard && n >= 1 << 14 {
        let data = std::slice::from_raw_parts(buf as *const u8, n);
        let same = data[..n - 1] == data[1..];
        st.holes.push((f.file.clone(), off, n, if same { Some(data[0]) } else { None }));
        let end = off as i64 + n as i64;
        let last = (buf as *const u8).add(n - 1);
        if libc::syscall(libc::SYS_pwrite64, fd as i64, last, 1usize, end - 1) != 1 {
            return -1;
        }
        if at.is_none() {
            libc::syscall(libc::SYS_lseek, fd as i64, end, libc::SEEK_SET as i64);
        }
        return n as isize;
    }
    let r = raw(n);
    if r > 0 {
        let data = std::slice::from_raw_parts(buf as *const u8, r as usize).to_vec();
        st.log.push(Event::Write {
            file: f.file.clone(),
            off,
            data,
        });
    }
    r
}

#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, n: usize) -> isize {
    do_write(fd, buf, n, None)
}
#[no_mangle]
pub unsafe extern "C" fn pwrite64(fd: c_int, buf: *const c_void, n: usize, off: i64) -> isize {
    do_write(fd, buf, n, Some(off))
}
#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, iov: *const libc::iovec, cnt: c_int) -> isize {
    if lookup(fd).is_none() {
        return libc::syscall(libc::SYS_writev, fd as i64, iov, cnt as i64) as isize;
    }
    let mut total = 0;
    for i in 0..cnt as usize {
        let v = &*iov.add(i);
        if v.iov_len == 0 {
            continue;
        }
        let r = do_write(fd, v.iov_base, v.iov_len, None);
        if r < 0 {
            return if total > 0 { total } else { r };
        }
        total += r;
        if (r as usize) < v.iov_len {
            break;
        }
    }
    total
}

unsafe fn do_read(fd: c_int, buf: *mut c_void, n: usize, at: Option<i64>) -> isize {
    let raw = |n: usize| match at {
        None => libc::syscall(libc::SYS_read, fd as i64, buf, n) as isize,
        Some(o) => libc::syscall(libc::SYS_pread64, fd as i64, buf, n, o) as isize,
    };
    let f = match lookup(fd) {
        None => return raw(n),
        Some(f) => f,
    };
    let mut act = {
        let mut st = f.session.st.lock().unwrap();
        let off = at.unwrap_or(-1) as u64;
        let slow = st.slow_reads.iter().find(|s| s.0 == off).map_or(0, |s| s.1);
        let act = st.next_act(&f.file, Call::Read);
        drop(st);
        if slow > 0 {
            std::thread::sleep(std::time::Duration::from_micros(slow));
        }
        act
    };
    {
        let mut st = f.session.st.lock().unwrap();
        if st.gate {
            let id = st.next;
            st.next += 1;
            st.gated.push(Gated {
                id,
                off: at.unwrap_or(-1) as u64,
                len: n,
                released: None,
            });
            loop {
                let r = st.gated.iter().find(|g| g.id == id).and_then(|g| g.released);
                if let Some(a) = r {
                    st.gated.retain(|g| g.id != id);
                    act = a;
                    break;
                }
                st = f.session.cv.wait(st).unwrap();
            }
        }
    }
    match act {
        Act::Fail(e) | Act::FailOn(e) => {
            errno(e);
            -1
        }
        Act::Intr => {
            errno(libc::EINTR);
            -1
        }
        Act::Short(k) => raw(k.min(n)),
        Act::Go => raw(n),
    }
}

#[no_mangle]
pub unsafe extern "C" fn pread64(fd: c_int, buf: *mut c_void, n: usize, off: i64) -> isize {
    do_read(fd, buf, n, Some(off))
}
#[no_mangle]
pub unsafe extern "C" fn pread(fd: c_int, buf: *mut c_void, n: usize, off: i64) -> isize {
    do_read(fd, buf, n, Some(off))
}
#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, buf: *mut c_void, n: usize) -> isize {
    do_read(fd, buf, n, None)
}

unsafe fn do_sync(fd: c_int, nr: libc::c_long) -> c_int {
    let f = match lookup(fd) {
        None => return libc::syscall(nr, fd as i64) as c_int,
        Some(f) => f,
    };
    f.session.hold(&f.file, "sync");
    let mut st = f.session.st.lock().unwrap();
    let act = st.next_act(&f.file, Call::Sync);
    let id = st.next;
    st.next += 1;
    st.log.push(Event::SyncStart {
        file: f.file.clone(),
        id,
    });
    let (ok, e) = match act {
        Act::Fail(e) | Act::FailOn(e) => (false, e),
        Act::Intr => (false, libc::EINTR),
        _ => (true, 0),
    };
    // durability is simulated: nothing is sent to the device
    st.log.push(Event::SyncEnd {
        file: f.file.clone(),
        id,
        ok,
    });
    if !ok && e != libc::EINTR {
        st.log.push(Event::Lost { file: f.file.clone() });
    }
    if ok {
        0
    } else {
        errno(e);
        -1
    }
}

#[no_mangle]
pub unsafe extern "C" fn fsync(fd: c_int) -> c_int {
    do_sync(fd, libc::SYS_fsync)
}
#[no_mangle]
pub unsafe extern "C" fn fdatasync(fd: c_int) -> c_int {
    do_sync(fd, libc::SYS_fdatasync)
}

#[no_mangle]
pub unsafe extern "C" fn lseek64(fd: c_int, off: i64, whence: c_int) -> i64 {
    if let Some(f) = lookup(fd) {
        match f.session.st.lock().unwrap().next_act(&f.file, Call::Seek) {
            Act::Fail(e) | Act::FailOn(e) => {
                errno(e);
                return -1;
            }
            _ => {}
        }
    }
    libc::syscall(libc::SYS_lseek, fd as i64, off, whence as i64)
}

#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: c_int, len: i64) -> c_int {
    if let Some(f) = lookup(fd) {
        f.session.hold(&f.file, "truncate");
        let mut st = f.session.st.lock().unwrap();
        match st.next_act(&f.file, Call::Truncate) {
            Act::Fail(e) | Act::FailOn(e) => {
                errno(e);
                return -1;
            }
            Act::Intr => {
                errno(libc::EINTR);
                return -1;
            }
            _ => {}
        }
        st.log.push(Event::Truncate {
            file: f.file.clone(),
            len: len as u64,
        });
    }
    libc::syscall(libc::SYS_ftruncate, fd as i64, len) as c_int
}

unsafe fn do_rename(from: *const c_char, to: *const c_char) -> c_int {
    let (a, b) = (tracked_path(from), tracked_path(to));
    if let Some((session, file)) = &a {
        session.hold(file, "rename");
    }
    let r = libc::syscall(libc::SYS_renameat2, libc::AT_FDCWD as i64, from, libc::AT_FDCWD as i64, to, 0i64) as c_int;
    if r != 0 {
        return r;
    }
    if let (Some((session, a)), Some((_, b))) = (a, b) {
        // the history of the old name becomes the history of the new one
        let mut st = session.st.lock().unwrap();
        st.log.retain(|e| e.file() != Some(&b));
        for e in st.log.iter_mut() {
            if e.file() == Some(&a) {
                e.set_file(&b);
            }
        }
        st.log.push(Event::Unlink { file: a });
        st.log.push(Event::Named { file: b });
    }
    r
}

#[no_mangle]
pub unsafe extern "C" fn rename(from: *const c_char, to: *const c_char) -> c_int {
    do_rename(from, to)
}

#[no_mangle]
pub unsafe extern "C" fn unlink(path: *const c_char) -> c_int {
    let t = tracked_path(path);
    if let Some((session, file)) = &t {
        session.hold(file, "unlink");
    }
    let r = libc::syscall(libc::SYS_unlinkat, libc::AT_FDCWD as i64, path, 0i64) as c_int;
    if let (0, Some((session, file))) = (r, t) {
        session.st.lock().unwrap().log.push(Event::Unlink { file });
    }
    r
}

// ------------------------------------------------------------------ threads

/// Known threads: tid -> group. Group 0: the harness's own; otherwise a runtime's.
static THREADS: Mutex<Option<HashMap<i32, usize>>> = Mutex::new(None);

pub fn gettid() -> i32 {
    unsafe { libc::syscall(libc::SYS_gettid) as i32 }
}

pub fn register(group: usize) {
    THREADS.lock().unwrap().get_or_insert_with(HashMap::new).insert(gettid(), group);
}

pub fn unregister() {
    if let Ok(mut t) = THREADS.lock() {
        if let Some(m) = t.as_mut() {
            m.remove(&gettid());
        }
    }
}

/// True once every thread of `group`, and every thread this module does not know, is asleep:
/// nothing happens on behalf of that runtime until the scheduler acts. The caller is excluded.
pub fn quiescent(group: usize) -> bool {
    quiescent_all(&[group])
}

pub fn quiescent_all(groups: &[usize]) -> bool {
    let me = gettid();
    let scan = || -> Option<u64> {
        let mut sig = 0u64;
        let known = THREADS.lock().unwrap().clone().unwrap_or_default();
        for e in std::fs::read_dir("/proc/self/task").ok()? {
            let tid: i32 = e.ok()?.file_name().to_str()?.parse().ok()?;
            let unknown = match known.get(&tid) {
                Some(g) if !groups.contains(g) => continue,
                Some(_) => false,
                None => true,
            };
            if tid == me {
                continue;
            }
            let s = match std::fs::read_to_string(format!("/proc/self/task/{}/status", tid)) {
                Ok(s) => s,
                Err(_) => return None, // exiting: look again
            };
            let mut asleep = false;
            for l in s.lines() {
                if let Some(v) = l.strip_prefix("State:") {
                    asleep = v.trim_start().starts_with('S');
                } else if l.starts_with("voluntary_ctxt") || l.starts_with("nonvoluntary_ctxt") {
                    sig = sig
                        .wrapping_mul(1_000_003)
                        .wrapping_add(l.bytes().fold(tid as u64, |a, b| a.wrapping_mul(31) + b as u64));
                }
            }
            if !asleep {
                return None;
            }
            if unknown {
                sig ^= 1 << 63;
            }
        }
        Some(sig)
    };
    let t0 = std::time::Instant::now();
    loop {
        if let Some(a) = scan() {
            if a >> 63 == 1 {
                // an unknown thread (possibly one just being started): give it time
                std::thread::sleep(std::time::Duration::from_micros(300));
            }
            if scan() == Some(a) {
                return true;
            }
        }
        if t0.elapsed().as_secs() > 8 {
            return false;
        }
        std::thread::yield_now();
    }
}

/// After a reported sync, everything written must have been followed by a successful fsync.
pub fn check_synced(log: &[Event], file: &str, mark: &str) -> Result<(), String> {
    for (i, e) in log.iter().enumerate() {
        if *e != Event::Mark(match mark { "sync" => "sync", m => panic!("{}", m) }) {
            continue;
        }
        let last_write = log[..i].iter().rposition(
            |e| matches!(e, Event::Write { file: f, .. } | Event::Truncate { file: f, .. } if f == file),
        );
        let w = match last_write {
            None => continue,
            Some(w) => w,
        };
        let synced = log[w + 1..i].iter().any(|e| match e {
            Event::SyncEnd { file: f, id, ok: true } if f == file => log[w + 1..i]
                .iter()
                .any(|s| matches!(s, Event::SyncStart { file: g, id: h } if g == file && h == id)),
            _ => false,
        });
        if log[w..i].contains(&Event::Lost { file: file.to_string() }) {
            return Err(format!("sync reported success although a sync of {} failed after its last write", file));
        }
        if !synced {
            return Err(format!(
                "sync reported success but {} was not synced after its last write",
                file
            ));
        }
    }
    Ok(())
}
