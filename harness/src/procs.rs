//! Process isolation. State the library might keep outside its own objects (a `static`, a
//! thread-local) must neither hide between runs nor make a run depend on the ones before it
//! unnoticed, so runs that have to be clean happen in a freshly forked child of a process that
//! never ran the library. Every forking process is single-threaded at that moment.
use std::io::{Read, Write};
use std::os::fd::FromRawFd;
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::{Duration, Instant};

fn child(f: impl FnOnce() -> Vec<u8>, fd: i32) -> ! {
    unsafe {
        libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
    }
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    let code = match r {
        Ok(b) => {
            let mut p = unsafe { std::fs::File::from_raw_fd(fd) };
            let ok = p.write_all(&b).is_ok();
            drop(p);
            if ok {
                0
            } else {
                71
            }
        }
        Err(e) => {
            let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()));
            eprintln!("simulator panicked: {}", m.unwrap_or_default());
            70
        }
    };
    unsafe { libc::_exit(code) }
}

fn pipe() -> (i32, i32) {
    let mut fds = [0i32; 2];
    assert_eq!(unsafe { libc::pipe2(fds.as_mut_ptr(), libc::O_CLOEXEC) }, 0, "pipe");
    (fds[0], fds[1])
}

/// Run `f` in a forked child and return its bytes; Err(status) if it did not end normally.
pub fn forked(f: impl FnOnce() -> Vec<u8>) -> Result<Vec<u8>, i32> {
    let (rd, wr) = pipe();
    let pid = unsafe { libc::fork() };
    assert!(pid >= 0, "fork");
    if pid == 0 {
        unsafe { libc::close(rd) };
        child(f, wr);
    }
    unsafe { libc::close(wr) };
    let mut p = unsafe { std::fs::File::from_raw_fd(rd) };
    let mut out = vec![];
    let read = p.read_to_end(&mut out);
    drop(p);
    let mut st = 0;
    unsafe { libc::waitpid(pid, &mut st, 0) };
    if st == 0 && read.is_ok() {
        Ok(out)
    } else {
        Err(st)
    }
}

/// Like `forked`, giving up after a time. None: still running, killed.
pub fn forked_for(secs: u64, f: impl FnOnce() -> Vec<u8>) -> Option<Result<Vec<u8>, i32>> {
    let mut f = Some(f);
    let mut rs = pool(1, secs, true, &mut |_, _| (f.take().unwrap())());
    match rs.pop().unwrap() {
        End::Done(b) => Some(Ok(b)),
        End::Died(_, st) => Some(Err(st)),
        End::Hung(_) | End::Killed => None,
    }
}

pub const MAX_JOBS: usize = 256;

/// Memory shared with the workers.
#[repr(C)]
pub struct Shared {
    /// Smallest run index with a violation.
    pub found: AtomicU64,
    /// Per worker: run index + 1, 0 when idle.
    pub at: [AtomicU64; MAX_JOBS],
}

pub enum End {
    Done(Vec<u8>),
    /// Ended abnormally during the run with that index: wait status.
    Died(u64, i32),
    Hung(u64),
    /// Stopped because another worker hung.
    Killed,
}

fn shared() -> &'static Shared {
    unsafe {
        let p = libc::mmap(
            std::ptr::null_mut(),
            std::mem::size_of::<Shared>(),
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED | libc::MAP_ANONYMOUS,
            -1,
            0,
        );
        assert!(p != libc::MAP_FAILED, "mmap");
        let s = &*(p as *const Shared);
        s.found.store(u64::MAX, Ordering::SeqCst);
        s
    }
}

/// Fork `jobs` workers and wait for them; a worker whose run index does not change for
/// `hang_secs` has hung (`idle_too`: also one that never set it). Only time in which this process
/// runs as well counts, so that a machine that is suspended or overloaded looks like no hang.
pub fn pool(jobs: usize, hang_secs: u64, idle_too: bool, f: &mut dyn FnMut(usize, &Shared) -> Vec<u8>) -> Vec<End> {
    let sh = shared();
    let mut pids = vec![];
    let mut fds = vec![];
    for j in 0..jobs {
        let (rd, wr) = pipe();
        let pid = unsafe { libc::fork() };
        assert!(pid >= 0, "fork");
        if pid == 0 {
            unsafe { libc::close(rd) };
            child(|| f(j, sh), wr);
        }
        unsafe {
            libc::close(wr);
            libc::fcntl(rd, libc::F_SETFL, libc::O_NONBLOCK);
        }
        pids.push(pid);
        fds.push(rd);
    }
    let mut outs: Vec<Vec<u8>> = vec![vec![]; jobs];
    let mut ends: Vec<Option<End>> = (0..jobs).map(|_| None).collect();
    let mut seen: Vec<(u64, Duration)> = vec![(u64::MAX, Duration::ZERO); jobs];
    let mut tick = Instant::now();
    let mut stop = false;
    let mut buf = vec![0u8; 1 << 16];
    while ends.iter().any(|e| e.is_none()) {
        let mut moved = false;
        let passed = tick.elapsed().min(Duration::from_millis(100));
        tick = Instant::now();
        for j in 0..jobs {
            if ends[j].is_some() {
                continue;
            }
            loop {
                let n = unsafe { libc::read(fds[j], buf.as_mut_ptr() as *mut libc::c_void, buf.len()) };
                if n <= 0 {
                    break;
                }
                outs[j].extend_from_slice(&buf[..n as usize]);
                moved = true;
            }
            let mut st = 0;
            let r = unsafe { libc::waitpid(pids[j], &mut st, libc::WNOHANG) };
            let at = sh.at[j].load(Ordering::SeqCst);
            if r == pids[j] {
                loop {
                    let n = unsafe { libc::read(fds[j], buf.as_mut_ptr() as *mut libc::c_void, buf.len()) };
                    if n <= 0 {
                        break;
                    }
                    outs[j].extend_from_slice(&buf[..n as usize]);
                }
                ends[j] = Some(if st == 0 {
                    End::Done(std::mem::take(&mut outs[j]))
                } else if stop {
                    End::Killed
                } else {
                    End::Died(at.saturating_sub(1), st)
                });
                if st != 0 && !stop {
                    stop = true;
                    kill_rest(&pids, &ends);
                }
                moved = true;
                continue;
            }
            if at != seen[j].0 {
                seen[j] = (at, Duration::ZERO);
                continue;
            }
            seen[j].1 += passed;
            if !stop && (at != 0 || idle_too) && seen[j].1.as_secs() >= hang_secs {
                stop = true;
                unsafe { libc::kill(pids[j], libc::SIGKILL) };
                let mut st = 0;
                unsafe { libc::waitpid(pids[j], &mut st, 0) };
                ends[j] = Some(End::Hung(at.saturating_sub(1)));
                kill_rest(&pids, &ends);
            }
        }
        if !moved {
            std::thread::sleep(Duration::from_millis(5));
        }
    }
    for fd in fds {
        unsafe { libc::close(fd) };
    }
    unsafe { libc::munmap(sh as *const Shared as *mut libc::c_void, std::mem::size_of::<Shared>()) };
    ends.into_iter().map(|e| e.unwrap()).collect()
}

fn kill_rest(pids: &[i32], ends: &[Option<End>]) {
    for (p, e) in pids.iter().zip(ends) {
        if e.is_none() {
            unsafe { libc::kill(*p, libc::SIGKILL) };
        }
    }
}
