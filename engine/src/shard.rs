//! Spreads independent analyses over processes: the compiler's data is not shared between threads, but a
//! forked child has all of it.
use std::io::Read;
use std::os::fd::{AsRawFd, FromRawFd};

extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, status: *mut i32, options: i32) -> i32;
    fn _exit(code: i32) -> !;
    fn pipe(fds: *mut i32) -> i32;
}

/// Run jobs 0..n, each giving lines of text; all lines, in no particular order of jobs.
pub fn run(n: usize, job: impl Fn(usize) -> Vec<String>) -> Result<Vec<String>, String> {
    let w = std::env::var("YARY_JOBS").ok().and_then(|x| x.parse().ok()).unwrap_or_else(|| std::thread::available_parallelism().map_or(4, |n| n.get())).min(8).min(n.max(1));
    if w <= 1 { return Ok((0..n).flat_map(job).collect()) }
    let mut kids = vec![];
    // jobs are handed out through a pipe: a byte pair is the number of a job
    let mut q = [0i32; 2];
    if unsafe { pipe(q.as_mut_ptr()) } != 0 { return Err("no pipe".into()) }
    let (qr, mut qw) = unsafe { (std::fs::File::from_raw_fd(q[0]), std::fs::File::from_raw_fd(q[1])) };
    for _ in 0..w {
        let mut fds = [0i32; 2];
        if unsafe { pipe(fds.as_mut_ptr()) } != 0 { return Err("no pipe".into()) }
        match unsafe { fork() } {
            -1 => return Err("fork failed".into()),
            0 => {
                use std::io::Write;
                unsafe { drop(std::fs::File::from_raw_fd(q[1])); }
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                    let mut out = unsafe { std::fs::File::from_raw_fd(fds[1]) };
                    let mut src = unsafe { std::fs::File::from_raw_fd(qr.as_raw_fd()) };
                    let mut b = [0u8; 2];
                    while src.read_exact(&mut b).is_ok() {
                        let mut t = String::new();
                        for l in job(u16::from_le_bytes(b) as usize) { t.push_str(&l.replace('\n', " ")); t.push('\n') }
                        t.push_str("done\n");
                        if out.write_all(t.as_bytes()).is_err() { unsafe { _exit(3) } }
                    }
                }));
                unsafe { _exit(if r.is_ok() { 0 } else { 4 }) }
            }
            pid => { unsafe { drop(std::fs::File::from_raw_fd(fds[1])); } kids.push((pid, unsafe { std::fs::File::from_raw_fd(fds[0]) })) }
        }
    }
    drop(qr);
    let all: Vec<u8> = (0..n).flat_map(|i| (i as u16).to_le_bytes()).collect();
    { use std::io::Write; qw.write_all(&all).map_err(|e| e.to_string())?; }
    drop(qw);
    let mut out = vec![];
    let mut done = 0;
    let mut bad = None;
    // read all children at once so that none of them has to wait
    let texts: Vec<(i32, String)> = std::thread::scope(|s| {
        let h: Vec<_> = kids.into_iter().map(|(pid, mut f)| s.spawn(move || { let mut t = String::new(); let _ = f.read_to_string(&mut t); (pid, t) })).collect();
        h.into_iter().map(|h| h.join().unwrap()).collect()
    });
    for (pid, t) in texts {
        let mut st = 0i32;
        unsafe { waitpid(pid, &mut st, 0) };
        if st != 0 { bad = Some(format!("an analysis process ended with status {}", st)) }
        for l in t.lines() { if l == "done" { done += 1 } else { out.push(l.to_string()) } }
    }
    if let Some(b) = bad { return Err(b) }
    if done != n { return Err(format!("{} of {} analyses finished", done, n)) }
    Ok(out)
}
