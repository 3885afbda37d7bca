//! Runs work items in forked workers. A worker that crashes or hangs is
//! replaced; the item step it was in counts as a failed execution.
use std::collections::BTreeSet;
use std::time::{Duration, Instant};

pub struct Ctx {
    cell: *mut u64,
    /// steps known to crash or hang
    pub bad: BTreeSet<(usize, usize)>,
}
impl Ctx {
    /// Called before every execution; false when it must be taken as failed.
    pub fn enter(&self, item: usize, step: usize) -> bool {
        unsafe {
            std::ptr::write_volatile(self.cell, 1 + ((item as u64) << 24 | step as u64));
            let beat = self.cell.add(1);
            std::ptr::write_volatile(beat, std::ptr::read_volatile(beat) + 1);
        }
        !self.bad.contains(&(item, step))
    }
}

const HANG: Duration = Duration::from_secs(4);
/// after this many crashes or hangs the remaining work is abandoned
const MAX_CRASHES: usize = 96;

/// `work(ctx, item, out)` writes to `out`; outputs are concatenated per worker.
/// An item interrupted by a crash is started again, so it may report twice.
pub fn run<F: Fn(&Ctx, usize, &mut dyn std::io::Write)>(items: usize, workers: usize, work: F) -> (Vec<String>, usize) {
    unsafe {
        let page = libc::mmap(
            std::ptr::null_mut(),
            4096,
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED | libc::MAP_ANONYMOUS,
            -1,
            0,
        ) as *mut u64;
        assert!(page as isize != -1);
        let dir = std::env::temp_dir().join(format!("vp-pool-{}", std::process::id()));
        std::fs::create_dir_all(&dir).unwrap();
        struct W {
            pid: i32,
            start: usize,
            bad: BTreeSet<(usize, usize)>,
            beat: u64,
            seen: Instant,
            part: usize,
        }
        let spawn = |w: usize, start: usize, part: usize, bad: &BTreeSet<(usize, usize)>| -> i32 {
            let cell = page.add(w * 16);
            std::ptr::write_volatile(cell, 0);
            let pid = libc::fork();
            assert!(pid >= 0);
            if pid == 0 {
                let ctx = Ctx { cell, bad: bad.clone() };
                let path = dir.join(format!("{w}-{part}"));
                use std::io::Write;
                let mut f = std::io::BufWriter::new(std::fs::File::create(path).unwrap());
                let mut item = start;
                while item < items {
                    work(&ctx, item, &mut f);
                    f.flush().unwrap();
                    item += workers;
                }
                f.flush().unwrap();
                drop(f);
                libc::_exit(0);
            }
            pid
        };
        let mut ws: Vec<W> = vec![];
        for w in 0..workers {
            let bad = BTreeSet::new();
            let pid = spawn(w, w, 0, &bad);
            ws.push(W { pid, start: w, bad, beat: 0, seen: Instant::now(), part: 0 });
        }
        let mut crashes = 0;
        let mut live = workers;
        while live > 0 {
            std::thread::sleep(Duration::from_millis(5));
            for w in 0..workers {
                if ws[w].pid == 0 {
                    continue;
                }
                let cell = page.add(w * 16);
                let beat = std::ptr::read_volatile(cell.add(1));
                if beat != ws[w].beat {
                    ws[w].beat = beat;
                    ws[w].seen = Instant::now();
                } else if ws[w].seen.elapsed() > HANG {
                    libc::kill(ws[w].pid, libc::SIGKILL);
                }
                let mut st = 0;
                let r = libc::waitpid(ws[w].pid, &mut st, libc::WNOHANG);
                if r == ws[w].pid {
                    if libc::WIFEXITED(st) && libc::WEXITSTATUS(st) == 0 {
                        ws[w].pid = 0;
                        live -= 1;
                    } else {
                        let pos = std::ptr::read_volatile(cell);
                        if pos == 0 {
                            panic!("worker died outside an execution");
                        }
                        let pos = pos - 1;
                        let at = ((pos >> 24) as usize, (pos & 0xff_ffff) as usize);
                        crashes += 1;
                        if !ws[w].bad.insert(at) {
                            panic!("worker died repeatedly at {at:?}");
                        }
                        if crashes > MAX_CRASHES {
                            ws[w].pid = 0;
                            live -= 1;
                            continue;
                        }
                        ws[w].start = at.0;
                        ws[w].part += 1;
                        let (s, p) = (ws[w].start, ws[w].part);
                        let bad = ws[w].bad.clone();
                        ws[w].pid = spawn(w, s, p, &bad);
                        ws[w].seen = Instant::now();
                    }
                }
            }
        }
        let mut out = vec![];
        for (w, x) in ws.iter().enumerate() {
            for p in 0..=x.part {
                let path = dir.join(format!("{w}-{p}"));
                out.push(std::fs::read_to_string(&path).unwrap_or_default());
            }
        }
        let _ = std::fs::remove_dir_all(&dir);
        (out, crashes)
    }
}
