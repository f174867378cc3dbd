//! Forked children: a pristine process per execution.
use crate::hooks::{coverage_bytes, merge_coverage, progress, EXIT_DEADLOCK, EXIT_NO_PROGRESS};
use crate::plan::Violation;
use std::sync::atomic::Ordering::Relaxed;

pub enum End {
    Exit(i32),
    Signal(i32),
}

impl End {
    /// What the death of a child says about the library call it was making
    pub fn violation(&self, what: &str) -> Violation {
        let (class, detail) = match self {
            End::Exit(EXIT_NO_PROGRESS) => ("no-progress".to_string(), "a library call exceeded its step budget".to_string()),
            End::Exit(EXIT_DEADLOCK) => ("deadlock".to_string(), "every simulated thread waits".to_string()),
            End::Exit(c) => (format!("exit-{c}"), format!("the process ended with code {c}")),
            End::Signal(s) if *s == libc::SIGALRM => ("stalled".to_string(), "a library call did not return (wall-clock watchdog)".to_string()),
            End::Signal(s) => (format!("signal-{s}"), format!("the process was killed by signal {s}")),
        };
        Violation { class, detail: format!("{what}: {detail}") }
    }
}

/// Runs `f` in a forked child and returns what it returned.
pub fn run<T: serde::Serialize + serde::de::DeserializeOwned>(seconds: u32, f: impl FnOnce() -> T) -> Result<T, End> {
    let mut fds = [0i32; 2];
    unsafe {
        assert_eq!(libc::pipe(fds.as_mut_ptr()), 0);
        let pid = libc::fork();
        assert!(pid >= 0, "fork");
        if pid == 0 {
            libc::close(fds[0]);
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            libc::alarm(seconds);
            let v = f();
            let cov: Vec<u32> = coverage_bytes().iter().enumerate().filter(|(_, b)| **b != 0).map(|(i, _)| i as u32).collect();
            let text = serde_json::to_vec(&(v, cov)).expect("result");
            let mut done = 0;
            while done < text.len() {
                let n = libc::write(fds[1], text[done..].as_ptr() as *const _, text.len() - done);
                if n <= 0 {
                    libc::_exit(99);
                }
                done += n as usize;
            }
            libc::_exit(0);
        }
        libc::close(fds[1]);
        let mut data = Vec::new();
        let mut buffer = vec![0u8; 65536];
        loop {
            let n = libc::read(fds[0], buffer.as_mut_ptr() as *mut _, buffer.len());
            if n < 0 && *libc::__errno_location() == libc::EINTR {
                continue;
            }
            if n <= 0 {
                break;
            }
            data.extend(&buffer[..n as usize]);
        }
        libc::close(fds[0]);
        let mut status = 0;
        while libc::waitpid(pid, &mut status, 0) < 0 && *libc::__errno_location() == libc::EINTR {}
        progress().in_lib.store(0, Relaxed);
        progress().beat.fetch_add(1, Relaxed);
        if libc::WIFSIGNALED(status) {
            return Err(End::Signal(libc::WTERMSIG(status)));
        }
        match libc::WEXITSTATUS(status) {
            0 => {
                let (v, cov): (T, Vec<u32>) = serde_json::from_slice(&data).expect("child result");
                let mut map = vec![0u8; cov.iter().max().map_or(0, |m| *m as usize + 1)];
                for i in cov {
                    map[i as usize] = 1;
                }
                merge_coverage(&map);
                Ok(v)
            }
            c => Err(End::Exit(c)),
        }
    }
}
