//! A thread whose effects on the outside are observed: system calls that a pure computation does
//! not need are stopped by a filter and recorded, and so are look-ups of environment variables and
//! readings of the clock, which need no system call.
use std::cell::Cell;
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::sync::mpsc;

/// Kinds of effects that are not system calls.
pub const ENV: i64 = -1;
pub const CLOCK: i64 = -2;

const KEEP: usize = 64;
static SEEN: [AtomicU64; KEEP] = [const { AtomicU64::new(0) }; KEEP];
static COUNT: AtomicUsize = AtomicUsize::new(0);

thread_local! {
    static INSIDE: Cell<bool> = const { Cell::new(false) };
}

/// Called where an effect is observed. Async-signal-safe.
pub fn record(what: i64) {
    let i = COUNT.fetch_add(1, SeqCst);
    if i < KEEP {
        SEEN[i].store(what as u64, SeqCst);
    }
}

/// Whether this thread is running code under test inside the sandbox.
pub fn inside() -> bool {
    INSIDE.try_with(|i| i.get()).unwrap_or(false)
}

fn name(n: i64) -> String {
    let known: &[(i64, &str)] = &[
        (ENV, "an environment variable was read"),
        (CLOCK, "the clock was read"),
        (libc::SYS_read, "read"),
        (libc::SYS_write, "write"),
        (libc::SYS_writev, "writev"),
        (libc::SYS_open, "open"),
        (libc::SYS_openat, "openat"),
        (libc::SYS_close, "close"),
        (libc::SYS_socket, "socket"),
        (libc::SYS_execve, "execve"),
        (libc::SYS_nanosleep, "nanosleep"),
        (libc::SYS_clock_nanosleep, "clock_nanosleep"),
        (libc::SYS_statx, "statx"),
        (libc::SYS_unlink, "unlink"),
        (libc::SYS_mkdir, "mkdir"),
        (libc::SYS_getcwd, "getcwd"),
        (libc::SYS_getpid, "getpid"),
    ];
    known.iter().find(|k| k.0 == n).map_or(format!("system call {n}"), |k| k.1.to_string())
}

/// Takes the effects observed since the last call.
pub fn taken() -> Vec<String> {
    let n = COUNT.swap(0, SeqCst).min(KEEP);
    let mut out: Vec<String> = (0..n).map(|i| name(SEEN[i].load(SeqCst) as i64)).collect();
    out.sort();
    out.dedup();
    out
}

#[cfg(not(miri))]
mod filter {
    use super::record;

    // What memory management, threads, locks and this sandbox need.
    const ALLOWED: &[i64] = &[
        libc::SYS_mmap, libc::SYS_munmap, libc::SYS_mremap, libc::SYS_brk, libc::SYS_madvise, libc::SYS_mprotect,
        libc::SYS_futex, libc::SYS_sched_yield, libc::SYS_rt_sigreturn, libc::SYS_rt_sigprocmask, libc::SYS_sigaltstack,
        libc::SYS_exit, libc::SYS_exit_group, libc::SYS_clone, libc::SYS_clone3, libc::SYS_rseq, libc::SYS_set_robust_list,
        libc::SYS_gettid, libc::SYS_membarrier, libc::SYS_restart_syscall, libc::SYS_clock_gettime, libc::SYS_prctl,
        libc::SYS_sched_getaffinity, libc::SYS_getrandom, libc::SYS_tgkill, libc::SYS_set_tid_address,
        libc::SYS_arch_prctl, libc::SYS_mbind, libc::SYS_get_mempolicy,
    ];

    const AUDIT_ARCH_X86_64: u32 = 0xc000_003e;
    const SECCOMP_RET_ALLOW: u32 = 0x7fff_0000;
    const SECCOMP_RET_TRAP: u32 = 0x0003_0000;

    extern "C" fn stopped(_: i32, info: *mut libc::siginfo_t, context: *mut libc::c_void) {
        unsafe {
            let c = &mut *(context as *mut libc::ucontext_t);
            let regs = &mut c.uc_mcontext.gregs;
            // si_syscall lies behind si_call_addr
            let nr = *((info as *const u8).add(24) as *const i32) as i64;
            let path = regs[libc::REG_RSI as usize] as *const u8;
            // the number of processors is found there
            let machine = |p: *const u8| (*p == b'/') && ((*p.add(1) == b'p' && *p.add(2) == b'r') || (*p.add(1) == b's' && *p.add(2) == b'y'));
            if !(nr == libc::SYS_openat && machine(path)) {
                record(nr);
            }
            regs[libc::REG_RAX as usize] = match nr {
                // pretend, so that a message does not end in a panic
                libc::SYS_write => regs[libc::REG_RDX as usize],
                libc::SYS_nanosleep | libc::SYS_clock_nanosleep => 0,
                _ => -(libc::EPERM as i64),
            };
        }
    }

    /// Puts the calling thread under the filter for good.
    pub fn install() -> Result<(), String> {
        let stmt = |code: u32, k: u32| libc::sock_filter { code: code as u16, jt: 0, jf: 0, k };
        let jump = |k: u32, jt: usize, jf: u8| libc::sock_filter {
            code: (libc::BPF_JMP | libc::BPF_JEQ | libc::BPF_K) as u16,
            jt: jt as u8,
            jf,
            k,
        };
        let load = |k: u32| stmt(libc::BPF_LD | libc::BPF_W | libc::BPF_ABS, k);
        let ret = |k: u32| stmt(libc::BPF_RET | libc::BPF_K, k);
        let mut prog = vec![load(4), jump(AUDIT_ARCH_X86_64, 1, 0), ret(SECCOMP_RET_ALLOW), load(0)];
        for (i, nr) in ALLOWED.iter().enumerate() {
            prog.push(jump(*nr as u32, ALLOWED.len() - i, 0));
        }
        prog.push(ret(SECCOMP_RET_TRAP));
        prog.push(ret(SECCOMP_RET_ALLOW));
        unsafe {
            let mut action: libc::sigaction = std::mem::zeroed();
            action.sa_sigaction = stopped as usize;
            action.sa_flags = libc::SA_SIGINFO | libc::SA_NODEFER;
            if libc::sigaction(libc::SIGSYS, &action, std::ptr::null_mut()) != 0 {
                return Err("sigaction".into());
            }
            if libc::prctl(libc::PR_SET_NO_NEW_PRIVS, 1, 0, 0, 0) != 0 {
                return Err("no_new_privs".into());
            }
            let p = libc::sock_fprog { len: prog.len() as u16, filter: prog.as_mut_ptr() };
            if libc::prctl(libc::PR_SET_SECCOMP, libc::SECCOMP_MODE_FILTER, &p as *const _ as usize, 0, 0) != 0 {
                return Err(format!("seccomp: {}", std::io::Error::last_os_error()));
            }
        }
        Ok(())
    }
}

#[cfg(miri)]
mod filter {
    pub fn install() -> Result<(), String> {
        Err("not under Miri".into())
    }
}

type Job = Box<dyn FnOnce() + Send>;

pub struct Sandbox {
    jobs: mpsc::Sender<Job>,
    done: mpsc::Receiver<()>,
}

impl Sandbox {
    pub fn start() -> Result<Sandbox, String> {
        let (jobs, inbox) = mpsc::channel::<Job>();
        let (outbox, done) = mpsc::channel();
        let (ready, readied) = mpsc::channel();
        std::thread::spawn(move || {
            // the seeds of this thread's hash maps
            let _ = std::collections::HashMap::<u8, u8>::new();
            let _ = ready.send(filter::install());
            for job in inbox {
                job();
                let _ = outbox.send(());
            }
        });
        readied.recv().map_err(|_| "the sandboxed thread died".to_string())??;
        Ok(Sandbox { jobs, done })
    }

    /// Runs the job in the sandbox and returns its value and what it tried to do outside.
    pub fn run<T: Send + 'static>(&self, job: impl FnOnce() -> T + Send + 'static) -> Option<(T, Vec<String>)> {
        use std::io::Write;
        let _ = taken();
        let (tx, rx) = mpsc::channel();
        self.jobs
            .send(Box::new(move || {
                INSIDE.with(|i| i.set(true));
                let r = job();
                // text that a library left in the buffer of the standard output
                let _ = std::io::stdout().flush();
                INSIDE.with(|i| i.set(false));
                let _ = tx.send(r);
            }))
            .ok()?;
        self.done.recv().ok()?;
        let r = rx.try_recv().ok()?;
        Some((r, taken()))
    }
}

/// Threads of this process.
pub fn threads() -> usize {
    std::fs::read_dir("/proc/self/task").map_or(0, |d| d.count())
}
