fn main() {
    let mut c = vcommon::runner::Ctx::from_args();
    public_monitors::dispatch(&mut c);
    c.finish()
}

/// Functions of the C library that tell about the outside without a system call: these stand in
/// front of them and record the calls made in the sandbox.
#[cfg(not(any(miri, verif_sanitizer)))]
mod watched {
    use vcommon::sandbox::{inside, record, CLOCK, ENV};

    extern "C" {
        static environ: *const *const libc::c_char;
    }

    #[no_mangle]
    pub unsafe extern "C" fn getenv(name: *const libc::c_char) -> *mut libc::c_char {
        if inside() {
            record(ENV);
        }
        let n = libc::strlen(name);
        let mut e = environ;
        while !e.is_null() && !(*e).is_null() {
            if libc::strncmp(*e, name, n) == 0 && *(*e).add(n) == b'=' as libc::c_char {
                return (*e).add(n + 1) as *mut libc::c_char;
            }
            e = e.add(1);
        }
        std::ptr::null_mut()
    }

    #[no_mangle]
    pub unsafe extern "C" fn clock_gettime(id: libc::clockid_t, t: *mut libc::timespec) -> libc::c_int {
        if inside() {
            record(CLOCK);
        }
        libc::syscall(libc::SYS_clock_gettime, id, t) as libc::c_int
    }
}
