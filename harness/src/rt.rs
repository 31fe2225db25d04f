//! Harness intrinsics. In the symbolic build they are undefined symbols that the engine implements; with the
//! feature `native` they replay one concrete model.

#[cfg(not(feature = "native"))]
mod raw {
    extern "C" {
        pub fn vm_sym(lo: u8, hi: u8) -> u8;
        pub fn vm_sym_mask(m: *const u64) -> u8;
        pub fn vm_assume(c: bool);
        pub fn vm_check(c: bool, id: u32);
        pub fn vm_conc(x: u64) -> u64;
        pub fn vm_try(f: fn(u64), a: u64) -> u32;
        pub fn vm_out(which: u32, buf: *mut u8, cap: u64) -> u64;
        pub fn vm_out_clear();
        pub fn vm_exit_code() -> u32;
        pub fn vm_cover(id: u32);
        pub fn vm_prune(id: u32);
        pub fn vm_param(i: u32) -> u64;
        pub fn vm_note(p: *const u8, n: u64);
        pub fn vm_steps() -> u64;
        pub fn fs_add(p: *const u8, n: u64, fl: u32, d: *const u8, dn: u64) -> u64;
        pub fn fs_len(i: u32) -> u64;
        pub fn fs_data(i: u32, p: *mut u8);
        pub fn fs_touched(i: u32) -> u64;
        pub fn fs_count() -> u64;
    }
}

#[cfg(not(feature = "native"))]
mod imp {
    use super::raw;
    pub fn sym(lo: u8, hi: u8) -> u8 {
        unsafe { raw::vm_sym(lo, hi) }
    }
    pub fn sym_mask(m: &[u64; 4]) -> u8 {
        unsafe { raw::vm_sym_mask(m.as_ptr()) }
    }
    pub fn assume(c: bool) {
        unsafe { raw::vm_assume(c) }
    }
    pub fn check(c: bool, id: u32) {
        unsafe { raw::vm_check(c, id) }
    }
    pub fn conc(x: u64) -> u64 {
        unsafe { raw::vm_conc(x) }
    }
    /// 0 returned, 1 aborted, 2 exited
    pub fn attempt(f: fn(u64), a: u64) -> u32 {
        unsafe { raw::vm_try(f, a) }
    }
    pub fn out(which: u32) -> Vec<u8> {
        let mut cap = 16384;
        loop {
            let mut b = vec![0u8; cap];
            let n = unsafe { raw::vm_out(which, b.as_mut_ptr(), cap as u64) } as usize;
            if n < cap {
                b.truncate(n);
                return b;
            }
            cap *= 4;
        }
    }
    pub fn out_clear() {
        unsafe { raw::vm_out_clear() }
    }
    pub fn exit_code() -> u32 {
        unsafe { raw::vm_exit_code() }
    }
    pub fn cover(id: u32) {
        unsafe { raw::vm_cover(id) }
    }
    pub fn prune(id: u32) -> ! {
        unsafe { raw::vm_prune(id) };
        loop {}
    }
    pub fn param(i: u32) -> u64 {
        unsafe { raw::vm_param(i) }
    }
    pub fn note(s: &[u8]) {
        unsafe { raw::vm_note(s.as_ptr(), s.len() as u64) }
    }
    pub fn steps() -> u64 {
        unsafe { raw::vm_steps() }
    }
    pub const NATIVE: bool = false;

    pub fn fs_add(p: &[u8], fl: u32, d: &[u8]) -> usize {
        unsafe { raw::fs_add(p.as_ptr(), p.len() as u64, fl, d.as_ptr(), d.len() as u64) as usize }
    }
    /// Current content, or None if the file is gone
    pub fn fs_get(i: usize) -> Option<Vec<u8>> {
        let n = unsafe { raw::fs_len(i as u32) };
        if n == u64::MAX {
            return None;
        }
        let mut v = vec![0u8; n as usize];
        unsafe { raw::fs_data(i as u32, v.as_mut_ptr()) };
        Some(v)
    }
    /// How often the file was opened for writing, renamed or removed
    pub fn fs_touched(i: usize) -> u64 {
        unsafe { raw::fs_touched(i as u32) }
    }
    pub fn fs_count() -> u64 {
        unsafe { raw::fs_count() }
    }
}

#[cfg(feature = "native")]
mod imp {
    use std::cell::RefCell;
    thread_local! {
        pub static MODEL: RefCell<(Vec<u8>, usize)> = const { RefCell::new((Vec::new(), 0)) };
        pub static PARAMS: RefCell<Vec<u64>> = const { RefCell::new(Vec::new()) };
    }
    fn next() -> u8 {
        MODEL.with(|m| {
            let mut m = m.borrow_mut();
            let i = m.1;
            m.1 += 1;
            m.0.get(i).copied().unwrap_or(0)
        })
    }
    fn end(code: i32, s: &str) -> ! {
        clean();
        println!("{}", s);
        std::process::exit(code)
    }
    pub fn sym(lo: u8, hi: u8) -> u8 {
        let x = next();
        if x < lo || x > hi {
            end(20, "OUTSIDE symbolic byte outside its range");
        }
        x
    }
    pub fn sym_mask(m: &[u64; 4]) -> u8 {
        let x = next();
        if m[(x / 64) as usize] >> (x % 64) & 1 == 0 {
            end(20, "OUTSIDE symbolic byte outside its set");
        }
        x
    }
    pub fn assume(c: bool) {
        if !c {
            end(20, "OUTSIDE assumption does not hold")
        }
    }
    pub fn check(c: bool, id: u32) {
        if !c {
            println!("CHECK {}", id);
        }
    }
    pub fn conc(x: u64) -> u64 {
        x
    }
    thread_local! {
        static STDERR: RefCell<Vec<u8>> = const { RefCell::new(Vec::new()) };
        static STDOUT: RefCell<Vec<u8>> = const { RefCell::new(Vec::new()) };
        static SCRATCH: RefCell<Option<Scratch>> = const { RefCell::new(None) };
    }
    use std::ffi::OsStr;
    use std::os::unix::{ffi::OsStrExt, fs::PermissionsExt, process::CommandExt};
    use std::path::{Path, PathBuf};
    /// A directory of its own for the files of a scenario, removed at the end
    struct Scratch {
        dir: PathBuf,
        paths: Vec<(PathBuf, bool)>,
        /// permissions matter: they do not restrict root
        user: bool,
    }
    impl Drop for Scratch {
        fn drop(&mut self) {
            let _ = std::fs::remove_dir_all(&self.dir);
        }
    }
    fn old() -> std::time::SystemTime {
        std::time::UNIX_EPOCH + std::time::Duration::from_secs(1_000_000_000)
    }
    fn with<T>(f: impl FnOnce(&mut Scratch) -> T) -> T {
        SCRATCH.with(|s| {
            let mut s = s.borrow_mut();
            let s = s.get_or_insert_with(|| {
                let dir = std::env::temp_dir().join(format!("verif-replay-{}", std::process::id()));
                std::fs::create_dir(&dir).expect("scratch directory");
                Scratch { dir, paths: vec![], user: false }
            });
            f(s)
        })
    }
    pub fn clean() {
        SCRATCH.with(|s| s.borrow_mut().take());
    }
    pub fn fs_add(p: &[u8], fl: u32, d: &[u8]) -> usize {
        with(|s| {
            let path = s.dir.join(OsStr::from_bytes(p));
            let up = p.split(|b| *b == b'/').any(|c| c == b"..");
            assert!(!p.contains(&b'\0') && !p.starts_with(b"/") && !up, "unsafe path");
            if let Some(d) = path.parent() {
                std::fs::create_dir_all(d).unwrap();
            }
            let mode = |m| std::fs::set_permissions(&path, std::fs::Permissions::from_mode(m)).unwrap();
            if fl & 1 != 0 {
                std::fs::create_dir_all(&path).unwrap();
                mode(if fl & 2 != 0 { 0o333 } else { 0o777 });
            } else if fl & 2 != 0 {
                // root can read everything: a link to nowhere
                std::os::unix::fs::symlink("nowhere/nothing", &path).unwrap();
            } else {
                std::fs::write(&path, d).unwrap();
                std::fs::File::options().write(true).open(&path).unwrap().set_modified(old()).unwrap();
                mode(if fl & 4 != 0 { 0o444 } else { 0o666 });
            }
            s.user |= fl & 4 != 0 || fl & 3 == 3;
            s.paths.push((path, fl & 2 != 0));
            CLOSED.with(|c| c.borrow_mut().push(d.to_vec()));
            s.paths.len() - 1
        })
    }
    thread_local! {
        static CLOSED: RefCell<Vec<Vec<u8>>> = const { RefCell::new(Vec::new()) };
    }
    pub fn fs_get(i: usize) -> Option<Vec<u8>> {
        with(|s| {
            if s.paths[i].1 {
                // still the link?
                let l = std::fs::read_link(&s.paths[i].0).is_ok() && std::fs::metadata(&s.paths[i].0).is_err();
                return if l { Some(CLOSED.with(|c| c.borrow()[i].clone())) } else { None };
            }
            std::fs::read(&s.paths[i].0).ok()
        })
    }
    pub fn fs_touched(i: usize) -> u64 {
        with(|s| {
            if s.paths[i].1 || s.paths[i].0.is_dir() {
                return 0;
            }
            let t = std::fs::metadata(&s.paths[i].0).and_then(|m| m.modified());
            t.map_or(1, |t| (t != old()) as u64)
        })
    }
    fn entries(d: &Path) -> u64 {
        let mut n = 0;
        for e in std::fs::read_dir(d).unwrap() {
            let e = e.unwrap();
            n += 1;
            if e.file_type().unwrap().is_dir() {
                n += entries(&e.path());
            }
        }
        n
    }
    pub fn fs_count() -> u64 {
        with(|s| entries(&s.dir))
    }
    /// Runs the real executable in the scratch directory
    pub fn start(args: &[Vec<u8>]) -> Option<u32> {
        let bin = std::env::var("VERIF_BIN").expect("VERIF_BIN");
        let o = with(|s| {
            let args = args.iter().map(|a| OsStr::from_bytes(a));
            if !s.user {
                return std::process::Command::new(bin).args(args).current_dir(&s.dir).output().expect("executable");
            }
            // as nobody, who may not reach the build directory
            let copy = s.dir.with_extension("bin");
            std::fs::copy(bin, &copy).expect("copy");
            std::fs::set_permissions(&copy, std::fs::Permissions::from_mode(0o755)).unwrap();
            std::fs::set_permissions(&s.dir, std::fs::Permissions::from_mode(0o777)).unwrap();
            for (p, _) in &s.paths {
                std::os::unix::fs::lchown(p, Some(65534), Some(65534)).unwrap();
            }
            let o = std::process::Command::new(&copy).args(args).current_dir(&s.dir).uid(65534).gid(65534).output();
            std::fs::remove_file(&copy).unwrap();
            match o {
                Ok(o) => o,
                Err(_) => end(20, "OUTSIDE cannot run as another user"),
            }
        });
        STDOUT.with(|s| *s.borrow_mut() = o.stdout);
        STDERR.with(|s| *s.borrow_mut() = o.stderr);
        // 101: a panic
        o.status.code().filter(|c| *c != 101).map(|c| c as u32)
    }
    pub fn out_clear() {
        STDERR.with(|s| s.borrow_mut().clear());
    }
    pub fn out(which: u32) -> Vec<u8> {
        if which == 1 {
            return STDOUT.with(|s| s.borrow().clone());
        }
        STDERR.with(|s| s.borrow().clone())
    }
    pub fn attempt(f: fn(u64), a: u64) -> u32 {
        std::panic::set_hook(Box::new(|i| {
            println!("PANIC {}", i);
            STDERR.with(|s| s.borrow_mut().extend(format!("{}\n", i).as_bytes()));
        }));
        match std::panic::catch_unwind(|| crate::call(f, a)) {
            Ok(()) => 0,
            Err(_) => 1,
        }
    }
    pub fn cover(_: u32) {}
    pub fn prune(id: u32) -> ! {
        end(20, &format!("OUTSIDE pruned {}", id))
    }
    pub fn param(i: u32) -> u64 {
        PARAMS.with(|p| p.borrow().get(i as usize).copied().unwrap_or(0))
    }
    pub fn note(s: &[u8]) {
        println!("NOTE {}", String::from_utf8_lossy(s).replace('\\', "\\\\").replace('\n', "\\n"));
    }
    pub fn steps() -> u64 {
        0
    }
    pub const NATIVE: bool = true;
}

pub use imp::*;

/// A number below `n` (n <= 256), fixed on each path
pub fn pick(n: usize) -> usize {
    if n <= 1 {
        return 0;
    }
    conc(sym(0, (n - 1) as u8) as u64) as usize
}

pub struct Set(pub [u64; 4]);
impl Set {
    pub const fn new() -> Set {
        Set([0; 4])
    }
    pub fn put(&mut self, b: u8) {
        self.0[(b / 64) as usize] |= 1 << (b % 64);
    }
    pub fn range(mut self, lo: u8, hi: u8) -> Set {
        for b in lo..=hi {
            self.put(b);
        }
        self
    }
    pub fn of(s: &[u8]) -> Set {
        let mut r = Set::new();
        for b in s {
            r.put(*b);
        }
        r
    }
    pub fn has(&self, b: u8) -> bool {
        self.0[(b / 64) as usize] >> (b % 64) & 1 != 0
    }
    pub fn sym(&self) -> u8 {
        sym_mask(&self.0)
    }
}

/// Check `n` of property `p`; active only in a run that decides this property
pub fn chk(p: u32, n: u32, c: bool) {
    if param(0) as u32 == p {
        check(c, p * 100 + n);
    }
}
pub fn deciding(p: u32) -> bool {
    param(0) as u32 == p
}

/// The root in parameter 1, or any root of the set in its lower bits if bit 20 is set
pub fn root_param() -> u64 {
    let r = param(1);
    if r >> 20 & 1 == 0 {
        return r;
    }
    let all: Vec<u64> = (0..20).filter(|i| r >> i & 1 != 0).collect();
    all[pick(all.len())]
}
