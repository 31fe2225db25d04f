//! Command-line family: the real `main` of the executable runs on a file system whose files, names and contents are
//! partly symbolic. The library (the harness's own copy) tells what formatting each content gives.
//!
//! p0 property, p1 scenario, p2 size, p3 mode: 0 format, 1 check
use crate::recog::Recognizer;
use crate::rt::*;
use crate::texth::{comment, split};

/// What a file of the scenario holds
pub struct File {
    pub path: Vec<u8>,
    pub data: Vec<u8>,
    pub node: usize,
    /// cannot be opened for reading
    pub closed: bool,
    /// cannot be opened for writing
    pub locked: bool,
    pub dir: bool,
}

/// Result of formatting a content with the library
#[derive(PartialEq)]
pub enum Fmt {
    /// not UTF-8
    Unreadable,
    Errors(Vec<String>),
    Text(Vec<u8>),
}

static mut SRC: Vec<u8> = Vec::new();
static mut NAME: String = String::new();
static mut RES: Option<Fmt> = None;

fn run_fmt(_: u64) {
    unsafe {
        let s = &*std::ptr::addr_of!(SRC);
        let Ok(s) = std::str::from_utf8(s) else {
            RES = Some(Fmt::Unreadable);
            return;
        };
        let p = mofmt::parse(&*std::ptr::addr_of!(NAME), s, mofmt::SyntaxKind::StoredDefinition);
        RES = Some(if p.errors.is_empty() {
            let mut t = mofmt::pretty_print(p.tokens, p.comments, p.events).into_bytes();
            t.push(b'\n');
            Fmt::Text(t)
        } else {
            Fmt::Errors(p.errors)
        });
    }
}

/// None: the library aborts
fn formatted(name: &[u8], data: &[u8]) -> Option<Fmt> {
    unsafe {
        SRC = data.to_vec();
        NAME = String::from_utf8_lossy(name).into_owned();
        RES = None;
        if attempt(run_fmt, 0) != 0 {
            return None;
        }
        (*std::ptr::addr_of_mut!(RES)).take()
    }
}

/// Does the reference grammar know this text?
fn sentence(data: &[u8]) -> bool {
    let (lexemes, bad) = split(data);
    if bad.is_some() {
        return false;
    }
    let mut rec = Recognizer::new();
    lexemes.iter().all(|l| comment(l.kind) || rec.step(l.kind, false)) && rec.end()
}

#[cfg(not(feature = "native"))]
mod exe {
    use crate::rt::*;
    extern "C" {
        fn main(argc: i32, argv: *const *const u8) -> i32;
    }
    static mut ARGV: Vec<*const u8> = Vec::new();
    /// what `main` returned, if it did
    static mut RET: i32 = 0;
    fn run(_: u64) {
        unsafe {
            let v = &*std::ptr::addr_of!(ARGV);
            let r = main(v.len() as i32 - 1, v.as_ptr());
            std::ptr::addr_of_mut!(RET).write_volatile(r);
        }
    }
    /// exit code, or None if the process died otherwise
    pub fn start(args: &[Vec<u8>]) -> Option<u32> {
        let mut p: Vec<*const u8> = vec![b"mofmt\0".as_ptr()];
        for a in args {
            let mut z = a.clone();
            z.push(0);
            p.push(z.leak().as_ptr());
        }
        p.push(std::ptr::null());
        unsafe { ARGV = p };
        out_clear();
        match attempt(run, 0) {
            2 => Some(exit_code()),
            0 => Some(unsafe { std::ptr::addr_of!(RET).read_volatile() } as u32 & 255),
            _ => None,
        }
    }
}

#[cfg(feature = "native")]
use crate::rt::start;
#[cfg(not(feature = "native"))]
use exe::start;

fn find(s: &[u8], t: &[u8]) -> usize {
    if s.len() < t.len() {
        return 0;
    }
    let mut n = 0;
    for i in 0..=s.len() - t.len() {
        if (i == 0 || s[i - 1] == b'\n') && &s[i..i + t.len()] == t {
            n += 1;
        }
    }
    n
}

struct World {
    files: Vec<File>,
    args: Vec<Vec<u8>>,
}

impl World {
    fn put(&mut self, path: &[u8], data: &[u8], fl: u32) {
        let node = fs_add(path, fl, data);
        self.files.push(File {
            path: path.to_vec(),
            data: data.to_vec(),
            node,
            closed: fl & 2 != 0,
            locked: fl & 4 != 0,
            dir: fl & 1 != 0,
        });
    }
    fn add(&mut self, path: &[u8], data: &[u8]) {
        self.put(path, data, 0)
    }
    fn closed(&mut self, path: &[u8], data: &[u8]) {
        self.put(path, data, 2)
    }
    fn locked(&mut self, path: &[u8], data: &[u8]) {
        self.put(path, data, 4)
    }
    fn dir(&mut self, path: &[u8]) {
        self.put(path, b"", 1)
    }
    /// A directory that cannot be listed
    fn shut(&mut self, path: &[u8]) {
        self.put(path, b"", 3)
    }
    fn arg(&mut self, a: &[u8]) {
        self.args.push(a.to_vec());
    }
}

/// The extension of the last component is mo
fn modelica(path: &[u8]) -> bool {
    let name = match path.iter().rposition(|b| *b == b'/') {
        Some(i) => &path[i + 1..],
        None => path,
    };
    match name.iter().rposition(|b| *b == b'.') {
        Some(i) if i > 0 => &name[i + 1..] == b"mo",
        _ => false,
    }
}

const GOOD: &[u8] = b"model A\n\nend A;\n";

/// Contents of different nature
fn content(k: usize) -> &'static [u8] {
    match k {
        0 => GOOD,
        1 => b"model A   end A;",
        2 => b"model A\nend A;\n\n",
        3 => b"model A end A",
        4 => b"model A ? end A;",
        5 => b"\xff\xfe",
        6 => b"",
        _ => b"// c\nmodel A Real x;\n\n\nend A;\n",
    }
}
const KINDS: usize = 8;

fn name_byte() -> u8 {
    Set::of(b"moMOx.~").sym()
}

/// Holes `?` of a text become symbolic bytes
fn holes(t: &[u8], a: &Set) -> Vec<u8> {
    t.iter().map(|b| if *b == b'?' { a.sym() } else { *b }).collect()
}

fn scenario(w: &mut World, k: u64, size: u64) {
    match k {
        // any content
        0 => {
            let mut d = Vec::new();
            for _ in 0..size {
                d.push(sym(0, 255));
            }
            w.add(b"a.mo", &d);
            w.arg(b"a.mo");
        }
        // a text near its formatted form
        1 => {
            let white = Set::of(b" \n\r\t;/");
            let t: &[u8] = match size {
                0 => b"model A\n\nend A;?",
                1 => b"model A\n\nend A;??",
                2 => b"model A?\nend A;\n",
                3 => b"?model A\n\nend A;\n",
                4 => b"model A\n?Real x;\n\nend A?\n",
                5 => b"model A\n\nend A;\n?",
                6 => b"model A\n  Real x?\n\nend A;\n??",
                _ => b"??model A\n\nend A;\n//??",
            };
            w.add(b"a.mo", &holes(t, &white));
            w.arg(b"a.mo");
        }
        // several arguments of any nature
        2 => {
            for i in 0..size {
                let n = b'a' + i as u8;
                match pick(KINDS + 3) {
                    0 => {
                        // does not exist
                        w.arg(&[n, b'.', b'm', b'o']);
                    }
                    1 => {
                        w.closed(&[n, b'.', b'm', b'o'], GOOD);
                        w.arg(&[n, b'.', b'm', b'o']);
                    }
                    2 => {
                        w.add(&[n, b'.', b'm'], b"model A end A;");
                        w.arg(&[n, b'.', b'm']);
                    }
                    k => {
                        w.add(&[n, b'.', b'm', b'o'], content(k - 3));
                        w.arg(&[n, b'.', b'm', b'o']);
                    }
                }
            }
        }
        // a file of any name, named and in a directory
        3 => {
            let mut n = vec![Set::of(b"n._").sym()];
            for _ in 0..size {
                n.push(name_byte());
            }
            assume(n.len() > 2 || n[n.len() - 1] != b'.');
            let mut p = b"d/".to_vec();
            p.extend(&n);
            w.dir(b"d");
            w.add(&p, b"model A  end A;");
            w.add(b"d/k.mo", content(1));
            if pick(2) == 1 {
                w.arg(b"d");
            } else {
                w.arg(&p);
            }
        }
        // a tree
        4 => {
            let dirs: [&[u8]; 4] = [b"d", b"d/e", b"d/e/f", b"d/g.mo"];
            for d in dirs {
                w.dir(d);
            }
            w.add(b"o.mo", content(1));
            for i in 0..size {
                let mut p = dirs[pick(4)].to_vec();
                p.push(b'/');
                p.push(b'a' + i as u8);
                p.extend(match pick(5) {
                    0 => &b".mo"[..],
                    1 => b".mox",
                    2 => b".mo.bak",
                    3 => b".MO",
                    _ => b"mo",
                });
                w.add(&p, content(1));
            }
            match pick(4) {
                0 => w.arg(b"d"),
                1 => w.arg(b"d/e"),
                2 => {
                    w.arg(b"d/g.mo");
                    w.arg(b"o.mo");
                }
                _ => {
                    w.arg(b"o.mo");
                    w.arg(b"d/");
                }
            }
        }
        // arguments from a pool, the same one possibly twice
        6 => {
            w.dir(b"d");
            w.dir(b"d/e");
            w.dir(b"void");
            w.add(b"d/a.mo", content(1));
            w.add(b"d/e/b.mo", content(3));
            w.add(b"d/e/c.txt", content(1));
            w.add(b"d/e/c.mo", GOOD);
            w.add(b"g.mo", GOOD);
            w.add(b"u.mo", content(1));
            w.add(b"bad.mo", content(4));
            w.add(b"r.txt", content(1));
            for _ in 0..size {
                let a: &[u8] = match pick(9) {
                    0 => b"d",
                    1 => b"d/e/",
                    2 => b"void",
                    3 => b"g.mo",
                    4 => b"u.mo",
                    5 => b"bad.mo",
                    6 => b"r.txt",
                    7 => b"none.mo",
                    _ => b"d/e/c.mo",
                };
                w.arg(a);
            }
        }
        // many files of two natures by turns, at last one of any: named, in one directory, or each one level deeper
        7 => {
            let (x, y, z, how) = (pick(KINDS), pick(KINDS), pick(KINDS), pick(3));
            // hundreds: all but one alike
            assume((size <= 100) | ((x == y) & ((z == x) | (z < 2))));
            assume((size <= 100) | (how < 2) | (x == 1));
            let mut dir = vec![];
            if how > 0 {
                w.dir(b"d");
                dir = b"d/".to_vec();
                w.arg(b"d");
            }
            for i in 0..=size {
                let mut p = dir.clone();
                p.extend([b'a' + (i / 26) as u8, b'a' + (i % 26) as u8]);
                p.extend(b".mo");
                w.add(&p, content(if i == size { z } else { [x, y][i as usize % 2] }));
                match how {
                    0 => w.arg(&p),
                    2 => {
                        dir.push(b's');
                        w.dir(&dir);
                        dir.push(b'/');
                    }
                    _ => {}
                }
            }
        }
        // faults: files that cannot be written, directories that cannot be listed
        8 => {
            w.dir(b"d");
            w.add(b"d/a.mo", content(1));
            w.shut(b"d/c");
            w.add(b"d/c/x.mo", content(1));
            w.locked(b"d/l.mo", content(1));
            w.dir(b"d/z");
            w.add(b"d/z/f.mo", content(3));
            w.dir(b"e");
            w.locked(b"e/m.mo", content(7));
            w.add(b"u.mo", content(1));
            for _ in 0..size {
                let a: &[u8] = match pick(8) {
                    0 => b"d",
                    1 => b"d/c",
                    2 => b"d/c/x.mo",
                    3 => b"d/l.mo",
                    4 => b"d/z",
                    5 => b"e/",
                    6 => b"u.mo",
                    _ => b"none.mo",
                };
                w.arg(a);
            }
        }
        // a directory of any name
        9 => {
            let mut p = b"d/".to_vec();
            for _ in 0..size {
                p.push(name_byte());
            }
            assume((size > 2) | (p[p.len() - 1] != b'.'));
            w.dir(b"d");
            w.dir(&p);
            p.push(b'/');
            let q = p.clone();
            p.extend(b"a.mo");
            w.add(&p, content(1));
            w.arg(if pick(2) == 0 { b"d" } else { &q });
        }
        // names of any bytes
        10 => {
            let mut p = b"d/".to_vec();
            for _ in 0..size {
                let b = sym(1, 255);
                assume(b != b'/');
                p.push(b);
            }
            p.extend(b".mo");
            assume((size > 1) | (p[2] != b'.'));
            w.dir(b"d");
            w.add(&p, content(pick(2)));
            if pick(2) == 0 {
                w.arg(b"d")
            } else {
                w.arg(&p)
            }
        }
        // a long file
        11 => {
            let k = pick(4);
            let mut t = b"model A\n\n".to_vec();
            for _ in 0..size {
                t.extend(b"  Real x;\n");
            }
            t.extend(match k {
                0 => &b"\nend A;\n"[..],
                1 => b"\nend A;",
                2 => b"\nend A;;\n",
                _ => b"  Real  y;\n\nend A;\n",
            });
            w.add(b"a.mo", &t);
            w.add(b"b.mo", content(1));
            w.arg(b"a.mo");
            w.arg(b"b.mo");
        }
        // two files of any names: in one directory, named, or in two directories
        12 => {
            let (how, x) = (pick(3), pick(3));
            let mut p = b"d/".to_vec();
            let mut q = if how == 2 { b"d/s/".to_vec() } else { b"d/".to_vec() };
            for _ in 0..size {
                p.push(name_byte());
                q.push(name_byte());
            }
            p.extend(b".mo");
            q.extend(b".mo");
            assume(p != q);
            w.dir(b"d");
            if how == 2 {
                w.dir(b"d/s");
            }
            w.add(&p, content(x));
            w.add(&q, content(1));
            if how == 1 {
                w.arg(&p);
                w.arg(&q);
            } else {
                w.arg(b"d");
            }
        }
        // a file of more than `size` kilobytes
        13 => {
            let (k, c) = (pick(3), pick(2));
            let mut t = if c == 0 { b"model A\n\n  // ".to_vec() } else { b"model A\n\n  Real x = \"".to_vec() };
            for _ in 0..size {
                t.resize(t.len() + 1024, b'c');
            }
            t.extend(if c == 0 { &b"\n"[..] } else { b"\";\n" });
            t.extend(match k {
                0 => &b"  Real y;\n\nend A;\n"[..],
                1 => b"  Real y;\nend A;",
                _ => b"  Real y\nend A;\n",
            });
            w.add(b"a.mo", &t);
            w.add(b"b.mo", content(1));
            w.arg(b"a.mo");
            w.arg(b"b.mo");
        }
        // a directory with files of any nature
        _ => {
            w.dir(b"d");
            w.add(b"z.mo", content(1));
            for i in 0..size {
                let p = [b'd', b'/', b'a' + i as u8, b'.', b'm', b'o'];
                match pick(KINDS + 1) {
                    0 => w.closed(&p, GOOD),
                    k => w.add(&p, content(k - 1)),
                }
            }
            w.arg(b"d");
        }
    }
}

fn bare(a: &[u8]) -> &[u8] {
    let mut a = a;
    while a.len() > 1 && a[a.len() - 1] == b'/' {
        a = &a[..a.len() - 1];
    }
    a
}

/// Is `p` below the directory `a`?
fn below(a: &[u8], p: &[u8]) -> bool {
    p.len() > a.len() && &p[..a.len()] == a && p[a.len()] == b'/'
}

/// Is `f` the argument, or below the directory that the argument names?
fn selected(w: &World, a: &[u8], f: &File) -> bool {
    let a = bare(a);
    if f.dir {
        return false;
    }
    if f.path == a {
        return true;
    }
    let dir = w.files.iter().any(|d| d.dir && d.path == a);
    let hidden = |d: &File| d.dir && d.closed && (d.path == a || below(a, &d.path)) && below(&d.path, &f.path);
    dir && below(a, &f.path) && modelica(&f.path) && !w.files.iter().any(hidden)
}

#[no_mangle]
pub extern "C" fn h_cli() {
    let mut w = World { files: vec![], args: vec![] };
    scenario(&mut w, param(1), param(2));
    let check = param(3) == 1;
    // what has to happen
    let mut want: Vec<Option<Fmt>> = Vec::with_capacity(w.files.len());
    let mut times: Vec<usize> = Vec::with_capacity(w.files.len());
    let mut fail = false;
    for a in &w.args {
        let shut = |d: &File| d.dir && d.closed && (d.path == bare(a) || below(bare(a), &d.path));
        fail |= w.files.iter().any(shut);
        let known = w.files.iter().any(|f| f.path == *a || selected(&w, a, f) || (f.dir && a.starts_with(&f.path)));
        fail |= !known;
    }
    for f in &w.files {
        let n = w.args.iter().filter(|a| selected(&w, a, f)).count();
        times.push(n);
        if n == 0 {
            want.push(None);
            continue;
        }
        if !modelica(&f.path) || f.closed {
            fail = true;
            want.push(None);
            continue;
        }
        let Some(r) = formatted(&f.path, &f.data) else {
            // and takes the whole run with it
            chk(13, 8, false);
            chk(14, 8, false);
            prune(1)
        };
        let r = match r {
            // whatever the library says, this is a file with errors
            Fmt::Text(_) if !sentence(&f.data) => Fmt::Errors(vec![]),
            r => r,
        };
        match &r {
            Fmt::Text(t) => fail |= if check { *t != f.data } else { f.locked },
            _ => fail = true,
        }
        want.push(Some(r));
    }
    let mut args = w.args.clone();
    if check {
        args.insert(0, b"--check".to_vec());
    }
    if NATIVE {
        for f in &w.files {
            note(&f.path);
            note(&f.data);
        }
        note(&args.join(&b' '));
    }
    let before = fs_count();
    let code = start(&args);
    let stdout = out(1);
    if NATIVE {
        note(&stdout);
        note(&out(2));
    }
    let all = |n: u32, c: bool| {
        chk(13, n, c || !check);
        chk(14, n, c || check);
    };
    // ended regularly, with the right code
    all(1, code.is_some());
    all(2, code == Some(fail as u32));
    // no file comes or goes
    chk(13, 3, fs_count() == before);
    chk(14, 3, fs_count() == before);
    chk(15, 3, fs_count() == before);
    for (i, f) in w.files.iter().enumerate() {
        if f.dir {
            continue;
        }
        let now = fs_get(f.node);
        let touched = fs_touched(f.node) != 0 || now.as_deref() != Some(&f.data[..]);
        let text = match &want[i] {
            Some(Fmt::Text(t)) if check || !f.locked => Some(t),
            _ => None,
        };
        if let Some(Fmt::Errors(e)) = &want[i] {
            // the diagnostics reach the user, below their heading and one after the other
            let t = format!("Syntax errors detected:\n{}\n", e.join("\n"));
            chk(16, 4, e.is_empty() || find(&stdout, t.as_bytes()) == times[i]);
            cover(16);
        }
        let line = |s: &[u8]| {
            let mut l = String::from_utf8_lossy(&f.path).into_owned().into_bytes();
            l.extend(s);
            find(&stdout, &l)
        };
        if check {
            chk(13, 4, !touched);
            let (pass, no) = (line(b": check passed\n"), line(b": check failed\n"));
            match text {
                Some(t) if *t == f.data => {
                    chk(13, 5, pass >= 1 && no == 0);
                    chk(15, 4, pass == times[i]);
                }
                Some(_) => {
                    chk(13, 6, pass == 0 && no >= 1);
                    chk(15, 4, no == times[i]);
                }
                None => {
                    chk(13, 7, pass + no == 0);
                    if times[i] == 0 {
                        chk(15, 5, pass + no == 0);
                    }
                }
            }
            chk(15, 6, !touched);
        } else {
            match text {
                Some(t) => {
                    chk(14, 4, now.as_ref() == Some(t));
                    chk(15, 7, now.as_ref() == Some(t));
                }
                None => {
                    chk(14, 5, !touched);
                    if times[i] == 0 {
                        chk(15, 8, !touched);
                    }
                }
            }
        }
    }
    cover(1);
    if fail {
        cover(2)
    }
}

/// p0 property, p1 number of symbolic bytes of the first argument, p2 1: a file follows
#[no_mangle]
pub extern "C" fn h_cli_options() {
    let mut w = World { files: vec![], args: vec![] };
    w.add(b"a.mo", b"model A  end A;");
    let mut a = Vec::new();
    let n = param(1);
    let fixed: [&[u8]; 6] = [b"--help", b"--version", b"--check", b"-h", b"-v", b""];
    if n == 0 {
        a = fixed[pick(6)].to_vec();
    } else if n < 10 {
        a.push(b'-');
        for _ in 0..n {
            a.push(Set::of(b"-hvcx").sym());
        }
    } else {
        // an option with one character changed
        a = fixed[pick(3)].to_vec();
        let i = 1 + pick(a.len() - 1);
        a[i] = sym(b'!', b'~');
        assume(a[i] != b'/');
    }
    if !a.is_empty() {
        w.arg(&a);
    }
    if param(2) == 1 {
        w.arg(b"a.mo");
    }
    let is = |t: &[u8]| w.args.first().map_or(false, |x| &x[..] == t);
    let (help, version, check) = (is(b"--help") || is(b"-h"), is(b"--version") || is(b"-v"), is(b"--check"));
    if NATIVE {
        note(&w.args.join(&b' '));
    }
    let code = start(&w.args);
    let (o, e) = (out(1), out(2));
    if NATIVE {
        note(&o);
        note(&e);
    }
    let file = w.args.len() > 1 || (a.is_empty() && w.args.len() == 1);
    let data = fs_get(w.files[0].node);
    let touched = fs_touched(w.files[0].node) != 0 || data.as_deref() != Some(&w.files[0].data[..]);
    if help || version {
        chk(15, 11, code == Some(0));
        chk(15, 12, !o.is_empty() && e.is_empty());
        let usage = o.windows(6).any(|x| x == b"Usage:");
        chk(15, 13, usage == help);
        chk(15, 14, !touched);
        cover(3);
    } else if w.args.is_empty() || (check && !file) {
        chk(15, 15, code == Some(1));
        chk(15, 16, o.is_empty() && !e.is_empty());
        chk(15, 17, !touched);
        cover(4);
    } else if check {
        chk(15, 18, code == Some(1));
        chk(15, 19, !touched);
    } else if a.is_empty() {
        chk(15, 20, code == Some(0) && touched);
    } else {
        chk(15, 21, code == Some(1));
        chk(15, 22, o.is_empty() && !e.is_empty());
        chk(15, 23, !touched);
        cover(5);
    }
}

/// Two steps: what was formatted passes the check, and a second run changes nothing. Parameters as `h_cli`.
#[no_mangle]
pub extern "C" fn h_cli_again() {
    let mut w = World { files: vec![], args: vec![] };
    scenario(&mut w, param(1), param(2));
    if NATIVE {
        for f in &w.files {
            note(&f.path);
            note(&f.data);
        }
        note(&w.args.join(&b' '));
    }
    let a = start(&w.args);
    let now: Vec<Option<Vec<u8>>> = w.files.iter().map(|f| fs_get(f.node)).collect();
    let mut args = w.args.clone();
    args.insert(0, b"--check".to_vec());
    let b = start(&args);
    let stdout = out(1);
    if NATIVE {
        note(&stdout);
    }
    chk(2, 20, a.is_some() && a == b);
    let lines: Vec<&[u8]> = stdout.split(|c| *c == b'\n').collect();
    chk(2, 21, !lines.iter().any(|l| l.ends_with(b": check failed")));
    let c = start(&w.args);
    chk(2, 22, a == c);
    for (f, n) in w.files.iter().zip(&now) {
        chk(2, 23, fs_get(f.node) == *n);
    }
    if a == Some(0) {
        cover(1)
    }
}
