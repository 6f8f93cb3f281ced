//! Files for harnesses. The engine's build gets an in-memory file system behind the C functions the
//! standard library calls; native replays use real files in a scratch directory of their own.
#[cfg(not(feature = "native"))]
mod imp {
    use std::cell::UnsafeCell;
    pub struct Open { pub file: usize, pub pos: usize, pub append: bool }
    pub struct Fs { pub files: Vec<(Vec<u8>, Vec<u8>)>, pub open: Vec<Option<Open>>, pub out: Vec<u8>, pub stdin: Vec<u8>, pub at: usize }
    pub struct G(UnsafeCell<Fs>);
    unsafe impl Sync for G {}
    pub static FS: G = G(UnsafeCell::new(Fs { files: vec![], open: vec![], out: vec![], stdin: vec![], at: 0 }));
    pub fn fs() -> &'static mut Fs { unsafe { &mut *FS.0.get() } }
    fn find(p: &[u8]) -> Option<usize> { fs().files.iter().position(|f| f.0 == p) }
    unsafe fn text<'a>(p: *const u8) -> &'a [u8] { let mut n = 0; while *p.add(n) != 0 { n += 1 } std::slice::from_raw_parts(p, n) }
    extern "C" { fn __errno_location() -> *mut i32; }
    unsafe fn err(e: i32) -> i32 { *__errno_location() = e; -1 }
    const CREAT: i32 = 0o100; const EXCL: i32 = 0o200; const TRUNC: i32 = 0o1000; const APPEND: i32 = 0o2000;
    #[no_mangle] pub unsafe extern "C" fn open64(p: *const u8, flags: i32, _mode: u32) -> i32 {
        let p = text(p);
        let i = match find(p) { Some(i) => { if flags & EXCL != 0 { return err(17) } if flags & TRUNC != 0 { fs().files[i].1.clear() } i } None => { if flags & CREAT == 0 { return err(2) } fs().files.push((p.to_vec(), vec![])); fs().files.len() - 1 } };
        fs().open.push(Some(Open { file: i, pos: 0, append: flags & APPEND != 0 })); fs().open.len() as i32 + 2
    }
    #[no_mangle] pub unsafe extern "C" fn read(fd: i32, b: *mut u8, n: usize) -> isize {
        if fd == 0 { let f = fs(); let k = n.min(f.stdin.len() - f.at); std::ptr::copy_nonoverlapping(f.stdin.as_ptr().add(f.at), b, k); f.at += k; return k as isize }
        let Some(Some(o)) = fs().open.get_mut(fd as usize - 3) else { return err(9) as isize };
        let f = &fs().files[o.file].1; let k = n.min(f.len().saturating_sub(o.pos));
        std::ptr::copy_nonoverlapping(f.as_ptr().add(o.pos), b, k); o.pos += k; k as isize
    }
    #[no_mangle] pub unsafe extern "C" fn write(fd: i32, b: *const u8, n: usize) -> isize {
        if fd == 2 { return n as isize }
        let s = std::slice::from_raw_parts(b, n);
        if fd == 1 { fs().out.extend_from_slice(s); return n as isize }
        let Some(Some(o)) = fs().open.get_mut(fd as usize - 3) else { return err(9) as isize };
        let f = &mut fs().files[o.file].1; if o.append { o.pos = f.len() }
        if f.len() < o.pos + n { f.resize(o.pos + n, 0) }
        f[o.pos..o.pos + n].copy_from_slice(s); o.pos += n; n as isize
    }
    #[no_mangle] pub unsafe extern "C" fn close(fd: i32) -> i32 { if fd >= 3 { if let Some(o) = fs().open.get_mut(fd as usize - 3) { *o = None } } 0 }
    #[no_mangle] pub unsafe extern "C" fn lseek64(fd: i32, off: i64, whence: i32) -> i64 {
        let Some(Some(o)) = fs().open.get_mut(fd as usize - 3) else { return err(9) as i64 };
        let base = match whence { 0 => 0, 1 => o.pos as i64, _ => fs().files[o.file].1.len() as i64 }; o.pos = (base + off) as usize; base + off
    }
    #[no_mangle] pub unsafe extern "C" fn fcntl(fd: i32, _: i32) -> i32 { if fd < 3 || matches!(fs().open.get(fd as usize - 3), Some(Some(_))) { 0 } else { err(9) } }
    // not there: the standard library falls back to fstat64 and stat64
    #[no_mangle] pub unsafe extern "C" fn statx(_: i32, _: *const u8, _: i32, _: u32, _: *mut u8) -> i32 { err(38) }
    unsafe fn fill(b: *mut u8, n: usize) -> i32 { for i in 0..144 { *b.add(i) = 0 } *(b.add(24) as *mut u32) = 0o100644; *(b.add(48) as *mut i64) = n as i64; 0 }
    #[no_mangle] pub unsafe extern "C" fn fstat64(fd: i32, b: *mut u8) -> i32 { match fs().open.get((fd as usize).wrapping_sub(3)) { Some(Some(o)) => fill(b, fs().files[o.file].1.len()), _ => err(9) } }
    #[no_mangle] pub unsafe extern "C" fn stat64(p: *const u8, b: *mut u8) -> i32 { match find(text(p)) { Some(i) => fill(b, fs().files[i].1.len()), None => err(2) } }
    #[no_mangle] pub unsafe extern "C" fn isatty(_: i32) -> i32 { *__errno_location() = 25; 0 }
    // libbz2, which is C: a stand-in that stores what it is given, between the usual magic number and a zero byte
    #[repr(C)] pub struct Bz { next_in: *const u8, avail_in: u32, in_lo: u32, in_hi: u32, next_out: *mut u8, avail_out: u32, out_lo: u32, out_hi: u32, state: *mut u32 }
    impl Bz {
        unsafe fn put(&mut self, b: u8) -> bool { if self.avail_out == 0 { return false } *self.next_out = b; self.next_out = self.next_out.add(1); self.avail_out -= 1; self.out_lo += 1; true }
        unsafe fn peek(&self) -> Option<u8> { if self.avail_in == 0 { None } else { Some(*self.next_in) } }
        unsafe fn skip(&mut self) { self.next_in = self.next_in.add(1); self.avail_in -= 1; self.in_lo += 1 }
    }
    const MAGIC: [u8; 4] = *b"BZh6";
    #[no_mangle] pub unsafe extern "C" fn BZ2_bzCompressInit(s: *mut Bz, _: i32, _: i32, _: i32) -> i32 { (*s).state = Box::into_raw(Box::new(0)); 0 }
    #[no_mangle] pub unsafe extern "C" fn BZ2_bzCompress(s: *mut Bz, action: i32) -> i32 {
        let s = &mut *s; let st = &mut *s.state;
        while *st < 4 { if !s.put(MAGIC[*st as usize]) { return if action == 0 { 1 } else { action + 1 } } *st += 1 }
        while let Some(b) = s.peek() { if !s.put(b) { return action + 1 } s.skip() }
        if action < 2 { return 1 }
        if *st == 4 { if !s.put(0) { return 3 } *st = 5 }
        4
    }
    #[no_mangle] pub unsafe extern "C" fn BZ2_bzCompressEnd(s: *mut Bz) -> i32 { drop(Box::from_raw((*s).state)); 0 }
    #[no_mangle] pub unsafe extern "C" fn BZ2_bzDecompressInit(s: *mut Bz, _: i32, _: i32) -> i32 { (*s).state = Box::into_raw(Box::new(0)); 0 }
    #[no_mangle] pub unsafe extern "C" fn BZ2_bzDecompress(s: *mut Bz) -> i32 {
        let s = &mut *s; let st = &mut *s.state; if *st == 5 { return -1 }
        while let Some(b) = s.peek() {
            if *st < 4 { if b != MAGIC[*st as usize] { return -5 } *st += 1 } else if b == 0 { s.skip(); *st = 5; return 4 } else if !s.put(b) { return 0 }
            s.skip()
        }
        0
    }
    #[no_mangle] pub unsafe extern "C" fn BZ2_bzDecompressEnd(s: *mut Bz) -> i32 { drop(Box::from_raw((*s).state)); 0 }
    pub fn begin() {}
    pub fn put(name: &str, text: &[u8]) { match find(name.as_bytes()) { Some(i) => fs().files[i].1 = text.to_vec(), None => fs().files.push((name.as_bytes().to_vec(), text.to_vec())) } }
    pub fn get(name: &str) -> Option<Vec<u8>> { find(name.as_bytes()).map(|i| fs().files[i].1.clone()) }
    pub fn list() -> Vec<String> { let mut v: Vec<String> = fs().files.iter().map(|f| String::from_utf8(f.0.clone()).unwrap()).collect(); v.sort(); v }
    pub fn end() {}
    extern "C-unwind" { fn __sym_restart(keep: *const u8, n: usize); }
    extern "C" { fn __sym_args(argc: i32, argv: *const *const u8, env: *const *const u8); }
    /// as a program of its own: with globals as they are at first, these arguments and this standard input; how it ended and what it printed
    pub fn run(which: &str, args: &[&str], stdin: &str, f: impl FnOnce() -> bool) -> (bool, String) {
        let mut v: Vec<*const u8> = vec![];
        for a in std::iter::once(&which).chain(args) { let mut b = a.as_bytes().to_vec(); b.push(0); v.push(Vec::leak(b).as_ptr()) }
        v.push(std::ptr::null()); let v = Vec::leak(v);
        unsafe { __sym_restart(FS.0.get() as *const u8, std::mem::size_of::<Fs>()); __sym_args(v.len() as i32 - 1, v.as_ptr(), std::ptr::null()) }
        fs().out.clear(); fs().stdin = stdin.as_bytes().to_vec(); fs().at = 0;
        let ok = f(); (ok, String::from_utf8(fs().out.clone()).unwrap())
    }
}
#[cfg(feature = "native")]
mod imp {
    use std::path::PathBuf;
    fn dir() -> PathBuf { std::env::temp_dir().join(format!("harness-files-{}", std::process::id())) }
    pub fn begin() { let d = dir(); let _ = std::fs::remove_dir_all(&d); std::fs::create_dir_all(&d).unwrap(); std::env::set_current_dir(&d).unwrap(); }
    pub fn put(name: &str, text: &[u8]) { if let Some(d) = std::path::Path::new(name).parent() { std::fs::create_dir_all(d).unwrap() } std::fs::write(name, text).unwrap() }
    pub fn get(name: &str) -> Option<Vec<u8>> { std::fs::read(name).ok() }
    pub fn list() -> Vec<String> { let mut v: Vec<String> = std::fs::read_dir(".").unwrap().map(|e| e.unwrap().file_name().into_string().unwrap()).collect(); v.sort(); v }
    pub fn end() { std::env::set_current_dir("/").unwrap(); let _ = std::fs::remove_dir_all(dir()); }
    /// in a process of its own, which continues with the recorded inputs
    pub fn run(which: &str, args: &[&str], stdin: &str, _: impl FnOnce() -> bool) -> (bool, String) {
        use std::io::Write; use std::process::*;
        let (ins, at) = crate::sym::ST.with(|s| { let s = s.borrow(); (s.0.clone(), s.1) });
        let used = dir().with_extension("used"); let _ = std::fs::remove_file(&used);
        let mut c = Command::new(std::env::current_exe().unwrap()).args(args).env("HARNESS_MAIN", which).env("HARNESS_USED", &used).env("HARNESS_INPUTS", ins[at.min(ins.len())..].iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().unwrap();
        let _ = c.stdin.take().unwrap().write_all(stdin.as_bytes());
        let o = c.wait_with_output().unwrap();
        let k: usize = std::fs::read_to_string(&used).ok().and_then(|s| s.parse().ok()).unwrap_or(0); let _ = std::fs::remove_file(&used);
        crate::sym::ST.with(|s| s.borrow_mut().1 += k);
        if !o.status.success() && o.status.code() != Some(9) { panic!("the program panicked") }
        (o.status.success(), String::from_utf8(o.stdout).unwrap())
    }
}
pub use imp::{get, list, put, run};
/// runs `f` with no files to begin with
pub fn with<R>(f: impl FnOnce() -> R) -> R {
    struct End; impl Drop for End { fn drop(&mut self) { imp::end() } }
    imp::begin(); let _e = End; f()
}
