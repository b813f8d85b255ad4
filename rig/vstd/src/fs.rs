//! A file system in memory: files are byte vectors (whose bytes may be symbolic),
//! paths are concrete. Nothing here reaches the real file system. Which write,
//! read or create call fails, and how, is chosen by the harness (`fault`).
use ::std::ffi::OsString;
use ::std::io::{Error, ErrorKind, Read, Result, Seek, SeekFrom, Write};
use ::std::path::{Path, PathBuf};

pub use ::std::fs::{FileTimes, Permissions};

pub struct Node {
    pub name: String,
    pub dir: bool,
    pub data: Vec<u8>,
}
pub struct Vfs {
    pub nodes: Vec<Node>,
    pub reverse: bool,
    /// the call at which faults begin, counted over all calls of the kind; this
    /// call and the next ones meet the faults of the list
    pub write_at: u64,
    pub write_kinds: Vec<u8>,
    pub write_fired: usize,
    pub read_at: u64,
    pub read_kinds: Vec<u8>,
    pub read_fired: usize,
    pub create_at: Vec<u64>,
    pub writes: u64,
    pub reads: u64,
    pub creates: u64,
    /// what println! printed, if it is recorded
    pub record: bool,
    pub out: String,
    /// the arguments of the program, its name included
    pub args: Vec<String>,
}
static mut VFS: Vfs = Vfs {
    nodes: Vec::new(),
    reverse: false,
    write_at: u64::MAX,
    write_kinds: Vec::new(),
    write_fired: 0,
    read_at: u64::MAX,
    read_kinds: Vec::new(),
    read_fired: 0,
    create_at: Vec::new(),
    writes: 0,
    reads: 0,
    creates: 0,
    record: false,
    out: String::new(),
    args: Vec::new(),
};
#[allow(static_mut_refs)]
pub fn vfs() -> &'static mut Vfs {
    unsafe { &mut VFS }
}
fn norm(p: &Path) -> String {
    let s = match p.as_os_str().to_str() {
        Some(s) => s,
        None => panic!("vfs: path is not UTF-8"),
    };
    let b = s.as_bytes();
    let mut r = String::new();
    let mut i = 0;
    while i < b.len() {
        let mut j = i;
        while j < b.len() && b[j] != b'/' {
            j += 1;
        }
        let c = &s[i..j];
        if c.len() > 0 && c != "." {
            if c == ".." {
                panic!("vfs: .. in a path");
            }
            if r.len() > 0 {
                r.push('/');
            }
            r.push_str(c);
        }
        i = j + 1;
    }
    r
}
fn eq(a: &str, b: &str) -> bool {
    a.len() == b.len() && a == b
}
fn find(name: &str) -> Option<usize> {
    let v = &vfs().nodes;
    for i in 0..v.len() {
        if eq(&v[i].name, name) {
            return Some(i);
        }
    }
    None
}
fn parent(name: &str) -> &str {
    match name.bytes().rposition(|c| c == b'/') {
        Some(i) => &name[..i],
        None => "",
    }
}
fn is_dir(name: &str) -> bool {
    name.len() == 0
        || match find(name) {
            Some(i) => vfs().nodes[i].dir,
            None => false,
        }
}
fn err<T>(k: ErrorKind) -> Result<T> {
    Err(Error::from(k))
}
/// harness access
pub fn put(name: &str, data: Vec<u8>) {
    mkdirs(parent(name));
    match find(name) {
        Some(i) => vfs().nodes[i].data = data,
        None => vfs().nodes.push(Node { name: String::from(name), dir: false, data }),
    }
}
pub fn mkdirs(name: &str) {
    if name.len() == 0 || is_dir(name) {
        return;
    }
    mkdirs(parent(name));
    vfs().nodes.push(Node { name: String::from(name), dir: true, data: Vec::new() });
}
pub fn get(name: &str) -> Option<&'static [u8]> {
    match find(name) {
        Some(i) if !vfs().nodes[i].dir => Some(&vfs().nodes[i].data),
        _ => None,
    }
}
pub fn drop_file(name: &str) {
    if let Some(i) = find(name) {
        vfs().nodes.remove(i);
    }
}
pub fn names() -> Vec<String> {
    vfs().nodes.iter().filter(|n| !n.dir).map(|n| n.name.clone()).collect()
}

pub struct File {
    name: String,
    pos: usize,
    append: bool,
}
fn lookup(name: &str) -> usize {
    match find(name) {
        Some(i) => i,
        None => panic!("vfs: use of a removed file"),
    }
}
impl ::std::fmt::Debug for File {
    fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result {
        f.write_str("File")
    }
}
fn creating() -> bool {
    let v = vfs();
    let n = v.creates;
    v.creates += 1;
    let mut bad = false;
    for &a in v.create_at.iter() {
        bad |= a == n;
    }
    ::qs::known(!bad) != 1 && bad
}
impl File {
    pub fn open<P: AsRef<Path>>(p: P) -> Result<File> {
        OpenOptions::new().read(true).open(p)
    }
    pub fn create<P: AsRef<Path>>(p: P) -> Result<File> {
        OpenOptions::new().write(true).create(true).truncate(true).open(p)
    }
    pub fn create_new<P: AsRef<Path>>(p: P) -> Result<File> {
        OpenOptions::new().write(true).create_new(true).open(p)
    }
    pub fn options() -> OpenOptions {
        OpenOptions::new()
    }
    pub fn sync_all(&self) -> Result<()> {
        Ok(())
    }
    pub fn sync_data(&self) -> Result<()> {
        Ok(())
    }
    pub fn metadata(&self) -> Result<Metadata> {
        metadata(&self.name)
    }
    pub fn set_len(&self, n: u64) -> Result<()> {
        let i = lookup(&self.name);
        vfs().nodes[i].data.resize(n as usize, 0);
        Ok(())
    }
    pub fn try_clone(&self) -> Result<File> {
        Ok(File { name: self.name.clone(), pos: self.pos, append: self.append })
    }
    #[inline(always)]
    fn put(&mut self, b: &[u8]) -> Result<usize> {
        let v = vfs();
        let n = v.writes;
        v.writes += 1;
        let mut k = b.len();
        if v.write_at != u64::MAX && v.write_fired < v.write_kinds.len() {
            if v.write_fired > 0 || v.write_at == n {
                let kind = v.write_kinds[v.write_fired];
                v.write_fired += 1;
                // the kind is a small number: 0 hard error, 1 interrupted,
                // 2.. how much of the buffer is accepted
                if kind == 0 {
                    return err(ErrorKind::StorageFull);
                } else if kind == 1 {
                    return err(ErrorKind::Interrupted);
                } else if kind < 9 {
                    k = (kind - 2) as usize;
                } else if kind < 15 {
                    k = b.len().saturating_sub((kind - 8) as usize);
                } else {
                    k = b.len() / 2;
                }
                if k > b.len() {
                    k = b.len();
                }
            }
        }
        let i = lookup(&self.name);
        let d = &mut v.nodes[i].data;
        if self.append {
            self.pos = d.len();
        }
        if self.pos == d.len() {
            d.extend_from_slice(&b[..k]);
        } else {
            for j in 0..k {
                if self.pos + j < d.len() {
                    d[self.pos + j] = b[j];
                } else {
                    while d.len() < self.pos + j {
                        d.push(0);
                    }
                    d.push(b[j]);
                }
            }
        }
        self.pos += k;
        Ok(k)
    }
    #[inline(always)]
    fn take(&mut self, b: &mut [u8]) -> Result<usize> {
        let v = vfs();
        let n = v.reads;
        v.reads += 1;
        let i = lookup(&self.name);
        let d = &v.nodes[i].data;
        let left = d.len().saturating_sub(self.pos);
        let mut k = if b.len() < left { b.len() } else { left };
        if v.read_at != u64::MAX && v.read_fired < v.read_kinds.len() {
            if v.read_fired > 0 || v.read_at == n {
                let kind = v.read_kinds[v.read_fired];
                v.read_fired += 1;
                if kind == 0 {
                    return err(ErrorKind::Other);
                } else if kind == 1 {
                    return err(ErrorKind::Interrupted);
                } else if ((kind - 1) as usize) < k {
                    k = (kind - 1) as usize;
                }
            }
        }
        b[..k].copy_from_slice(&d[self.pos..self.pos + k]);
        self.pos += k;
        Ok(k)
    }
}
impl Write for File {
    #[inline(always)]
    fn write(&mut self, b: &[u8]) -> Result<usize> {
        self.put(b)
    }
    fn flush(&mut self) -> Result<()> {
        Ok(())
    }
}
impl Write for &File {
    #[inline(always)]
    fn write(&mut self, b: &[u8]) -> Result<usize> {
        if !self.append && self.pos != 0 {
            panic!("vfs: write through a shared file");
        }
        let mut f = File { name: self.name.clone(), pos: 0, append: true };
        f.put(b)
    }
    fn flush(&mut self) -> Result<()> {
        Ok(())
    }
}
impl Read for File {
    #[inline(always)]
    fn read(&mut self, b: &mut [u8]) -> Result<usize> {
        self.take(b)
    }
}
impl Seek for File {
    fn seek(&mut self, p: SeekFrom) -> Result<u64> {
        let i = lookup(&self.name);
        let n = vfs().nodes[i].data.len() as i64;
        let q = match p {
            SeekFrom::Start(x) => x as i64,
            SeekFrom::End(x) => n + x,
            SeekFrom::Current(x) => self.pos as i64 + x,
        };
        if q < 0 {
            return err(ErrorKind::InvalidInput);
        }
        self.pos = q as usize;
        Ok(q as u64)
    }
}
#[derive(Clone, Debug)]
pub struct OpenOptions {
    r: bool,
    w: bool,
    a: bool,
    t: bool,
    c: bool,
    n: bool,
}
impl OpenOptions {
    pub fn new() -> OpenOptions {
        OpenOptions { r: false, w: false, a: false, t: false, c: false, n: false }
    }
    pub fn read(&mut self, x: bool) -> &mut Self {
        self.r = x;
        self
    }
    pub fn write(&mut self, x: bool) -> &mut Self {
        self.w = x;
        self
    }
    pub fn append(&mut self, x: bool) -> &mut Self {
        self.a = x;
        self
    }
    pub fn truncate(&mut self, x: bool) -> &mut Self {
        self.t = x;
        self
    }
    pub fn create(&mut self, x: bool) -> &mut Self {
        self.c = x;
        self
    }
    pub fn create_new(&mut self, x: bool) -> &mut Self {
        self.n = x;
        self
    }
    pub fn open<P: AsRef<Path>>(&self, p: P) -> Result<File> {
        let name = norm(p.as_ref());
        let at = find(&name);
        let makes = (self.w || self.a) && (self.c || self.n);
        if makes && creating() {
            return err(ErrorKind::PermissionDenied);
        }
        match at {
            Some(i) => {
                if vfs().nodes[i].dir {
                    return err(ErrorKind::IsADirectory);
                }
                if self.n {
                    return err(ErrorKind::AlreadyExists);
                }
                if self.t {
                    vfs().nodes[i].data = Vec::new();
                }
            }
            None => {
                if !makes || !is_dir(parent(&name)) {
                    return err(ErrorKind::NotFound);
                }
                vfs().nodes.push(Node { name: name.clone(), dir: false, data: Vec::new() });
            }
        }
        Ok(File { name, pos: 0, append: self.a })
    }
}
#[derive(Clone, Debug)]
pub struct Metadata {
    dir: bool,
    len: u64,
}
impl Metadata {
    pub fn is_dir(&self) -> bool {
        self.dir
    }
    pub fn is_file(&self) -> bool {
        !self.dir
    }
    pub fn len(&self) -> u64 {
        self.len
    }
    pub fn file_type(&self) -> FileType {
        FileType { dir: self.dir }
    }
}
#[derive(Clone, Copy, Debug)]
pub struct FileType {
    dir: bool,
}
impl FileType {
    pub fn is_dir(&self) -> bool {
        self.dir
    }
    pub fn is_file(&self) -> bool {
        !self.dir
    }
    pub fn is_symlink(&self) -> bool {
        false
    }
}
pub fn metadata<P: AsRef<Path>>(p: P) -> Result<Metadata> {
    let n = norm(p.as_ref());
    if n.len() == 0 {
        return Ok(Metadata { dir: true, len: 0 });
    }
    match find(&n) {
        Some(i) => Ok(Metadata { dir: vfs().nodes[i].dir, len: vfs().nodes[i].data.len() as u64 }),
        None => err(ErrorKind::NotFound),
    }
}
pub fn exists<P: AsRef<Path>>(p: P) -> Result<bool> {
    Ok(metadata(p).is_ok())
}
pub struct DirEntry {
    name: String,
    shown: String,
}
impl ::std::fmt::Debug for DirEntry {
    fn fmt(&self, f: &mut ::std::fmt::Formatter<'_>) -> ::std::fmt::Result {
        f.write_str("DirEntry")
    }
}
impl DirEntry {
    pub fn path(&self) -> PathBuf {
        PathBuf::from(self.shown.clone())
    }
    pub fn file_name(&self) -> OsString {
        let i = parent(&self.name).len();
        OsString::from(self.name[if i == 0 { 0 } else { i + 1 }..].to_string())
    }
    pub fn metadata(&self) -> Result<Metadata> {
        metadata(&self.name)
    }
    pub fn file_type(&self) -> Result<FileType> {
        metadata(&self.name).map(|m| m.file_type())
    }
}
pub struct ReadDir {
    v: Vec<DirEntry>,
}
impl Iterator for ReadDir {
    type Item = Result<DirEntry>;
    fn next(&mut self) -> Option<Result<DirEntry>> {
        self.v.pop().map(Ok)
    }
}
pub fn read_dir<P: AsRef<Path>>(p: P) -> Result<ReadDir> {
    let n = norm(p.as_ref());
    if !is_dir(&n) {
        return err(if find(&n).is_some() { ErrorKind::NotADirectory } else { ErrorKind::NotFound });
    }
    let mut v: Vec<DirEntry> = Vec::new();
    for x in vfs().nodes.iter() {
        if eq(parent(&x.name), &n) {
            let i = n.len();
            let base = &x.name[if i == 0 { 0 } else { i + 1 }..];
            let mut shown = String::from(p.as_ref().as_os_str().to_str().unwrap());
            if !shown.ends_with('/') {
                shown.push('/');
            }
            shown.push_str(base);
            v.push(DirEntry { name: x.name.clone(), shown });
        }
    }
    if !vfs().reverse {
        let mut r = Vec::new();
        while let Some(x) = v.pop() {
            r.push(x);
        }
        v = r;
    }
    Ok(ReadDir { v })
}
pub fn create_dir<P: AsRef<Path>>(p: P) -> Result<()> {
    let n = norm(p.as_ref());
    if creating() {
        return err(ErrorKind::PermissionDenied);
    }
    if n.len() == 0 || find(&n).is_some() {
        return err(ErrorKind::AlreadyExists);
    }
    if !is_dir(parent(&n)) {
        return err(ErrorKind::NotFound);
    }
    mkdirs(&n);
    Ok(())
}
pub fn create_dir_all<P: AsRef<Path>>(p: P) -> Result<()> {
    let n = norm(p.as_ref());
    if creating() {
        return err(ErrorKind::PermissionDenied);
    }
    if let Some(i) = find(&n) {
        if !vfs().nodes[i].dir {
            return err(ErrorKind::AlreadyExists);
        }
    }
    mkdirs(&n);
    Ok(())
}
pub fn remove_file<P: AsRef<Path>>(p: P) -> Result<()> {
    let n = norm(p.as_ref());
    match find(&n) {
        Some(i) if !vfs().nodes[i].dir => {
            vfs().nodes.remove(i);
            Ok(())
        }
        _ => err(ErrorKind::NotFound),
    }
}
pub fn remove_dir_all<P: AsRef<Path>>(p: P) -> Result<()> {
    let n = norm(p.as_ref());
    if !is_dir(&n) {
        return err(ErrorKind::NotFound);
    }
    let mut pre = n.clone();
    pre.push('/');
    vfs().nodes.retain(|x| !eq(&x.name, &n) && !x.name.starts_with(&pre));
    Ok(())
}
pub fn rename<P: AsRef<Path>, Q: AsRef<Path>>(p: P, q: Q) -> Result<()> {
    let (a, b) = (norm(p.as_ref()), norm(q.as_ref()));
    let Some(i) = find(&a) else { return err(ErrorKind::NotFound) };
    if vfs().nodes[i].dir {
        panic!("vfs: rename of a directory");
    }
    let n = vfs().nodes.remove(i);
    put(&b, n.data);
    Ok(())
}
pub fn copy<P: AsRef<Path>, Q: AsRef<Path>>(p: P, q: Q) -> Result<u64> {
    let d = read(p)?;
    let n = d.len() as u64;
    write(q, d)?;
    Ok(n)
}
pub fn read<P: AsRef<Path>>(p: P) -> Result<Vec<u8>> {
    let mut f = File::open(p)?;
    let mut v = Vec::new();
    f.read_to_end(&mut v)?;
    Ok(v)
}
pub fn read_to_string<P: AsRef<Path>>(p: P) -> Result<String> {
    let mut f = File::open(p)?;
    let mut v = String::new();
    f.read_to_string(&mut v)?;
    Ok(v)
}
pub fn write<P: AsRef<Path>, C: AsRef<[u8]>>(p: P, c: C) -> Result<()> {
    File::create(p)?.write_all(c.as_ref())
}

/// what `println!` and `print!` do: nothing, unless the harness records it
pub fn emit(a: ::std::fmt::Arguments<'_>, nl: bool) {
    let v = vfs();
    if v.record {
        let _ = ::std::fmt::Write::write_fmt(&mut v.out, a);
        if nl {
            v.out.push('\n');
        }
    }
}
