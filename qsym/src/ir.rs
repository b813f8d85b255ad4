//! Parser for the textual LLVM IR of the whole program (the crate under test,
//! its dependencies and the standard library, after fat LTO).
use crate::expr::Val;
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    F32,
    F64,
    Arr(u64, Rc<Ty>),
    Vector(u32, Rc<Ty>),
    Struct(Rc<Vec<Ty>>, bool),
    Other,
}

pub fn align_up(x: u64, a: u64) -> u64 {
    (x + a - 1) / a * a
}

impl Ty {
    pub fn size(&self) -> u64 {
        match self {
            Ty::Void | Ty::Other => 0,
            Ty::Int(w) => {
                let b = ((*w as u64) + 7) / 8;
                align_up(b, self.align())
            }
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Arr(n, t) => n * t.size(),
            Ty::Vector(n, t) => {
                let bits = *n as u64 * t.bits() as u64;
                ((bits + 7) / 8).next_power_of_two()
            }
            Ty::Struct(fs, packed) => {
                let mut o = 0;
                let mut al = 1;
                for f in fs.iter() {
                    if !*packed {
                        o = align_up(o, f.align());
                        al = al.max(f.align());
                    }
                    o += f.size();
                }
                align_up(o, al)
            }
        }
    }
    pub fn align(&self) -> u64 {
        match self {
            Ty::Void | Ty::Other => 1,
            Ty::Int(w) => match *w {
                0..=8 => 1,
                9..=16 => 2,
                17..=32 => 4,
                33..=64 => 8,
                _ => 16,
            },
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Arr(_, t) => t.align(),
            Ty::Vector(..) => self.size(),
            Ty::Struct(fs, packed) => {
                if *packed {
                    1
                } else {
                    fs.iter().map(|f| f.align()).max().unwrap_or(1)
                }
            }
        }
    }
    pub fn bits(&self) -> u32 {
        match self {
            Ty::Int(w) => *w,
            Ty::Ptr | Ty::F64 => 64,
            Ty::F32 => 32,
            t => panic!("bits of {:?}", t),
        }
    }
    pub fn field_off(&self, i: u64) -> u64 {
        match self {
            Ty::Arr(_, t) => i * t.size(),
            Ty::Vector(_, t) => i * t.size(),
            Ty::Struct(fs, packed) => {
                let mut o = 0;
                for (k, f) in fs.iter().enumerate() {
                    if !*packed {
                        o = align_up(o, f.align());
                    }
                    if k as u64 == i {
                        return o;
                    }
                    o += f.size();
                }
                panic!("field_off")
            }
            _ => panic!("field_off of {:?}", self),
        }
    }
    pub fn field(&self, i: u64) -> Ty {
        match self {
            Ty::Arr(_, t) | Ty::Vector(_, t) => (**t).clone(),
            Ty::Struct(fs, _) => fs[i as usize].clone(),
            _ => panic!("field of {:?}", self),
        }
    }
    pub fn nfields(&self) -> u64 {
        match self {
            Ty::Arr(n, _) => *n,
            Ty::Vector(n, _) => *n as u64,
            Ty::Struct(fs, _) => fs.len() as u64,
            _ => panic!("nfields of {:?}", self),
        }
    }
    pub fn is_agg(&self) -> bool {
        matches!(self, Ty::Arr(..) | Ty::Vector(..) | Ty::Struct(..))
    }
    pub fn is_float(&self) -> bool {
        matches!(self, Ty::F32 | Ty::F64)
    }
}

#[derive(Clone, Debug)]
pub enum Opd {
    R(u32),
    K(Val),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum BinOp {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    Shl,
    LShr,
    AShr,
    And,
    Or,
    Xor,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum FOp {
    Add,
    Sub,
    Mul,
    Div,
    Rem,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Pred {
    Eq,
    Ne,
    Ugt,
    Uge,
    Ult,
    Ule,
    Sgt,
    Sge,
    Slt,
    Sle,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum CastOp {
    Trunc,
    ZExt,
    SExt,
    FpTrunc,
    FpExt,
    FpToUi,
    FpToSi,
    UiToFp,
    SiToFp,
    Bitcast,
}

#[derive(Clone, Debug)]
pub enum Inst {
    Bin(BinOp, Ty, Opd, Opd),
    FBin(FOp, Ty, Opd, Opd),
    FNeg(Ty, Opd),
    ICmp(Pred, Ty, Opd, Opd),
    FCmp(String, Ty, Opd, Opd),
    Cast(CastOp, Ty, Ty, Opd),
    Gep(Opd, i64, Vec<(Opd, u32, i64)>),
    Load(Ty, Opd),
    Store(Ty, Opd, Opd),
    Alloca(u64),
    Select(Ty, Opd, Ty, Opd, Opd),
    ExtractV(Opd, Vec<u64>),
    InsertV(Ty, Opd, Ty, Opd, Vec<u64>),
    ExtractE(Ty, Opd, Opd),
    InsertE(Ty, Opd, Opd, Opd),
    Shuffle(Ty, Opd, Opd, Vec<Option<u32>>),
    Call {
        ret: Ty,
        callee: Opd,
        args: Vec<(Ty, Opd)>,
        name: Option<Rc<str>>,
    },
    Freeze(Opd),
    AtomicRmw(String, Ty, Opd, Opd),
    CmpXchg(Ty, Opd, Opd, Opd),
    Nop,
}
#[derive(Clone, Debug)]
pub enum Term {
    Br(u32),
    CondBr(Opd, u32, u32),
    Switch(u32, Opd, u32, Vec<(u128, u32)>),
    Ret(Ty, Option<Opd>),
    Unreachable,
    None,
}
#[derive(Debug)]
pub struct Phi {
    pub dst: u32,
    pub ty: Ty,
    pub inc: Vec<(u32, Opd)>,
}
#[derive(Debug)]
pub struct Block {
    pub phis: Vec<Phi>,
    pub insts: Vec<(Option<u32>, Inst)>,
    pub term: Term,
    pub invoke_dst: Option<u32>,
}
#[derive(Debug)]
pub struct Func {
    pub name: Rc<str>,
    pub ret: Ty,
    pub params: Vec<Ty>,
    pub nregs: u32,
    pub blocks: Vec<Block>,
    pub ipdom: Vec<Option<u32>>, // None = virtual exit
    pub dead: Vec<bool>,         // no path to a return
    pub livein: Vec<Vec<u32>>,   // registers live into a block (after its phis)
    pub reg_ty: Vec<Ty>,
}

pub struct Sym {
    pub name: String,
    pub kind: SymKind,
}
pub enum SymKind {
    Func { start: usize, end: usize },
    Decl,
    Global { ty: Ty, init: Option<usize>, line_end: usize },
    Alias(u64),
}

pub struct Module {
    pub text: String,
    pub syms: Vec<Sym>, // id = index+1
    pub by_name: HashMap<String, u32>,
    pub types: HashMap<String, Ty>,
    pub funcs: RefCell<HashMap<u32, Rc<Func>>>,
}

// ---------------------------------------------------------------- tokens
#[derive(Clone, Debug, PartialEq)]
pub enum Tok<'a> {
    Word(&'a str),
    Local(String),
    Global(String),
    Num(&'a str),
    CStr(Vec<u8>),
    Str(&'a str),
    Meta(&'a str),
    P(u8),
    Eof,
}

pub struct Lex<'a> {
    s: &'a [u8],
    src: &'a str,
    pub i: usize,
    end: usize,
    peeked: Option<(Tok<'a>, usize)>,
}

fn unescape(b: &[u8]) -> Vec<u8> {
    let mut o = Vec::with_capacity(b.len());
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'\\' {
            if i + 1 < b.len() && b[i + 1] == b'\\' {
                o.push(b'\\');
                i += 2;
                continue;
            }
            let h = std::str::from_utf8(&b[i + 1..i + 3]).unwrap();
            o.push(u8::from_str_radix(h, 16).unwrap());
            i += 3;
        } else {
            o.push(b[i]);
            i += 1;
        }
    }
    o
}

impl<'a> Lex<'a> {
    pub fn new(src: &'a str, start: usize, end: usize) -> Self {
        Lex { s: src.as_bytes(), src, i: start, end, peeked: None }
    }
    fn is_id(c: u8) -> bool {
        c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-'
    }
    fn lex(&mut self) -> Tok<'a> {
        let s = self.s;
        loop {
            if self.i >= self.end {
                return Tok::Eof;
            }
            let c = s[self.i];
            if c == b' ' || c == b'\t' || c == b'\n' || c == b'\r' {
                self.i += 1;
                continue;
            }
            if c == b';' {
                while self.i < self.end && s[self.i] != b'\n' {
                    self.i += 1;
                }
                continue;
            }
            break;
        }
        let c = s[self.i];
        let st = self.i;
        match c {
            b'%' | b'@' => {
                self.i += 1;
                let name = if s[self.i] == b'"' {
                    self.i += 1;
                    let q = self.i;
                    while s[self.i] != b'"' {
                        self.i += 1;
                    }
                    let n = String::from_utf8(unescape(&s[q..self.i])).unwrap_or_else(|_| self.src[q..self.i].to_string());
                    self.i += 1;
                    n
                } else {
                    let q = self.i;
                    while self.i < self.end && Self::is_id(s[self.i]) {
                        self.i += 1;
                    }
                    self.src[q..self.i].to_string()
                };
                if c == b'%' {
                    Tok::Local(name)
                } else {
                    Tok::Global(name)
                }
            }
            b'!' => {
                self.i += 1;
                while self.i < self.end && (Self::is_id(s[self.i])) {
                    self.i += 1;
                }
                Tok::Meta(&self.src[st..self.i])
            }
            b'"' => {
                self.i += 1;
                let q = self.i;
                while s[self.i] != b'"' {
                    self.i += 1;
                }
                let r = &self.src[q..self.i];
                self.i += 1;
                Tok::Str(r)
            }
            b'c' if s[self.i + 1] == b'"' => {
                self.i += 2;
                let q = self.i;
                while s[self.i] != b'"' {
                    self.i += 1;
                }
                let r = unescape(&s[q..self.i]);
                self.i += 1;
                Tok::CStr(r)
            }
            b'0'..=b'9' | b'-' => {
                self.i += 1;
                while self.i < self.end
                    && (s[self.i].is_ascii_alphanumeric()
                        || s[self.i] == b'.'
                        || ((s[self.i] == b'+' || s[self.i] == b'-')
                            && (s[self.i - 1] == b'e' || s[self.i - 1] == b'E')
                            && !self.src[st..self.i].starts_with("0x")))
                {
                    self.i += 1;
                }
                Tok::Num(&self.src[st..self.i])
            }
            b'a'..=b'z' | b'A'..=b'Z' | b'_' | b'.' | b'$' => {
                while self.i < self.end && Self::is_id(s[self.i]) {
                    self.i += 1;
                }
                if &self.src[st..self.i] == "..." {
                    return Tok::Word("...");
                }
                Tok::Word(&self.src[st..self.i])
            }
            b'#' => {
                self.i += 1;
                while self.i < self.end && Self::is_id(s[self.i]) {
                    self.i += 1;
                }
                Tok::Meta(&self.src[st..self.i])
            }
            _ => {
                self.i += 1;
                Tok::P(c)
            }
        }
    }
    pub fn peek(&mut self) -> &Tok<'a> {
        if self.peeked.is_none() {
            let st = self.i;
            let t = self.lex();
            let after = self.i;
            self.i = st;
            self.peeked = Some((t, after));
        }
        &self.peeked.as_ref().unwrap().0
    }
    pub fn next(&mut self) -> Tok<'a> {
        if let Some((t, a)) = self.peeked.take() {
            self.i = a;
            return t;
        }
        self.lex()
    }
    pub fn eat(&mut self, p: u8) -> bool {
        if *self.peek() == Tok::P(p) {
            self.next();
            true
        } else {
            false
        }
    }
    pub fn expect(&mut self, p: u8) {
        let t = self.next();
        if t != Tok::P(p) {
            let a = self.i.saturating_sub(200);
            panic!("expected {:?} got {:?} near: {}", p as char, t, &self.src[a..(self.i + 50).min(self.src.len())]);
        }
    }
    pub fn eatw(&mut self, w: &str) -> bool {
        if let Tok::Word(x) = self.peek() {
            if *x == w {
                self.next();
                return true;
            }
        }
        false
    }
    fn fail(&self, m: &str) -> ! {
        let a = self.i.saturating_sub(300);
        panic!("IR parse: {} near: {}", m, &self.src[a..(self.i + 80).min(self.src.len())]);
    }
    /// skip a balanced (...) group; the opening paren is next
    fn skip_parens(&mut self) {
        self.expect(b'(');
        let mut d = 1;
        while d > 0 {
            match self.next() {
                Tok::P(b'(') => d += 1,
                Tok::P(b')') => d -= 1,
                Tok::Eof => self.fail("eof in parens"),
                _ => {}
            }
        }
    }
}

fn is_type_start(t: &Tok) -> bool {
    match t {
        Tok::Word(w) => {
            matches!(
                *w,
                "void" | "ptr" | "float" | "double" | "half" | "fp128" | "x86_fp80" | "token" | "metadata" | "label" | "bfloat"
            ) || (w.starts_with('i') && w.len() > 1 && w[1..].bytes().all(|c| c.is_ascii_digit()))
        }
        Tok::P(b'{') | Tok::P(b'[') | Tok::P(b'<') => true,
        Tok::Local(_) => true,
        _ => false,
    }
}

impl Module {
    pub fn load(path: &str) -> Module {
        let text = std::fs::read_to_string(path).unwrap_or_else(|e| panic!("cannot read IR {}: {}", path, e));
        let mut m = Module {
            text: String::new(),
            syms: vec![],
            by_name: HashMap::new(),
            types: HashMap::new(),
            funcs: RefCell::new(HashMap::new()),
        };
        // pass 1: names
        let b = text.as_bytes();
        let mut pos = 0;
        let mut globals = vec![];
        let mut named_types = vec![];
        while pos < b.len() {
            let eol = memchr(b'\n', b, pos).unwrap_or(b.len());
            if b[pos] == b'@' {
                let mut lx = Lex::new(&text, pos, eol);
                if let Tok::Global(n) = lx.next() {
                    m.syms.push(Sym { name: n.clone(), kind: SymKind::Decl });
                    m.by_name.insert(n, m.syms.len() as u32);
                    globals.push((m.syms.len() as u32, pos, eol));
                }
                pos = eol + 1;
            } else if b[pos] == b'%' {
                named_types.push((pos, eol));
                pos = eol + 1;
            } else if text[pos..].starts_with("define ") || text[pos..].starts_with("declare ") {
                let at = pos + text[pos..eol].find('@').unwrap();
                let mut lx = Lex::new(&text, at, eol);
                let n = match lx.next() {
                    Tok::Global(n) => n,
                    t => panic!("bad define {:?}", t),
                };
                if text[pos..].starts_with("define ") {
                    // find "\n}\n"
                    let e = find_sub(b, b"\n}", eol).expect("end of function");
                    m.syms.push(Sym { name: n.clone(), kind: SymKind::Func { start: pos, end: e + 2 } });
                    m.by_name.insert(n, m.syms.len() as u32);
                    pos = e + 2;
                } else {
                    m.syms.push(Sym { name: n.clone(), kind: SymKind::Decl });
                    m.by_name.insert(n, m.syms.len() as u32);
                    pos = eol + 1;
                }
            } else {
                pos = eol + 1;
            }
        }
        for (p, e) in named_types {
            let mut lx = Lex::new(&text, p, e);
            if let Tok::Local(n) = lx.next() {
                lx.expect(b'=');
                if lx.eatw("type") {
                    if lx.eatw("opaque") {
                        continue;
                    }
                    let t = m.ty(&mut lx);
                    m.types.insert(n, t);
                }
            }
        }
        for (id, p, e) in globals {
            let mut lx = Lex::new(&text, p, e);
            lx.next();
            lx.expect(b'=');
            let mut external = false;
            let mut alias = false;
            loop {
                match lx.next() {
                    Tok::Word("global") | Tok::Word("constant") => break,
                    Tok::Word("alias") => {
                        alias = true;
                        break;
                    }
                    Tok::Word("external") | Tok::Word("extern_weak") => external = true,
                    Tok::Eof => lx.fail("global"),
                    _ => {}
                }
            }
            let ty = m.ty(&mut lx);
            let kind = if alias {
                lx.expect(b',');
                let t2 = m.ty(&mut lx);
                match m.constant(&mut lx, &t2) {
                    Val::C(a) => SymKind::Alias(a as u64),
                    v => panic!("alias {:?}", v),
                }
            } else if external {
                SymKind::Global { ty, init: None, line_end: e }
            } else {
                SymKind::Global { ty, init: Some(lx.i), line_end: e }
            };
            m.syms[id as usize - 1].kind = kind;
        }
        m.text = text;
        m
    }

    pub fn sym(&self, id: u32) -> &Sym {
        &self.syms[id as usize - 1]
    }

    pub fn ty(&self, lx: &mut Lex) -> Ty {
        match lx.next() {
            Tok::Word("void") => Ty::Void,
            Tok::Word("ptr") => {
                if lx.eatw("addrspace") {
                    lx.skip_parens();
                }
                Ty::Ptr
            }
            Tok::Word("float") => Ty::F32,
            Tok::Word("double") => Ty::F64,
            Tok::Word("metadata") | Tok::Word("token") | Tok::Word("label") | Tok::Word("half") | Tok::Word("fp128")
            | Tok::Word("bfloat") | Tok::Word("x86_fp80") => Ty::Other,
            Tok::Word(w) if w.starts_with('i') => Ty::Int(w[1..].parse().unwrap_or_else(|_| lx.fail("type"))),
            Tok::P(b'{') => {
                let f = self.ty_list(lx, b'}');
                Ty::Struct(Rc::new(f), false)
            }
            Tok::P(b'<') => {
                if lx.eat(b'{') {
                    let f = self.ty_list(lx, b'}');
                    lx.expect(b'>');
                    return Ty::Struct(Rc::new(f), true);
                }
                let n = match lx.next() {
                    Tok::Num(n) => n.parse().unwrap(),
                    _ => lx.fail("vector"),
                };
                if !lx.eatw("x") {
                    lx.fail("vector x");
                }
                let t = self.ty(lx);
                lx.expect(b'>');
                Ty::Vector(n, Rc::new(t))
            }
            Tok::P(b'[') => {
                let n = match lx.next() {
                    Tok::Num(n) => n.parse().unwrap(),
                    _ => lx.fail("array"),
                };
                if !lx.eatw("x") {
                    lx.fail("array x");
                }
                let t = self.ty(lx);
                lx.expect(b']');
                Ty::Arr(n, Rc::new(t))
            }
            Tok::Local(n) => self.types.get(&n).cloned().unwrap_or(Ty::Other),
            t => lx.fail(&format!("type {:?}", t)),
        }
    }
    fn ty_list(&self, lx: &mut Lex, close: u8) -> Vec<Ty> {
        let mut v = vec![];
        if lx.eat(close) {
            return v;
        }
        loop {
            v.push(self.ty(lx));
            if lx.eat(b',') {
                continue;
            }
            lx.expect(close);
            return v;
        }
    }

    fn zero(t: &Ty) -> Val {
        if t.is_agg() {
            Val::Agg(Rc::new((0..t.nfields()).map(|i| Self::zero(&t.field(i))).collect()))
        } else {
            Val::C(0)
        }
    }
    fn undef(t: &Ty) -> Val {
        if t.is_agg() {
            Val::Agg(Rc::new((0..t.nfields()).map(|i| Self::undef(&t.field(i))).collect()))
        } else {
            Val::Undef
        }
    }

    pub fn constant(&self, lx: &mut Lex, t: &Ty) -> Val {
        match lx.next() {
            Tok::Num(n) => match t {
                Ty::F32 => {
                    if n.starts_with("0x") {
                        let b = u64::from_str_radix(&n[2..], 16).unwrap();
                        Val::C((f64::from_bits(b) as f32).to_bits() as u128)
                    } else {
                        Val::C((n.parse::<f64>().unwrap() as f32).to_bits() as u128)
                    }
                }
                Ty::F64 => {
                    if n.starts_with("0x") {
                        Val::C(u64::from_str_radix(&n[2..], 16).unwrap() as u128)
                    } else {
                        Val::C(n.parse::<f64>().unwrap().to_bits() as u128)
                    }
                }
                _ => {
                    let w = t.bits();
                    let v = if let Some(p) = n.strip_prefix('-') {
                        let (x, _) = 0u128.overflowing_sub(p.parse::<u128>().unwrap());
                        x
                    } else {
                        n.parse::<u128>().unwrap()
                    };
                    Val::C(crate::expr::mask(w, v))
                }
            },
            Tok::Word("true") => Val::C(1),
            Tok::Word("false") => Val::C(0),
            Tok::Word("null") => Val::C(0),
            Tok::Word("none") => Val::C(0),
            Tok::Word("zeroinitializer") => Self::zero(t),
            Tok::Word("undef") | Tok::Word("poison") => Self::undef(t),
            Tok::Word("splat") => {
                lx.expect(b'(');
                let et = self.ty(lx);
                let v = self.constant(lx, &et);
                lx.expect(b')');
                let n = t.nfields();
                Val::Agg(Rc::new(vec![v; n as usize]))
            }
            // f32 in newer hexadecimal syntaxes
            Tok::Word("getelementptr") => {
                while let Tok::Word(w) = lx.peek() {
                    if *w == "inrange" {
                        lx.next();
                        lx.skip_parens();
                        continue;
                    }
                    lx.next();
                }
                lx.expect(b'(');
                let bt = self.ty(lx);
                lx.expect(b',');
                let pt = self.ty(lx);
                let base = match self.constant(lx, &pt) {
                    Val::C(c) => c as u64,
                    v => panic!("gep base {:?}", v),
                };
                let mut off = 0i64;
                let mut first = true;
                let mut cur = bt.clone();
                while lx.eat(b',') {
                    let it = self.ty(lx);
                    let v = match self.constant(lx, &it) {
                        Val::C(c) => crate::expr::sext(it.bits(), c) as i64,
                        v => panic!("gep idx {:?}", v),
                    };
                    if first {
                        off += v * cur.size() as i64;
                        first = false;
                    } else {
                        off += cur.field_off(v as u64) as i64;
                        cur = cur.field(v as u64);
                    }
                }
                lx.expect(b')');
                Val::C(base.wrapping_add(off as u64) as u128)
            }
            Tok::Word(w @ ("ptrtoint" | "inttoptr" | "bitcast" | "trunc" | "addrspacecast" | "ptrtoaddr")) => {
                let w = w.to_string();
                lx.expect(b'(');
                let ft = self.ty(lx);
                let v = self.constant(lx, &ft);
                if !lx.eatw("to") {
                    lx.fail("cast to");
                }
                let tt = self.ty(lx);
                lx.expect(b')');
                match v {
                    Val::C(c) if w == "trunc" => Val::C(crate::expr::mask(tt.bits(), c)),
                    v => v,
                }
            }
            Tok::Word(w @ ("add" | "sub" | "xor" | "mul")) => {
                let w = w.to_string();
                while let Tok::Word(_) = lx.peek() {
                    lx.next();
                }
                lx.expect(b'(');
                let t1 = self.ty(lx);
                let a = self.constant(lx, &t1);
                lx.expect(b',');
                let t2 = self.ty(lx);
                let b = self.constant(lx, &t2);
                lx.expect(b')');
                match (a, b) {
                    (Val::C(a), Val::C(b)) => Val::C(crate::expr::mask(
                        t.bits(),
                        match w.as_str() {
                            "add" => a.wrapping_add(b),
                            "sub" => a.wrapping_sub(b),
                            "mul" => a.wrapping_mul(b),
                            _ => a ^ b,
                        },
                    )),
                    _ => panic!("constexpr"),
                }
            }
            Tok::Word("no_cfi") | Tok::Word("dso_local_equivalent") => self.constant(lx, t),
            Tok::Word("blockaddress") => {
                lx.skip_parens();
                Val::C(0)
            }
            Tok::Word(w) if t.is_float() && w.starts_with("f0x") => {
                let b = u64::from_str_radix(&w[3..], 16).unwrap();
                Val::C(b as u128)
            }
            Tok::Word(w) if t.is_float() => match w {
                "inf" | "pinf" => Val::C(if *t == Ty::F32 { f32::INFINITY.to_bits() as u128 } else { f64::INFINITY.to_bits() as u128 }),
                _ => lx.fail("float const"),
            },
            Tok::CStr(b) => Val::Agg(Rc::new(b.into_iter().map(|x| Val::C(x as u128)).collect())),
            Tok::P(b'{') => Val::Agg(Rc::new(self.const_list(lx, b'}'))),
            Tok::P(b'[') => Val::Agg(Rc::new(self.const_list(lx, b']'))),
            Tok::P(b'<') => {
                if lx.eat(b'{') {
                    let v = self.const_list(lx, b'}');
                    lx.expect(b'>');
                    Val::Agg(Rc::new(v))
                } else {
                    Val::Agg(Rc::new(self.const_list(lx, b'>')))
                }
            }
            Tok::Global(n) => {
                let id = *self.by_name.get(&n).unwrap_or_else(|| panic!("unknown symbol {}", n));
                if let SymKind::Alias(a) = self.sym(id).kind {
                    return Val::C(a as u128);
                }
                Val::C((id as u128) << 32)
            }
            t => lx.fail(&format!("constant {:?}", t)),
        }
    }
    fn const_list(&self, lx: &mut Lex, close: u8) -> Vec<Val> {
        let mut v = vec![];
        if lx.eat(close) {
            return v;
        }
        loop {
            let t = self.ty(lx);
            v.push(self.constant(lx, &t));
            if lx.eat(b',') {
                continue;
            }
            lx.expect(close);
            return v;
        }
    }

    pub fn global_init(&self, id: u32) -> Option<(Ty, Option<Val>)> {
        match &self.sym(id).kind {
            SymKind::Global { ty, init, line_end } => {
                let v = init.map(|p| {
                    let mut lx = Lex::new(&self.text, p, *line_end);
                    self.constant(&mut lx, ty)
                });
                Some((ty.clone(), v))
            }
            _ => None,
        }
    }

    pub fn func(&self, id: u32) -> Option<Rc<Func>> {
        if let Some(f) = self.funcs.borrow().get(&id) {
            return Some(f.clone());
        }
        if let SymKind::Func { start, end } = self.sym(id).kind {
            let f = Rc::new(FnParser { m: self, regs: HashMap::new(), reg_ty: vec![], blocks: HashMap::new() }.parse(id, start, end));
            self.funcs.borrow_mut().insert(id, f.clone());
            Some(f)
        } else {
            None
        }
    }
}

pub fn memchr(c: u8, b: &[u8], from: usize) -> Option<usize> {
    b[from..].iter().position(|x| *x == c).map(|p| p + from)
}
fn find_sub(b: &[u8], pat: &[u8], from: usize) -> Option<usize> {
    let mut i = from;
    while let Some(p) = memchr(pat[0], b, i) {
        if b[p..].starts_with(pat) {
            return Some(p);
        }
        i = p + 1;
    }
    None
}

struct FnParser<'m> {
    m: &'m Module,
    regs: HashMap<String, u32>,
    reg_ty: Vec<Ty>,
    blocks: HashMap<String, u32>,
}

impl<'m> FnParser<'m> {
    fn reg(&mut self, n: &str) -> u32 {
        if let Some(r) = self.regs.get(n) {
            return *r;
        }
        let r = self.regs.len() as u32;
        self.regs.insert(n.to_string(), r);
        self.reg_ty.push(Ty::Other);
        r
    }
    fn opd(&mut self, lx: &mut Lex, t: &Ty) -> Opd {
        if let Tok::Local(_) = lx.peek() {
            if let Tok::Local(n) = lx.next() {
                return Opd::R(self.reg(&n));
            }
        }
        if *t == Ty::Other {
            // metadata operand
            let mut d = 0;
            loop {
                match lx.peek() {
                    Tok::P(b'(') | Tok::P(b'{') => d += 1,
                    Tok::P(b')') | Tok::P(b'}') => {
                        if d == 0 {
                            break;
                        }
                        d -= 1
                    }
                    Tok::P(b',') if d == 0 => break,
                    Tok::Eof => break,
                    _ => {}
                }
                lx.next();
            }
            return Opd::K(Val::C(0));
        }
        Opd::K(self.m.constant(lx, t))
    }
    fn tyopd(&mut self, lx: &mut Lex) -> (Ty, Opd) {
        let t = self.m.ty(lx);
        let o = self.opd(lx, &t);
        (t, o)
    }
    fn skip_attrs(&mut self, lx: &mut Lex) {
        // skip words (param attributes) until a value or type starts
        loop {
            let skip = match lx.peek() {
                Tok::Word(w) => !matches!(
                    *w,
                    "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "splat" | "getelementptr" | "ptrtoint" | "inttoptr" | "bitcast"
                        | "trunc" | "add" | "sub" | "xor" | "none" | "asm" | "blockaddress" | "ptrtoaddr" | "no_cfi" | "inf" | "pinf"
                ) && !w.starts_with("f0x"),
                Tok::Str(_) => true,
                Tok::Meta(m) => m.starts_with('#'),
                _ => false,
            };
            if !skip {
                return;
            }
            let was_align = matches!(lx.peek(), Tok::Word("align"));
            let was_str = matches!(lx.peek(), Tok::Str(_));
            lx.next();
            if was_align {
                if let Tok::Num(_) = lx.peek() {
                    lx.next();
                    continue;
                }
            }
            if was_str && lx.eat(b'=') {
                lx.next();
                continue;
            }
            if let Tok::P(b'(') = lx.peek() {
                lx.skip_parens();
            }
        }
    }
    fn block(&mut self, n: &str) -> u32 {
        *self.blocks.get(n).unwrap_or_else(|| panic!("unknown block {}", n))
    }
    fn label(&mut self, lx: &mut Lex) -> u32 {
        if !lx.eatw("label") {
            lx.fail("label");
        }
        match lx.next() {
            Tok::Local(n) => self.block(&n),
            _ => lx.fail("label name"),
        }
    }
    fn skip_words(&mut self, lx: &mut Lex) {
        // flags such as nuw, nsw, exact, fast, samesign, inbounds, volatile
        while let Tok::Word(_) = lx.peek() {
            if is_type_start(lx.peek()) {
                return;
            }
            lx.next();
            if let Tok::P(b'(') = lx.peek() {
                lx.skip_parens();
            }
        }
    }

    fn parse(mut self, id: u32, start: usize, end: usize) -> Func {
        let m = self.m;
        let text = &m.text;
        let name = &m.sym(id).name;
        let hdr_end = memchr(b'\n', text.as_bytes(), start).unwrap();
        // header
        let mut lx = Lex::new(text, start, hdr_end);
        lx.next(); // define
        while !is_type_start(lx.peek()) {
            lx.next();
            if let Tok::P(b'(') = lx.peek() {
                lx.skip_parens();
            }
        }
        let ret = m.ty(&mut lx);
        lx.next(); // @name
        lx.expect(b'(');
        let mut params = vec![];
        let mut unnamed = 0;
        if !lx.eat(b')') {
            loop {
                if lx.eatw("...") {
                    lx.expect(b')');
                    break;
                }
                let t = m.ty(&mut lx);
                self.skip_attrs(&mut lx);
                let n = if let Tok::Local(_) = lx.peek() {
                    if let Tok::Local(n) = lx.next() {
                        n
                    } else {
                        unreachable!()
                    }
                } else {
                    let n = format!("{}", unnamed);
                    unnamed += 1;
                    n
                };
                if let Ok(k) = n.parse::<usize>() {
                    unnamed = k as _;
                    unnamed += 1;
                }
                let r = self.reg(&n);
                self.reg_ty[r as usize] = t.clone();
                params.push(t);
                if lx.eat(b',') {
                    continue;
                }
                lx.expect(b')');
                break;
            }
        }
        // split body into blocks by lines
        let body = &text[hdr_end + 1..end - 1];
        let mut blocks_src: Vec<(String, Vec<(usize, usize)>)> = vec![];
        let base = hdr_end + 1;
        let mut p = 0;
        let bb = body.as_bytes();
        let mut cur: Option<(String, Vec<(usize, usize)>)> = None;
        while p < bb.len() {
            let mut e = memchr(b'\n', bb, p).unwrap_or(bb.len());
            let line = &body[p..e];
            if line.trim_start().is_empty() || line.starts_with(';') || line.trim_start().starts_with('#') {
                p = e + 1;
                continue;
            }
            if !line.starts_with(' ') {
                // label
                let l = if line.starts_with('"') {
                    let q = line[1..].find('"').unwrap();
                    String::from_utf8_lossy(&unescape(line[1..1 + q].as_bytes())).to_string()
                } else {
                    line[..line.find(':').unwrap()].to_string()
                };
                if let Some(c) = cur.take() {
                    blocks_src.push(c);
                }
                cur = Some((l, vec![]));
                p = e + 1;
                continue;
            }
            // multi-line instructions: switch [ ... ], invoke ... \n to label, landingpad clauses
            let t = line.trim_start();
            if t.starts_with("switch ") && !line.contains(']') {
                while !body[p..e].trim_end().ends_with(']') && !body[p..e].contains("\n  ]") {
                    e = memchr(b'\n', bb, e + 1).unwrap_or(bb.len());
                }
            } else if t.contains("invoke ") && !line.contains("unwind label") {
                e = memchr(b'\n', bb, e + 1).unwrap_or(bb.len());
            } else if t.contains("landingpad") {
                loop {
                    let nx = e + 1;
                    if nx >= bb.len() {
                        break;
                    }
                    let e2 = memchr(b'\n', bb, nx).unwrap_or(bb.len());
                    let l2 = body[nx..e2].trim_start();
                    if l2.starts_with("cleanup") || l2.starts_with("catch") || l2.starts_with("filter") {
                        e = e2;
                    } else {
                        break;
                    }
                }
            }
            if cur.is_none() {
                cur = Some((format!("{}", unnamed), vec![]));
            }
            cur.as_mut().unwrap().1.push((base + p, base + e));
            p = e + 1;
        }
        if let Some(c) = cur.take() {
            blocks_src.push(c);
        }
        for (i, (n, _)) in blocks_src.iter().enumerate() {
            self.blocks.insert(n.clone(), i as u32);
        }
        let mut blocks = vec![];
        for (_, lines) in &blocks_src {
            let mut b = Block { phis: vec![], insts: vec![], term: Term::None, invoke_dst: None };
            for (s, e) in lines {
                self.line(*s, *e, &mut b);
            }
            blocks.push(b);
        }
        let mut f = Func {
            name: name.as_str().into(),
            ret,
            params,
            nregs: self.regs.len() as u32,
            blocks,
            ipdom: vec![],
            dead: vec![],
            livein: vec![],
            reg_ty: self.reg_ty,
        };
        analyse(&mut f);
        f
    }

    fn line(&mut self, s: usize, e: usize, b: &mut Block) {
        let m = self.m;
        let mut lx = Lex::new(&m.text, s, e);
        let mut dst = None;
        if let Tok::Local(_) = lx.peek() {
            if let Tok::Local(n) = lx.next() {
                dst = Some(self.reg(&n));
                lx.expect(b'=');
            }
        }
        let op = match lx.next() {
            Tok::Word(w) => w,
            t => lx.fail(&format!("instr {:?}", t)),
        };
        let mut rty = Ty::Other;
        let inst = match op {
            "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "shl" | "lshr" | "ashr" | "and" | "or" | "xor" => {
                self.skip_words(&mut lx);
                let (t, a) = self.tyopd(&mut lx);
                lx.expect(b',');
                let c = self.opd(&mut lx, &t);
                let o = match op {
                    "add" => BinOp::Add,
                    "sub" => BinOp::Sub,
                    "mul" => BinOp::Mul,
                    "udiv" => BinOp::UDiv,
                    "sdiv" => BinOp::SDiv,
                    "urem" => BinOp::URem,
                    "srem" => BinOp::SRem,
                    "shl" => BinOp::Shl,
                    "lshr" => BinOp::LShr,
                    "ashr" => BinOp::AShr,
                    "and" => BinOp::And,
                    "or" => BinOp::Or,
                    _ => BinOp::Xor,
                };
                rty = t.clone();
                Inst::Bin(o, t, a, c)
            }
            "fadd" | "fsub" | "fmul" | "fdiv" | "frem" => {
                self.skip_words(&mut lx);
                let (t, a) = self.tyopd(&mut lx);
                lx.expect(b',');
                let c = self.opd(&mut lx, &t);
                let o = match op {
                    "fadd" => FOp::Add,
                    "fsub" => FOp::Sub,
                    "fmul" => FOp::Mul,
                    "fdiv" => FOp::Div,
                    _ => FOp::Rem,
                };
                rty = t.clone();
                Inst::FBin(o, t, a, c)
            }
            "fneg" => {
                self.skip_words(&mut lx);
                let (t, a) = self.tyopd(&mut lx);
                rty = t.clone();
                Inst::FNeg(t, a)
            }
            "icmp" => {
                lx.eatw("samesign");
                let p = match lx.next() {
                    Tok::Word(w) => match w {
                        "eq" => Pred::Eq,
                        "ne" => Pred::Ne,
                        "ugt" => Pred::Ugt,
                        "uge" => Pred::Uge,
                        "ult" => Pred::Ult,
                        "ule" => Pred::Ule,
                        "sgt" => Pred::Sgt,
                        "sge" => Pred::Sge,
                        "slt" => Pred::Slt,
                        "sle" => Pred::Sle,
                        _ => lx.fail("pred"),
                    },
                    _ => lx.fail("pred"),
                };
                let (t, a) = self.tyopd(&mut lx);
                lx.expect(b',');
                let c = self.opd(&mut lx, &t);
                rty = if let Ty::Vector(n, _) = &t { Ty::Vector(*n, Rc::new(Ty::Int(1))) } else { Ty::Int(1) };
                Inst::ICmp(p, t, a, c)
            }
            "fcmp" => {
                let mut p = String::new();
                while let Tok::Word(_) = lx.peek() {
                    if is_type_start(lx.peek()) {
                        break;
                    }
                    if let Tok::Word(w) = lx.next() {
                        p = w.to_string();
                    }
                }
                let (t, a) = self.tyopd(&mut lx);
                lx.expect(b',');
                let c = self.opd(&mut lx, &t);
                rty = if let Ty::Vector(n, _) = &t { Ty::Vector(*n, Rc::new(Ty::Int(1))) } else { Ty::Int(1) };
                Inst::FCmp(p, t, a, c)
            }
            "trunc" | "zext" | "sext" | "fptrunc" | "fpext" | "fptoui" | "fptosi" | "uitofp" | "sitofp" | "ptrtoint" | "inttoptr" | "bitcast"
            | "ptrtoaddr" | "addrspacecast" => {
                self.skip_words(&mut lx);
                let (t, a) = self.tyopd(&mut lx);
                if !lx.eatw("to") {
                    lx.fail("to");
                }
                let t2 = m.ty(&mut lx);
                let o = match op {
                    "trunc" => CastOp::Trunc,
                    "zext" => CastOp::ZExt,
                    "sext" => CastOp::SExt,
                    "fptrunc" => CastOp::FpTrunc,
                    "fpext" => CastOp::FpExt,
                    "fptoui" => CastOp::FpToUi,
                    "fptosi" => CastOp::FpToSi,
                    "uitofp" => CastOp::UiToFp,
                    "sitofp" => CastOp::SiToFp,
                    "ptrtoint" | "inttoptr" | "ptrtoaddr" => {
                        if t2.bits() < t.bits() {
                            CastOp::Trunc
                        } else if t2.bits() > t.bits() {
                            CastOp::ZExt
                        } else {
                            CastOp::Bitcast
                        }
                    }
                    _ => CastOp::Bitcast,
                };
                rty = t2.clone();
                Inst::Cast(o, t, t2, a)
            }
            "getelementptr" => {
                self.skip_words(&mut lx);
                let bt = m.ty(&mut lx);
                lx.expect(b',');
                let (pt, base) = self.tyopd(&mut lx);
                if pt != Ty::Ptr {
                    lx.fail("vector gep");
                }
                let mut off = 0i64;
                let mut idx = vec![];
                let mut first = true;
                let mut cur = bt;
                while lx.eat(b',') {
                    if let Tok::Meta(_) = lx.peek() {
                        break;
                    }
                    let (it, o) = self.tyopd(&mut lx);
                    if first {
                        let sz = cur.size() as i64;
                        match o {
                            Opd::K(Val::C(c)) => off += crate::expr::sext(it.bits(), c) as i64 * sz,
                            o => idx.push((o, it.bits(), sz)),
                        }
                        first = false;
                    } else {
                        match &cur {
                            Ty::Struct(..) => {
                                let k = match o {
                                    Opd::K(Val::C(c)) => c as u64,
                                    _ => lx.fail("struct gep"),
                                };
                                off += cur.field_off(k) as i64;
                                cur = cur.field(k);
                            }
                            _ => {
                                let et = cur.field(0);
                                let sz = et.size() as i64;
                                match o {
                                    Opd::K(Val::C(c)) => off += crate::expr::sext(it.bits(), c) as i64 * sz,
                                    o => idx.push((o, it.bits(), sz)),
                                }
                                cur = et;
                            }
                        }
                    }
                }
                rty = Ty::Ptr;
                Inst::Gep(base, off, idx)
            }
            "load" => {
                self.skip_words(&mut lx);
                let t = m.ty(&mut lx);
                lx.expect(b',');
                let (_, p) = self.tyopd(&mut lx);
                rty = t.clone();
                Inst::Load(t, p)
            }
            "store" => {
                self.skip_words(&mut lx);
                let (t, v) = self.tyopd(&mut lx);
                lx.expect(b',');
                let (_, p) = self.tyopd(&mut lx);
                Inst::Store(t, v, p)
            }
            "alloca" => {
                lx.eatw("inalloca");
                let t = m.ty(&mut lx);
                let mut n = 1;
                if lx.eat(b',') {
                    if is_type_start(lx.peek()) {
                        let (_, o) = self.tyopd(&mut lx);
                        match o {
                            Opd::K(Val::C(c)) => n = c as u64,
                            _ => lx.fail("dynamic alloca"),
                        }
                    }
                }
                rty = Ty::Ptr;
                Inst::Alloca(t.size() * n)
            }
            "select" => {
                self.skip_words(&mut lx);
                let (ct, c) = self.tyopd(&mut lx);
                lx.expect(b',');
                let (t, a) = self.tyopd(&mut lx);
                lx.expect(b',');
                let (_, d) = self.tyopd(&mut lx);
                rty = t.clone();
                Inst::Select(ct, c, t, a, d)
            }
            "extractvalue" => {
                let (t, a) = self.tyopd(&mut lx);
                let mut ix = vec![];
                let mut cur = t;
                while lx.eat(b',') {
                    match lx.next() {
                        Tok::Num(n) => {
                            let k: u64 = n.parse().unwrap();
                            cur = cur.field(k);
                            ix.push(k)
                        }
                        _ => break,
                    }
                }
                rty = cur;
                Inst::ExtractV(a, ix)
            }
            "insertvalue" => {
                let (t, a) = self.tyopd(&mut lx);
                lx.expect(b',');
                let (vt, v) = self.tyopd(&mut lx);
                let mut ix = vec![];
                while lx.eat(b',') {
                    match lx.next() {
                        Tok::Num(n) => ix.push(n.parse().unwrap()),
                        _ => break,
                    }
                }
                rty = t.clone();
                Inst::InsertV(t, a, vt, v, ix)
            }
            "extractelement" => {
                let (t, a) = self.tyopd(&mut lx);
                lx.expect(b',');
                let (_, i) = self.tyopd(&mut lx);
                rty = t.field(0);
                Inst::ExtractE(t, a, i)
            }
            "insertelement" => {
                let (t, a) = self.tyopd(&mut lx);
                lx.expect(b',');
                let (_, v) = self.tyopd(&mut lx);
                lx.expect(b',');
                let (_, i) = self.tyopd(&mut lx);
                rty = t.clone();
                Inst::InsertE(t, a, v, i)
            }
            "shufflevector" => {
                let (t, a) = self.tyopd(&mut lx);
                lx.expect(b',');
                let (_, c) = self.tyopd(&mut lx);
                lx.expect(b',');
                let mt = m.ty(&mut lx);
                let mv = m.constant(&mut lx, &mt);
                let mask: Vec<Option<u32>> = match mv {
                    Val::Agg(v) => v
                        .iter()
                        .map(|x| match x {
                            Val::C(c) => Some(*c as u32),
                            _ => None,
                        })
                        .collect(),
                    _ => lx.fail("mask"),
                };
                rty = Ty::Vector(mask.len() as u32, Rc::new(t.field(0)));
                Inst::Shuffle(t, a, c, mask)
            }
            "freeze" => {
                let (t, a) = self.tyopd(&mut lx);
                rty = t;
                Inst::Freeze(a)
            }
            "atomicrmw" => {
                lx.eatw("volatile");
                let o = match lx.next() {
                    Tok::Word(w) => w.to_string(),
                    _ => lx.fail("rmw"),
                };
                let (_, p) = self.tyopd(&mut lx);
                lx.expect(b',');
                let (t, v) = self.tyopd(&mut lx);
                rty = t.clone();
                Inst::AtomicRmw(o, t, p, v)
            }
            "cmpxchg" => {
                lx.eatw("weak");
                lx.eatw("volatile");
                let (_, p) = self.tyopd(&mut lx);
                lx.expect(b',');
                let (t, c) = self.tyopd(&mut lx);
                lx.expect(b',');
                let (_, n) = self.tyopd(&mut lx);
                rty = Ty::Struct(Rc::new(vec![t.clone(), Ty::Int(1)]), false);
                Inst::CmpXchg(t, p, c, n)
            }
            "fence" => Inst::Nop,
            "landingpad" => {
                rty = Ty::Other;
                Inst::Nop
            }
            "phi" => {
                self.skip_words(&mut lx);
                let t = m.ty(&mut lx);
                let mut inc = vec![];
                loop {
                    lx.expect(b'[');
                    let o = self.opd(&mut lx, &t);
                    lx.expect(b',');
                    let bl = match lx.next() {
                        Tok::Local(n) => self.block(&n),
                        _ => lx.fail("phi"),
                    };
                    lx.expect(b']');
                    inc.push((bl, o));
                    if !lx.eat(b',') {
                        break;
                    }
                    if let Tok::Meta(_) = lx.peek() {
                        break;
                    }
                }
                let d = dst.unwrap();
                self.reg_ty[d as usize] = t.clone();
                b.phis.push(Phi { dst: d, ty: t, inc });
                return;
            }
            "tail" | "musttail" | "notail" | "call" | "invoke" => {
                if op != "call" && op != "invoke" {
                    lx.next();
                }
                // skip flags / cconv / ret attrs
                while !is_type_start(lx.peek()) {
                    lx.next();
                    match lx.peek() {
                        Tok::P(b'(') => lx.skip_parens(),
                        _ => {}
                    }
                }
                let ret = m.ty(&mut lx);
                if let Tok::P(b'(') = lx.peek() {
                    lx.skip_parens(); // function type of a varargs call
                }
                let mut name: Option<Rc<str>> = None;
                let callee = match lx.peek().clone() {
                    Tok::Global(n) => {
                        lx.next();
                        name = Some(n.as_str().into());
                        let id = *m.by_name.get(&n).unwrap_or_else(|| panic!("unknown callee {}", n));
                        if let SymKind::Alias(a) = m.sym(id).kind {
                            Opd::K(Val::C(a as u128))
                        } else {
                            Opd::K(Val::C((id as u128) << 32))
                        }
                    }
                    Tok::Local(n) => {
                        lx.next();
                        Opd::R(self.reg(&n))
                    }
                    Tok::Word("asm") => {
                        // inline assembly: only empty/pause-like barriers are accepted at run time
                        lx.next();
                        while let Tok::Word(_) = lx.peek() {
                            lx.next();
                        }
                        let mut txt = String::new();
                        if let Tok::Str(t) = lx.next() {
                            txt = t.to_string();
                        }
                        lx.expect(b',');
                        lx.next();
                        name = Some(format!("asm:{}", txt).as_str().into());
                        Opd::K(Val::C(0))
                    }
                    _ => Opd::K(m.constant(&mut lx, &Ty::Ptr)),
                };
                let mut args = vec![];
                lx.expect(b'(');
                if !lx.eat(b')') {
                    loop {
                        let t = m.ty(&mut lx);
                        if t != Ty::Other {
                            self.skip_attrs(&mut lx);
                        }
                        let o = self.opd(&mut lx, &t);
                        args.push((t, o));
                        if lx.eat(b',') {
                            continue;
                        }
                        lx.expect(b')');
                        break;
                    }
                }
                if op == "invoke" {
                    // ... to label %x unwind label %y
                    loop {
                        match lx.peek() {
                            Tok::Word("to") => break,
                            Tok::Eof => lx.fail("invoke"),
                            _ => {
                                lx.next();
                            }
                        }
                    }
                    lx.next();
                    let l = self.label(&mut lx);
                    b.invoke_dst = Some(l);
                    b.term = Term::Br(l);
                }
                rty = ret.clone();
                Inst::Call { ret, callee, args, name }
            }
            "br" => {
                if let Tok::Word("label") = lx.peek() {
                    let l = self.label(&mut lx);
                    b.term = Term::Br(l);
                } else {
                    let (_, c) = self.tyopd(&mut lx);
                    lx.expect(b',');
                    let x = self.label(&mut lx);
                    lx.expect(b',');
                    let y = self.label(&mut lx);
                    b.term = if x == y { Term::Br(x) } else { Term::CondBr(c, x, y) };
                }
                return;
            }
            "switch" => {
                let (t, v) = self.tyopd(&mut lx);
                lx.expect(b',');
                let d = self.label(&mut lx);
                lx.expect(b'[');
                let mut cases = vec![];
                while !lx.eat(b']') {
                    let ct = m.ty(&mut lx);
                    let c = match m.constant(&mut lx, &ct) {
                        Val::C(c) => c,
                        _ => lx.fail("case"),
                    };
                    lx.expect(b',');
                    let l = self.label(&mut lx);
                    cases.push((c, l));
                }
                b.term = Term::Switch(t.bits(), v, d, cases);
                return;
            }
            "ret" => {
                let t = m.ty(&mut lx);
                b.term = if t == Ty::Void {
                    Term::Ret(t, None)
                } else {
                    let o = self.opd(&mut lx, &t);
                    Term::Ret(t, Some(o))
                };
                return;
            }
            "unreachable" | "resume" => {
                b.term = Term::Unreachable;
                return;
            }
            _ => lx.fail(&format!("unknown instruction {}", op)),
        };
        if let Some(d) = dst {
            self.reg_ty[d as usize] = rty;
        }
        b.insts.push((dst, inst));
    }
}

pub fn succs(b: &Block) -> Vec<u32> {
    match &b.term {
        Term::Br(x) => vec![*x],
        Term::CondBr(_, x, y) => vec![*x, *y],
        Term::Switch(_, _, d, cs) => {
            let mut v = vec![*d];
            for (_, l) in cs {
                if !v.contains(l) {
                    v.push(*l);
                }
            }
            v
        }
        _ => vec![],
    }
}

fn inst_uses(i: &Inst, f: &mut dyn FnMut(u32)) {
    let mut o = |x: &Opd| {
        if let Opd::R(r) = x {
            f(*r)
        }
    };
    match i {
        Inst::Bin(_, _, a, b) | Inst::FBin(_, _, a, b) | Inst::ICmp(_, _, a, b) | Inst::FCmp(_, _, a, b) => {
            o(a);
            o(b)
        }
        Inst::FNeg(_, a) | Inst::Cast(_, _, _, a) | Inst::Load(_, a) | Inst::Freeze(a) | Inst::ExtractV(a, _) => o(a),
        Inst::Gep(b, _, ix) => {
            o(b);
            for (x, _, _) in ix {
                o(x)
            }
        }
        Inst::Store(_, a, b) | Inst::AtomicRmw(_, _, a, b) | Inst::ExtractE(_, a, b) | Inst::Shuffle(_, a, b, _) => {
            o(a);
            o(b)
        }
        Inst::InsertV(_, a, _, b, _) => {
            o(a);
            o(b)
        }
        Inst::Select(_, c, _, a, b) => {
            o(c);
            o(a);
            o(b)
        }
        Inst::InsertE(_, a, b, c) | Inst::CmpXchg(_, a, b, c) => {
            o(a);
            o(b);
            o(c)
        }
        Inst::Call { callee, args, .. } => {
            o(callee);
            for (_, a) in args {
                o(a)
            }
        }
        Inst::Alloca(_) | Inst::Nop => {}
    }
}

fn analyse(f: &mut Func) {
    let n = f.blocks.len();
    let mut succ: Vec<Vec<u32>> = f.blocks.iter().map(succs).collect();
    let is_ret: Vec<bool> = f.blocks.iter().map(|b| matches!(b.term, Term::Ret(..))).collect();
    let mut preds: Vec<Vec<u32>> = vec![vec![]; n];
    for (i, s) in succ.iter().enumerate() {
        for &t in s {
            preds[t as usize].push(i as u32);
        }
    }
    // blocks that can reach a return
    let mut live = vec![false; n];
    let mut st: Vec<u32> = (0..n as u32).filter(|i| is_ret[*i as usize]).collect();
    for &i in &st {
        live[i as usize] = true;
    }
    while let Some(x) = st.pop() {
        for &p in &preds[x as usize] {
            if !live[p as usize] {
                live[p as usize] = true;
                st.push(p);
            }
        }
    }
    for s in succ.iter_mut() {
        s.retain(|t| live[*t as usize]);
    }
    // post-dominators on the reverse graph with virtual exit = n (Cooper et al.)
    let exit = n;
    let mut order = vec![]; // postorder of reverse graph from exit
    let mut seen = vec![false; n + 1];
    let rsucc = |x: usize| -> Vec<usize> {
        if x == exit {
            (0..n).filter(|i| is_ret[*i]).collect()
        } else {
            preds[x].iter().map(|p| *p as usize).filter(|p| live[*p]).collect()
        }
    };
    let mut stack: Vec<(usize, Vec<usize>, usize)> = vec![(exit, rsucc(exit), 0)];
    seen[exit] = true;
    while let Some(top) = stack.last_mut() {
        if top.2 < top.1.len() {
            let y = top.1[top.2];
            top.2 += 1;
            if !seen[y] {
                seen[y] = true;
                stack.push((y, rsucc(y), 0));
            }
        } else {
            order.push(top.0);
            stack.pop();
        }
    }
    let mut num = vec![usize::MAX; n + 1];
    for (i, x) in order.iter().enumerate() {
        num[*x] = i;
    }
    let mut idom: Vec<Option<usize>> = vec![None; n + 1];
    idom[exit] = Some(exit);
    let mut changed = true;
    while changed {
        changed = false;
        for &x in order.iter().rev() {
            if x == exit {
                continue;
            }
            let mut ss: Vec<usize> = succ[x].iter().map(|t| *t as usize).collect();
            if is_ret[x] {
                ss.push(exit);
            }
            let mut new: Option<usize> = None;
            for s in ss {
                if idom[s].is_none() {
                    continue;
                }
                new = Some(match new {
                    None => s,
                    Some(mut a) => {
                        let mut b = s;
                        while a != b {
                            while num[a] < num[b] {
                                a = idom[a].unwrap();
                            }
                            while num[b] < num[a] {
                                b = idom[b].unwrap();
                            }
                        }
                        a
                    }
                });
            }
            if new.is_some() && idom[x] != new {
                idom[x] = new;
                changed = true;
            }
        }
    }
    f.ipdom = (0..n)
        .map(|i| match idom[i] {
            Some(x) if x != exit => Some(x as u32),
            _ => None,
        })
        .collect();
    f.dead = live.iter().map(|l| !l).collect();
    // liveness
    let words = (f.nregs as usize + 63) / 64;
    let mut usev = vec![vec![0u64; words]; n];
    let mut defv = vec![vec![0u64; words]; n];
    for (i, b) in f.blocks.iter().enumerate() {
        let u = &mut usev[i];
        let d = &mut defv[i];
        // phi dsts are considered defined at block entry (live-in list is "after phis")
        for (dst, ins) in &b.insts {
            inst_uses(ins, &mut |r| {
                if d[r as usize / 64] >> (r % 64) & 1 == 0 {
                    u[r as usize / 64] |= 1 << (r % 64);
                }
            });
            if let Some(x) = dst {
                d[*x as usize / 64] |= 1 << (x % 64);
            }
        }
        let mut tu = |o: &Opd| {
            if let Opd::R(r) = o {
                if d[*r as usize / 64] >> (r % 64) & 1 == 0 {
                    u[*r as usize / 64] |= 1 << (r % 64);
                }
            }
        };
        match &b.term {
            Term::CondBr(c, _, _) => tu(c),
            Term::Switch(_, c, _, _) => tu(c),
            Term::Ret(_, Some(c)) => tu(c),
            _ => {}
        }
    }
    // livein[b] = use[b] ∪ (liveout[b] − def[b]) where liveout = ∪ succ (livein[s] − phis[s]) ∪ phi operands from b
    let full_succ: Vec<Vec<u32>> = f.blocks.iter().map(succs).collect();
    let mut li = usev.clone();
    let mut changed = true;
    while changed {
        changed = false;
        for i in (0..n).rev() {
            let mut out = vec![0u64; words];
            for &s in &full_succ[i] {
                let sb = &f.blocks[s as usize];
                let mut t = li[s as usize].clone();
                for ph in &sb.phis {
                    t[ph.dst as usize / 64] &= !(1 << (ph.dst % 64));
                }
                for ph in &sb.phis {
                    for (p, o) in &ph.inc {
                        if *p as usize == i {
                            if let Opd::R(r) = o {
                                t[*r as usize / 64] |= 1 << (r % 64);
                            }
                        }
                    }
                }
                for k in 0..words {
                    out[k] |= t[k];
                }
            }
            for k in 0..words {
                let nv = usev[i][k] | (out[k] & !defv[i][k]);
                if nv | li[i][k] != li[i][k] {
                    li[i][k] |= nv;
                    changed = true;
                }
            }
        }
    }
    f.livein = li
        .into_iter()
        .map(|v| {
            let mut o = vec![];
            for (k, w) in v.into_iter().enumerate() {
                let mut w = w;
                while w != 0 {
                    let b = w.trailing_zeros();
                    o.push(k as u32 * 64 + b);
                    w &= w - 1;
                }
            }
            o
        })
        .collect();
}
