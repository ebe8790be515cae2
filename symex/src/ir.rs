//! Parser for textual LLVM IR, as written by rustc's `--emit=llvm-ir` after fat LTO.
//! Only what the executor needs is kept; a function body is parsed the first time it is called.
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    F32,
    F64,
    Arr(u64, Rc<Ty>),
    Vec(u64, Rc<Ty>),
    Struct(Rc<Vec<Ty>>, bool),
    Other,
}

pub fn align_up(x: u64, a: u64) -> u64 {
    (x + a - 1) / a * a
}

impl Ty {
    /// bit width of a scalar
    pub fn bits(&self) -> u32 {
        match self {
            Ty::Int(n) => *n,
            Ty::Ptr | Ty::F64 => 64,
            Ty::F32 => 32,
            _ => panic!("bits of {:?}", self),
        }
    }
    pub fn store_size(&self) -> u64 {
        match self {
            Ty::Int(n) => ((*n as u64) + 7) / 8,
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Vec(n, t) => {
                if let Ty::Int(b) = **t {
                    ((b as u64) * n + 7) / 8
                } else {
                    n * t.store_size()
                }
            }
            _ => self.size(),
        }
    }
    pub fn size(&self) -> u64 {
        match self {
            Ty::Void => 0,
            Ty::Arr(n, t) => n * t.size(),
            Ty::Struct(fs, packed) => {
                let mut o = 0;
                let mut al = 1;
                for f in fs.iter() {
                    if !*packed {
                        o = align_up(o, f.align());
                        al = al.max(f.align());
                    }
                    o += f.size();
                }
                align_up(o, al)
            }
            Ty::Other => 0,
            _ => align_up(self.store_size(), self.align()),
        }
    }
    pub fn align(&self) -> u64 {
        match self {
            Ty::Void | Ty::Other => 1,
            Ty::Int(n) => {
                let s = ((*n as u64) + 7) / 8;
                s.next_power_of_two().min(16)
            }
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Vec(_, _) => self.store_size().next_power_of_two(),
            Ty::Arr(_, t) => t.align(),
            Ty::Struct(fs, packed) => {
                if *packed {
                    1
                } else {
                    fs.iter().map(|f| f.align()).max().unwrap_or(1)
                }
            }
        }
    }
    pub fn field_offset(&self, i: usize) -> u64 {
        match self {
            Ty::Struct(fs, packed) => {
                let mut o = 0;
                for (k, f) in fs.iter().enumerate() {
                    if !*packed {
                        o = align_up(o, f.align());
                    }
                    if k == i {
                        return o;
                    }
                    o += f.size();
                }
                panic!("field index")
            }
            Ty::Arr(_, t) => t.size() * i as u64,
            Ty::Vec(_, t) => t.size() * i as u64,
            _ => panic!("field_offset of {:?}", self),
        }
    }
    pub fn field_ty(&self, i: usize) -> Ty {
        match self {
            Ty::Struct(fs, _) => fs[i].clone(),
            Ty::Arr(_, t) | Ty::Vec(_, t) => (**t).clone(),
            _ => panic!("field_ty of {:?}", self),
        }
    }
}

/// A constant before globals have been given addresses.
#[derive(Clone, Debug)]
pub enum Const {
    Int(u128, u32),
    Zero(Ty),
    Undef(Ty),
    Bytes(Vec<u8>),
    Agg(Vec<Const>, Ty),
    Global(String),
    /// base + offset
    Offset(Box<Const>, i64),
    /// a op b on 64-bit ints
    Bin(char, Box<Const>, Box<Const>, u32),
    Trunc(Box<Const>, u32),
}

#[derive(Clone, Debug)]
pub enum Opnd {
    Reg(u32),
    K(Rc<Const>, Ty),
    Meta,
    Asm(String),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum BinOp {
    Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Shl, LShr, AShr,
    FAdd, FSub, FMul, FDiv, FRem,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum CastOp {
    Trunc, ZExt, SExt, FpTrunc, FpExt, FpToUi, FpToSi, UiToFp, SiToFp, PtrToInt, IntToPtr, BitCast,
}

#[derive(Clone, Debug)]
pub enum Inst {
    Bin(BinOp, Ty, Opnd, Opnd),
    FNeg(Ty, Opnd),
    Cast(CastOp, Ty, Opnd, Ty),
    ICmp(&'static str, Ty, Opnd, Opnd),
    FCmp(&'static str, Ty, Opnd, Opnd),
    Select(Ty, Opnd, Opnd, Opnd),
    Alloca(Ty, Opnd, u64),
    Load(Ty, Opnd),
    Store(Ty, Opnd, Opnd),
    /// base, const offset, (index operand, index width, scale)
    Gep(Opnd, i64, Vec<(Opnd, u32, i64)>),
    Call { callee: Opnd, args: Vec<(Ty, Opnd)>, ret: Ty, invoke: Option<(u32, u32)>, byval: Vec<Option<(u64, u64)>> },
    Phi(Vec<(u32, Opnd)>),
    ExtractValue(Opnd, Vec<usize>),
    InsertValue(Ty, Opnd, Opnd, Vec<usize>),
    ExtractElement(Opnd, Opnd),
    InsertElement(Ty, Opnd, Opnd, Opnd),
    Shuffle(Ty, Opnd, Opnd, Vec<i64>),
    AtomicRmw(String, Ty, Opnd, Opnd),
    CmpXchg(Ty, Opnd, Opnd, Opnd),
    Freeze(Opnd),
    Ret(Option<(Ty, Opnd)>),
    Br(u32),
    CondBr(Opnd, u32, u32),
    Switch(Ty, Opnd, u32, Vec<(u128, u32)>),
    Unreachable,
    Nop,
    Unsupported(String),
}

#[derive(Clone, Debug)]
pub struct Line {
    pub dst: u32, // u32::MAX: none
    pub dbg: u32, // 0: none
    pub inst: Inst,
}

#[derive(Debug)]
pub struct Block {
    pub name: String,
    pub lines: Vec<Line>,
}

#[derive(Debug)]
pub struct Func {
    pub name: String,
    pub demangled: String,
    pub params: Vec<Ty>,
    pub nregs: usize,
    pub blocks: Vec<Block>,
    pub joins: std::cell::OnceCell<Vec<Option<u32>>>,
}
impl Block {
    pub fn succs(&self) -> Vec<u32> {
        match &self.lines.last().unwrap().inst {
            Inst::Br(b) => vec![*b],
            Inst::CondBr(_, a, b) => vec![*a, *b],
            Inst::Switch(_, _, d, cs) => {
                let mut v: Vec<u32> = cs.iter().map(|x| x.1).collect();
                v.push(*d);
                v
            }
            Inst::Call { invoke: Some((n, _)), .. } => vec![*n],
            _ => vec![],
        }
    }
}
impl Func {
    /// Immediate post-dominators, over the blocks from which the function returns.
    pub fn join(&self, b: u32) -> Option<u32> {
        self.joins.get_or_init(|| {
            let n = self.blocks.len();
            let succ: Vec<Vec<u32>> = self.blocks.iter().map(|b| b.succs()).collect();
            let mut ret: Vec<bool> = self.blocks.iter().map(|b| matches!(b.lines.last().unwrap().inst, Inst::Ret(_))).collect();
            loop {
                let mut ch = false;
                for i in 0..n {
                    if !ret[i] && succ[i].iter().any(|s| ret[*s as usize]) {
                        ret[i] = true;
                        ch = true;
                    }
                }
                if !ch {
                    break;
                }
            }
            if n > 3000 {
                return vec![None; n];
            }
            // sets of post-dominators as bit sets
            let w = (n + 63) / 64;
            let mut pd: Vec<Vec<u64>> = vec![vec![!0u64; w]; n];
            loop {
                let mut ch = false;
                for i in (0..n).rev() {
                    if !ret[i] {
                        continue;
                    }
                    let mut x: Vec<u64> = vec![0; w];
                    let ss: Vec<u32> = succ[i].iter().cloned().filter(|s| ret[*s as usize]).collect();
                    if !ss.is_empty() {
                        x = vec![!0u64; w];
                        for s in ss {
                            for k in 0..w {
                                x[k] &= pd[s as usize][k];
                            }
                        }
                    }
                    x[i / 64] |= 1 << (i % 64);
                    if x != pd[i] {
                        pd[i] = x;
                        ch = true;
                    }
                }
                if !ch {
                    break;
                }
            }
            let size = |i: usize| -> u32 { pd[i].iter().map(|x| x.count_ones()).sum() };
            (0..n)
                .map(|i| {
                    if !ret[i] {
                        return None;
                    }
                    // the nearest one has the most post-dominators of its own
                    (0..n).filter(|j| *j != i && pd[i][j / 64] >> (j % 64) & 1 == 1).max_by_key(|j| size(*j)).map(|j| j as u32)
                })
                .collect()
        })[b as usize]
    }
}

pub struct GlobalDef {
    pub name: String,
    pub ty: Ty,
    pub align: u64,
    pub init: Option<(usize, usize)>, // byte range of the initialiser text
    pub constant: bool,
}

pub struct Module {
    pub text: Rc<String>,
    pub types: HashMap<String, Ty>,
    pub globals: HashMap<String, GlobalDef>,
    pub global_order: Vec<String>,
    /// name -> (demangled, byte range from the define line to its closing brace)
    pub defs: HashMap<String, (String, usize, usize)>,
    pub decls: Vec<String>,
    pub aliases: HashMap<String, (usize, usize)>,
    pub meta: HashMap<u32, (usize, usize)>,
    cache: RefCell<HashMap<String, Rc<Func>>>,
}

// ---------------------------------------------------------------- lexer
#[derive(Clone, Debug, PartialEq)]
pub enum Tok<'a> {
    Id(&'a str),
    Local(String),
    Global(String),
    Num(&'a str),
    Str(Vec<u8>),  // "..."
    CStr(Vec<u8>), // c"..."
    P(char),
    Meta(&'a str),
    Hash(&'a str),
    Ellipsis,
    Eof,
}

fn unescape(s: &[u8]) -> Vec<u8> {
    let mut v = Vec::with_capacity(s.len());
    let mut i = 0;
    while i < s.len() {
        if s[i] == b'\\' && i + 2 < s.len() + 0 {
            if s[i + 1] == b'\\' {
                v.push(b'\\');
                i += 2;
                continue;
            }
            let h = std::str::from_utf8(&s[i + 1..i + 3]).unwrap();
            v.push(u8::from_str_radix(h, 16).unwrap());
            i += 3;
        } else {
            v.push(s[i]);
            i += 1;
        }
    }
    v
}

pub struct Lex<'a> {
    s: &'a str,
    b: &'a [u8],
    pub i: usize,
    pub tok: Tok<'a>,
}

fn idc(c: u8) -> bool {
    c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-'
}

impl<'a> Lex<'a> {
    pub fn new(s: &'a str) -> Self {
        let mut l = Lex { s, b: s.as_bytes(), i: 0, tok: Tok::Eof };
        l.next();
        l
    }
    fn name(&mut self) -> String {
        if self.i < self.b.len() && self.b[self.i] == b'"' {
            let st = self.i + 1;
            let mut j = st;
            while self.b[j] != b'"' {
                j += 1;
            }
            self.i = j + 1;
            String::from_utf8_lossy(&unescape(&self.b[st..j])).into_owned()
        } else {
            let st = self.i;
            while self.i < self.b.len() && idc(self.b[self.i]) {
                self.i += 1;
            }
            self.s[st..self.i].to_string()
        }
    }
    pub fn next(&mut self) -> Tok<'a> {
        let t = self.lex();
        std::mem::replace(&mut self.tok, t)
    }
    fn lex(&mut self) -> Tok<'a> {
        loop {
            if self.i >= self.b.len() {
                return Tok::Eof;
            }
            let c = self.b[self.i];
            if c.is_ascii_whitespace() {
                self.i += 1;
                continue;
            }
            if c == b';' {
                while self.i < self.b.len() && self.b[self.i] != b'\n' {
                    self.i += 1;
                }
                continue;
            }
            break;
        }
        let st = self.i;
        let c = self.b[st];
        match c {
            b'%' => {
                self.i += 1;
                Tok::Local(self.name())
            }
            b'@' => {
                self.i += 1;
                Tok::Global(self.name())
            }
            b'!' => {
                self.i += 1;
                while self.i < self.b.len() && idc(self.b[self.i]) {
                    self.i += 1;
                }
                Tok::Meta(&self.s[st + 1..self.i])
            }
            b'#' => {
                self.i += 1;
                while self.i < self.b.len() && idc(self.b[self.i]) {
                    self.i += 1;
                }
                Tok::Hash(&self.s[st + 1..self.i])
            }
            b'"' => {
                let mut j = st + 1;
                while self.b[j] != b'"' {
                    j += 1;
                }
                self.i = j + 1;
                Tok::Str(unescape(&self.b[st + 1..j]))
            }
            b'c' if self.b.get(st + 1) == Some(&b'"') => {
                let mut j = st + 2;
                while self.b[j] != b'"' {
                    j += 1;
                }
                self.i = j + 1;
                Tok::CStr(unescape(&self.b[st + 2..j]))
            }
            b'.' if self.s[st..].starts_with("...") => {
                self.i += 3;
                Tok::Ellipsis
            }
            b'-' | b'0'..=b'9' | b'+' => {
                self.i += 1;
                while self.i < self.b.len()
                    && (idc(self.b[self.i])
                        || (self.b[self.i] == b'+' && matches!(self.b[self.i - 1], b'e' | b'E')))
                {
                    self.i += 1;
                }
                Tok::Num(&self.s[st..self.i])
            }
            b'A'..=b'Z' | b'a'..=b'z' | b'_' | b'$' => {
                while self.i < self.b.len() && idc(self.b[self.i]) {
                    self.i += 1;
                }
                Tok::Id(&self.s[st..self.i])
            }
            _ => {
                self.i += 1;
                Tok::P(c as char)
            }
        }
    }
    pub fn is_p(&self, c: char) -> bool {
        self.tok == Tok::P(c)
    }
    pub fn eat_p(&mut self, c: char) -> bool {
        if self.is_p(c) {
            self.next();
            true
        } else {
            false
        }
    }
    pub fn expect(&mut self, c: char) {
        if !self.eat_p(c) {
            let a = self.i.saturating_sub(80);
            panic!("expected '{}' got {:?} near `{}`", c, self.tok, &self.s[a..(self.i + 60).min(self.s.len())]);
        }
    }
    pub fn is_id(&self, s: &str) -> bool {
        matches!(&self.tok, Tok::Id(x) if *x == s)
    }
    pub fn eat_id(&mut self, s: &str) -> bool {
        if self.is_id(s) {
            self.next();
            true
        } else {
            false
        }
    }
    fn skip_parens(&mut self) {
        // at '('
        let mut d = 0;
        loop {
            match self.next() {
                Tok::P('(') => d += 1,
                Tok::P(')') => {
                    d -= 1;
                    if d == 0 {
                        return;
                    }
                }
                Tok::Eof => panic!("eof in parens"),
                _ => {}
            }
        }
    }
}

const CONST_IDS: &[&str] = &[
    "null", "undef", "poison", "true", "false", "zeroinitializer", "getelementptr", "inttoptr", "ptrtoint",
    "bitcast", "trunc", "add", "sub", "xor", "mul", "splat", "none", "asm", "addrspacecast", "and", "or", "shl",
    "ptrtoaddr",
];

fn fhex(s: &str, ty: &Ty) -> u128 {
    // LLVM prints both float and double constants as doubles
    let d: f64 = if let Some(h) = s.strip_prefix("0x") {
        f64::from_bits(u64::from_str_radix(h, 16).unwrap())
    } else if let Some(sign) = s.strip_suffix("qnan") {
        f64::from_bits(0x7ff8_0000_0000_0000 | ((sign == "-") as u64) << 63)
    } else {
        s.parse().unwrap()
    };
    match ty {
        Ty::F32 => {
            if d.is_nan() {
                let b = d.to_bits();
                let sign = (b >> 63) as u32;
                let man = ((b >> 29) & 0x7fffff) as u32;
                ((sign << 31) | 0x7f800000 | man) as u128
            } else {
                (d as f32).to_bits() as u128
            }
        }
        _ => d.to_bits() as u128,
    }
}

fn mask(w: u32) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}

impl Module {
    pub fn parse(text: String) -> Module {
        let text = Rc::new(text);
        let mut m = Module {
            text: text.clone(),
            types: HashMap::new(),
            globals: HashMap::new(),
            global_order: vec![],
            defs: HashMap::new(),
            decls: vec![],
            aliases: HashMap::new(),
            meta: HashMap::new(),
            cache: RefCell::new(HashMap::new()),
        };
        let s: &str = &text;
        let mut pos = 0;
        let mut demangled = String::new();
        let bytes = s.as_bytes();
        let mut global_lines: Vec<(usize, usize)> = vec![];
        while pos < s.len() {
            let end = s[pos..].find('\n').map(|k| pos + k).unwrap_or(s.len());
            let line = &s[pos..end];
            match bytes.get(pos) {
                Some(b';') => {
                    let l = line[1..].trim();
                    if !l.starts_with("Function Attrs") && !l.is_empty() {
                        demangled = l.to_string();
                    }
                }
                Some(b'%') => {
                    let mut lx = Lex::new(line);
                    if let Tok::Local(n) = lx.next() {
                        lx.expect('=');
                        lx.eat_id("type");
                        let t = if lx.is_id("opaque") { Ty::Other } else { m.ty(&mut lx) };
                        m.types.insert(n, t);
                    }
                }
                Some(b'@') => global_lines.push((pos, end)),
                Some(b'd') if line.starts_with("declare") => {
                    let k = line.find('@').unwrap();
                    let mut lx = Lex::new(&line[k..]);
                    if let Tok::Global(n) = lx.next() {
                        m.decls.push(n);
                    }
                }
                Some(b'd') if line.starts_with("define") => {
                    let k = line.find('@').unwrap();
                    let mut lx = Lex::new(&line[k..]);
                    if let Tok::Global(n) = lx.next() {
                        let fend = s[pos..].find("\n}").map(|k| pos + k + 1).unwrap();
                        let d = if demangled.is_empty() { n.clone() } else { std::mem::take(&mut demangled) };
                        m.defs.insert(n, (d, pos, fend));
                        demangled.clear();
                        pos = fend + 2;
                        continue;
                    }
                }
                Some(b'!') => {
                    let e = line.find(" = ").unwrap_or(0);
                    if let Ok(n) = line[1..e.max(1)].parse::<u32>() {
                        m.meta.insert(n, (pos + e + 3, end));
                    }
                }
                _ => {
                    demangled.clear();
                }
            }
            pos = end + 1;
        }
        for (a, b) in global_lines {
            let line = &s[a..b];
            let mut lx = Lex::new(line);
            let name = match lx.next() {
                Tok::Global(n) => n,
                _ => continue,
            };
            lx.expect('=');
            // linkage etc. until global|constant|alias
            let mut ext = false;
            let constant;
            loop {
                if lx.is_id("global") {
                    constant = false;
                    lx.next();
                    break;
                }
                if lx.is_id("constant") {
                    constant = true;
                    lx.next();
                    break;
                }
                if lx.is_id("alias") || lx.is_id("ifunc") {
                    constant = true;
                    ext = true;
                    break;
                }
                if lx.is_id("external") || lx.is_id("extern_weak") {
                    ext = true;
                }
                if lx.is_p('(') {
                    lx.skip_parens();
                    continue;
                }
                if lx.tok == Tok::Eof {
                    panic!("global line {}", &line[..line.len().min(200)]);
                }
                lx.next();
            }
            if lx.is_id("alias") {
                m.aliases.insert(name, (a, b));
                continue;
            }
            let ty = m.ty(&mut lx);
            let mut align = ty.align();
            // initialiser starts at current token; we don't know its start offset directly -> use remaining text
            let init = if ext {
                None
            } else {
                // the position of the current token: recompute by searching backwards is messy; store lexer tail
                let tail = lx.i;
                let tokstart = lx.tok_start(tail);
                Some((a + tokstart, b))
            };
            if let Some(k) = line.rfind(", align ") {
                let num: String = line[k + 8..].chars().take_while(|c| c.is_ascii_digit()).collect();
                if let Ok(n) = num.parse::<u64>() {
                    align = align.max(n);
                }
            }
            m.global_order.push(name.clone());
            m.globals.insert(name.clone(), GlobalDef { name, ty, align, init, constant });
        }
        m
    }

    pub fn alias_target(&self, name: &str) -> Option<Const> {
        let (a, b) = *self.aliases.get(name)?;
        let line = &self.text[a..b];
        let k = line.find("alias ").unwrap();
        let mut lx = Lex::new(&line[k + 6..]);
        let _t = self.ty(&mut lx);
        lx.expect(',');
        let t2 = self.ty(&mut lx);
        Some(self.constant(&mut lx, &t2))
    }

    pub fn ty(&self, lx: &mut Lex) -> Ty {
        let t = match lx.next() {
            Tok::Id(s) => match s {
                "void" => Ty::Void,
                "ptr" => {
                    if lx.is_id("addrspace") {
                        lx.next();
                        lx.skip_parens();
                    }
                    Ty::Ptr
                }
                "float" => Ty::F32,
                "double" => Ty::F64,
                "label" | "metadata" | "token" => Ty::Other,
                "half" | "bfloat" => Ty::Int(16),
                "x86_fp80" => Ty::Int(80),
                "fp128" => Ty::Int(128),
                _ if s.starts_with('i') && s[1..].parse::<u32>().is_ok() => Ty::Int(s[1..].parse().unwrap()),
                _ => panic!("type {:?} near {}", s, &lx.s[lx.i.saturating_sub(100)..lx.i]),
            },
            Tok::P('[') => {
                let n = self.num(lx) as u64;
                lx.next(); // x
                let t = self.ty(lx);
                lx.expect(']');
                Ty::Arr(n, Rc::new(t))
            }
            Tok::P('<') => {
                if lx.is_p('{') {
                    lx.next();
                    let fs = self.ty_list(lx, '}');
                    lx.expect('>');
                    Ty::Struct(Rc::new(fs), true)
                } else {
                    let n = self.num(lx) as u64;
                    lx.next();
                    let t = self.ty(lx);
                    lx.expect('>');
                    Ty::Vec(n, Rc::new(t))
                }
            }
            Tok::P('{') => Ty::Struct(Rc::new(self.ty_list(lx, '}')), false),
            Tok::Local(n) => self.types.get(&n).cloned().unwrap_or(Ty::Other),
            t => panic!("type token {:?} near {}", t, &lx.s[lx.i.saturating_sub(100)..lx.i]),
        };
        t
    }
    fn ty_list(&self, lx: &mut Lex, close: char) -> Vec<Ty> {
        let mut v = vec![];
        if lx.eat_p(close) {
            return v;
        }
        loop {
            v.push(self.ty(lx));
            if lx.eat_p(',') {
                continue;
            }
            lx.expect(close);
            return v;
        }
    }
    fn num(&self, lx: &mut Lex) -> i128 {
        match lx.next() {
            Tok::Num(s) => {
                if let Some(h) = s.strip_prefix("0x") {
                    i128::from_str_radix(h, 16).unwrap()
                } else {
                    s.parse().unwrap()
                }
            }
            t => panic!("number {:?}", t),
        }
    }

    pub fn constant(&self, lx: &mut Lex, ty: &Ty) -> Const {
        match lx.next() {
            Tok::Num(s) => match ty {
                Ty::F32 | Ty::F64 => {
                    if s.len() > 1 && (s.ends_with("nan") && !s.ends_with("qnan")) {
                        // a NaN with a payload: +nan(0x..), +snan(0x..)
                        lx.expect('(');
                        let Tok::Num(h) = lx.next() else { panic!("payload") };
                        lx.expect(')');
                        let pay = u128::from_str_radix(&h[2..], 16).unwrap();
                        let (man, bits) = if matches!(ty, Ty::F32) { (23, 32) } else { (52, 64) };
                        let quiet = if s.ends_with("snan") { 0 } else { 1u128 << (man - 1) };
                        let sign = (s.starts_with('-') as u128) << (bits - 1);
                        let exp = ((1u128 << (bits - 1 - man)) - 1) << man;
                        return Const::Int(sign | exp | quiet | pay, bits as u32);
                    }
                    Const::Int(fhex(s, ty), ty.bits())
                }
                Ty::Int(w) => {
                    let v: u128 = if let Some(n) = s.strip_prefix('-') {
                        (n.parse::<u128>().unwrap()).wrapping_neg()
                    } else {
                        s.parse::<u128>().unwrap()
                    };
                    Const::Int(v & mask(*w), *w)
                }
                _ => panic!("num const of type {:?}", ty),
            },
            Tok::CStr(b) => Const::Bytes(b),
            Tok::Global(n) => Const::Global(n),
            Tok::P('[') => self.agg(lx, ']', ty),
            Tok::P('{') => self.agg(lx, '}', ty),
            Tok::P('<') => {
                if lx.is_p('{') {
                    lx.next();
                    let c = self.agg(lx, '}', ty);
                    lx.expect('>');
                    c
                } else {
                    self.agg(lx, '>', ty)
                }
            }
            Tok::Id(s) => match s {
                "null" => Const::Int(0, 64),
                "true" => Const::Int(1, 1),
                "false" => Const::Int(0, 1),
                "zeroinitializer" => Const::Zero(ty.clone()),
                "none" => Const::Zero(ty.clone()),
                "undef" | "poison" => Const::Undef(ty.clone()),
                "splat" => {
                    lx.expect('(');
                    let t = self.ty(lx);
                    let c = self.constant(lx, &t);
                    lx.expect(')');
                    if let Ty::Vec(n, _) = ty {
                        Const::Agg(vec![c; *n as usize], ty.clone())
                    } else {
                        panic!("splat")
                    }
                }
                "getelementptr" => {
                    while let Tok::Id(_) = lx.tok {
                        lx.next();
                        if lx.is_p('(') {
                            break;
                        }
                    }
                    // inrange(a, b) attribute possible before the operand list
                    lx.expect('(');
                    if let Tok::Num(_) = lx.tok {
                        while !lx.eat_p(')') {
                            lx.next();
                        }
                        lx.expect('(');
                    }
                    let bt = self.ty(lx);
                    lx.expect(',');
                    let pt = self.ty(lx);
                    let base = self.constant(lx, &pt);
                    let mut off: i64 = 0;
                    let mut cur: Option<Ty> = None;
                    while lx.eat_p(',') {
                        let it = self.ty(lx);
                        let iv = match self.constant(lx, &it) {
                            Const::Int(v, w) => sext(v, w) as i64,
                            Const::Zero(_) => 0,
                            c => panic!("gep const index {:?}", c),
                        };
                        match cur.take() {
                            None => {
                                off += iv * bt.size() as i64;
                                cur = Some(bt.clone());
                            }
                            Some(t) => {
                                match &t {
                                    Ty::Struct(..) => off += t.field_offset(iv as usize) as i64,
                                    Ty::Arr(_, e) | Ty::Vec(_, e) => off += iv * e.size() as i64,
                                    _ => panic!("gep const into {:?}", t),
                                }
                                cur = Some(t.field_ty(if matches!(t, Ty::Struct(..)) { iv as usize } else { 0 }));
                            }
                        }
                    }
                    lx.expect(')');
                    Const::Offset(Box::new(base), off)
                }
                "inttoptr" | "ptrtoint" | "bitcast" | "addrspacecast" | "ptrtoaddr" | "trunc" => {
                    let op = s;
                    lx.expect('(');
                    let t = self.ty(lx);
                    let c = self.constant(lx, &t);
                    lx.eat_id("to");
                    let t2 = self.ty(lx);
                    lx.expect(')');
                    if op == "trunc" || (op == "ptrtoint" && t2.bits() < 64) {
                        Const::Trunc(Box::new(c), t2.bits())
                    } else if let Const::Int(v, _) = c {
                        Const::Int(v & mask(t2.bits()), t2.bits())
                    } else {
                        c
                    }
                }
                "add" | "sub" | "xor" | "mul" | "and" | "or" | "shl" => {
                    let op = match s {
                        "add" => '+',
                        "sub" => '-',
                        "xor" => '^',
                        "mul" => '*',
                        "and" => '&',
                        "or" => '|',
                        _ => '<',
                    };
                    while let Tok::Id(_) = lx.tok {
                        lx.next();
                    }
                    lx.expect('(');
                    let t = self.ty(lx);
                    let a = self.constant(lx, &t);
                    lx.expect(',');
                    let t2 = self.ty(lx);
                    let b = self.constant(lx, &t2);
                    lx.expect(')');
                    Const::Bin(op, Box::new(a), Box::new(b), t.bits())
                }
                _ if s.starts_with("f0x") => Const::Int(u128::from_str_radix(&s[3..], 16).unwrap() & mask(ty.bits()), ty.bits()),
                _ => panic!("constant ident {}", s),
            },
            t => panic!("constant token {:?} near {}", t, &lx.s[lx.i.saturating_sub(100)..lx.i]),
        }
    }
    fn agg(&self, lx: &mut Lex, close: char, ty: &Ty) -> Const {
        let mut v = vec![];
        if lx.eat_p(close) {
            return Const::Agg(v, ty.clone());
        }
        loop {
            let t = self.ty(lx);
            v.push(self.constant(lx, &t));
            if lx.eat_p(',') {
                continue;
            }
            lx.expect(close);
            return Const::Agg(v, ty.clone());
        }
    }

    pub fn func(&self, name: &str) -> Option<Rc<Func>> {
        if let Some(f) = self.cache.borrow().get(name) {
            return Some(f.clone());
        }
        let (d, a, b) = self.defs.get(name)?.clone();
        let f = Rc::new(FnParser::parse(self, name, &d, &self.text[a..b]));
        self.cache.borrow_mut().insert(name.to_string(), f.clone());
        Some(f)
    }
}

pub fn sext(v: u128, w: u32) -> i128 {
    if w >= 128 {
        return v as i128;
    }
    let sh = 128 - w;
    ((v << sh) as i128) >> sh
}

impl<'a> Lex<'a> {
    /// Byte offset at which the current token starts (only used for global initialisers).
    fn tok_start(&self, end: usize) -> usize {
        // re-lex from the beginning until the token that ends at `end`
        let mut l = Lex { s: self.s, b: self.b, i: 0, tok: Tok::Eof };
        loop {
            // skip whitespace
            while l.i < l.b.len() && l.b[l.i].is_ascii_whitespace() {
                l.i += 1;
            }
            let st = l.i;
            l.lex();
            if l.i >= end {
                return st;
            }
        }
    }
}

// ---------------------------------------------------------------- function bodies
struct FnParser<'m> {
    m: &'m Module,
    regs: HashMap<String, u32>,
    blocks: HashMap<String, u32>,
}

impl<'m> FnParser<'m> {
    fn reg(&mut self, n: String) -> u32 {
        let k = self.regs.len() as u32;
        *self.regs.entry(n).or_insert(k)
    }

    fn parse(m: &'m Module, name: &str, demangled: &str, text: &str) -> Func {
        let mut p = FnParser { m, regs: HashMap::new(), blocks: HashMap::new() };
        let hdr_end = text.find("{\n").unwrap();
        let hdr = &text[..hdr_end];
        let body = &text[hdr_end + 2..];
        // header: params
        let at = hdr.find('@').unwrap();
        let mut lx = Lex::new(&hdr[at..]);
        lx.next();
        lx.expect('(');
        let mut params = vec![];
        let mut unnamed = 0u32;
        if !lx.eat_p(')') {
            loop {
                if lx.tok == Tok::Ellipsis {
                    lx.next();
                    lx.expect(')');
                    break;
                }
                let t = m.ty(&mut lx);
                // attributes
                loop {
                    match &lx.tok {
                        Tok::Id("align") => {
                            lx.next();
                            lx.next();
                        }
                        Tok::Id(_) => {
                            lx.next();
                            if lx.is_p('(') {
                                lx.skip_parens();
                            }
                        }
                        Tok::Str(_) => {
                            lx.next();
                            if lx.eat_p('=') {
                                lx.next();
                            }
                        }
                        _ => break,
                    }
                }
                let n = if let Tok::Local(n) = &lx.tok {
                    let n = n.clone();
                    lx.next();
                    if n.bytes().all(|c| c.is_ascii_digit()) {
                        unnamed += 1;
                    }
                    n
                } else {
                    let n = format!("{}", unnamed);
                    unnamed += 1;
                    n
                };
                let r = p.reg(n);
                debug_assert_eq!(r as usize, params.len());
                params.push(t);
                if lx.eat_p(',') {
                    continue;
                }
                lx.expect(')');
                break;
            }
        }
        // split into logical lines
        let mut chunks: Vec<(bool, String)> = vec![]; // (is_label, text)
        let mut bracket = false;
        for line in body.lines() {
            if line.is_empty() || line.starts_with(';') {
                continue;
            }
            if line.starts_with('}') {
                break;
            }
            if !line.starts_with(' ') {
                // label
                let l = line.split(" ; preds").next().unwrap();
                let l = l.split(";").next().unwrap().trim();
                let l = l.trim_end_matches(':');
                let l = if l.starts_with('"') {
                    String::from_utf8_lossy(&unescape(l.trim_matches('"').as_bytes())).into_owned()
                } else {
                    l.to_string()
                };
                chunks.push((true, l));
                continue;
            }
            let tr = line.trim_start();
            if tr.starts_with("#dbg_") || tr.starts_with(';') {
                continue;
            }
            if bracket {
                let last = chunks.last_mut().unwrap();
                last.1.push('\n');
                last.1.push_str(line);
                if tr.starts_with(']') {
                    bracket = false;
                }
                continue;
            }
            if line.starts_with("    ") || tr.starts_with("to label") {
                let last = chunks.last_mut().unwrap();
                last.1.push('\n');
                last.1.push_str(line);
                continue;
            }
            if tr.starts_with("switch ") && line.trim_end().ends_with('[') {
                bracket = true;
            }
            chunks.push((false, line.to_string()));
        }
        // labels first
        let mut blocks: Vec<Block> = vec![];
        if chunks.first().map(|c| !c.0).unwrap_or(true) {
            // implicit entry label: number = number of unnamed params
            chunks.insert(0, (true, format!("{}", unnamed)));
        }
        for (l, t) in &chunks {
            if *l {
                let k = p.blocks.len() as u32;
                p.blocks.insert(t.clone(), k);
                blocks.push(Block { name: t.clone(), lines: vec![] });
            }
        }
        let mut cur = 0usize;
        let mut first = true;
        for (l, t) in &chunks {
            if *l {
                if first {
                    first = false;
                } else {
                    cur += 1;
                }
                continue;
            }
            let line = p.line(t);
            if !matches!(line.inst, Inst::Nop) {
                blocks[cur].lines.push(line);
            }
        }
        Func { name: name.to_string(), demangled: demangled.to_string(), params, nregs: p.regs.len(), blocks, joins: Default::default() }
    }

    fn opnd(&mut self, lx: &mut Lex, ty: &Ty) -> Opnd {
        match &lx.tok {
            Tok::Local(n) => {
                let n = n.clone();
                lx.next();
                Opnd::Reg(self.reg(n))
            }
            Tok::Meta(_) => {
                lx.next();
                if lx.is_p('(') {
                    lx.skip_parens();
                } else if lx.is_p('{') {
                    while !lx.eat_p('}') {
                        lx.next();
                    }
                }
                Opnd::Meta
            }
            Tok::Id("asm") => {
                lx.next();
                let mut s = String::new();
                loop {
                    match lx.tok.clone() {
                        Tok::Id(_) => {
                            lx.next();
                        }
                        Tok::Str(b) => {
                            s = String::from_utf8_lossy(&b).into_owned();
                            lx.next();
                            lx.expect(',');
                            lx.next();
                            break;
                        }
                        t => panic!("asm {:?}", t),
                    }
                }
                Opnd::Asm(s)
            }
            _ => {
                let c = self.m.constant(lx, ty);
                Opnd::K(Rc::new(c), ty.clone())
            }
        }
    }
    fn ty_opnd(&mut self, lx: &mut Lex) -> (Ty, Opnd) {
        let t = self.m.ty(lx);
        let o = self.opnd(lx, &t);
        (t, o)
    }
    fn label(&mut self, lx: &mut Lex) -> u32 {
        lx.eat_id("label");
        match lx.next() {
            Tok::Local(n) => *self.blocks.get(&n).unwrap_or_else(|| panic!("label {}", n)),
            t => panic!("label {:?}", t),
        }
    }
    fn flags(&self, lx: &mut Lex, stop: &[&str]) {
        // skip flag identifiers (nuw nsw exact inbounds disjoint fast-math ...), stopping before a type
        while let Tok::Id(s) = lx.tok {
            if stop.contains(&s) {
                break;
            }
            match s {
                "nuw" | "nsw" | "exact" | "inbounds" | "disjoint" | "nneg" | "samesign" | "nusw" | "fast" | "nnan"
                | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc" | "volatile" | "atomic" | "inalloca"
                | "swifterror" | "tail" | "musttail" | "notail" => {
                    lx.next();
                }
                "inrange" => {
                    lx.next();
                    if lx.is_p('(') {
                        lx.skip_parens();
                    }
                }
                _ => break,
            }
        }
    }
    fn skip_attrs(&self, lx: &mut Lex) -> Option<(u64, u64)> {
        let mut byval = None;
        loop {
            match &lx.tok {
                Tok::Id(s) if CONST_IDS.contains(s) => return byval,
                Tok::Id("align") => {
                    lx.next();
                    if lx.is_p('(') {
                        lx.skip_parens();
                    } else {
                        lx.next();
                    }
                }
                Tok::Id("byval") => {
                    lx.next();
                    lx.expect('(');
                    let t = self.m.ty(lx);
                    lx.expect(')');
                    byval = Some((t.size(), t.align()));
                }
                Tok::Id(_) => {
                    lx.next();
                    if lx.is_p('(') {
                        lx.skip_parens();
                    }
                }
                Tok::Str(_) => {
                    lx.next();
                    if lx.eat_p('=') {
                        lx.next();
                    }
                }
                _ => return byval,
            }
        }
    }

    fn dbg_of(t: &str) -> u32 {
        if let Some(k) = t.rfind("!dbg !") {
            let n: String = t[k + 6..].chars().take_while(|c| c.is_ascii_digit()).collect();
            return n.parse().unwrap_or(0);
        }
        0
    }

    fn line(&mut self, text: &str) -> Line {
        let mut lx = Lex::new(text);
        let dbg = Self::dbg_of(text);
        let mut dst = u32::MAX;
        if let Tok::Local(n) = lx.tok.clone() {
            lx.next();
            lx.expect('=');
            dst = self.reg(n);
        }
        let inst = self.inst(&mut lx, text);
        Line { dst, dbg, inst }
    }

    fn inst(&mut self, lx: &mut Lex, text: &str) -> Inst {
        let op = match lx.next() {
            Tok::Id(s) => s,
            t => panic!("instruction {:?} in {}", t, text),
        };
        use BinOp::*;
        let bin = match op {
            "add" => Some(Add),
            "sub" => Some(Sub),
            "mul" => Some(Mul),
            "udiv" => Some(UDiv),
            "sdiv" => Some(SDiv),
            "urem" => Some(URem),
            "srem" => Some(SRem),
            "and" => Some(And),
            "or" => Some(Or),
            "xor" => Some(Xor),
            "shl" => Some(Shl),
            "lshr" => Some(LShr),
            "ashr" => Some(AShr),
            "fadd" => Some(FAdd),
            "fsub" => Some(FSub),
            "fmul" => Some(FMul),
            "fdiv" => Some(FDiv),
            "frem" => Some(FRem),
            _ => None,
        };
        if let Some(b) = bin {
            self.flags(lx, &[]);
            let (t, a) = self.ty_opnd(lx);
            lx.expect(',');
            let c = self.opnd(lx, &t);
            return Inst::Bin(b, t, a, c);
        }
        let cast = match op {
            "trunc" => Some(CastOp::Trunc),
            "zext" => Some(CastOp::ZExt),
            "sext" => Some(CastOp::SExt),
            "fptrunc" => Some(CastOp::FpTrunc),
            "fpext" => Some(CastOp::FpExt),
            "fptoui" => Some(CastOp::FpToUi),
            "fptosi" => Some(CastOp::FpToSi),
            "uitofp" => Some(CastOp::UiToFp),
            "sitofp" => Some(CastOp::SiToFp),
            "ptrtoint" | "ptrtoaddr" => Some(CastOp::PtrToInt),
            "inttoptr" => Some(CastOp::IntToPtr),
            "bitcast" | "addrspacecast" => Some(CastOp::BitCast),
            _ => None,
        };
        if let Some(c) = cast {
            self.flags(lx, &[]);
            let (t, a) = self.ty_opnd(lx);
            if !lx.eat_id("to") {
                panic!("cast {}", text);
            }
            let t2 = self.m.ty(lx);
            return Inst::Cast(c, t, a, t2);
        }
        match op {
            "fneg" => {
                self.flags(lx, &[]);
                let (t, a) = self.ty_opnd(lx);
                Inst::FNeg(t, a)
            }
            "icmp" | "fcmp" => {
                self.flags(lx, &[]);
                let p = match lx.next() {
                    Tok::Id(s) => s,
                    t => panic!("{:?}", t),
                };
                let preds: &[&'static str] = &[
                    "eq", "ne", "ugt", "uge", "ult", "ule", "sgt", "sge", "slt", "sle", "oeq", "ogt", "oge", "olt",
                    "ole", "one", "ord", "ueq", "une", "uno", "true", "false",
                ];
                let pr = preds.iter().find(|x| **x == p).unwrap();
                let (t, a) = self.ty_opnd(lx);
                lx.expect(',');
                let b = self.opnd(lx, &t);
                if op == "icmp" {
                    Inst::ICmp(pr, t, a, b)
                } else {
                    Inst::FCmp(pr, t, a, b)
                }
            }
            "select" => {
                self.flags(lx, &[]);
                let (ct, c) = self.ty_opnd(lx);
                lx.expect(',');
                let (_, a) = self.ty_opnd(lx);
                lx.expect(',');
                let (_, b) = self.ty_opnd(lx);
                Inst::Select(ct, c, a, b)
            }
            "alloca" => {
                self.flags(lx, &[]);
                let t = self.m.ty(lx);
                let mut n = Opnd::K(Rc::new(Const::Int(1, 64)), Ty::Int(64));
                let mut al = t.align();
                while lx.eat_p(',') {
                    if lx.eat_id("align") {
                        al = self.m.num(lx) as u64;
                    } else if let Tok::Meta(_) = lx.tok {
                        break;
                    } else {
                        let (_, o) = self.ty_opnd(lx);
                        n = o;
                    }
                }
                Inst::Alloca(t, n, al)
            }
            "load" => {
                self.flags(lx, &[]);
                let t = self.m.ty(lx);
                lx.expect(',');
                let (_, p) = self.ty_opnd(lx);
                Inst::Load(t, p)
            }
            "store" => {
                self.flags(lx, &[]);
                let (t, v) = self.ty_opnd(lx);
                lx.expect(',');
                let (_, p) = self.ty_opnd(lx);
                Inst::Store(t, v, p)
            }
            "getelementptr" => {
                self.flags(lx, &[]);
                let bt = self.m.ty(lx);
                lx.expect(',');
                let (pt, base) = self.ty_opnd(lx);
                if pt != Ty::Ptr {
                    return Inst::Unsupported(text.trim().to_string());
                }
                let mut off = 0i64;
                let mut idx = vec![];
                let mut cur: Option<Ty> = None;
                while lx.eat_p(',') {
                    if let Tok::Meta(_) = lx.tok {
                        break;
                    }
                    let (it, o) = self.ty_opnd(lx);
                    let elt;
                    let scale;
                    match cur.take() {
                        None => {
                            scale = bt.size() as i64;
                            elt = bt.clone();
                        }
                        Some(t) => match &t {
                            Ty::Struct(..) => {
                                let k = match &o {
                                    Opnd::K(c, _) => match &**c {
                                        Const::Int(v, _) => *v as usize,
                                        Const::Zero(_) => 0,
                                        c => panic!("struct gep idx {:?}", c),
                                    },
                                    _ => panic!("struct gep idx"),
                                };
                                off += t.field_offset(k) as i64;
                                cur = Some(t.field_ty(k));
                                continue;
                            }
                            Ty::Arr(_, e) | Ty::Vec(_, e) => {
                                scale = e.size() as i64;
                                elt = (**e).clone();
                            }
                            _ => panic!("gep into {:?}: {}", t, text),
                        },
                    }
                    match &o {
                        Opnd::K(c, _) if matches!(**c, Const::Int(..) | Const::Zero(_)) => {
                            if let Const::Int(v, w) = &**c {
                                off = off.wrapping_add((sext(*v, *w) as i64).wrapping_mul(scale));
                            }
                        }
                        _ => idx.push((o, it.bits(), scale)),
                    }
                    cur = Some(elt);
                }
                Inst::Gep(base, off, idx)
            }
            "tail" | "musttail" | "notail" => self.inst(lx, text),
            "call" | "invoke" => {
                self.flags(lx, &[]);
                // cc and ret attrs
                loop {
                    match &lx.tok {
                        Tok::Id(s) => {
                            let s = *s;
                            let is_ty = matches!(s, "void" | "ptr" | "float" | "double" | "half" | "fp128" | "token" | "metadata" | "label" | "x86_fp80" | "bfloat")
                                || (s.starts_with('i') && s.len() > 1 && s[1..].bytes().all(|c| c.is_ascii_digit()));
                            if is_ty {
                                break;
                            }
                            lx.next();
                            if s == "align" {
                                lx.next();
                            } else if lx.is_p('(') {
                                lx.skip_parens();
                            }
                        }
                        Tok::Str(_) => {
                            lx.next();
                            if lx.eat_p('=') {
                                lx.next();
                            }
                        }
                        Tok::Num(_) => {
                            lx.next();
                        } // cc N
                        _ => break,
                    }
                }
                let ret = self.m.ty(lx);
                if lx.is_p('(') {
                    // function type
                    lx.skip_parens();
                }
                let callee = self.opnd(lx, &Ty::Ptr);
                lx.expect('(');
                let mut args = vec![];
                let mut byval = vec![];
                if !lx.eat_p(')') {
                    loop {
                        let t = self.m.ty(lx);
                        let bv = self.skip_attrs(lx);
                        if t == Ty::Other {
                            // metadata argument
                            match lx.tok.clone() {
                                Tok::Meta(_) => {
                                    self.opnd(lx, &t);
                                }
                                Tok::Id(_) | Tok::Local(_) => {
                                    if let Tok::Local(_) = lx.tok {
                                        lx.next();
                                    } else {
                                        let (_, _) = self.ty_opnd(lx);
                                    }
                                }
                                _ => {
                                    lx.next();
                                }
                            }
                            args.push((t, Opnd::Meta));
                        } else {
                            let o = self.opnd(lx, &t);
                            args.push((t, o));
                        }
                        byval.push(bv);
                        if lx.eat_p(',') {
                            continue;
                        }
                        lx.expect(')');
                        break;
                    }
                }
                let mut invoke = None;
                if op == "invoke" {
                    while !lx.is_id("to") {
                        if lx.tok == Tok::Eof {
                            panic!("invoke {}", text);
                        }
                        lx.next();
                    }
                    lx.next();
                    let a = self.label(lx);
                    lx.eat_id("unwind");
                    let b = self.label(lx);
                    invoke = Some((a, b));
                }
                if let Opnd::K(c, _) = &callee {
                    if let Const::Global(n) = &**c {
                        if n.starts_with("llvm.lifetime")
                            || n.starts_with("llvm.dbg")
                            || n.starts_with("llvm.experimental.noalias")
                            || n.starts_with("llvm.assume")
                            || n.starts_with("llvm.donothing")
                            || n.starts_with("llvm.invariant")
                            || n.starts_with("llvm.prefetch")
                        {
                            return Inst::Nop;
                        }
                    }
                }
                Inst::Call { callee, args, ret, invoke, byval }
            }
            "phi" => {
                self.flags(lx, &[]);
                let t = self.m.ty(lx);
                let mut v = vec![];
                loop {
                    lx.expect('[');
                    let o = self.opnd(lx, &t);
                    lx.expect(',');
                    let b = match lx.next() {
                        Tok::Local(n) => *self.blocks.get(&n).unwrap_or_else(|| panic!("phi label {} in {} {:?} {:?}", n, "fn", self.blocks.keys().collect::<Vec<_>>(),0)),
                        t => panic!("{:?}", t),
                    };
                    lx.expect(']');
                    v.push((b, o));
                    if lx.is_p(',') {
                        lx.next();
                        if lx.is_p('[') {
                            continue;
                        }
                    }
                    break;
                }
                Inst::Phi(v)
            }
            "extractvalue" => {
                let (_, a) = self.ty_opnd(lx);
                let mut ix = vec![];
                while lx.eat_p(',') {
                    if let Tok::Num(_) = lx.tok {
                        ix.push(self.m.num(lx) as usize);
                    } else {
                        break;
                    }
                }
                Inst::ExtractValue(a, ix)
            }
            "insertvalue" => {
                let (t, a) = self.ty_opnd(lx);
                lx.expect(',');
                let (_, v) = self.ty_opnd(lx);
                let mut ix = vec![];
                while lx.eat_p(',') {
                    if let Tok::Num(_) = lx.tok {
                        ix.push(self.m.num(lx) as usize);
                    } else {
                        break;
                    }
                }
                Inst::InsertValue(t, a, v, ix)
            }
            "extractelement" => {
                let (_, a) = self.ty_opnd(lx);
                lx.expect(',');
                let (_, i) = self.ty_opnd(lx);
                Inst::ExtractElement(a, i)
            }
            "insertelement" => {
                let (t, a) = self.ty_opnd(lx);
                lx.expect(',');
                let (_, v) = self.ty_opnd(lx);
                lx.expect(',');
                let (_, i) = self.ty_opnd(lx);
                Inst::InsertElement(t, a, v, i)
            }
            "shufflevector" => {
                let (t, a) = self.ty_opnd(lx);
                lx.expect(',');
                let (_, b) = self.ty_opnd(lx);
                lx.expect(',');
                let mt = self.m.ty(lx);
                let mc = self.m.constant(lx, &mt);
                let n = match &mt {
                    Ty::Vec(n, _) => *n as usize,
                    _ => 0,
                };
                let mask = match mc {
                    Const::Agg(v, _) => v
                        .iter()
                        .map(|c| match c {
                            Const::Int(v, _) => *v as i64,
                            Const::Zero(_) => 0,
                            _ => -1,
                        })
                        .collect(),
                    Const::Zero(_) => vec![0; n],
                    _ => vec![-1; n],
                };
                Inst::Shuffle(t, a, b, mask)
            }
            "atomicrmw" => {
                self.flags(lx, &[]);
                let o = match lx.next() {
                    Tok::Id(s) => s.to_string(),
                    t => panic!("{:?}", t),
                };
                let (_, p) = self.ty_opnd(lx);
                lx.expect(',');
                let (t, v) = self.ty_opnd(lx);
                Inst::AtomicRmw(o, t, p, v)
            }
            "cmpxchg" => {
                while lx.is_id("weak") || lx.is_id("volatile") {
                    lx.next();
                }
                let (_, p) = self.ty_opnd(lx);
                lx.expect(',');
                let (t, c) = self.ty_opnd(lx);
                lx.expect(',');
                let (_, n) = self.ty_opnd(lx);
                Inst::CmpXchg(t, p, c, n)
            }
            "fence" => Inst::Nop,
            "freeze" => {
                let (_, a) = self.ty_opnd(lx);
                Inst::Freeze(a)
            }
            "ret" => {
                let t = self.m.ty(lx);
                if t == Ty::Void {
                    Inst::Ret(None)
                } else {
                    let o = self.opnd(lx, &t);
                    Inst::Ret(Some((t, o)))
                }
            }
            "br" => {
                if lx.is_id("label") {
                    Inst::Br(self.label(lx))
                } else {
                    let (_, c) = self.ty_opnd(lx);
                    lx.expect(',');
                    let a = self.label(lx);
                    lx.expect(',');
                    let b = self.label(lx);
                    Inst::CondBr(c, a, b)
                }
            }
            "switch" => {
                let (t, c) = self.ty_opnd(lx);
                lx.expect(',');
                let d = self.label(lx);
                lx.expect('[');
                let mut cases = vec![];
                while !lx.eat_p(']') {
                    let ct = self.m.ty(lx);
                    let v = match self.m.constant(lx, &ct) {
                        Const::Int(v, _) => v,
                        Const::Zero(_) => 0,
                        c => panic!("{:?}", c),
                    };
                    lx.expect(',');
                    let l = self.label(lx);
                    cases.push((v, l));
                }
                Inst::Switch(t, c, d, cases)
            }
            "unreachable" => Inst::Unreachable,
            "landingpad" | "resume" | "cleanupret" | "catchpad" => Inst::Unsupported(text.trim().to_string()),
            _ => Inst::Unsupported(text.trim().to_string()),
        }
    }
}
