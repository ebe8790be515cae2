//! Path-forking symbolic executor for the parsed IR.
use crate::ir::*;
use crate::solver::*;
use crate::term;
use crate::term::{c, cb, Bo, Model, Sc, Tid, Uo};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::rc::Rc;
use std::time::Instant;

#[derive(Clone, Debug)]
pub enum Val {
    S(Sc),
    A(Rc<Vec<Val>>),
    U,
}
#[derive(Debug)]
pub enum Ctl {
    /// the path is over (reason already recorded)
    End,
    /// the engine cannot go on: the harness is undecided
    Err(String),
    /// a violation on this path
    Viol(String, String),
    Panic(String),
}
type R<T> = Result<T, Ctl>;

#[derive(Clone)]
pub struct Obj {
    pub size: u64,
    pub data: Vec<u8>,
    pub sym: Vec<u64>, // empty: all concrete
    pub ro: bool,
    pub kind: u8, // 0 global, 1 heap, 2 stack
}
const UNINIT: u64 = u64::MAX;

#[derive(Clone)]
pub struct Frame {
    pub f: Rc<Func>,
    pub regs: Vec<Val>,
    pub blk: u32,
    pub ip: u32,
    pub prev: u32,
    pub ret_dst: u32,
    pub cont: Option<u32>,
    pub allocas: Vec<u64>,
}

#[derive(Clone)]
pub struct State {
    pub frames: Vec<Frame>,
    pub mem: BTreeMap<u64, Rc<Obj>>,
    pub pc: Vec<Tid>,
    pub model: Rc<Model>,
    pub inputs: Vec<(String, Vec<(Sc, u32)>)>,
    pub obs: Vec<Sc>,
    pub expect_panic: bool,
    /// memory that an expected panic has to leave as it was: address and bytes
    pub frozen: Rc<Vec<(u64, Vec<Sc>)>>,
    pub heap: u64,
    pub stack: u64,
    pub steps: u64,
    pub freed: Rc<BTreeSet<u64>>,
    pub depth: u32,
    pub conc_count: u32,
    pub nalloc: u64,
}

pub struct FnEntry {
    pub name: String,
    pub demangled: String,
    pub defined: bool,
    pub hook: Option<&'static str>,
    pub func: RefCell<Option<Rc<Func>>>,
}

#[derive(Clone)]
pub struct Violation {
    pub kind: String,
    pub msg: String,
    pub stack: Vec<String>,
    pub inputs: Vec<(String, Vec<u8>)>,
}
pub struct Sample {
    pub inputs: Vec<(String, Vec<u8>)>,
    pub obs: Vec<u128>,
    pub end: &'static str,
}

#[derive(Default)]
pub struct Stats {
    pub paths_ok: u64,
    pub paths_panic: u64,
    pub paths_assume: u64,
    pub paths_viol: u64,
    pub paths_err: u64,
    pub insts: u64,
    pub forks: u64,
    pub merges: u64,
    pub checks: u64,
    pub checks_solver: u64,
}

pub struct Opts {
    pub max_secs: f64,
    pub max_steps: u64,
    pub max_viol: usize,
    pub samples: usize,
    pub seed: u64,
    pub fanout: u32,
    /// instructions to look ahead for the meeting point of a branch; 0: always fork
    pub merge: u32,
    pub trace: bool,
}

pub struct Exec {
    pub m: Module,
    pub fns: Vec<FnEntry>,
    pub fn_addr: HashMap<String, u64>,
    pub gaddr: HashMap<String, u64>,
    pub gby: BTreeMap<u64, (String, u64)>,
    pub gobj: RefCell<HashMap<u64, Rc<Obj>>>,
    pub solver: Solver,
    pub work: Vec<State>,
    pub st: Stats,
    pub viols: Vec<Violation>,
    pub errors: BTreeMap<String, (u64, Vec<String>)>,
    pub covers: BTreeMap<String, u64>,
    pub dbg_seen: std::collections::HashSet<u32>,
    pub fn_seen: std::collections::HashSet<String>,
    pub samples: Vec<Sample>,
    pub bounds: BTreeSet<String>,
    pub opts: Opts,
    spec: u32,
    spec_budget: i64,
    unmerged: HashMap<(usize, u32), u32>,
    rng: u64,
    npaths_seen: u64,
}

const FN_BASE: u64 = 0x1000_0000;
const G_BASE: u64 = 0x2000_0000;
const HEAP_BASE: u64 = 0x5555_0000_0000;
const STACK_BASE: u64 = 0x7ff0_0000_0000;

fn hook_for(name: &str, dem: &str) -> Option<&'static str> {
    // panics: entry points, most specific first; a message is read only where it is a plain str
    if name == "rust_begin_unwind" || dem.contains("rust_begin_unwind") {
        return Some("panic");
    }
    let d = dem;
    let is = |p: &str| d == p || d.starts_with(&format!("{}::<", p));
    if is("core::panicking::panic_nounwind_fmt")
        || is("core::panicking::panic_nounwind")
        || is("core::panicking::panic_nounwind_nobacktrace")
        || is("core::panicking::panic_cannot_unwind")
        || is("core::panicking::panic_in_cleanup")
    {
        return Some("panic_nounwind");
    }
    if is("core::panicking::panic_misaligned_pointer_dereference")
        || is("core::panicking::panic_null_pointer_dereference")
        || is("core::panicking::panic_null_reference_constructed")
        || is("core::panicking::panic_invalid_enum_construction")
    {
        return Some("panic_nounwind");
    }
    if is("core::panicking::panic") || is("core::panicking::panic_str_2015") || is("core::option::expect_failed") {
        return Some("panic_str");
    }
    if d.starts_with("core::panicking::panic_")
        || d.starts_with("core::panicking::assert_failed")
        || d.starts_with("core::panicking::unreachable_display")
        || d.starts_with("std::panicking::begin_panic")
        || d.starts_with("std::panicking::rust_panic")
        || is("core::result::unwrap_failed")
        || is("core::option::unwrap_failed")
        || is("core::cell::panic_already_borrowed")
        || is("core::cell::panic_already_mutably_borrowed")
    {
        return Some("panic");
    }
    if is("alloc::alloc::handle_alloc_error") {
        return Some("abort");
    }
    None
}

pub fn u(v: u128, w: u32) -> Val {
    Val::S(c(v, w))
}

impl Exec {
    pub fn new(m: Module, solver: Solver, opts: Opts) -> Exec {
        let mut fns = vec![];
        let mut fn_addr = HashMap::new();
        let mut names: Vec<&String> = m.defs.keys().collect();
        names.sort();
        for n in names {
            let dem = m.defs[n].0.clone();
            fn_addr.insert(n.clone(), FN_BASE + 16 * fns.len() as u64);
            // a symbolic float has no text: the harness takes its value instead
            let float = n.contains("core3fmt5float") && n.contains("5Debug3fmt");
            let body = match (float && n.contains("floatd"), float && n.contains("floatf")) {
                (true, _) if m.defs.contains_key("sx_fmt_f64") => "sx_fmt_f64".to_string(),
                (_, true) if m.defs.contains_key("sx_fmt_f32") => "sx_fmt_f32".to_string(),
                _ => n.clone(),
            };
            fns.push(FnEntry { name: body, hook: hook_for(n, &dem), demangled: dem, defined: true, func: RefCell::new(None) });
        }
        for n in &m.decls {
            if fn_addr.contains_key(n) {
                continue;
            }
            fn_addr.insert(n.clone(), FN_BASE + 16 * fns.len() as u64);
            fns.push(FnEntry { name: n.clone(), hook: None, demangled: n.clone(), defined: false, func: RefCell::new(None) });
        }
        let mut gaddr = HashMap::new();
        let mut gby = BTreeMap::new();
        let mut a = G_BASE;
        for n in &m.global_order {
            let g = &m.globals[n];
            a = align_up(a, g.align.max(16));
            gaddr.insert(n.clone(), a);
            gby.insert(a, (n.clone(), g.ty.size()));
            a += g.ty.size() + 32;
        }
        let seed = opts.seed;
        Exec {
            m,
            fns,
            fn_addr,
            gaddr,
            gby,
            gobj: RefCell::new(HashMap::new()),
            solver,
            work: vec![],
            st: Stats::default(),
            viols: vec![],
            errors: BTreeMap::new(),
            covers: BTreeMap::new(),
            dbg_seen: Default::default(),
            fn_seen: Default::default(),
            samples: vec![],
            bounds: BTreeSet::new(),
            opts,
            rng: seed.wrapping_mul(0x9E3779B97F4A7C15) | 1,
            spec: 0,
            spec_budget: 0,
            unmerged: HashMap::new(),
            npaths_seen: 0,
        }
    }
    fn rand(&mut self) -> u64 {
        self.rng ^= self.rng << 13;
        self.rng ^= self.rng >> 7;
        self.rng ^= self.rng << 17;
        self.rng
    }

    // ---------------------------------------------------------------- constants
    pub fn addr_of(&self, n: &str) -> u64 {
        if let Some(a) = self.gaddr.get(n) {
            return *a;
        }
        if let Some(a) = self.fn_addr.get(n) {
            return *a;
        }
        if let Some(cst) = self.m.alias_target(n) {
            if let Val::S(Sc::C(v, _)) = self.cval(&cst, &Ty::Ptr) {
                return v as u64;
            }
        }
        panic!("unknown global {}", n)
    }
    pub fn cval(&self, k: &Const, ty: &Ty) -> Val {
        match k {
            Const::Int(v, w) => u(*v, *w),
            Const::Zero(t) => self.zero(t),
            Const::Undef(_) => Val::U,
            Const::Bytes(b) => Val::A(Rc::new(b.iter().map(|x| u(*x as u128, 8)).collect())),
            Const::Agg(v, _) => Val::A(Rc::new(
                v.iter().enumerate().map(|(i, x)| self.cval(x, &ty.field_ty(i))).collect(),
            )),
            Const::Global(n) => u(self.addr_of(n) as u128, 64),
            Const::Offset(b, o) => match self.cval(b, &Ty::Ptr) {
                Val::S(Sc::C(v, _)) => u((v as u64).wrapping_add(*o as u64) as u128, 64),
                _ => panic!("const offset"),
            },
            Const::Trunc(b, w) => match self.cval(b, &Ty::Ptr) {
                Val::S(Sc::C(v, _)) => u(v, *w),
                _ => panic!("const trunc"),
            },
            Const::Bin(op, a, b, w) => {
                let (x, y) = match (self.cval(a, &Ty::Int(*w)), self.cval(b, &Ty::Int(*w))) {
                    (Val::S(Sc::C(x, _)), Val::S(Sc::C(y, _))) => (x, y),
                    _ => panic!("const bin"),
                };
                u(
                    match op {
                        '+' => x.wrapping_add(y),
                        '-' => x.wrapping_sub(y),
                        '^' => x ^ y,
                        '*' => x.wrapping_mul(y),
                        '&' => x & y,
                        '|' => x | y,
                        _ => x << y,
                    },
                    *w,
                )
            }
        }
    }
    fn zero(&self, t: &Ty) -> Val {
        match t {
            Ty::Int(_) | Ty::Ptr | Ty::F32 | Ty::F64 => u(0, t.bits()),
            Ty::Arr(n, e) | Ty::Vec(n, e) => Val::A(Rc::new(vec![self.zero(e); *n as usize])),
            Ty::Struct(fs, _) => Val::A(Rc::new(fs.iter().map(|f| self.zero(f)).collect())),
            _ => Val::U,
        }
    }
    fn put_const(&self, obj: &mut Obj, off: u64, k: &Const, ty: &Ty) {
        match (k, ty) {
            (Const::Zero(_), _) | (Const::Undef(_), _) => {}
            (Const::Bytes(b), _) => obj.data[off as usize..off as usize + b.len()].copy_from_slice(b),
            (Const::Agg(v, _), _) => {
                for (i, x) in v.iter().enumerate() {
                    self.put_const(obj, off + ty.field_offset(i), x, &ty.field_ty(i));
                }
            }
            _ => match self.cval(k, ty) {
                Val::S(Sc::C(v, w)) => {
                    let n = (w as usize + 7) / 8;
                    obj.data[off as usize..off as usize + n].copy_from_slice(&v.to_le_bytes()[..n]);
                }
                _ => {}
            },
        }
    }
    fn global_obj(&self, addr: u64) -> Option<(u64, Rc<Obj>)> {
        let (base, (name, size)) = self.gby.range(..=addr).next_back()?;
        if addr >= base + size.max(&1) {
            return None;
        }
        if let Some(o) = self.gobj.borrow().get(base) {
            return Some((*base, o.clone()));
        }
        let g = &self.m.globals[name];
        let mut o = Obj { size: *size, data: vec![0; *size as usize], sym: vec![], ro: g.constant, kind: 0 };
        if let Some((a, b)) = g.init {
            let mut lx = Lex::new(&self.m.text[a..b]);
            let k = self.m.constant(&mut lx, &g.ty);
            self.put_const(&mut o, 0, &k, &g.ty);
        } else {
            return None;
        }
        let o = Rc::new(o);
        self.gobj.borrow_mut().insert(*base, o.clone());
        Some((*base, o))
    }

    // ---------------------------------------------------------------- memory
    pub fn find(&self, st: &State, addr: u64) -> Option<(u64, Rc<Obj>)> {
        if let Some((b, o)) = st.mem.range(..=addr).next_back() {
            if addr < b + o.size.max(1) || addr == *b {
                return Some((*b, o.clone()));
            }
        }
        self.global_obj(addr)
    }
    fn memerr(&self, st: &State, what: &str, addr: u64, n: u64) -> Ctl {
        let why = if addr < 4096 {
            "null or dangling pointer".to_string()
        } else if let Some((b, o)) = self.find(st, addr) {
            format!("offset {} of an object of {} bytes", addr - b, o.size)
        } else if let Some(b) = st.freed.range(..=addr).next_back() {
            format!("no live object there; nearest freed object starts {} bytes before", addr - b)
        } else {
            "no live object there".to_string()
        };
        Ctl::Viol("memory".into(), format!("{} of {} bytes out of bounds: {}", what, n, why))
    }
    fn with_obj<T>(&self, st: &State, addr: u64, n: u64, what: &str, f: impl FnOnce(&Obj, u64) -> T) -> R<T> {
        if let Some((b, o)) = st.mem.range(..=addr).next_back() {
            if addr + n <= b + o.size {
                return Ok(f(o, addr - b));
            }
        }
        match self.global_obj(addr) {
            Some((b, o)) if addr + n <= b + o.size => Ok(f(&o, addr - b)),
            _ => Err(self.memerr(st, what, addr, n)),
        }
    }
    fn obj_mut<'s>(&self, st: &'s mut State, addr: u64, n: u64, what: &str) -> R<(&'s mut Obj, u64)> {
        let hit = st.mem.range(..=addr).next_back().filter(|(b, o)| addr + n <= *b + o.size).map(|(b, _)| *b);
        let base = match hit {
            Some(b) => b,
            None => match self.global_obj(addr) {
                Some((b, o)) if addr + n <= b + o.size => {
                    if o.ro {
                        return Err(Ctl::Viol("memory".into(), format!("{} to constant memory", what)));
                    }
                    st.mem.insert(b, o);
                    b
                }
                _ => return Err(self.memerr(st, what, addr, n)),
            },
        };
        let o = Rc::make_mut(st.mem.get_mut(&base).unwrap());
        if o.ro {
            return Err(Ctl::Viol("memory".into(), format!("{} to constant memory", what)));
        }
        Ok((o, addr - base))
    }
    pub fn alloc(&mut self, st: &mut State, size: u64, align: u64, kind: u8, zero: bool) -> u64 {
        let p = if kind == 2 { &mut st.stack } else { &mut st.heap };
        let a = align_up(*p, align.max(16));
        *p = a + size + 48;
        st.nalloc += 1;
        st.mem.insert(
            a,
            Rc::new(Obj { size, data: vec![0; size as usize], sym: if zero { vec![] } else { vec![UNINIT; size as usize] }, ro: false, kind }),
        );
        a
    }
    /// one byte of memory as a scalar; uninitialised bytes become fresh symbols
    fn byte_at(o: &Obj, i: u64) -> Option<Sc> {
        let i = i as usize;
        if o.sym.is_empty() || o.sym[i] == 0 {
            return Some(c(o.data[i] as u128, 8));
        }
        let s = o.sym[i];
        if s == UNINIT {
            return None;
        }
        let t = ((s >> 8) - 1) as Tid;
        let k = (s & 0xff) as u32;
        let (_, w) = term::node(t);
        Some(if w < 8 {
            term::zext(Sc::S(t, w as u16), 8)
        } else if 8 * k + 8 > w {
            term::zext(term::extract(Sc::S(t, w as u16), 8 * k, w - 8 * k), 8)
        } else {
            term::extract(Sc::S(t, w as u16), 8 * k, 8)
        })
    }
    fn materialise(&self, st: &mut State, addr: u64, n: u64) -> R<()> {
        let mut need = false;
        self.with_obj(st, addr, n, "read", |o, off| {
            if !o.sym.is_empty() {
                for i in off..off + n {
                    if o.sym[i as usize] == UNINIT {
                        need = true;
                    }
                }
            }
        })?;
        if need {
            let (o, off) = self.obj_mut(st, addr, n, "read")?;
            for i in off..off + n {
                if o.sym[i as usize] == UNINIT {
                    if let Sc::S(t, _) = term::new_var("uninit", 8) {
                        o.sym[i as usize] = ((t as u64 + 1) << 8) | 0;
                    }
                }
            }
        }
        Ok(())
    }
    fn load_sc(&self, st: &mut State, addr: u64, n: u64, bits: u32) -> R<Sc> {
        // fast path
        let r = self.with_obj(st, addr, n, "read", |o, off| {
            let off = off as usize;
            let n = n as usize;
            if o.sym.is_empty() || o.sym[off..off + n].iter().all(|s| *s == 0) {
                let mut b = [0u8; 16];
                b[..n].copy_from_slice(&o.data[off..off + n]);
                return Some(c(u128::from_le_bytes(b), bits));
            }
            let s0 = o.sym[off];
            if s0 != 0 && s0 != UNINIT {
                let t = ((s0 >> 8) - 1) as Tid;
                let k = s0 & 0xff;
                if (0..n).all(|j| o.sym[off + j] == s0 + j as u64) {
                    let (_, w) = term::node(t);
                    let s = Sc::S(t, w as u16);
                    let lo = 8 * k as u32;
                    if lo + bits <= w {
                        return Some(term::extract(s, lo, bits));
                    }
                    if k == 0 && w < bits {
                        return Some(term::zext(s, bits));
                    }
                }
            }
            None
        })?;
        if let Some(s) = r {
            return Ok(s);
        }
        self.materialise(st, addr, n)?;
        self.with_obj(st, addr, n, "read", |o, off| {
            let mut r = Self::byte_at(o, off).unwrap();
            for i in 1..n {
                r = term::concat(Self::byte_at(o, off + i).unwrap(), r);
            }
            if r.w() > bits {
                term::extract(r, 0, bits)
            } else {
                r
            }
        })
    }
    fn store_sc(&self, st: &mut State, addr: u64, v: Sc) -> R<()> {
        let n = ((v.w() + 7) / 8) as u64;
        let (o, off) = self.obj_mut(st, addr, n, "write")?;
        let (off, n) = (off as usize, n as usize);
        match v {
            Sc::C(x, _) => {
                o.data[off..off + n].copy_from_slice(&x.to_le_bytes()[..n]);
                if !o.sym.is_empty() {
                    for s in &mut o.sym[off..off + n] {
                        *s = 0;
                    }
                }
            }
            Sc::S(t, _) => {
                if o.sym.is_empty() {
                    o.sym = vec![0; o.size as usize];
                }
                // keep bytes of concatenations addressable on their own
                for j in 0..n {
                    let (tt, k) = (t, j);
                    o.sym[off + j] = ((tt as u64 + 1) << 8) | k as u64;
                }
            }
        }
        Ok(())
    }
    fn load(&self, st: &mut State, addr: u64, ty: &Ty) -> R<Val> {
        match ty {
            Ty::Int(_) | Ty::Ptr | Ty::F32 | Ty::F64 => {
                if ty.bits() > 128 {
                    return Err(Ctl::Err(format!("load of {:?}", ty)));
                }
                Ok(Val::S(self.load_sc(st, addr, ty.store_size(), ty.bits())?))
            }
            Ty::Vec(n, e) if matches!(**e, Ty::Int(b) if b % 8 != 0) => {
                let b = e.bits();
                let tot = b * *n as u32;
                let s = self.load_sc(st, addr, ty.store_size(), tot)?;
                Ok(Val::A(Rc::new((0..*n as u32).map(|i| Val::S(term::extract(s, i * b, b))).collect())))
            }
            Ty::Arr(n, _) | Ty::Vec(n, _) => {
                let mut v = vec![];
                for i in 0..*n as usize {
                    v.push(self.load(st, addr + ty.field_offset(i), &ty.field_ty(i))?);
                }
                Ok(Val::A(Rc::new(v)))
            }
            Ty::Struct(fs, _) => {
                let mut v = vec![];
                for i in 0..fs.len() {
                    v.push(self.load(st, addr + ty.field_offset(i), &fs[i])?);
                }
                Ok(Val::A(Rc::new(v)))
            }
            _ => Err(Ctl::Err(format!("load of {:?}", ty))),
        }
    }
    fn store(&self, st: &mut State, addr: u64, v: &Val, ty: &Ty) -> R<()> {
        match (v, ty) {
            (Val::S(s), _) => self.store_sc(st, addr, *s),
            (Val::U, _) => {
                let n = ty.store_size();
                let (o, off) = self.obj_mut(st, addr, n, "write")?;
                if o.sym.is_empty() {
                    o.sym = vec![0; o.size as usize];
                }
                for s in &mut o.sym[off as usize..(off + n) as usize] {
                    *s = UNINIT;
                }
                Ok(())
            }
            (Val::A(xs), Ty::Vec(_, e)) if matches!(**e, Ty::Int(b) if b % 8 != 0) => {
                let mut r: Option<Sc> = None;
                for x in xs.iter() {
                    let s = self.tosc(x, e);
                    r = Some(match r {
                        None => s,
                        Some(l) => term::concat(s, l),
                    });
                }
                self.store_sc(st, addr, r.unwrap())
            }
            (Val::A(xs), _) => {
                for (i, x) in xs.iter().enumerate() {
                    self.store(st, addr + ty.field_offset(i), x, &ty.field_ty(i))?;
                }
                Ok(())
            }
        }
    }
    /// memmove semantics
    fn copy(&self, st: &mut State, dst: u64, src: u64, n: u64) -> R<()> {
        if n == 0 {
            return Ok(());
        }
        let (data, sym) = self.with_obj(st, src, n, "read", |o, off| {
            let r = off as usize..(off + n) as usize;
            (o.data[r.clone()].to_vec(), if o.sym.is_empty() { vec![] } else { o.sym[r].to_vec() })
        })?;
        let (o, off) = self.obj_mut(st, dst, n, "write")?;
        let r = off as usize..(off + n) as usize;
        o.data[r.clone()].copy_from_slice(&data);
        if !sym.is_empty() {
            if o.sym.is_empty() {
                o.sym = vec![0; o.size as usize];
            }
            o.sym[r].copy_from_slice(&sym);
        } else if !o.sym.is_empty() {
            for s in &mut o.sym[r] {
                *s = 0;
            }
        }
        Ok(())
    }
    fn set(&self, st: &mut State, dst: u64, v: Sc, n: u64) -> R<()> {
        if n == 0 {
            return Ok(());
        }
        let (o, off) = self.obj_mut(st, dst, n, "write")?;
        let r = off as usize..(off + n) as usize;
        match v {
            Sc::C(x, _) => {
                o.data[r.clone()].fill(x as u8);
                if !o.sym.is_empty() {
                    o.sym[r].fill(0);
                }
            }
            Sc::S(t, _) => {
                if o.sym.is_empty() {
                    o.sym = vec![0; o.size as usize];
                }
                o.sym[r].fill((t as u64 + 1) << 8);
            }
        }
        Ok(())
    }
    fn free(&self, st: &mut State, a: u64) -> R<()> {
        if a == 0 {
            return Ok(());
        }
        match st.mem.get(&a) {
            Some(o) if o.kind == 1 => {
                st.mem.remove(&a);
                Rc::make_mut(&mut st.freed).insert(a);
                Ok(())
            }
            _ => Err(Ctl::Viol("memory".into(), "invalid or double free".into())),
        }
    }
    fn read_str(&self, st: &mut State, p: u64, n: u64) -> String {
        let mut v = vec![];
        for i in 0..n {
            match self.load_sc(st, p + i, 1, 8) {
                Ok(Sc::C(x, _)) => v.push(x as u8),
                _ => break,
            }
        }
        String::from_utf8_lossy(&v).into_owned()
    }

    // ---------------------------------------------------------------- solver glue
    fn slice(&self, pc: &[Tid], cond: Tid) -> Vec<Tid> {
        let mut out = vec![cond];
        let mut vars: BTreeSet<u32> = term::vars_of(cond).iter().cloned().collect();
        let mut left: Vec<Tid> = pc.to_vec();
        loop {
            let mut changed = false;
            left.retain(|t| {
                let v = term::vars_of(*t);
                if v.iter().any(|x| vars.contains(x)) {
                    for x in v.iter() {
                        vars.insert(*x);
                    }
                    out.push(*t);
                    changed = true;
                    false
                } else {
                    true
                }
            });
            if !changed {
                return out;
            }
        }
    }
    /// a full model of pc + cond, or None
    fn feasible(&mut self, st: &State, cond: Sc) -> R<Option<Rc<Model>>> {
        match cond {
            Sc::C(1, _) => return Ok(Some(st.model.clone())),
            Sc::C(_, _) => return Ok(None),
            Sc::S(t, _) => {
                let mut memo = HashMap::new();
                if term::eval(t, &st.model, &mut memo) == 1 {
                    return Ok(Some(st.model.clone()));
                }
                let q = self.slice(&st.pc, t);
                match self.solver.check(&q) {
                    Res::Unsat => Ok(None),
                    Res::Sat(m) => {
                        let mut full = (*st.model).clone();
                        for (k, v) in m.iter() {
                            full.insert(*k, *v);
                        }
                        Ok(Some(Rc::new(full)))
                    }
                    Res::Unknown(e) => Err(Ctl::Err(format!("solver: {}", e.trim()))),
                }
            }
        }
    }
    fn add_pc(&self, st: &mut State, cond: Sc, model: Rc<Model>) {
        if let Sc::S(t, _) = cond {
            // split conjunctions so that slicing stays effective
            let mut todo = vec![t];
            while let Some(t) = todo.pop() {
                if let (term::Node::Bin(Bo::And, a, b), 1) = term::node(t) {
                    todo.push(a);
                    todo.push(b);
                } else if !st.pc.contains(&t) {
                    st.pc.push(t);
                }
            }
        }
        st.model = model;
    }
    /// Make a scalar concrete, forking one state per further feasible value.
    fn conc(&mut self, st: &mut State, s: Sc, what: &str) -> R<u128> {
        match s {
            Sc::C(v, _) => Ok(v),
            Sc::S(t, w) => {
                let mut memo = HashMap::new();
                let v = term::eval(t, &st.model, &mut memo);
                let e = term::eq(s, c(v, w as u32));
                let ne = term::not(e);
                if let Some(m2) = self.feasible(st, ne)? {
                    let mut o = st.clone();
                    o.conc_count += 1;
                    if o.conc_count > self.opts.fanout {
                        return Err(Ctl::Err(format!("more than {} feasible values for {}", self.opts.fanout, what)));
                    }
                    self.add_pc(&mut o, ne, m2);
                    self.st.forks += 1;
                    self.work.push(o);
                }
                st.conc_count = 0;
                let m = st.model.clone();
                self.add_pc(st, e, m);
                Ok(v)
            }
        }
    }
    fn conc_addr(&mut self, st: &mut State, s: Sc, what: &str) -> R<u64> {
        Ok(self.conc(st, s, what)? as u64)
    }

    fn model_inputs(&self, st: &State) -> Vec<(String, Vec<u8>)> {
        let mut memo = HashMap::new();
        st.inputs
            .iter()
            .map(|(n, parts)| {
                let mut v = vec![];
                for (s, nb) in parts {
                    let x = term::eval_sc(*s, &st.model, &mut memo);
                    v.extend_from_slice(&x.to_le_bytes()[..*nb as usize]);
                }
                (n.clone(), v)
            })
            .collect()
    }
    fn dbg_loc(&self, id: u32) -> String {
        // innermost location
        let (l, s) = match self.di_loc(id) {
            Some(x) => x,
            None => return String::new(),
        };
        let (file, _, _) = self.di_scope(s);
        format!("{}:{}", file, l)
    }
    pub fn di_field<'x>(txt: &'x str, key: &str) -> Option<&'x str> {
        let k = format!("{}: ", key);
        let mut from = 0;
        loop {
            let p = txt[from..].find(&k)? + from;
            let before = txt[..p].chars().last();
            if matches!(before, Some('(') | Some(' ')) {
                let r = &txt[p + k.len()..];
                if r.starts_with('"') {
                    let e = r[1..].find('"')?;
                    return Some(&r[1..1 + e]);
                }
                let e = r.find(|ch| ch == ',' || ch == ')').unwrap_or(r.len());
                return Some(&r[..e]);
            }
            from = p + k.len();
        }
    }
    fn meta_txt(&self, id: u32) -> Option<&str> {
        let (a, b) = *self.m.meta.get(&id)?;
        Some(&self.m.text[a..b])
    }
    fn mid(s: &str) -> Option<u32> {
        s.strip_prefix('!')?.parse().ok()
    }
    pub fn di_loc(&self, id: u32) -> Option<(u32, u32)> {
        let t = self.meta_txt(id)?;
        let line = Self::di_field(t, "line").and_then(|x| x.parse().ok()).unwrap_or(0);
        let scope = Self::mid(Self::di_field(t, "scope")?)?;
        Some((line, scope))
    }
    pub fn di_inlined(&self, id: u32) -> Option<u32> {
        let t = self.meta_txt(id)?;
        Self::mid(Self::di_field(t, "inlinedAt")?)
    }
    /// (file, function, linkage name) of a scope
    pub fn di_scope(&self, mut s: u32) -> (String, String, String) {
        for _ in 0..50 {
            let t = match self.meta_txt(s) {
                Some(t) => t,
                None => break,
            };
            if t.contains("DISubprogram(") {
                let file = Self::di_field(t, "file")
                    .and_then(Self::mid)
                    .and_then(|f| self.meta_txt(f))
                    .map(|ft| {
                        let n = Self::di_field(ft, "filename").unwrap_or("");
                        let d = Self::di_field(ft, "directory").unwrap_or("");
                        if n.starts_with('/') || d.is_empty() {
                            n.to_string()
                        } else {
                            format!("{}/{}", d, n)
                        }
                    })
                    .unwrap_or_default();
                return (
                    file,
                    Self::di_field(t, "name").unwrap_or("").to_string(),
                    Self::di_field(t, "linkageName").unwrap_or("").to_string(),
                );
            }
            match Self::di_field(t, "scope").and_then(Self::mid) {
                Some(n) => s = n,
                None => break,
            }
        }
        (String::new(), String::new(), String::new())
    }
    fn stack_of(&self, st: &State) -> Vec<String> {
        let mut v = vec![];
        for f in st.frames.iter().rev() {
            let b = &f.f.blocks[f.blk as usize];
            let ip = (f.ip as usize).min(b.lines.len().saturating_sub(1));
            let d = b.lines.get(ip).map(|l| l.dbg).unwrap_or(0);
            v.push(format!("{} ({})", f.f.demangled, self.dbg_loc(d)));
            // inlined callers
            let mut id = d;
            for _ in 0..8 {
                match self.di_inlined(id) {
                    Some(n) => {
                        v.push(format!("  inlined at {}", self.dbg_loc(n)));
                        id = n;
                    }
                    None => break,
                }
            }
        }
        v.truncate(40);
        v
    }
    fn record_viol(&mut self, st: &State, kind: &str, msg: &str) {
        let stack = self.stack_of(st);
        if self.viols.iter().filter(|v| v.kind == kind && v.msg == msg && v.stack.first() == stack.first()).count() >= 3 {
            return;
        }
        let inputs = self.model_inputs(st);
        if self.opts.trace {
            eprintln!("VIOL {} {}\n  {}", kind, msg, stack.join("\n  "));
        }
        self.viols.push(Violation { kind: kind.into(), msg: msg.into(), stack, inputs });
    }

    // ---------------------------------------------------------------- operands
    fn resolve(&self, f: &mut Func) {
        let _ = f;
    }
    fn val(&self, fr: &Frame, o: &Opnd) -> Val {
        match o {
            Opnd::Reg(r) => fr.regs[*r as usize].clone(),
            Opnd::K(k, ty) => match &**k {
                Const::Int(v, w) => u(*v, *w),
                k => self.cval(k, ty),
            },
            _ => Val::U,
        }
    }
    pub fn tosc(&self, v: &Val, ty: &Ty) -> Sc {
        match v {
            Val::S(s) => *s,
            Val::U => c(0, ty.bits()),
            Val::A(_) => panic!("aggregate where a scalar of {:?} is expected", ty),
        }
    }
    fn sc(&self, fr: &Frame, o: &Opnd, ty: &Ty) -> Sc {
        match o {
            Opnd::Reg(r) => match &fr.regs[*r as usize] {
                Val::S(s) => *s,
                v => self.tosc(v, ty),
            },
            _ => self.tosc(&self.val(fr, o), ty),
        }
    }
    fn lanes(&self, v: &Val, n: u64, e: &Ty) -> Vec<Sc> {
        match v {
            Val::A(xs) => xs.iter().map(|x| self.tosc(x, e)).collect(),
            Val::U => vec![c(0, e.bits()); n as usize],
            Val::S(s) => vec![*s],
        }
    }

    // ---------------------------------------------------------------- running
    pub fn run(&mut self, entry: &str) -> Result<(), String> {
        let f = self.m.func(entry).ok_or_else(|| format!("no function {}", entry))?;
        let mut st = State {
            frames: vec![],
            mem: BTreeMap::new(),
            pc: vec![],
            model: Rc::new(Model::new()),
            inputs: vec![],
            obs: vec![],
            expect_panic: false,
            frozen: Rc::new(vec![]),
            heap: HEAP_BASE,
            stack: STACK_BASE,
            steps: 0,
            freed: Rc::new(BTreeSet::new()),
            depth: 0,
            conc_count: 0,
            nalloc: 0,
        };
        let nregs = f.nregs;
        st.frames.push(Frame { f, regs: vec![Val::U; nregs], blk: 0, ip: 0, prev: 0, ret_dst: u32::MAX, cont: None, allocas: vec![] });
        self.work.push(st);
        let t0 = Instant::now();
        while let Some(mut s) = self.work.pop() {
            if t0.elapsed().as_secs_f64() > self.opts.max_secs {
                let n = self.work.len() + 1;
                self.err(&s, &format!("time limit of {} s reached with {} states pending", self.opts.max_secs, n));
                self.work.clear();
                break;
            }
            match self.go(&mut s, t0) {
                Ok(()) => {
                    self.st.paths_ok += 1;
                    self.sample(&s, "ok");
                }
                Err(Ctl::End) => {}
                Err(Ctl::Err(e)) => {
                    self.st.paths_err += 1;
                    self.err(&s, &e);
                }
                Err(Ctl::Viol(k, m)) => {
                    self.st.paths_viol += 1;
                    self.record_viol(&s, &k, &m);
                }
                Err(Ctl::Panic(m)) => {
                    if s.expect_panic && self.thawed(&mut s) {
                        self.st.paths_viol += 1;
                    } else if s.expect_panic {
                        self.st.paths_panic += 1;
                        self.sample(&s, "panic");
                    } else {
                        self.st.paths_viol += 1;
                        self.record_viol(&s, "panic", &m);
                    }
                }
            }
            if self.viols.len() >= self.opts.max_viol {
                self.work.clear();
            }
        }
        Ok(())
    }
    /// Whether frozen memory can differ from what it was; records the violation.
    fn thawed(&mut self, s: &mut State) -> bool {
        let fr = s.frozen.clone();
        let mut same = c(1, 1);
        for (a, bytes) in fr.iter() {
            for (i, b) in bytes.iter().enumerate() {
                match self.load_sc(s, *a + i as u64, 1, 8) {
                    Ok(v) => same = term::and(same, term::eq(v, *b)),
                    Err(_) => same = c(0, 1),
                }
            }
        }
        self.st.checks += fr.len() as u64;
        if let Sc::C(1, _) = same {
            return false;
        }
        self.st.checks_solver += 1;
        match self.feasible(s, term::not(same)) {
            Ok(None) => false,
            Ok(Some(m)) => {
                self.add_pc(s, term::not(same), m);
                self.record_viol(s, "assertion", "a refused request changed the points");
                true
            }
            Err(_) => {
                self.err(s, "frozen memory undecided");
                true
            }
        }
    }
    fn err(&mut self, s: &State, e: &str) {
        let stack = self.stack_of(s);
        if self.opts.trace {
            eprintln!("ERR {}\n  {}", e, stack.join("\n  "));
        }
        let x = self.errors.entry(e.to_string()).or_insert((0, stack));
        x.0 += 1;
    }
    /// Another model of the path: inputs take random values wherever the path condition
    /// still holds with them.
    fn enrich(&mut self, s: &State) -> Model {
        let mut m: Model = (*s.model).clone();
        let mut by: HashMap<u32, Vec<Tid>> = HashMap::new();
        for p in &s.pc {
            for v in term::vars_of(*p).iter() {
                by.entry(*v).or_default().push(*p);
            }
        }
        let mut budget = 4000usize;
        for (_, parts) in &s.inputs {
            for (sc, _) in parts {
                let (v, w) = match sc {
                    Sc::S(t, w) => match term::node(*t).0 {
                        term::Node::Var(i) => (i, *w as u32),
                        _ => continue,
                    },
                    _ => continue,
                };
                let old = m.get(&v).copied();
                for kind in 0..2 {
                    let r = self.rand();
                    let mut x = (r as u128) | ((self.rand() as u128) << 64);
                    if kind == 1 || (w == 64 && r % 3 == 0) {
                        // a small value: as an integer, or as a float
                        let k = (r >> 20) % 9;
                        x = if w == 64 && r % 2 == 0 { ((k as f64) * 1.5 - 4.0).to_bits() as u128 } else { k as u128 };
                    }
                    m.insert(v, x & term::mask(w));
                    let mut ok = true;
                    if let Some(ps) = by.get(&v) {
                        if budget < ps.len() {
                            ok = false;
                        } else {
                            budget -= ps.len();
                            let mut memo = HashMap::new();
                            ok = ps.iter().all(|p| term::eval(*p, &m, &mut memo) == 1);
                        }
                    }
                    if ok {
                        break;
                    }
                    match old {
                        Some(o) => m.insert(v, o),
                        None => m.remove(&v),
                    };
                }
            }
        }
        m
    }
    fn sample(&mut self, s: &State, end: &'static str) {
        self.npaths_seen += 1;
        // reservoir sampling of finished paths for native validation
        let k = self.opts.samples;
        if k == 0 {
            return;
        }
        let slot = if self.samples.len() < k {
            self.samples.len()
        } else {
            let r = self.rand() % self.npaths_seen;
            if r as usize >= k {
                return;
            }
            r as usize
        };
        let mut rich = s.clone();
        rich.model = Rc::new(self.enrich(s));
        let s = &rich;
        let mut memo = HashMap::new();
        let smp = Sample {
            inputs: self.model_inputs(s),
            obs: s.obs.iter().map(|o| term::eval_sc(*o, &s.model, &mut memo)).collect(),
            end,
        };
        if slot == self.samples.len() {
            self.samples.push(smp);
        } else {
            self.samples[slot] = smp;
        }
    }

    fn go(&mut self, st: &mut State, t0: Instant) -> R<()> {
        let mut n = 0u32;
        loop {
            n += 1;
            if n & 0xfff == 0 && t0.elapsed().as_secs_f64() > self.opts.max_secs {
                return Err(Ctl::Err(format!("time limit of {} s reached", self.opts.max_secs)));
            }
            let fr = st.frames.last().unwrap();
            let f = fr.f.clone();
            let line = &f.blocks[fr.blk as usize].lines[fr.ip as usize];
            self.st.insts += 1;
            st.steps += 1;
            if st.steps > self.opts.max_steps {
                return Err(Ctl::Err(format!("step limit of {} instructions per path", self.opts.max_steps)));
            }
            if line.dbg != 0 {
                self.dbg_seen.insert(line.dbg);
            }
            if self.step(st, line)? {
                return Ok(());
            }
        }
    }

    fn jump(&mut self, st: &mut State, to: u32) {
        let fr = st.frames.last_mut().unwrap();
        let from = fr.blk;
        fr.prev = from;
        fr.blk = to;
        fr.ip = 0;
        // phis, in parallel
        let f = fr.f.clone();
        let lines = &f.blocks[to as usize].lines;
        let mut vals: Vec<(u32, Val)> = vec![];
        let mut k = 0;
        while k < lines.len() {
            if let Inst::Phi(v) = &lines[k].inst {
                let o = v.iter().find(|(b, _)| *b == from).map(|x| &x.1).expect("phi edge");
                let x = self.val(st.frames.last().unwrap(), o);
                vals.push((lines[k].dst, x));
                k += 1;
            } else {
                break;
            }
        }
        let fr = st.frames.last_mut().unwrap();
        for (r, v) in vals {
            fr.regs[r as usize] = v;
        }
        fr.ip = k as u32;
    }

    fn set_reg(st: &mut State, dst: u32, v: Val) {
        if dst != u32::MAX {
            let fr = st.frames.last_mut().unwrap();
            fr.regs[dst as usize] = v;
        }
    }

    /// Decide a branch condition. Forks when both sides are feasible; returns the side taken here.
    fn branch(&mut self, st: &mut State, cond: Sc, apply_other: impl FnOnce(&mut Exec, &mut State, bool)) -> R<bool> {
        match cond {
            Sc::C(v, _) => Ok(v == 1),
            Sc::S(t, _) => {
                let mut memo = HashMap::new();
                let side = term::eval(t, &st.model, &mut memo) == 1;
                let here = if side { cond } else { term::not(cond) };
                let there = term::not(here);
                if let Some(m2) = self.feasible(st, there)? {
                    self.st.forks += 1;
                    let mut o = st.clone();
                    o.depth += 1;
                    self.add_pc(&mut o, there, m2);
                    apply_other(self, &mut o, !side);
                    self.work.push(o);
                    let m = st.model.clone();
                    self.add_pc(st, here, m);
                }
                Ok(side)
            }
        }
    }

    fn step(&mut self, st: &mut State, line: &Line) -> R<bool> {
        let dst = line.dst;
        match &line.inst {
            Inst::Bin(op, ty, a, b) => {
                let fr = st.frames.last().unwrap();
                let v = match ty {
                    Ty::Vec(n, e) => {
                        let x = self.lanes(&self.val(fr, a), *n, e);
                        let y = self.lanes(&self.val(fr, b), *n, e);
                        let mut r = vec![];
                        for (p, q) in x.iter().zip(y.iter()) {
                            r.push(Val::S(self.binop(*op, *p, *q)?));
                        }
                        Val::A(Rc::new(r))
                    }
                    _ => {
                        if ty.bits() > 128 {
                            return Err(Ctl::Err("integer wider than 128 bits".into()));
                        }
                        let x = self.sc(fr, a, ty);
                        let y = self.sc(fr, b, ty);
                        if matches!(op, BinOp::UDiv | BinOp::SDiv | BinOp::URem | BinOp::SRem) {
                            if let Sc::C(0, _) = y {
                                return Err(Ctl::Viol("ub".into(), "division by zero".into()));
                            }
                        }
                        Val::S(self.binop(*op, x, y)?)
                    }
                };
                Self::set_reg(st, dst, v);
            }
            Inst::FNeg(ty, a) => {
                let fr = st.frames.last().unwrap();
                let neg = |s: Sc| term::bin(Bo::Xor, s, c(1u128 << (s.w() - 1), s.w()));
                let v = match ty {
                    Ty::Vec(n, e) => {
                        Val::A(Rc::new(self.lanes(&self.val(fr, a), *n, e).into_iter().map(|s| Val::S(neg(s))).collect()))
                    }
                    _ => Val::S(neg(self.sc(fr, a, ty))),
                };
                Self::set_reg(st, dst, v);
            }
            Inst::Cast(op, t1, a, t2) => {
                let fr = st.frames.last().unwrap();
                let x = self.val(fr, a);
                let v = self.cast(*op, t1, x, t2)?;
                Self::set_reg(st, dst, v);
            }
            Inst::ICmp(p, ty, a, b) => {
                let fr = st.frames.last().unwrap();
                let v = match ty {
                    Ty::Vec(n, e) => {
                        let x = self.lanes(&self.val(fr, a), *n, e);
                        let y = self.lanes(&self.val(fr, b), *n, e);
                        Val::A(Rc::new(x.iter().zip(y.iter()).map(|(p1, q)| Val::S(icmp(p, *p1, *q))).collect()))
                    }
                    _ => Val::S(icmp(p, self.sc(fr, a, ty), self.sc(fr, b, ty))),
                };
                Self::set_reg(st, dst, v);
            }
            Inst::FCmp(p, ty, a, b) => {
                let fr = st.frames.last().unwrap();
                let v = match ty {
                    Ty::Vec(n, e) => {
                        let x = self.lanes(&self.val(fr, a), *n, e);
                        let y = self.lanes(&self.val(fr, b), *n, e);
                        Val::A(Rc::new(x.iter().zip(y.iter()).map(|(p1, q)| Val::S(fcmp(p, *p1, *q))).collect()))
                    }
                    _ => Val::S(fcmp(p, self.sc(fr, a, ty), self.sc(fr, b, ty))),
                };
                Self::set_reg(st, dst, v);
            }
            Inst::Select(ct, cnd, a, b) => {
                let fr = st.frames.last().unwrap();
                let x = self.val(fr, a);
                let y = self.val(fr, b);
                let v = match ct {
                    Ty::Vec(n, e) => {
                        let cs = self.lanes(&self.val(fr, cnd), *n, e);
                        match (&x, &y) {
                            (Val::A(xs), Val::A(ys)) => Val::A(Rc::new(
                                cs.iter().enumerate().map(|(i, g)| sel(*g, &xs[i], &ys[i])).collect(),
                            )),
                            (Val::U, v) | (v, Val::U) => v.clone(),
                            _ => return Err(Ctl::Err("vector select".into())),
                        }
                    }
                    _ => {
                        let g = self.sc(fr, cnd, &Ty::Int(1));
                        sel(g, &x, &y)
                    }
                };
                Self::set_reg(st, dst, v);
            }
            Inst::Alloca(ty, n, al) => {
                let fr = st.frames.last().unwrap();
                let k = match self.sc(fr, n, &Ty::Int(64)) {
                    Sc::C(v, _) => v as u64,
                    _ => return Err(Ctl::Err("alloca of symbolic size".into())),
                };
                let a = self.alloc(st, ty.size() * k, *al, 2, false);
                let fr = st.frames.last_mut().unwrap();
                fr.allocas.push(a);
                fr.regs[dst as usize] = u(a as u128, 64);
            }
            Inst::Load(ty, p) => {
                let fr = st.frames.last().unwrap();
                let a = self.sc(fr, p, &Ty::Ptr);
                let v = match a {
                    Sc::C(x, _) => self.load(st, x as u64, ty)?,
                    Sc::S(..) => self.load_symbolic(st, a, ty)?,
                };
                Self::set_reg(st, dst, v);
            }
            Inst::Store(ty, v, p) => {
                let fr = st.frames.last().unwrap();
                let a = self.sc(fr, p, &Ty::Ptr);
                let a = self.conc_addr(st, a, "a store address")?;
                let fr = st.frames.last().unwrap();
                let x = self.val(fr, v);
                if let Val::S(s) = &x {
                    if s.w() > 128 {
                        return Err(Ctl::Err("wide store".into()));
                    }
                }
                self.store(st, a, &x, ty)?;
            }
            Inst::Gep(base, off, idx) => {
                let fr = st.frames.last().unwrap();
                let mut a = self.sc(fr, base, &Ty::Ptr);
                for (o, w, scale) in idx {
                    let i = self.sc(fr, o, &Ty::Int(*w));
                    let i = if *w < 64 { term::sext(i, 64) } else if *w > 64 { term::extract(i, 0, 64) } else { i };
                    let i = match i {
                        Sc::C(v, _) => c((v as u64).wrapping_mul(*scale as u64) as u128, 64),
                        _ => term::bin(Bo::Mul, i, c(*scale as u64 as u128, 64)),
                    };
                    a = term::bin(Bo::Add, a, i);
                }
                if *off != 0 {
                    a = term::bin(Bo::Add, a, c(*off as u64 as u128, 64));
                }
                Self::set_reg(st, dst, Val::S(a));
            }
            Inst::Phi(_) => return Err(Ctl::Err("phi in entry".into())),
            Inst::ExtractValue(a, ix) => {
                let fr = st.frames.last().unwrap();
                let mut v = self.val(fr, a);
                for i in ix {
                    v = match v {
                        Val::A(xs) => xs[*i].clone(),
                        _ => Val::U,
                    };
                }
                Self::set_reg(st, dst, v);
            }
            Inst::InsertValue(ty, a, x, ix) => {
                let fr = st.frames.last().unwrap();
                let v = self.val(fr, a);
                let x = self.val(fr, x);
                let r = ins(v, ty, x, ix);
                Self::set_reg(st, dst, r);
            }
            Inst::ExtractElement(a, i) => {
                let fr = st.frames.last().unwrap();
                let v = self.val(fr, a);
                let i = self.sc(fr, i, &Ty::Int(64));
                let i = self.conc(st, i, "a vector lane")? as usize;
                let r = match v {
                    Val::A(xs) => xs.get(i).cloned().unwrap_or(Val::U),
                    _ => Val::U,
                };
                Self::set_reg(st, dst, r);
            }
            Inst::InsertElement(ty, a, x, i) => {
                let fr = st.frames.last().unwrap();
                let v = self.val(fr, a);
                let x = self.val(fr, x);
                let i = self.sc(fr, i, &Ty::Int(64));
                let i = self.conc(st, i, "a vector lane")? as usize;
                let r = ins(v, ty, x, &[i]);
                Self::set_reg(st, dst, r);
            }
            Inst::Shuffle(ty, a, b, mask) => {
                let fr = st.frames.last().unwrap();
                let n = match ty {
                    Ty::Vec(n, _) => *n as usize,
                    _ => 0,
                };
                let x = self.val(fr, a);
                let y = self.val(fr, b);
                let get = |v: &Val, i: usize| match v {
                    Val::A(xs) => xs[i].clone(),
                    _ => Val::U,
                };
                let r = mask
                    .iter()
                    .map(|m| if *m < 0 { Val::U } else if (*m as usize) < n { get(&x, *m as usize) } else { get(&y, *m as usize - n) })
                    .collect();
                Self::set_reg(st, dst, Val::A(Rc::new(r)));
            }
            Inst::AtomicRmw(op, ty, p, v) => {
                let fr = st.frames.last().unwrap();
                let a = self.sc(fr, p, &Ty::Ptr);
                let a = self.conc_addr(st, a, "an atomic address")?;
                let old = self.load(st, a, ty)?;
                let o = self.tosc(&old, ty);
                let fr = st.frames.last().unwrap();
                let x = self.sc(fr, v, ty);
                let n = match op.as_str() {
                    "xchg" => x,
                    "add" => term::bin(Bo::Add, o, x),
                    "sub" => term::bin(Bo::Sub, o, x),
                    "and" => term::bin(Bo::And, o, x),
                    "or" => term::bin(Bo::Or, o, x),
                    "xor" => term::bin(Bo::Xor, o, x),
                    "umax" => term::ite(term::bin(Bo::Ult, o, x), x, o),
                    "umin" => term::ite(term::bin(Bo::Ult, o, x), o, x),
                    _ => return Err(Ctl::Err(format!("atomicrmw {}", op))),
                };
                self.store_sc(st, a, n)?;
                Self::set_reg(st, dst, old);
            }
            Inst::CmpXchg(ty, p, cmp, new) => {
                let fr = st.frames.last().unwrap();
                let a = self.sc(fr, p, &Ty::Ptr);
                let a = self.conc_addr(st, a, "an atomic address")?;
                let old = self.load(st, a, ty)?;
                let o = self.tosc(&old, ty);
                let fr = st.frames.last().unwrap();
                let x = self.sc(fr, cmp, ty);
                let y = self.sc(fr, new, ty);
                let e = term::eq(o, x);
                self.store_sc(st, a, term::ite(e, y, o))?;
                Self::set_reg(st, dst, Val::A(Rc::new(vec![Val::S(o), Val::S(e)])));
            }
            Inst::Freeze(a) => {
                let fr = st.frames.last().unwrap();
                let v = self.val(fr, a);
                Self::set_reg(st, dst, v);
            }
            Inst::Ret(r) => {
                let fr = st.frames.pop().unwrap();
                for a in &fr.allocas {
                    st.mem.remove(a);
                }
                let v = match r {
                    Some((_, o)) => self.val(&fr, o),
                    None => Val::U,
                };
                if st.frames.is_empty() {
                    return Ok(true);
                }
                Self::set_reg(st, fr.ret_dst, v);
                match fr.cont {
                    Some(b) => self.jump(st, b),
                    None => st.frames.last_mut().unwrap().ip += 1,
                }
                return Ok(false);
            }
            Inst::Br(b) => {
                self.jump(st, *b);
                return Ok(false);
            }
            Inst::CondBr(cnd, a, b) => {
                let fr = st.frames.last().unwrap();
                let g = self.sc(fr, cnd, &Ty::Int(1));
                let (a, b) = (*a, *b);
                if let (true, Sc::S(..)) = (self.opts.merge > 0, g) {
                    if self.try_merge(st, g, a, b)? {
                        return Ok(false);
                    }
                }
                let side = self.branch(st, g, |ex, o, s| ex.jump(o, if s { a } else { b }))?;
                self.jump(st, if side { a } else { b });
                return Ok(false);
            }
            Inst::Switch(ty, cnd, d, cases) => {
                let fr = st.frames.last().unwrap();
                let s = self.sc(fr, cnd, ty);
                match s {
                    Sc::C(v, _) => {
                        let t = cases.iter().find(|x| x.0 == v).map(|x| x.1).unwrap_or(*d);
                        self.jump(st, t);
                    }
                    Sc::S(..) => {
                        // group the cases by target
                        let mut groups: BTreeMap<u32, Sc> = BTreeMap::new();
                        let mut any = cb(false);
                        for (v, l) in cases {
                            let e = term::eq(s, c(*v, s.w()));
                            any = term::or(any, e);
                            let g = groups.entry(*l).or_insert(cb(false));
                            *g = term::or(*g, e);
                        }
                        let df = term::not(any);
                        let g = groups.entry(*d).or_insert(cb(false));
                        *g = term::or(*g, df);
                        let mut feas = vec![];
                        for (l, g) in groups {
                            if let Some(m) = self.feasible(st, g)? {
                                feas.push((l, g, m));
                            }
                        }
                        let last = match feas.pop() {
                            Some(x) => x,
                            None => return Err(Ctl::Err("switch without feasible target".into())),
                        };
                        for (l, g, m) in feas {
                            self.st.forks += 1;
                            let mut o = st.clone();
                            self.add_pc(&mut o, g, m);
                            self.jump(&mut o, l);
                            self.work.push(o);
                        }
                        self.add_pc(st, last.1, last.2);
                        self.jump(st, last.0);
                    }
                }
                return Ok(false);
            }
            Inst::Unreachable => return Err(Ctl::Viol("ub".into(), "unreachable code reached".into())),
            Inst::Nop => {}
            Inst::Unsupported(s) => return Err(Ctl::Err(format!("unsupported instruction: {}", s))),
            Inst::Call { callee, args, ret, invoke, byval } => {
                return self.call(st, line, callee, args, ret, invoke, byval);
            }
        }
        st.frames.last_mut().unwrap().ip += 1;
        Ok(false)
    }

    /// Follow both sides of a branch to where they meet, if the way there has no effects other
    /// than on registers and a little memory, and go on with one state. False if that is not
    /// possible; the caller then forks.
    fn try_merge(&mut self, st: &mut State, g: Sc, a: u32, b: u32) -> R<bool> {
        let (f, blk) = {
            let fr = st.frames.last().unwrap();
            (fr.f.clone(), fr.blk)
        };
        let join = match f.join(blk) {
            Some(j) if j != blk => j,
            _ => return Ok(false),
        };
        let key = (Rc::as_ptr(&f) as usize, blk);
        if self.unmerged.get(&key).map_or(false, |n| *n >= 6) {
            return Ok(false);
        }
        let t = if let Sc::S(t, _) = g { t } else { return Ok(false) };
        let side = term::eval(t, &st.model, &mut HashMap::new()) == 1;
        let here = if side { g } else { term::not(g) };
        let there = term::not(here);
        let m2 = match self.feasible(st, there)? {
            None => {
                self.jump(st, if side { a } else { b });
                return Ok(true);
            }
            Some(m) => m,
        };
        let wl = self.work.len();
        if self.spec == 0 {
            self.spec_budget = self.opts.merge as i64;
        }
        self.spec += 1;
        let mut s1 = st.clone();
        let m = st.model.clone();
        self.add_pc(&mut s1, here, m);
        self.jump(&mut s1, if side { a } else { b });
        let depth = st.frames.len();
        let mut ok = self.speculate(&mut s1, depth, join, wl);
        let mut s2 = None;
        if ok {
            let mut s = st.clone();
            self.add_pc(&mut s, there, m2);
            self.jump(&mut s, if side { b } else { a });
            ok = self.speculate(&mut s, depth, join, wl);
            s2 = Some(s);
        }
        self.spec -= 1;
        self.work.truncate(wl);
        let mut done = false;
        if ok {
            let mut s2 = s2.unwrap();
            done = self.join_states(&mut s1, &mut s2, here);
            if done {
                s1.pc = st.pc.clone();
                s1.steps += s2.steps - st.steps;
                *st = s1;
                self.st.merges += 1;
            }
        }
        if !done {
            *self.unmerged.entry(key).or_insert(0) += 1;
        }
        Ok(done)
    }
    fn speculate(&mut self, st: &mut State, depth: usize, join: u32, wl: usize) -> bool {
        loop {
            let fr = st.frames.last().unwrap();
            if st.frames.len() == depth && fr.blk == join {
                return true;
            }
            self.spec_budget -= 1;
            if self.spec_budget < 0 {
                return false;
            }
            let f = fr.f.clone();
            let line = &f.blocks[fr.blk as usize].lines[fr.ip as usize];
            match &line.inst {
                Inst::Call { callee, .. } => {
                    if let Opnd::Asm(_) = callee {
                        return false;
                    }
                    let ca = match self.sc(fr, callee, &Ty::Ptr) {
                        Sc::C(v, _) => v as u64,
                        _ => return false,
                    };
                    let k = ca.wrapping_sub(FN_BASE) / 16;
                    if ca < FN_BASE || k as usize >= self.fns.len() {
                        return false;
                    }
                    let e = &self.fns[k as usize];
                    if e.hook.is_some() || !(e.defined || e.name.starts_with("llvm.")) {
                        return false;
                    }
                }
                Inst::Ret(_) if st.frames.len() == depth => return false,
                Inst::AtomicRmw(..) | Inst::CmpXchg(..) | Inst::Unreachable => return false,
                _ => {}
            }
            st.steps += 1;
            self.st.insts += 1;
            match self.step(st, line) {
                Ok(false) => {}
                _ => return false,
            }
            if self.work.len() > wl {
                return false;
            }
        }
    }
    fn join_states(&mut self, s1: &mut State, s2: &mut State, g: Sc) -> bool {
        fn address(v: &Val) -> bool {
            matches!(v, Val::S(Sc::C(x, 64)) if *x >= FN_BASE as u128 && *x < 1 << 48)
        }
        if s1.heap != s2.heap || s1.inputs.len() != s2.inputs.len() || s1.obs.len() != s2.obs.len() || s1.nalloc != s2.nalloc {
            return false;
        }
        if s1.expect_panic != s2.expect_panic || !Rc::ptr_eq(&s1.frozen, &s2.frozen) || s1.mem.len() != s2.mem.len() {
            return false;
        }
        let n = s1.frames.len();
        if n != s2.frames.len() {
            return false;
        }
        // phis of the meeting point; other registers can differ when a way leads around a loop
        let fr = &s1.frames[n - 1];
        let f = fr.f.clone();
        let mut news = vec![];
        for l in &f.blocks[fr.blk as usize].lines {
            if let Inst::Phi(_) = l.inst {
                let (x, y) = (&fr.regs[l.dst as usize], &s2.frames[n - 1].regs[l.dst as usize]);
                if address(x) || address(y) {
                    if let (Val::S(p), Val::S(q)) = (x, y) {
                        if p != q {
                            return false;
                        }
                    }
                }
                news.push((l.dst, sel(g, x, y)));
            } else {
                break;
            }
        }
        let nphi = news.len();
        for (r, (x, y)) in fr.regs.iter().zip(s2.frames[n - 1].regs.iter()).enumerate() {
            match (x, y) {
                (Val::S(p), Val::S(q)) if p == q => {}
                (Val::S(p), Val::S(q)) if p.w() != q.w() => return false,
                (Val::S(_), Val::S(_)) => news.push((r as u32, sel(g, x, y))),
                (Val::A(p), Val::A(q)) if Rc::ptr_eq(p, q) => {}
                (Val::U, Val::U) => {}
                _ => news.push((r as u32, sel(g, x, y))),
            }
        }
        let phis = news.drain(..nphi).collect::<Vec<_>>();
        news.extend(phis);
        // memory
        let mut diff: Vec<(u64, Vec<u64>)> = vec![];
        let mut count = 0;
        for ((a1, o1), (a2, o2)) in s1.mem.iter().zip(s2.mem.iter()) {
            if a1 != a2 || o1.size != o2.size {
                return false;
            }
            if Rc::ptr_eq(o1, o2) {
                continue;
            }
            let mut words = vec![];
            let mut i = 0;
            while i < o1.size {
                let k = i as usize;
                let z1 = if o1.sym.is_empty() { 0 } else { o1.sym[k] };
                let z2 = if o2.sym.is_empty() { 0 } else { o2.sym[k] };
                if z1 != z2 || (z1 == 0 && o1.data[k] != o2.data[k]) {
                    let w = i & !7;
                    if words.last() != Some(&w) {
                        words.push(w);
                        count += 1;
                    }
                }
                i += 1;
            }
            if count > 16 {
                return false;
            }
            if !words.is_empty() {
                diff.push((*a1, words));
            }
        }
        let mut stores = vec![];
        for (a, words) in diff {
            let size = s1.mem[&a].size;
            for w in words {
                let k = (size - w).min(8);
                let un = |o: &Obj| !o.sym.is_empty() && (w..w + k).any(|i| o.sym[i as usize] == UNINIT);
                if un(&s1.mem[&a]) || un(&s2.mem[&a]) {
                    // byte by byte, so that bytes that are not initialised stay so
                    for i in w..w + k {
                        let (p, q) = (Self::byte_at(&s1.mem[&a], i), Self::byte_at(&s2.mem[&a], i));
                        match (p, q) {
                            (None, None) => {}
                            (Some(p), Some(q)) if p == q => {}
                            (Some(p), Some(q)) => stores.push((a + i, term::ite(g, p, q))),
                            (None, Some(q)) => stores.push((a + i, term::ite(g, term::new_var("uninit", 8), q))),
                            (Some(p), None) => stores.push((a + i, term::ite(g, p, term::new_var("uninit", 8)))),
                        }
                    }
                    continue;
                }
                let (p, q) = match (self.load_sc(s1, a + w, k, 8 * k as u32), self.load_sc(s2, a + w, k, 8 * k as u32)) {
                    (Ok(p), Ok(q)) => (p, q),
                    _ => return false,
                };
                if address(&Val::S(p)) || address(&Val::S(q)) {
                    return false;
                }
                stores.push((a + w, term::ite(g, p, q)));
            }
        }
        for (a, v) in stores {
            if self.store_sc(s1, a, v).is_err() {
                return false;
            }
        }
        let fr = s1.frames.last_mut().unwrap();
        for (r, v) in news {
            fr.regs[r as usize] = v;
        }
        true
    }

    fn load_symbolic(&mut self, st: &mut State, a: Sc, ty: &Ty) -> R<Val> {
        let n = ty.store_size();
        let mut memo = HashMap::new();
        let v0 = term::eval_sc(a, &st.model, &mut memo) as u64;
        let (base, size) = match self.find(st, v0) {
            Some((b, o)) => (b, o.size),
            None => return Err(self.memerr(st, "read", v0, n)),
        };
        if v0 + n > base + size {
            return Err(self.memerr(st, "read", v0, n));
        }
        let off = term::bin(Bo::Sub, a, c(base as u128, 64));
        let inb = term::bin(Bo::Ule, off, c((size - n) as u128, 64));
        if let Some(m2) = self.feasible(st, term::not(inb))? {
            let mut o = st.clone();
            self.add_pc(&mut o, term::not(inb), m2);
            self.st.forks += 1;
            self.work.push(o);
            let m = st.model.clone();
            self.add_pc(st, inb, m);
        }
        // few feasible offsets: exact if-then-else over them; otherwise over the whole object
        let mut offs: Vec<u64> = vec![];
        let mut excl = cb(true);
        let mut exact = false;
        let tmp = st.clone();
        while offs.len() < 12 {
            match self.feasible(&tmp, excl)? {
                None => {
                    exact = true;
                    break;
                }
                Some(m) => {
                    let mut memo = HashMap::new();
                    let o = term::eval_sc(off, &m, &mut memo) as u64;
                    offs.push(o);
                    excl = term::and(excl, term::not(term::eq(off, c(o as u128, 64))));
                }
            }
        }
        if !exact {
            if size > 4096 {
                return Err(Ctl::Err("symbolic read from a large object".into()));
            }
            offs = (0..=size - n).collect();
        }
        let mut r: Option<Val> = None;
        for o in offs {
            let v = self.load(st, base + o, ty)?;
            r = Some(match r {
                None => v,
                Some(prev) => sel(term::eq(off, c(o as u128, 64)), &v, &prev),
            });
        }
        Ok(r.unwrap())
    }

    fn binop(&self, op: BinOp, x: Sc, y: Sc) -> R<Sc> {
        use BinOp::*;
        let o = match op {
            Add => Bo::Add,
            Sub => Bo::Sub,
            Mul => Bo::Mul,
            UDiv => Bo::UDiv,
            SDiv => Bo::SDiv,
            URem => Bo::URem,
            SRem => Bo::SRem,
            And => Bo::And,
            Or => Bo::Or,
            Xor => Bo::Xor,
            Shl => Bo::Shl,
            LShr => Bo::LShr,
            AShr => Bo::AShr,
            FAdd => Bo::FAdd,
            FSub => Bo::FSub,
            FMul => Bo::FMul,
            FDiv => Bo::FDiv,
            FRem => {
                if let (Sc::C(a, w), Sc::C(b, _)) = (x, y) {
                    return Ok(if w == 32 {
                        c((f32::from_bits(a as u32) % f32::from_bits(b as u32)).to_bits() as u128, 32)
                    } else {
                        c((f64::from_bits(a as u64) % f64::from_bits(b as u64)).to_bits() as u128, 64)
                    });
                }
                return Err(Ctl::Err("symbolic frem".into()));
            }
        };
        Ok(term::bin(o, x, y))
    }

    fn cast(&self, op: CastOp, t1: &Ty, x: Val, t2: &Ty) -> R<Val> {
        if let (Ty::Vec(n, e1), Ty::Vec(n2, e2)) = (t1, t2) {
            if op != CastOp::BitCast {
                let _ = n2;
                let xs = self.lanes(&x, *n, e1);
                let mut r = vec![];
                for s in xs {
                    r.push(self.cast(op, e1, Val::S(s), e2)?);
                }
                return Ok(Val::A(Rc::new(r)));
            }
        }
        if op == CastOp::BitCast {
            if let Val::U = x {
                return Ok(Val::U);
            }
            let from: Vec<Sc> = match t1 {
                Ty::Vec(n, e) => self.lanes(&x, *n, e),
                _ => vec![self.tosc(&x, t1)],
            };
            let (n2, w2, is_vec) = match t2 {
                Ty::Vec(n, e) => (*n as usize, e.bits(), true),
                _ => (1, t2.bits(), false),
            };
            let w1 = from[0].w();
            let mut out = vec![];
            if w2 > 128 {
                return Err(Ctl::Err("bitcast to a wide integer".into()));
            }
            for i in 0..n2 as u32 {
                let (lo, hi) = (i * w2, (i + 1) * w2);
                let mut r: Option<Sc> = None;
                let mut b = lo;
                while b < hi {
                    let lane = (b / w1) as usize;
                    let inlo = b % w1;
                    let take = (w1 - inlo).min(hi - b);
                    let p = term::extract(from[lane], inlo, take);
                    r = Some(match r {
                        None => p,
                        Some(l) => term::concat(p, l),
                    });
                    b += take;
                }
                out.push(Val::S(r.unwrap()));
            }
            return Ok(if is_vec { Val::A(Rc::new(out)) } else { out.pop().unwrap() });
        }
        let s = self.tosc(&x, t1);
        let w2 = t2.bits();
        if w2 > 128 || s.w() > 128 {
            return Err(Ctl::Err("cast of an integer wider than 128 bits".into()));
        }
        Ok(Val::S(match op {
            CastOp::Trunc => term::extract(s, 0, w2),
            CastOp::ZExt => term::zext(s, w2),
            CastOp::SExt => term::sext(s, w2),
            CastOp::FpTrunc | CastOp::FpExt => term::un(Uo::FpToFp, s, w2),
            CastOp::FpToUi => term::un(Uo::FpToU, s, w2),
            CastOp::FpToSi => term::un(Uo::FpToS, s, w2),
            CastOp::UiToFp => term::un(Uo::UToFp, s, w2),
            CastOp::SiToFp => term::un(Uo::SToFp, s, w2),
            CastOp::PtrToInt | CastOp::IntToPtr => {
                if w2 < s.w() {
                    term::extract(s, 0, w2)
                } else {
                    term::zext(s, w2)
                }
            }
            CastOp::BitCast => s,
        }))
    }

    // ---------------------------------------------------------------- calls
    #[allow(clippy::too_many_arguments)]
    fn call(
        &mut self,
        st: &mut State,
        line: &Line,
        callee: &Opnd,
        args: &[(Ty, Opnd)],
        ret: &Ty,
        invoke: &Option<(u32, u32)>,
        byval: &[Option<(u64, u64)>],
    ) -> R<bool> {
        let finish = |ex: &mut Exec, st: &mut State, v: Val| {
            Self::set_reg(st, line.dst, v);
            match invoke {
                Some((n, _)) => ex.jump(st, *n),
                None => st.frames.last_mut().unwrap().ip += 1,
            }
        };
        if let Opnd::Asm(s) = callee {
            let t = s.trim();
            let comment = t.starts_with("/*") && t.find("*/") == Some(t.len().wrapping_sub(2));
            if (t.is_empty() || comment) && args.len() < 2 {
                // black_box and compiler barriers
                let v = if let (Some((_, o)), true) = (args.first(), *ret != Ty::Void) {
                    self.val(st.frames.last().unwrap(), o)
                } else {
                    Val::U
                };
                finish(self, st, v);
                return Ok(false);
            }
            if s.contains("cpuid") {
                finish(self, st, Val::A(Rc::new(vec![u(0, 32), u(0, 32), u(0, 32), u(0, 32)])));
                return Ok(false);
            }
            return Err(Ctl::Err(format!("inline assembly {:?}", s)));
        }
        let fr = st.frames.last().unwrap();
        let ca = self.sc(fr, callee, &Ty::Ptr);
        let ca = self.conc_addr(st, ca, "a function pointer")?;
        let k = ca.wrapping_sub(FN_BASE) / 16;
        if ca < FN_BASE || k as usize >= self.fns.len() || ca % 16 != 0 {
            return Err(Ctl::Viol("memory".into(), "call through an invalid function pointer".into()));
        }
        let k = k as usize;
        let fr = st.frames.last().unwrap();
        let mut av: Vec<Val> = args.iter().map(|(_, o)| self.val(fr, o)).collect();
        if let Some(h) = self.fns[k].hook {
            let name = self.fns[k].demangled.clone();
            match h {
                "panic_str" => {
                    let mut m = name;
                    if let (Some(Val::S(Sc::C(p, _))), Some(Val::S(Sc::C(n, _)))) = (av.first(), av.get(1)) {
                        m = self.read_str(st, *p as u64, (*n as u64).min(200));
                    }
                    return Err(Ctl::Panic(m));
                }
                "panic_nounwind" => return Err(Ctl::Viol("ub-check".into(), format!("non-unwinding panic ({})", name))),
                "abort" => return Err(Ctl::Viol("abort".into(), name)),
                _ => return Err(Ctl::Panic(name)),
            }
        }
        if self.fns[k].defined {
            let f = {
                let e = &self.fns[k];
                let mut b = e.func.borrow_mut();
                if b.is_none() {
                    *b = Some(self.m.func(&e.name).unwrap());
                }
                b.clone().unwrap()
            };
            if st.frames.len() > 2000 {
                return Err(Ctl::Err("call depth".into()));
            }
            if !self.fn_seen.contains(&f.demangled) {
                self.fn_seen.insert(f.demangled.clone());
            }
            // byval copies
            let mut extra = vec![];
            for (i, b) in byval.iter().enumerate() {
                if let Some((sz, al)) = b {
                    if let Val::S(Sc::C(src, _)) = av[i] {
                        let a = self.alloc(st, *sz, *al, 2, false);
                        self.copy(st, a, src as u64, *sz)?;
                        extra.push(a);
                        av[i] = u(a as u128, 64);
                    }
                }
            }
            let mut regs = vec![Val::U; f.nregs];
            for (i, v) in av.into_iter().enumerate() {
                if i < f.params.len() {
                    regs[i] = v;
                }
            }
            st.frames.push(Frame {
                f,
                regs,
                blk: 0,
                ip: 0,
                prev: 0,
                ret_dst: line.dst,
                cont: invoke.map(|x| x.0),
                allocas: extra,
            });
            return Ok(false);
        }
        let name = self.fns[k].name.clone();
        let v = if let Some(n) = name.strip_prefix("llvm.") {
            self.intrinsic(st, n, args, &av, ret)?
        } else {
            self.external(st, &name, args, &av, ret)?
        };
        finish(self, st, v);
        Ok(false)
    }

    fn a64(&mut self, st: &mut State, v: &Val, what: &str) -> R<u64> {
        let s = self.tosc(v, &Ty::Int(64));
        self.conc_addr(st, s, what)
    }

    fn intrinsic(&mut self, st: &mut State, name: &str, args: &[(Ty, Opnd)], av: &[Val], ret: &Ty) -> R<Val> {
        let base: &str = name;
        if base.starts_with("memcpy.") || base.starts_with("memmove.") {
            let n = self.a64(st, &av[2], "a copy length")?;
            if n == 0 {
                return Ok(Val::U);
            }
            let s = self.a64(st, &av[1], "a copy source")?;
            let d = self.a64(st, &av[0], "a copy destination")?;
            self.copy(st, d, s, n)?;
            return Ok(Val::U);
        }
        if base.starts_with("memset.") {
            let n = self.a64(st, &av[2], "a fill length")?;
            let d = if n == 0 { 0 } else { self.a64(st, &av[0], "a fill destination")? };
            let b = self.tosc(&av[1], &Ty::Int(8));
            self.set(st, d, b, n)?;
            return Ok(Val::U);
        }
        if base.starts_with("threadlocal.address") {
            return Ok(av[0].clone());
        }
        if base == "trap" || base.starts_with("ubsantrap") {
            return Err(Ctl::Viol("abort".into(), "llvm.trap".into()));
        }
        if base.starts_with("is.constant") {
            return Ok(u(0, 1));
        }
        if base.starts_with("expect") {
            return Ok(av[0].clone());
        }
        if base.starts_with("x86.sse2.pause") || base.starts_with("stackrestore") || base.starts_with("sideeffect") {
            return Ok(Val::U);
        }
        if base.starts_with("stacksave") {
            return Ok(u(0, 64));
        }
        if base.starts_with("load.relative") {
            let p = self.a64(st, &av[0], "a relative table")?;
            let o = self.tosc(&av[1], &Ty::Int(64));
            let a = term::bin(Bo::Add, c(p as u128, 64), o);
            let a = self.conc_addr(st, a, "a relative table slot")?;
            let v = self.load_sc(st, a, 4, 32)?;
            return Ok(Val::S(term::bin(Bo::Add, c(p as u128, 64), term::sext(v, 64))));
        }
        if base.starts_with("x86.sse2.pmovmskb.128") {
            let xs = self.lanes(&av[0], 16, &Ty::Int(8));
            let mut r: Option<Sc> = None;
            for x in xs {
                let b = term::extract(x, 7, 1);
                r = Some(match r {
                    None => b,
                    Some(l) => term::concat(b, l),
                });
            }
            return Ok(Val::S(term::zext(r.unwrap(), 32)));
        }
        if let Some(r) = base.strip_prefix("vector.reduce.") {
            let (n, e) = match &args[args.len() - 1].0 {
                Ty::Vec(n, e) => (*n, e.clone()),
                t => return Err(Ctl::Err(format!("reduce of {:?}", t))),
            };
            let xs = self.lanes(&av[args.len() - 1], n, &e);
            let op = r.split('.').next().unwrap();
            let mut acc = xs[0];
            for x in &xs[1..] {
                acc = match op {
                    "add" => term::bin(Bo::Add, acc, *x),
                    "mul" => term::bin(Bo::Mul, acc, *x),
                    "and" => term::bin(Bo::And, acc, *x),
                    "or" => term::bin(Bo::Or, acc, *x),
                    "xor" => term::bin(Bo::Xor, acc, *x),
                    "umax" => term::ite(term::bin(Bo::Ult, acc, *x), *x, acc),
                    "umin" => term::ite(term::bin(Bo::Ult, *x, acc), *x, acc),
                    "smax" => term::ite(term::bin(Bo::Slt, acc, *x), *x, acc),
                    "smin" => term::ite(term::bin(Bo::Slt, *x, acc), *x, acc),
                    _ => return Err(Ctl::Err(format!("intrinsic {}", name))),
                };
            }
            return Ok(Val::S(acc));
        }
        // element-wise
        if let Ty::Vec(n, e) = ret {
            let mut out = vec![];
            for i in 0..*n as usize {
                let mut targs = vec![];
                let mut vargs = vec![];
                for (j, (t, o)) in args.iter().enumerate() {
                    match t {
                        Ty::Vec(n1, e1) => {
                            targs.push(((**e1).clone(), o.clone()));
                            vargs.push(Val::S(self.lanes(&av[j], *n1, e1)[i]));
                        }
                        _ => {
                            targs.push((t.clone(), o.clone()));
                            vargs.push(av[j].clone());
                        }
                    }
                }
                out.push(self.scalar_intrinsic(st, name, &targs, &vargs, e)?);
            }
            return Ok(Val::A(Rc::new(out)));
        }
        self.scalar_intrinsic(st, name, args, av, ret)
    }

    fn scalar_intrinsic(&mut self, st: &mut State, name: &str, args: &[(Ty, Opnd)], av: &[Val], ret: &Ty) -> R<Val> {
        let parts: Vec<&str> = name.split('.').collect();
        let s = |i: usize| -> Sc { self.tosc(&av[i], &args[i].0) };
        let lt = |p: &'static str, a: Sc, b: Sc| icmp(p, a, b);
        let r = match parts[0] {
            "umin" => { let (a, b) = (s(0), s(1)); term::ite(lt("ult", a, b), a, b) }
            "umax" => { let (a, b) = (s(0), s(1)); term::ite(lt("ugt", a, b), a, b) }
            "smin" => { let (a, b) = (s(0), s(1)); term::ite(lt("slt", a, b), a, b) }
            "smax" => { let (a, b) = (s(0), s(1)); term::ite(lt("sgt", a, b), a, b) }
            "abs" => { let a = s(0); let w = a.w(); term::ite(lt("slt", a, c(0, w)), term::bin(Bo::Sub, c(0, w), a), a) }
            "ctpop" => {
                let a = s(0);
                let w = a.w();
                if let Sc::C(v, _) = a { c(v.count_ones() as u128, w) } else {
                    let mut r = c(0, w);
                    for i in 0..w { r = term::bin(Bo::Add, r, term::zext(term::extract(a, i, 1), w)); }
                    r
                }
            }
            "ctlz" | "cttz" => {
                let a = s(0);
                let w = a.w();
                let mut r = c(w as u128, w);
                for i in 0..w {
                    let bit = if parts[0] == "ctlz" { i } else { w - 1 - i };
                    let n = if parts[0] == "ctlz" { w - 1 - i } else { w - 1 - i };
                    r = term::ite(term::extract(a, bit, 1), c(n as u128, w), r);
                }
                r
            }
            "bswap" => {
                let a = s(0);
                let w = a.w();
                let mut r = term::extract(a, 0, 8);
                for i in 1..w / 8 { r = term::concat(r, term::extract(a, 8 * i, 8)); }
                r
            }
            "bitreverse" => {
                let a = s(0);
                let mut r = term::extract(a, 0, 1);
                for i in 1..a.w() { r = term::concat(r, term::extract(a, i, 1)); }
                r
            }
            "fshl" | "fshr" => {
                let (a, b, n) = (s(0), s(1), s(2));
                let w = a.w();
                let n = term::bin(Bo::URem, n, c(w as u128, w));
                if let Sc::C(k, _) = n {
                    let k = k as u32;
                    if k == 0 { if parts[0] == "fshl" { a } else { b } }
                    else if parts[0] == "fshl" { term::concat(term::extract(a, 0, w - k), term::extract(b, w - k, k)) }
                    else { term::concat(term::extract(a, 0, k), term::extract(b, k, w - k)) }
                } else {
                    let inv = term::bin(Bo::Sub, c(w as u128, w), n);
                    let z = term::eq(n, c(0, w));
                    if parts[0] == "fshl" {
                        term::ite(z, a, term::or(term::bin(Bo::Shl, a, n), term::bin(Bo::LShr, b, inv)))
                    } else {
                        term::ite(z, b, term::or(term::bin(Bo::LShr, b, n), term::bin(Bo::Shl, a, inv)))
                    }
                }
            }
            "uadd" | "usub" | "umul" | "sadd" | "ssub" | "smul" => {
                let (a, b) = (s(0), s(1));
                let w = a.w();
                let signed = parts[0].starts_with('s');
                let bo = match &parts[0][1..] { "add" => Bo::Add, "sub" => Bo::Sub, _ => Bo::Mul };
                let res = term::bin(bo, a, b);
                let ovf = if let (Sc::C(x, _), Sc::C(y, _)) = (a, b) {
                    cb(conc_ovf(bo, signed, x, y, w))
                } else {
                    match (bo, signed) {
                        (Bo::Add, false) => term::add_ovf(a, b),
                        (Bo::Sub, false) => term::bin(Bo::Ult, a, b),
                        (Bo::Add, true) | (Bo::Sub, true) => {
                            let w2 = w + 1;
                            let wide = term::bin(bo, term::sext(a, w2), term::sext(b, w2));
                            term::not(term::eq(term::extract(wide, w, 1), term::extract(wide, w - 1, 1)))
                        }
                        (_, false) => {
                            let m = term::mask(w);
                            if term::range(a).1.checked_mul(term::range(b).1).map_or(false, |h| h <= m) {
                                cb(false)
                            } else if let Sc::C(k, _) = b {
                                if k == 0 { cb(false) } else { term::bin(Bo::Ult, c(m / k, w), a) }
                            } else if let Sc::C(k, _) = a {
                                if k == 0 { cb(false) } else { term::bin(Bo::Ult, c(m / k, w), b) }
                            } else if w <= 64 {
                                let wide = term::bin(Bo::Mul, term::zext(a, 2 * w), term::zext(b, 2 * w));
                                term::not(term::eq(wide, term::zext(res, 2 * w)))
                            } else {
                                let z = term::eq(b, c(0, w));
                                let d = term::ite(z, c(1, w), b);
                                term::and(term::not(z), term::bin(Bo::Ult, term::bin(Bo::UDiv, c(m, w), d), a))
                            }
                        }
                        (_, true) => {
                            if w > 64 { return Err(Ctl::Err("128-bit signed overflow multiply".into())); }
                            let wide = term::bin(Bo::Mul, term::sext(a, 2 * w), term::sext(b, 2 * w));
                            term::not(term::eq(wide, term::sext(res, 2 * w)))
                        }
                    }
                };
                if parts[1] == "with" {
                    return Ok(Val::A(Rc::new(vec![Val::S(res), Val::S(ovf)])));
                }
                // .sat
                let satv = if signed {
                    let neg = term::extract(a, w - 1, 1);
                    term::ite(neg, c(1u128 << (w - 1), w), c(term::mask(w - 1), w))
                } else if bo == Bo::Sub { c(0, w) } else { c(term::mask(w), w) };
                term::ite(ovf, satv, res)
            }
            "ucmp" | "scmp" => {
                let (a, b) = (s(0), s(1));
                let w = ret.bits();
                let l = if parts[0] == "ucmp" { lt("ult", a, b) } else { lt("slt", a, b) };
                term::ite(l, c(u128::MAX, w), term::ite(term::eq(a, b), c(0, w), c(1, w)))
            }
            "fabs" => { let a = s(0); term::bin(Bo::And, a, c(term::mask(a.w() - 1), a.w())) }
            "copysign" => {
                let (a, b) = (s(0), s(1));
                let w = a.w();
                let sg = term::extract(b, w - 1, 1);
                if crate::fix::as_fix(a).is_some() {
                    let m = term::bin(Bo::And, a, c(term::mask(w - 1), w));
                    term::ite(sg, term::bin(Bo::Xor, m, c(1u128 << (w - 1), w)), m)
                } else {
                    term::concat(sg, term::extract(a, 0, w - 1))
                }
            }
            "sqrt" => term::un(Uo::FSqrt, s(0), ret.bits()),
            "ceil" => term::un(Uo::FCeil, s(0), ret.bits()),
            "floor" => term::un(Uo::FFloor, s(0), ret.bits()),
            "trunc" => term::un(Uo::FTrunc, s(0), ret.bits()),
            "round" => term::un(Uo::FRoundAway, s(0), ret.bits()),
            "rint" | "nearbyint" | "roundeven" => term::un(Uo::FRoundEven, s(0), ret.bits()),
            "minnum" | "minimumnum" | "maxnum" | "maximumnum" => {
                let (a, b) = (s(0), s(1));
                let l = term::bin(Bo::FLt, if parts[0].starts_with("min") { a } else { b }, if parts[0].starts_with("min") { b } else { a });
                term::ite(term::is_nan(a), b, term::ite(term::is_nan(b), a, term::ite(l, a, b)))
            }
            "minimum" | "maximum" => {
                let (a, b) = (s(0), s(1));
                let l = if parts[0] == "minimum" { term::bin(Bo::FLt, a, b) } else { term::bin(Bo::FLt, b, a) };
                term::ite(term::is_nan(a), a, term::ite(term::is_nan(b), b, term::ite(l, a, b)))
            }
            "fptosi" => term::un(Uo::FpToSSat, s(0), ret.bits()),
            "fptoui" => term::un(Uo::FpToUSat, s(0), ret.bits()),
            "fma" | "fmuladd" => {
                let (a, b, d) = (s(0), s(1), s(2));
                match (a, b, d) {
                    (Sc::C(x, w), Sc::C(y, _), Sc::C(z, _)) => {
                        if w == 32 { c(f32::from_bits(x as u32).mul_add(f32::from_bits(y as u32), f32::from_bits(z as u32)).to_bits() as u128, 32) }
                        else { c(f64::from_bits(x as u64).mul_add(f64::from_bits(y as u64), f64::from_bits(z as u64)).to_bits() as u128, 64) }
                    }
                    _ => return Err(Ctl::Err("symbolic fma".into())),
                }
            }
            "is" if parts.get(1) == Some(&"fpclass") => {
                let a = s(0);
                let m = s(1).conc().unwrap_or(0);
                let w = a.w();
                let (eb, mb) = if w == 32 { (8, 23) } else { (11, 52) };
                let sign = term::extract(a, w - 1, 1);
                let ex = term::extract(a, mb, eb);
                let ma = term::extract(a, 0, mb);
                let exall = term::eq(ex, c(u128::MAX, eb));
                let exz = term::eq(ex, c(0, eb));
                let maz = term::eq(ma, c(0, mb));
                let quiet = term::extract(ma, mb - 1, 1);
                let nan = term::and(exall, term::not(maz));
                let pos = term::not(sign);
                let norm = term::and(term::not(exall), term::not(exz));
                let sub = term::and(exz, term::not(maz));
                let zero = term::and(exz, maz);
                let inf = term::and(exall, maz);
                let classes = [
                    term::and(nan, term::not(quiet)), term::and(nan, quiet),
                    term::and(inf, sign), term::and(norm, sign), term::and(sub, sign), term::and(zero, sign),
                    term::and(zero, pos), term::and(sub, pos), term::and(norm, pos), term::and(inf, pos),
                ];
                let mut r = cb(false);
                for (i, k) in classes.iter().enumerate() {
                    if m >> i & 1 == 1 { r = term::or(r, *k); }
                }
                r
            }
            "ptrmask" => term::bin(Bo::And, s(0), s(1)),
            "powi" | "pow" | "sin" | "cos" | "tan" | "exp" | "exp2" | "log" | "log2" | "log10" => {
                let f = parts[0];
                let w = ret.bits();
                match (s(0), if av.len() > 1 { s(1) } else { c(0, 64) }) {
                    (Sc::C(x, _), Sc::C(y, yw)) if w == 64 => {
                        let x = f64::from_bits(x as u64);
                        let v = match f {
                            "powi" => x.powi(term::sx(y, yw as u32) as i32),
                            "pow" => x.powf(f64::from_bits(y as u64)),
                            "sin" => x.sin(), "cos" => x.cos(), "tan" => x.tan(), "exp" => x.exp(), "exp2" => x.exp2(),
                            "log" => x.ln(), "log2" => x.log2(), _ => x.log10(),
                        };
                        c(v.to_bits() as u128, 64)
                    }
                    _ => return Err(Ctl::Err(format!("symbolic {}", f))),
                }
            }
            _ => {
                let _ = st;
                return Err(Ctl::Err(format!("intrinsic llvm.{}", name)));
            }
        };
        Ok(Val::S(r))
    }

    fn external(&mut self, st: &mut State, name: &str, args: &[(Ty, Opnd)], av: &[Val], ret: &Ty) -> R<Val> {
        match name {
            // ------------------------------------------------ harness interface
            "sx_sym" => {
                // (ptr, element size, count, name ptr, name len)
                let p = self.a64(st, &av[0], "sx")?;
                let es = self.a64(st, &av[1], "sx")? as u32;
                let n = self.a64(st, &av[2], "sx")?;
                let np = self.a64(st, &av[3], "sx")?;
                let nl = self.a64(st, &av[4], "sx")?;
                let nm = self.read_str(st, np, nl);
                let mut parts = vec![];
                for i in 0..n {
                    let v = term::new_var(&format!("{}[{}]", nm, i), es * 8);
                    self.store_sc(st, p + i * es as u64, v)?;
                    parts.push((v, es));
                }
                st.inputs.push((nm, parts));
                Ok(Val::U)
            }
            "sx_choice" => {
                // a symbolic value in [0, n) made concrete by forking; args: n, name
                let n = self.a64(st, &av[0], "sx")?;
                let np = self.a64(st, &av[1], "sx")?;
                let nl = self.a64(st, &av[2], "sx")?;
                let nm = self.read_str(st, np, nl);
                if n == 0 {
                    self.st.paths_assume += 1;
                    return Err(Ctl::End);
                }
                let v = term::new_var(&nm, 64);
                let cond = term::bin(Bo::Ult, v, c(n as u128, 64));
                st.inputs.push((nm, vec![(v, 8)]));
                // one state per value; each is decided by the solver like any other branch
                for k in (0..n).rev() {
                    let e = term::eq(v, c(k as u128, 64));
                    let g = term::and(cond, e);
                    if let Some(m) = self.feasible(st, g)? {
                        if k == 0 {
                            self.add_pc(st, e, m);
                        } else {
                            let mut o = st.clone();
                            self.add_pc(&mut o, e, m);
                            self.st.forks += 1;
                            // finish the call in the other state
                            let fr = o.frames.last_mut().unwrap();
                            let f = fr.f.clone();
                            let line = &f.blocks[fr.blk as usize].lines[fr.ip as usize];
                            if line.dst != u32::MAX {
                                fr.regs[line.dst as usize] = u(k as u128, 64);
                            }
                            if let Inst::Call { invoke: Some((b, _)), .. } = &line.inst {
                                let b = *b;
                                self.jump(&mut o, b);
                            } else {
                                o.frames.last_mut().unwrap().ip += 1;
                            }
                            self.work.push(o);
                        }
                    }
                }
                Ok(u(0, 64))
            }
            "sx_concretize" => {
                let s = self.tosc(&av[0], &Ty::Int(64));
                let v = self.conc(st, s, "a concretised value")?;
                Ok(u(v, 64))
            }
            "sx_assume" => {
                let s = self.tosc(&av[0], &args[0].0);
                let g = if s.w() == 1 { s } else { term::not(term::eq(s, c(0, s.w()))) };
                match self.feasible(st, g)? {
                    Some(m) => {
                        self.add_pc(st, g, m);
                        Ok(Val::U)
                    }
                    None => {
                        self.st.paths_assume += 1;
                        Err(Ctl::End)
                    }
                }
            }
            "sx_check" => {
                let s = self.tosc(&av[0], &args[0].0);
                let g = if s.w() == 1 { s } else { term::not(term::eq(s, c(0, s.w()))) };
                self.st.checks += 1;
                if let Sc::C(1, _) = g {
                    return Ok(Val::U);
                }
                let np = self.a64(st, &av[1], "sx")?;
                let nl = self.a64(st, &av[2], "sx")?;
                let msg = self.read_str(st, np, nl);
                self.st.checks_solver += 1;
                if let Some(m) = self.feasible(st, term::not(g))? {
                    let mut bad = st.clone();
                    self.add_pc(&mut bad, term::not(g), m);
                    self.record_viol(&bad, "assertion", &msg);
                    match self.feasible(st, g)? {
                        Some(m) => self.add_pc(st, g, m),
                        None => {
                            self.st.paths_viol += 1;
                            return Err(Ctl::End);
                        }
                    }
                }
                Ok(Val::U)
            }
            "sx_cover" | "sx_bound" => {
                let np = self.a64(st, &av[0], "sx")?;
                let nl = self.a64(st, &av[1], "sx")?;
                let msg = self.read_str(st, np, nl);
                if name == "sx_cover" {
                    *self.covers.entry(msg).or_insert(0) += 1;
                } else {
                    self.bounds.insert(msg);
                }
                Ok(Val::U)
            }
            "sx_observe" => {
                let s = self.tosc(&av[0], &Ty::Int(64));
                st.obs.push(s);
                Ok(Val::U)
            }
            "sx_expect_panic" => {
                let v = self.a64(st, &av[0], "sx")?;
                st.expect_panic = v != 0;
                Ok(Val::U)
            }
            "sx_frozen" => {
                let p = self.a64(st, &av[0], "sx")?;
                let n = self.a64(st, &av[1], "sx")?;
                let mut b = vec![];
                for i in 0..n {
                    b.push(self.load_sc(st, p + i, 1, 8)?);
                }
                let mut f = (*st.frozen).clone();
                f.push((p, b));
                st.frozen = Rc::new(f);
                Ok(Val::U)
            }
            "sx_is_symbolic" => Ok(u(1, ret.bits())),
            // ------------------------------------------------ libc
            "malloc" => {
                let n = self.a64(st, &av[0], "an allocation size")?;
                if n > 1 << 24 {
                    return Err(Ctl::Err(format!("allocation of {} bytes", n)));
                }
                Ok(u(self.alloc(st, n, 16, 1, false) as u128, 64))
            }
            "calloc" => {
                let a = self.a64(st, &av[0], "an allocation size")?;
                let b = self.a64(st, &av[1], "an allocation size")?;
                let n = a.saturating_mul(b);
                if n > 1 << 24 {
                    return Err(Ctl::Err(format!("allocation of {} bytes", n)));
                }
                Ok(u(self.alloc(st, n, 16, 1, true) as u128, 64))
            }
            "posix_memalign" | "aligned_alloc" => {
                let (al, n) = if name == "posix_memalign" {
                    (self.a64(st, &av[1], "an alignment")?, self.a64(st, &av[2], "an allocation size")?)
                } else {
                    (self.a64(st, &av[0], "an alignment")?, self.a64(st, &av[1], "an allocation size")?)
                };
                if n > 1 << 24 {
                    return Err(Ctl::Err(format!("allocation of {} bytes", n)));
                }
                let a = self.alloc(st, n, al, 1, false);
                if name == "aligned_alloc" {
                    return Ok(u(a as u128, 64));
                }
                let p = self.a64(st, &av[0], "a pointer")?;
                self.store_sc(st, p, c(a as u128, 64))?;
                Ok(u(0, 32))
            }
            "realloc" => {
                let p = self.a64(st, &av[0], "a pointer")?;
                let n = self.a64(st, &av[1], "an allocation size")?;
                if n > 1 << 24 {
                    return Err(Ctl::Err(format!("allocation of {} bytes", n)));
                }
                let a = self.alloc(st, n, 16, 1, false);
                if p != 0 {
                    let old = match st.mem.get(&p) {
                        Some(o) => o.size,
                        None => return Err(Ctl::Viol("memory".into(), "realloc of a dead pointer".into())),
                    };
                    self.copy(st, a, p, old.min(n))?;
                    self.free(st, p)?;
                }
                Ok(u(a as u128, 64))
            }
            "free" => {
                let p = self.a64(st, &av[0], "a pointer")?;
                self.free(st, p)?;
                Ok(Val::U)
            }
            "memcpy" | "memmove" => {
                let n = self.a64(st, &av[2], "a copy length")?;
                let s = self.a64(st, &av[1], "a copy source")?;
                let d = self.a64(st, &av[0], "a copy destination")?;
                self.copy(st, d, s, n)?;
                Ok(u(d as u128, 64))
            }
            "memset" => {
                let n = self.a64(st, &av[2], "a fill length")?;
                let d = self.a64(st, &av[0], "a fill destination")?;
                let b = term::extract(self.tosc(&av[1], &Ty::Int(32)), 0, 8);
                self.set(st, d, b, n)?;
                Ok(u(d as u128, 64))
            }
            "bcmp" | "memcmp" => {
                let n = self.a64(st, &av[2], "a comparison length")?;
                if n == 0 {
                    return Ok(u(0, 32));
                }
                let a = self.a64(st, &av[0], "a comparison operand")?;
                let b = self.a64(st, &av[1], "a comparison operand")?;
                self.materialise(st, a, n)?;
                self.materialise(st, b, n)?;
                // compare word-wise where both sides hold whole terms
                if name == "bcmp" {
                    let mut all = cb(true);
                    let mut i = 0;
                    while i < n {
                        let k = if n - i >= 8 { 8 } else if n - i >= 4 { 4 } else { 1 };
                        let x = self.load_sc(st, a + i, k, 8 * k as u32)?;
                        let y = self.load_sc(st, b + i, k, 8 * k as u32)?;
                        all = term::and(all, term::eq(x, y));
                        i += k;
                    }
                    return Ok(Val::S(term::ite(all, c(0, 32), c(1, 32))));
                }
                let mut r = c(0, 32);
                for i in (0..n).rev() {
                    let x = self.load_sc(st, a + i, 1, 8)?;
                    let y = self.load_sc(st, b + i, 1, 8)?;
                    let d = term::ite(term::bin(Bo::Ult, x, y), c(u128::MAX, 32), c(1, 32));
                    r = term::ite(term::eq(x, y), r, d);
                }
                Ok(Val::S(r))
            }
            "strlen" => {
                let p = self.a64(st, &av[0], "a string")?;
                let mut n = 0;
                loop {
                    let b = self.load_sc(st, p + n, 1, 8)?;
                    let b = self.conc(st, b, "a string byte")?;
                    if b == 0 {
                        return Ok(u(n as u128, 64));
                    }
                    n += 1;
                }
            }
            "getrandom" => {
                let p = self.a64(st, &av[0], "a buffer")?;
                let n = self.a64(st, &av[1], "a length")?;
                let mut x = self.opts.seed.wrapping_mul(0x9E3779B97F4A7C15).wrapping_add(0x1234567);
                for i in 0..n {
                    x ^= x << 13;
                    x ^= x >> 7;
                    x ^= x << 17;
                    self.store_sc(st, p + i, c((x >> 24) as u8 as u128, 8))?;
                }
                Ok(u(n as u128, 64))
            }
            "getenv" | "secure_getenv" => Ok(u(0, 64)),
            "__cxa_thread_atexit_impl" => Ok(u(0, 32)),
            "pthread_key_create" | "pthread_key_delete" | "pthread_setspecific" => Ok(u(0, 32)),
            "pthread_self" => Ok(u(1, 64)),
            "gettid" => Ok(u(1, 32)),
            "write" => {
                let n = self.tosc(&av[2], &Ty::Int(64));
                Ok(Val::S(n))
            }
            "abort" => Err(Ctl::Viol("abort".into(), "abort()".into())),
            "fmod" | "pow" | "sin" | "cos" | "tan" | "atan2" | "acos" | "asin" | "atan" | "hypot" | "cbrt" | "exp" | "log" | "sqrt" | "floor"
            | "ceil" | "round" | "trunc" => {
                let mut xs = vec![];
                for (i, _) in av.iter().enumerate() {
                    match self.tosc(&av[i], &Ty::F64) {
                        Sc::C(v, _) => xs.push(f64::from_bits(v as u64)),
                        s => match name {
                            "sqrt" => return Ok(Val::S(term::un(Uo::FSqrt, s, 64))),
                            "floor" => return Ok(Val::S(term::un(Uo::FFloor, s, 64))),
                            "ceil" => return Ok(Val::S(term::un(Uo::FCeil, s, 64))),
                            "round" => return Ok(Val::S(term::un(Uo::FRoundAway, s, 64))),
                            "trunc" => return Ok(Val::S(term::un(Uo::FTrunc, s, 64))),
                            _ => return Err(Ctl::Err(format!("symbolic {}", name))),
                        },
                    }
                }
                let v = match name {
                    "fmod" => xs[0] % xs[1],
                    "pow" => xs[0].powf(xs[1]),
                    "sin" => xs[0].sin(),
                    "cos" => xs[0].cos(),
                    "tan" => xs[0].tan(),
                    "atan2" => xs[0].atan2(xs[1]),
                    "acos" => xs[0].acos(),
                    "asin" => xs[0].asin(),
                    "atan" => xs[0].atan(),
                    "hypot" => xs[0].hypot(xs[1]),
                    "cbrt" => xs[0].cbrt(),
                    "exp" => xs[0].exp(),
                    "log" => xs[0].ln(),
                    "sqrt" => xs[0].sqrt(),
                    "floor" => xs[0].floor(),
                    "ceil" => xs[0].ceil(),
                    "round" => xs[0].round(),
                    _ => xs[0].trunc(),
                };
                Ok(u(v.to_bits() as u128, 64))
            }
            _ => {
                let _ = ret;
                Err(Ctl::Err(format!("external function {}", name)))
            }
        }
    }
    #[allow(dead_code)]
    fn unused(&self, f: &mut Func) {
        self.resolve(f)
    }
}

fn conc_ovf(op: Bo, signed: bool, x: u128, y: u128, w: u32) -> bool {
    if signed {
        let (a, b) = (term::sx(x, w), term::sx(y, w));
        let r = match op {
            Bo::Add => a.checked_add(b),
            Bo::Sub => a.checked_sub(b),
            _ => a.checked_mul(b),
        };
        match r {
            None => true,
            Some(r) => w < 128 && (r < -(1i128 << (w - 1)) || r > (1i128 << (w - 1)) - 1),
        }
    } else {
        let r = match op {
            Bo::Add => x.checked_add(y),
            Bo::Sub => x.checked_sub(y),
            _ => x.checked_mul(y),
        };
        match r {
            None => true,
            Some(r) => r > term::mask(w),
        }
    }
}

fn sel(g: Sc, x: &Val, y: &Val) -> Val {
    if let Sc::C(v, _) = g {
        return if v == 1 { x.clone() } else { y.clone() };
    }
    match (x, y) {
        (Val::S(a), Val::S(b)) => Val::S(term::ite(g, *a, *b)),
        (Val::U, v) | (v, Val::U) => v.clone(),
        (Val::A(a), Val::A(b)) => Val::A(Rc::new(a.iter().zip(b.iter()).map(|(p, q)| sel(g, p, q)).collect())),
        _ => Val::U,
    }
}
fn ins(v: Val, ty: &Ty, x: Val, ix: &[usize]) -> Val {
    if ix.is_empty() {
        return x;
    }
    let n = match ty {
        Ty::Struct(fs, _) => fs.len(),
        Ty::Arr(n, _) | Ty::Vec(n, _) => *n as usize,
        _ => 0,
    };
    let mut xs = match v {
        Val::A(a) => (*a).clone(),
        _ => vec![Val::U; n],
    };
    let old = std::mem::replace(&mut xs[ix[0]], Val::U);
    xs[ix[0]] = ins(old, &ty.field_ty(ix[0]), x, &ix[1..]);
    Val::A(Rc::new(xs))
}
pub fn icmp(p: &str, a: Sc, b: Sc) -> Sc {
    match p {
        "eq" => term::eq(a, b),
        "ne" => term::not(term::eq(a, b)),
        "ult" => term::bin(Bo::Ult, a, b),
        "ugt" => term::bin(Bo::Ult, b, a),
        "ule" => term::bin(Bo::Ule, a, b),
        "uge" => term::bin(Bo::Ule, b, a),
        "slt" => term::bin(Bo::Slt, a, b),
        "sgt" => term::bin(Bo::Slt, b, a),
        "sle" => term::bin(Bo::Sle, a, b),
        "sge" => term::bin(Bo::Sle, b, a),
        _ => panic!("icmp {}", p),
    }
}
pub fn fcmp(p: &str, a: Sc, b: Sc) -> Sc {
    let uno = || term::bin(Bo::FUno, a, b);
    match p {
        "oeq" => term::bin(Bo::FEq, a, b),
        "ogt" => term::bin(Bo::FLt, b, a),
        "oge" => term::bin(Bo::FLe, b, a),
        "olt" => term::bin(Bo::FLt, a, b),
        "ole" => term::bin(Bo::FLe, a, b),
        "one" => term::and(term::not(uno()), term::not(term::bin(Bo::FEq, a, b))),
        "ord" => term::not(uno()),
        "uno" => uno(),
        "ueq" => term::or(uno(), term::bin(Bo::FEq, a, b)),
        "ugt" => term::not(term::bin(Bo::FLe, a, b)),
        "uge" => term::not(term::bin(Bo::FLt, a, b)),
        "ult" => term::not(term::bin(Bo::FLe, b, a)),
        "ule" => term::not(term::bin(Bo::FLt, b, a)),
        "une" => term::not(term::bin(Bo::FEq, a, b)),
        "true" => cb(true),
        "false" => cb(false),
        _ => panic!("fcmp {}", p),
    }
}
