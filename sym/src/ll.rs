//! Symbolic interpreter for the LLVM code the compiler makes of the crate (text form). Addresses,
//! integers and control flow are concrete; floating point values, and integer samples handed in by a
//! harness, are symbolic reals. Comparisons of symbolic values fork through the path engine.
use crate::arena::*;
use crate::num::{mk, Sym};
use crate::path::*;
use num_bigint::BigInt;
use num_traits::{Float, ToPrimitive};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap};
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    I(u32),
    F32,
    F64,
    Ptr,
    Arr(usize, Box<Ty>),
    Struct(Vec<Ty>, bool),
    Vec(usize, Box<Ty>),
    Other,
}
impl Ty {
    pub fn size(&self) -> usize {
        match self {
            Ty::Void | Ty::Other => 0,
            Ty::I(b) => ((*b as usize + 7) / 8).next_power_of_two(),
            Ty::F32 => 4,
            Ty::F64 | Ty::Ptr => 8,
            Ty::Arr(n, t) => n * t.stride(),
            Ty::Vec(n, t) => n * t.size(),
            Ty::Struct(f, packed) => {
                let mut o = 0;
                for t in f {
                    if !packed {
                        o = up(o, t.align());
                    }
                    o += t.size();
                }
                if *packed { o } else { up(o, self.align()) }
            }
        }
    }
    fn stride(&self) -> usize {
        up(self.size(), self.align())
    }
    fn align(&self) -> usize {
        match self {
            Ty::Arr(_, t) => t.align(),
            Ty::Struct(_, true) => 1,
            Ty::Struct(f, false) => f.iter().map(|t| t.align()).max().unwrap_or(1),
            t => t.size().max(1).min(16),
        }
    }
    fn field(&self, i: usize) -> (usize, &Ty) {
        match self {
            Ty::Arr(_, t) => (i * t.stride(), t),
            Ty::Vec(_, t) => (i * t.size(), t),
            Ty::Struct(f, packed) => {
                let mut o = 0;
                for (k, t) in f.iter().enumerate() {
                    if !packed {
                        o = up(o, t.align());
                    }
                    if k == i {
                        return (o, t);
                    }
                    o += t.size();
                }
                bad(&format!("field {i} of {self:?}"))
            }
            t => bad(&format!("field of {t:?}")),
        }
    }
}
fn up(x: usize, a: usize) -> usize {
    (x + a - 1) / a * a
}
fn bad(s: &str) -> ! {
    crate::path::unsupported(format!("llvm: {s}"))
}

#[derive(Clone, Debug)]
pub enum Op {
    Reg(u32),
    Int(u32, u128),
    Flt(f64, bool),
    Global(String),
    Undef,
    Zero,
    Agg(Vec<(Ty, Op)>),
    Str(Vec<u8>),
    Gep(Ty, Box<Op>, Vec<(Ty, Op)>),
    Cast(Box<Op>, Ty),
    Bin(String, Ty, Box<Op>, Box<Op>),
    Meta,
}
#[derive(Clone, Debug)]
pub enum Inst {
    Bin(String, Ty, Op, Op),
    ICmp(String, Ty, Op, Op),
    FCmp(String, Ty, Op, Op),
    FNeg(Ty, Op),
    Load(Ty, Op),
    Store(Ty, Op, Op),
    Gep(Ty, Op, Vec<(Ty, Op)>),
    Call(Ty, Op, Vec<(Ty, Op)>),
    Phi(Ty, Vec<(Op, u32)>),
    Select(Ty, Op, Op, Op),
    Cast(String, Ty, Op, Ty),
    Extract(Ty, Op, Vec<usize>),
    Insert(Ty, Op, Ty, Op, Vec<usize>),
    ExtractEl(Op, Op),
    InsertEl(usize, Op, Op, Op),
    Shuffle(usize, Op, Op, Op),
    Alloca(Ty, Op),
    Br(u32),
    CondBr(Op, u32, u32),
    Switch(Ty, Op, u32, Vec<(Op, u32)>),
    Ret(Ty, Op),
    Unreachable,
    Freeze(Ty, Op),
    Unsupported(String),
}
pub struct Func {
    pub name: String,
    pub params: Vec<(Ty, u32)>,
    pub blocks: Vec<Vec<(Option<u32>, Inst)>>,
    pub regs: usize,
}
#[derive(Default)]
pub struct Module {
    pub funcs: HashMap<String, Func>,
    pub globals: HashMap<String, (Ty, Op)>,
    pub noreturn: std::collections::HashSet<String>,
    pub types: HashMap<String, Ty>,
    pub aliases: HashMap<String, String>,
}

// ---------------- parsing ----------------
#[derive(Clone, Debug, PartialEq)]
enum Tok {
    W(String),
    Reg(String),
    Glob(String),
    Meta(String),
    Num(String),
    Str(Vec<u8>),
    P(char),
}
fn lex(s: &str) -> Vec<Tok> {
    let b = s.as_bytes();
    let mut i = 0;
    let mut out = vec![];
    let idc = |c: u8| c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-';
    while i < b.len() {
        let c = b[i];
        match c {
            b' ' | b'\t' => i += 1,
            b';' => break,
            b'%' | b'@' => {
                i += 1;
                let st = i;
                let name = if i < b.len() && b[i] == b'"' {
                    i += 1;
                    let st = i;
                    while b[i] != b'"' {
                        i += 1;
                    }
                    i += 1;
                    s[st..i - 1].to_string()
                } else {
                    while i < b.len() && idc(b[i]) {
                        i += 1;
                    }
                    s[st..i].to_string()
                };
                out.push(if c == b'%' { Tok::Reg(name) } else { Tok::Glob(name) });
            }
            b'!' | b'#' => {
                i += 1;
                let st = i;
                while i < b.len() && idc(b[i]) {
                    i += 1;
                }
                out.push(Tok::Meta(s[st..i].to_string()));
            }
            b'"' => {
                i += 1;
                let mut v = vec![];
                while b[i] != b'"' {
                    if b[i] == b'\\' {
                        if b[i + 1] == b'\\' {
                            v.push(b'\\');
                            i += 2;
                        } else {
                            v.push(u8::from_str_radix(&s[i + 1..i + 3], 16).unwrap_or(0));
                            i += 3;
                        }
                    } else {
                        v.push(b[i]);
                        i += 1;
                    }
                }
                i += 1;
                out.push(Tok::Str(v));
            }
            b'0'..=b'9' | b'-' | b'+' => {
                let st = i;
                i += 1;
                while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == b'.' || ((b[i] == b'+' || b[i] == b'-') && (b[i - 1] == b'e' || b[i - 1] == b'E'))) {
                    i += 1;
                }
                out.push(Tok::Num(s[st..i].to_string()));
            }
            c if c.is_ascii_alphabetic() || c == b'_' || c == b'.' => {
                let st = i;
                while i < b.len() && idc(b[i]) {
                    i += 1;
                }
                let w = &s[st..i];
                if w == "c" && i < b.len() && b[i] == b'"' {
                    continue; // c"..." strings
                }
                out.push(Tok::W(w.to_string()));
            }
            c => {
                out.push(Tok::P(c as char));
                i += 1;
            }
        }
    }
    out
}
struct P<'a> {
    t: Vec<Tok>,
    i: usize,
    regs: &'a mut HashMap<String, u32>,
    labels: &'a mut HashMap<String, u32>,
    types: &'a HashMap<String, Ty>,
}
type R<T> = Result<T, String>;
impl<'a> P<'a> {
    fn peek(&self) -> Option<&Tok> {
        self.t.get(self.i)
    }
    fn next(&mut self) -> R<Tok> {
        self.i += 1;
        self.t.get(self.i - 1).cloned().ok_or_else(|| "end of line".to_string())
    }
    fn is(&mut self, c: char) -> bool {
        if self.peek() == Some(&Tok::P(c)) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn want(&mut self, c: char) -> R<()> {
        if self.is(c) { Ok(()) } else { Err(format!("expected {c} at {:?}", self.peek())) }
    }
    fn isw(&mut self, w: &str) -> bool {
        if matches!(self.peek(), Some(Tok::W(x)) if x == w) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn balanced(&mut self) {
        let mut d = 0;
        while let Some(t) = self.peek() {
            match t {
                Tok::P('(') => d += 1,
                Tok::P(')') => d -= 1,
                _ => {}
            }
            self.i += 1;
            if d == 0 {
                return;
            }
        }
    }
    fn reg(&mut self, n: &str) -> u32 {
        let k = self.regs.len() as u32;
        *self.regs.entry(n.to_string()).or_insert(k)
    }
    fn label(&mut self) -> R<u32> {
        if !self.isw("label") {
            return Err("label".into());
        }
        match self.next()? {
            Tok::Reg(n) => {
                let k = self.labels.len() as u32;
                Ok(*self.labels.entry(n).or_insert(k))
            }
            t => Err(format!("label {t:?}")),
        }
    }
    fn try_ty(&mut self) -> Option<Ty> {
        let save = self.i;
        match self.ty() {
            Ok(t) => Some(t),
            Err(_) => {
                self.i = save;
                None
            }
        }
    }
    fn ty(&mut self) -> R<Ty> {
        match self.next()? {
            Tok::W(w) => Ok(match &w[..] {
                "void" => Ty::Void,
                "float" => Ty::F32,
                "double" => Ty::F64,
                "ptr" => {
                    if self.isw("addrspace") {
                        self.balanced();
                    }
                    Ty::Ptr
                }
                "metadata" | "token" | "half" | "fp128" | "x86_fp80" | "label" => Ty::Other,
                w if w.starts_with('i') && w[1..].parse::<u32>().is_ok() => Ty::I(w[1..].parse().unwrap()),
                _ => return Err(format!("type {w}")),
            }),
            Tok::P('[') => {
                let n = self.count()?;
                let t = self.ty()?;
                self.want(']')?;
                Ok(Ty::Arr(n, Box::new(t)))
            }
            Tok::P('{') => self.fields('}').map(|f| Ty::Struct(f, false)),
            Tok::P('<') => {
                if self.is('{') {
                    let f = self.fields('}')?;
                    self.want('>')?;
                    Ok(Ty::Struct(f, true))
                } else {
                    let n = self.count()?;
                    let t = self.ty()?;
                    self.want('>')?;
                    Ok(Ty::Vec(n, Box::new(t)))
                }
            }
            Tok::Reg(n) => self.types.get(&n).cloned().ok_or(format!("type %{n}")),
            t => Err(format!("type {t:?}")),
        }
    }
    fn count(&mut self) -> R<usize> {
        match self.next()? {
            Tok::Num(n) => {
                let k = n.parse().map_err(|_| "count")?;
                if !self.isw("x") {
                    return Err("x".into());
                }
                Ok(k)
            }
            t => Err(format!("count {t:?}")),
        }
    }
    fn fields(&mut self, end: char) -> R<Vec<Ty>> {
        let mut f = vec![];
        if self.is(end) {
            return Ok(f);
        }
        loop {
            f.push(self.ty()?);
            if self.is(end) {
                return Ok(f);
            }
            self.want(',')?;
        }
    }
    /// parameter attributes
    fn attrs(&mut self) {
        loop {
            match self.peek() {
                Some(Tok::W(w)) => {
                    let w = w.clone();
                    if matches!(&w[..], "null" | "true" | "false" | "undef" | "poison" | "zeroinitializer" | "getelementptr" | "inttoptr" | "ptrtoint" | "nan" | "inf" | "none" | "bitcast" | "add" | "sub" | "mul" | "shl" | "xor" | "trunc" | "addrspacecast") {
                        return;
                    }
                    self.i += 1;
                    if w == "align" {
                        if matches!(self.peek(), Some(Tok::Num(_))) {
                            self.i += 1;
                        }
                    }
                    if self.peek() == Some(&Tok::P('(')) {
                        self.balanced();
                    }
                }
                Some(Tok::Str(_)) => {
                    self.i += 1;
                    if self.is('=') {
                        self.i += 1;
                    }
                }
                _ => return,
            }
        }
    }
    fn op(&mut self, t: &Ty) -> R<Op> {
        match self.next()? {
            Tok::Reg(n) => Ok(Op::Reg(self.reg(&n))),
            Tok::Glob(n) => Ok(Op::Global(n)),
            Tok::Meta(_) => {
                // metadata operand such as !{...}: skip the rest of it
                Ok(Op::Meta)
            }
            Tok::Num(n) => num(&n, t),
            Tok::Str(s) => Ok(Op::Str(s)),
            Tok::W(w) => match &w[..] {
                "true" => Ok(Op::Int(1, 1)),
                "false" => Ok(Op::Int(1, 0)),
                "null" => Ok(Op::Int(64, 0)),
                "undef" | "poison" => Ok(Op::Undef),
                "zeroinitializer" => Ok(Op::Zero),
                "splat" => {
                    self.want('(')?;
                    let et = self.ty()?;
                    let v = self.op(&et)?;
                    self.want(')')?;
                    match t {
                        Ty::Vec(n, _) => Ok(Op::Agg(vec![(et, v); *n])),
                        _ => Err("splat".into()),
                    }
                }
                "getelementptr" => {
                    while !self.is('(') {
                        self.i += 1;
                        if self.i > self.t.len() {
                            return Err("gep".into());
                        }
                    }
                    let bt = self.ty()?;
                    self.want(',')?;
                    let pt = self.ty()?;
                    let p = self.op(&pt)?;
                    let mut ix = vec![];
                    while self.is(',') {
                        self.isw("inrange");
                        let it = self.ty()?;
                        ix.push((it.clone(), self.op(&it)?));
                    }
                    self.want(')')?;
                    Ok(Op::Gep(bt, Box::new(p), ix))
                }
                "inttoptr" | "ptrtoint" | "bitcast" | "trunc" | "addrspacecast" => {
                    self.want('(')?;
                    let ft = self.ty()?;
                    let v = self.op(&ft)?;
                    if !self.isw("to") {
                        return Err("to".into());
                    }
                    let tt = self.ty()?;
                    self.want(')')?;
                    Ok(Op::Cast(Box::new(v), tt))
                }
                "add" | "sub" | "mul" | "shl" | "xor" => {
                    while !self.is('(') {
                        self.i += 1;
                        if self.i > self.t.len() {
                            return Err("constant".into());
                        }
                    }
                    let at = self.ty()?;
                    let a = self.op(&at)?;
                    self.want(',')?;
                    let bt = self.ty()?;
                    let b = self.op(&bt)?;
                    self.want(')')?;
                    Ok(Op::Bin(w, at, Box::new(a), Box::new(b)))
                }
                "nan" => Ok(Op::Flt(f64::NAN, *t == Ty::F32)),
                "inf" => Ok(Op::Flt(f64::INFINITY, *t == Ty::F32)),
                "f0x" => Err("float".into()),
                w if w.starts_with("f0x") => num(&w[1..], t),
                _ => Err(format!("operand {w}")),
            },
            Tok::P('[') => self.agg(']'),
            Tok::P('{') => self.agg('}'),
            Tok::P('<') => {
                if self.is('{') {
                    let a = self.agg('}')?;
                    self.want('>')?;
                    Ok(a)
                } else {
                    self.agg('>')
                }
            }
            t => Err(format!("operand {t:?}")),
        }
    }
    fn agg(&mut self, end: char) -> R<Op> {
        let mut v = vec![];
        if self.is(end) {
            return Ok(Op::Agg(v));
        }
        loop {
            let t = self.ty()?;
            let o = self.op(&t)?;
            v.push((t, o));
            if self.is(end) {
                return Ok(Op::Agg(v));
            }
            self.want(',')?;
        }
    }
    fn tyop(&mut self) -> R<(Ty, Op)> {
        let t = self.ty()?;
        self.attrs();
        let o = self.op(&t)?;
        Ok((t, o))
    }
    fn flags(&mut self) {
        while let Some(Tok::W(w)) = self.peek() {
            if matches!(&w[..], "nuw" | "nsw" | "exact" | "fast" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc" | "disjoint" | "nneg" | "inbounds" | "samesign" | "nusw" | "volatile" | "tail" | "musttail" | "notail") {
                self.i += 1;
            } else {
                break;
            }
        }
    }
    fn inst(&mut self) -> R<Inst> {
        let Tok::W(w) = self.next()? else { return Err("opcode".into()) };
        self.flags();
        Ok(match &w[..] {
            "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "shl" | "lshr" | "ashr" | "and" | "or" | "xor" | "fadd" | "fsub" | "fmul" | "fdiv" | "frem" => {
                let t = self.ty()?;
                let a = self.op(&t)?;
                self.want(',')?;
                let b = self.op(&t)?;
                Inst::Bin(w, t, a, b)
            }
            "icmp" | "fcmp" => {
                let Tok::W(p) = self.next()? else { return Err("predicate".into()) };
                self.flags();
                let t = self.ty()?;
                let a = self.op(&t)?;
                self.want(',')?;
                let b = self.op(&t)?;
                if w == "icmp" { Inst::ICmp(p, t, a, b) } else { Inst::FCmp(p, t, a, b) }
            }
            "fneg" => {
                let (t, a) = self.tyop()?;
                Inst::FNeg(t, a)
            }
            "load" => {
                if self.isw("atomic") {
                    return Err("atomic".into());
                }
                let t = self.ty()?;
                self.want(',')?;
                let (_, p) = self.tyop()?;
                Inst::Load(t, p)
            }
            "store" => {
                if self.isw("atomic") {
                    return Err("atomic".into());
                }
                let (t, v) = self.tyop()?;
                self.want(',')?;
                let (_, p) = self.tyop()?;
                Inst::Store(t, v, p)
            }
            "getelementptr" => {
                let t = self.ty()?;
                self.want(',')?;
                let (_, p) = self.tyop()?;
                let mut ix = vec![];
                while self.is(',') {
                    if matches!(self.peek(), Some(Tok::Meta(_))) {
                        break;
                    }
                    ix.push(self.tyop()?);
                }
                Inst::Gep(t, p, ix)
            }
            "call" => {
                // calling convention and return attributes
                let rt = loop {
                    if let Some(t) = self.try_ty() {
                        break t;
                    }
                    match self.next()? {
                        Tok::W(_) => {
                            if self.peek() == Some(&Tok::P('(')) {
                                self.balanced();
                            } else if matches!(self.peek(), Some(Tok::Num(_))) {
                                self.i += 1;
                            }
                        }
                        Tok::Str(_) => {}
                        t => return Err(format!("call {t:?}")),
                    }
                };
                if self.peek() == Some(&Tok::P('(')) {
                    self.balanced(); // variadic function type
                }
                let callee = match self.next()? {
                    Tok::Glob(n) => Op::Global(n),
                    Tok::Reg(n) => Op::Reg(self.reg(&n)),
                    t => return Err(format!("callee {t:?}")),
                };
                self.want('(')?;
                let mut args = vec![];
                if !self.is(')') {
                    loop {
                        let t = self.ty()?;
                        if t == Ty::Other {
                            // metadata argument
                            let mut d = 0;
                            while let Some(k) = self.peek() {
                                match k {
                                    Tok::P('(') => d += 1,
                                    Tok::P(')') if d == 0 => break,
                                    Tok::P(')') => d -= 1,
                                    Tok::P(',') if d == 0 => break,
                                    _ => {}
                                }
                                self.i += 1;
                            }
                            args.push((t, Op::Meta));
                        } else {
                            self.attrs();
                            let o = self.op(&t)?;
                            args.push((t, o));
                        }
                        if self.is(')') {
                            break;
                        }
                        self.want(',')?;
                    }
                }
                Inst::Call(rt, callee, args)
            }
            "phi" => {
                let t = self.ty()?;
                let mut v = vec![];
                loop {
                    self.want('[')?;
                    let o = self.op(&t)?;
                    self.want(',')?;
                    let Tok::Reg(n) = self.next()? else { return Err("phi".into()) };
                    let k = self.labels.len() as u32;
                    let l = *self.labels.entry(n).or_insert(k);
                    self.want(']')?;
                    v.push((o, l));
                    if !self.is(',') || matches!(self.peek(), Some(Tok::Meta(_))) {
                        break;
                    }
                }
                Inst::Phi(t, v)
            }
            "select" => {
                let (ct, c) = self.tyop()?;
                self.want(',')?;
                let (_, a) = self.tyop()?;
                self.want(',')?;
                let (_, b) = self.tyop()?;
                Inst::Select(ct, c, a, b)
            }
            "trunc" | "zext" | "sext" | "fptrunc" | "fpext" | "fptoui" | "fptosi" | "uitofp" | "sitofp" | "ptrtoint" | "inttoptr" | "bitcast" | "addrspacecast" => {
                let (t, v) = self.tyop()?;
                if !self.isw("to") {
                    return Err("to".into());
                }
                let tt = self.ty()?;
                Inst::Cast(w, t, v, tt)
            }
            "extractvalue" => {
                let (t, v) = self.tyop()?;
                Inst::Extract(t, v, self.indices()?)
            }
            "insertvalue" => {
                let (t, v) = self.tyop()?;
                self.want(',')?;
                let (et, e) = self.tyop()?;
                Inst::Insert(t, v, et, e, self.indices()?)
            }
            "extractelement" => {
                let (_, v) = self.tyop()?;
                self.want(',')?;
                let (_, i) = self.tyop()?;
                Inst::ExtractEl(v, i)
            }
            "insertelement" => {
                let (t, v) = self.tyop()?;
                let n = if let Ty::Vec(n, _) = t { n } else { 0 };
                self.want(',')?;
                let (_, e) = self.tyop()?;
                self.want(',')?;
                let (_, i) = self.tyop()?;
                Inst::InsertEl(n, v, e, i)
            }
            "shufflevector" => {
                let (t, a) = self.tyop()?;
                let n = if let Ty::Vec(n, _) = t { n } else { 0 };
                self.want(',')?;
                let (_, b) = self.tyop()?;
                self.want(',')?;
                let (mt, m) = self.tyop()?;
                let m = match (m, mt) {
                    (Op::Zero, Ty::Vec(k, t)) => Op::Agg(vec![(*t, Op::Int(32, 0)); k]),
                    (m, _) => m,
                };
                Inst::Shuffle(n, a, b, m)
            }
            "alloca" => {
                let t = self.ty()?;
                let mut n = Op::Int(64, 1);
                if self.is(',') && !matches!(self.peek(), Some(Tok::W(w)) if w == "align") {
                    if let Ok((_, o)) = self.tyop() {
                        n = o;
                    }
                }
                Inst::Alloca(t, n)
            }
            "br" => {
                if matches!(self.peek(), Some(Tok::W(w)) if w == "label") {
                    Inst::Br(self.label()?)
                } else {
                    let (_, c) = self.tyop()?;
                    self.want(',')?;
                    let a = self.label()?;
                    self.want(',')?;
                    Inst::CondBr(c, a, self.label()?)
                }
            }
            "switch" => {
                let (t, v) = self.tyop()?;
                self.want(',')?;
                let d = self.label()?;
                self.want('[')?;
                let mut cs = vec![];
                while !self.is(']') {
                    let (_, c) = self.tyop()?;
                    self.want(',')?;
                    cs.push((c, self.label()?));
                }
                Inst::Switch(t, v, d, cs)
            }
            "ret" => {
                let t = self.ty()?;
                if t == Ty::Void {
                    Inst::Ret(t, Op::Undef)
                } else {
                    let o = self.op(&t)?;
                    Inst::Ret(t, o)
                }
            }
            "unreachable" => Inst::Unreachable,
            "freeze" => {
                let (t, v) = self.tyop()?;
                Inst::Freeze(t, v)
            }
            _ => return Err(format!("instruction {w}")),
        })
    }
    fn indices(&mut self) -> R<Vec<usize>> {
        let mut v = vec![];
        while self.is(',') {
            match self.peek() {
                Some(Tok::Num(n)) => {
                    v.push(n.parse().map_err(|_| "index")?);
                    self.i += 1;
                }
                _ => break,
            }
        }
        Ok(v)
    }
}
fn mask(bits: u32) -> u128 {
    if bits >= 128 { u128::MAX } else { (1u128 << bits) - 1 }
}
fn num(n: &str, t: &Ty) -> R<Op> {
    match t {
        Ty::I(b) => {
            let v: i128 = n.parse::<i128>().or_else(|_| n.parse::<u128>().map(|x| x as i128)).map_err(|_| format!("integer {n}"))?;
            Ok(Op::Int(*b, v as u128 & mask(*b)))
        }
        Ty::F32 | Ty::F64 => {
            let x = if let Some(h) = n.strip_prefix("0x") {
                let b = u64::from_str_radix(h, 16).map_err(|_| format!("float {n}"))?;
                if h.len() <= 8 && *t == Ty::F32 { f32::from_bits(b as u32) as f64 } else { f64::from_bits(b) }
            } else {
                n.parse::<f64>().map_err(|_| format!("float {n}"))?
            };
            Ok(Op::Flt(x, *t == Ty::F32))
        }
        Ty::Vec(..) => Err("vector constant".into()),
        _ => Err(format!("number {n} of type {t:?}")),
    }
}
impl Module {
    pub fn parse(&mut self, text: &str) {
        // attribute groups that do not return
        let mut noret_groups = std::collections::HashSet::new();
        for l in text.lines() {
            if l.starts_with("attributes #") && l.contains(" noreturn") {
                if let Some(g) = l.strip_prefix("attributes #").and_then(|r| r.split(' ').next()) {
                    noret_groups.insert(g.to_string());
                }
            }
        }
        let mut it = text.lines().peekable();
        while let Some(l) = it.next() {
            if l.starts_with('%') {
                if let Some((n, d)) = l.split_once(" = type ") {
                    let (mut a, mut b) = (HashMap::new(), HashMap::new());
                    let mut p = P { t: lex(d), i: 0, regs: &mut a, labels: &mut b, types: &self.types };
                    if let Ok(t) = p.ty() {
                        self.types.insert(n[1..].trim_matches('"').to_string(), t);
                    }
                }
            } else if l.starts_with('@') {
                let (mut a, mut b) = (HashMap::new(), HashMap::new());
                let mut p = P { t: lex(l), i: 0, regs: &mut a, labels: &mut b, types: &self.types };
                let Ok(Tok::Glob(name)) = p.next() else { continue };
                if !p.is('=') {
                    continue;
                }
                if p.t.iter().any(|t| matches!(t, Tok::W(w) if w == "alias")) {
                    if let Some(Tok::Glob(to)) = p.t[p.i..].iter().rev().find(|t| matches!(t, Tok::Glob(_))) {
                        let to = to.clone();
                        self.aliases.insert(name, to);
                    }
                    continue;
                }
                let mut decl = false;
                while let Some(t) = p.peek() {
                    let stop = matches!(t, Tok::W(w) if w == "constant" || w == "global");
                    if matches!(t, Tok::W(w) if w == "external") {
                        decl = true;
                    }
                    p.i += 1;
                    if stop {
                        break;
                    }
                }
                if decl {
                    continue;
                }
                if let Ok(t) = p.ty() {
                    if let Ok(o) = p.op(&t) {
                        self.globals.insert(name, (t, o));
                    }
                }
            } else if l.starts_with("declare") || l.starts_with("define") {
                let toks = lex(l);
                let Some(Tok::Glob(name)) = toks.iter().find(|t| matches!(t, Tok::Glob(_))).cloned() else { continue };
                let noret = l.contains(" noreturn") || toks.iter().any(|t| matches!(t, Tok::Meta(g) if noret_groups.contains(g)));
                if noret && l.starts_with("declare") {
                    self.noreturn.insert(name.clone());
                }
                if l.starts_with("define") {
                    let mut body = vec![];
                    for l in it.by_ref() {
                        if l == "}" {
                            break;
                        }
                        body.push(l);
                    }
                    if let Ok(f) = self.func(name.clone(), toks, &body) {
                        self.funcs.insert(name, f);
                    }
                }
            }
        }
    }
    fn func(&self, name: String, toks: Vec<Tok>, body: &[&str]) -> R<Func> {
        let (mut regs, mut labels) = (HashMap::new(), HashMap::new());
        let at = toks.iter().position(|t| matches!(t, Tok::Glob(_))).unwrap();
        let mut p = P { t: toks, i: at + 1, regs: &mut regs, labels: &mut labels, types: &self.types };
        p.want('(')?;
        let mut params = vec![];
        let mut unnamed = 0usize;
        if !p.is(')') {
            loop {
                let t = p.ty()?;
                p.attrs();
                let r = match p.peek().cloned() {
                    Some(Tok::Reg(n)) => {
                        p.i += 1;
                        p.reg(&n)
                    }
                    _ => {
                        let n = format!("{unnamed}");
                        unnamed += 1;
                        p.reg(&n)
                    }
                };
                params.push((t, r));
                if p.is(')') {
                    break;
                }
                p.want(',')?;
            }
        }
        // labels first: the entry block has index 0
        let mut joined: Vec<String> = vec![];
        for l in body {
            let s = l.trim_end();
            if s.trim_start().starts_with(';') || s.trim().is_empty() {
                continue;
            }
            // multi-line switch
            if let Some(last) = joined.last_mut() {
                if last.contains("switch ") && !last.contains(']') {
                    last.push(' ');
                    last.push_str(s.trim());
                    continue;
                }
            }
            joined.push(s.to_string());
        }
        let label_of = |l: &str| -> Option<String> {
            if l.starts_with(' ') {
                return None;
            }
            let l = l.split(" ;").next().unwrap().trim_end().trim_end_matches(';').trim_end();
            let l = l.strip_suffix(':')?;
            Some(l.trim_matches('"').to_string())
        };
        for l in &joined {
            if let Some(n) = label_of(l) {
                let k = labels.len() as u32;
                labels.entry(n).or_insert(k);
            }
        }
        let mut order: Vec<u32> = vec![];
        let mut blocks: HashMap<u32, Vec<(Option<u32>, Inst)>> = HashMap::new();
        let mut cur: Option<u32> = None;
        for l in &joined {
            if let Some(n) = label_of(l) {
                let k = labels[&n];
                cur = Some(k);
                order.push(k);
                blocks.insert(k, vec![]);
                continue;
            }
            if cur.is_none() {
                // unnamed entry block
                let n = format!("{unnamed}");
                let k0 = labels.len() as u32;
                let k = *labels.entry(n).or_insert(k0);
                cur = Some(k);
                order.push(k);
                blocks.insert(k, vec![]);
            }
            let t = lex(l.trim());
            if t.is_empty() {
                continue;
            }
            let mut p = P { t, i: 0, regs: &mut regs, labels: &mut labels, types: &self.types };
            let dst = match (p.t.first().cloned(), p.t.get(1).cloned()) {
                (Some(Tok::Reg(n)), Some(Tok::P('='))) => {
                    p.i = 2;
                    Some(p.reg(&n))
                }
                _ => None,
            };
            if matches!(p.peek(), Some(Tok::W(w)) if w == "tail" || w == "musttail" || w == "notail") {
                p.i += 1;
            }
            let ins = p.inst().unwrap_or_else(|e| Inst::Unsupported(format!("{e}: {}", crate::harness::trunc(l.trim(), 200))));
            blocks.get_mut(&cur.unwrap()).unwrap().push((dst, ins));
        }
        // put the entry block first by renumbering
        let n = labels.len();
        let mut out: Vec<Vec<(Option<u32>, Inst)>> = (0..n).map(|_| vec![(None, Inst::Unsupported("missing block".into()))]).collect();
        let entry = *order.first().ok_or("empty")?;
        for (k, b) in blocks {
            out[k as usize] = b;
        }
        // remember the entry by a jump in front
        out.push(vec![(None, Inst::Br(entry))]);
        Ok(Func { name, params, blocks: out, regs: regs.len() })
    }
}

// ---------------- values and memory ----------------
#[derive(Clone, Debug)]
pub enum V {
    I(u32, u128),
    F(Sym, bool),
    /// symbolic integer: its mathematical value is known to lie in lo..=hi
    S(u32, Sym, BigInt, BigInt),
    /// bit pattern with symbolic parts
    B(Vec<Byte>),
    A(Vec<V>),
    U,
}
#[derive(Clone, Debug)]
pub enum Byte {
    U,
    C(u8),
    P(Rc<V>, u8, u8),
}
struct Obj {
    size: usize,
    data: Vec<Byte>,
    live: bool,
    ro: bool,
}
pub struct Mem {
    objs: BTreeMap<u64, Obj>,
    top: u64,
}
thread_local! {
    static UB: RefCell<Option<String>> = const { RefCell::new(None) };
    static STEPS: RefCell<u64> = const { RefCell::new(0) };
    static CALLED: RefCell<std::collections::BTreeSet<String>> = RefCell::new(Default::default());
}
/// undefined behaviour found since the last call
pub fn take_ub() -> Option<String> {
    UB.with(|u| u.borrow_mut().take())
}
pub fn called() -> Vec<String> {
    CALLED.with(|c| c.borrow().iter().cloned().collect())
}
fn ub(s: String) -> ! {
    UB.with(|u| *u.borrow_mut() = Some(s.clone()));
    panic!("undefined behaviour: {s}")
}
const GAP: u64 = 1 << 16;
impl Mem {
    pub fn new() -> Mem {
        Mem { objs: BTreeMap::new(), top: 1 << 32 }
    }
    pub fn alloc(&mut self, size: usize) -> u64 {
        let b = self.top;
        self.top += (size as u64 + GAP + 63) / 64 * 64;
        self.objs.insert(b, Obj { size, data: vec![Byte::U; size], live: true, ro: false });
        b
    }
    fn at(&mut self, p: u64, n: usize, what: &str) -> (&mut Obj, usize) {
        let r = self.objs.range_mut(..=p).next_back();
        if let Some((b, o)) = r {
            let off = (p - b) as usize;
            if off + n <= o.size && o.live {
                return (o, off);
            }
            if off < o.size + GAP as usize {
                ub(format!("{what} of {n} bytes at offset {off} of an object of {} bytes{}", o.size, if o.live { "" } else { " already freed" }));
            }
        }
        ub(format!("{what} of {n} bytes at address {p:#x}"))
    }
    pub fn put(&mut self, p: u64, bytes: Vec<Byte>) {
        let (o, off) = self.at(p, bytes.len(), "write");
        if o.ro {
            ub("write to a constant".into());
        }
        for (i, b) in bytes.into_iter().enumerate() {
            o.data[off + i] = b;
        }
    }
    pub fn get(&mut self, p: u64, n: usize) -> Vec<Byte> {
        let (o, off) = self.at(p, n, "read");
        o.data[off..off + n].to_vec()
    }
    pub fn store(&mut self, p: u64, t: &Ty, v: &V) {
        match (t, v) {
            (Ty::Arr(..) | Ty::Struct(..) | Ty::Vec(..), V::A(f)) => {
                for (i, x) in f.iter().enumerate() {
                    let (o, ft) = t.field(i);
                    let ft = ft.clone();
                    self.store(p + o as u64, &ft, x);
                }
            }
            _ => self.put(p, to_bytes(v, t.size())),
        }
    }
    pub fn load(&mut self, p: u64, t: &Ty) -> V {
        match t {
            Ty::Arr(n, _) | Ty::Vec(n, _) => {
                let n = *n;
                V::A((0..n).map(|i| { let (o, ft) = t.field(i); let ft = ft.clone(); self.load(p + o as u64, &ft) }).collect())
            }
            Ty::Struct(f, _) => {
                let n = f.len();
                V::A((0..n).map(|i| { let (o, ft) = t.field(i); let ft = ft.clone(); self.load(p + o as u64, &ft) }).collect())
            }
            _ => from_bytes(self.get(p, t.size()), t),
        }
    }
    pub fn put_f32s(&mut self, v: &[Sym]) -> u64 {
        let p = self.alloc(4 * v.len());
        for (i, x) in v.iter().enumerate() {
            self.store(p + 4 * i as u64, &Ty::F32, &V::F(*x, true));
        }
        p
    }
    pub fn get_f32s(&mut self, p: u64, n: usize) -> Vec<Option<Sym>> {
        (0..n)
            .map(|i| match self.load(p + 4 * i as u64, &Ty::F32) {
                V::F(x, _) => Some(x),
                V::I(_, b) => Some(Sym::C(f32::from_bits(b as u32) as f64)),
                _ => None,
            })
            .collect()
    }
    pub fn get_f64s(&mut self, p: u64, n: usize) -> Vec<Option<Sym>> {
        (0..n)
            .map(|i| match self.load(p + 8 * i as u64, &Ty::F64) {
                V::F(x, _) => Some(x),
                V::I(_, b) => Some(Sym::C(f64::from_bits(b as u64))),
                _ => None,
            })
            .collect()
    }
}
fn to_bytes(v: &V, n: usize) -> Vec<Byte> {
    match v {
        V::I(_, x) => (0..n).map(|i| Byte::C(if i < 16 { (x >> (8 * i)) as u8 } else { 0 })).collect(),
        V::B(b) => {
            let mut b = b.clone();
            b.resize(n, Byte::C(0));
            b
        }
        V::U => vec![Byte::U; n],
        V::F(..) | V::S(..) => {
            let r = Rc::new(v.clone());
            (0..n).map(|i| Byte::P(r.clone(), i as u8, n as u8)).collect()
        }
        V::A(f) => {
            let k = n / f.len().max(1);
            f.iter().flat_map(|x| to_bytes(x, k)).collect()
        }
    }
}
fn whole(b: &[Byte]) -> Option<Rc<V>> {
    if let Byte::P(v, 0, n) = &b[0] {
        if *n as usize == b.len() && b.iter().enumerate().all(|(i, x)| matches!(x, Byte::P(w, k, _) if *k as usize == i && Rc::ptr_eq(w, v))) {
            return Some(v.clone());
        }
    }
    None
}
/// concrete value of a byte, if it has one
fn conc(b: &Byte) -> Option<u8> {
    match b {
        Byte::C(x) => Some(*x),
        Byte::P(v, k, _) => match &**v {
            V::F(x, single) => x.concrete().map(|x| if *single { (x as f32).to_bits() as u64 } else { x.to_bits() }).map(|b| (b >> (8 * k)) as u8),
            _ => None,
        },
        Byte::U => None,
    }
}
fn from_bytes(b: Vec<Byte>, t: &Ty) -> V {
    if b.is_empty() {
        return V::U;
    }
    if b.iter().all(|x| matches!(x, Byte::U)) {
        return V::U;
    }
    if let Some(v) = whole(&b) {
        match (&*v, t) {
            (V::F(x, s), Ty::F32 | Ty::F64) if *s == (*t == Ty::F32) => return V::F(*x, *s),
            (V::S(..), Ty::I(_)) => return (*v).clone(),
            _ => {}
        }
    }
    if let Some(c) = b.iter().map(conc).collect::<Option<Vec<u8>>>() {
        let x = c.iter().rev().fold(0u128, |a, k| a << 8 | *k as u128);
        return match t {
            Ty::F32 => V::F(Sym::C(f32::from_bits(x as u32) as f64), true),
            Ty::F64 => V::F(Sym::C(f64::from_bits(x as u64)), false),
            Ty::Ptr => V::I(64, x),
            Ty::I(n) => V::I(*n, x & mask(*n)),
            _ => bad("load of an aggregate"),
        };
    }
    match t {
        Ty::I(_) => V::B(b),
        // a partly undefined or reinterpreted number
        _ => bad(&format!("reinterpreted bytes as {t:?}")),
    }
}

// ---------------- execution ----------------
pub struct Exec<'m> {
    pub m: &'m Module,
    pub mem: Mem,
    globals: HashMap<String, u64>,
    fnaddr: HashMap<u64, String>,
    depth: usize,
    steps: u64,
}
fn signed(b: u32, x: u128) -> i128 {
    if b < 128 && x >> (b - 1) & 1 == 1 { x as i128 - (1i128 << b) } else { x as i128 }
}
fn round_const(x: Sym, single: bool) -> Sym {
    // numbers computed by single precision code stay as accurate as the real code makes them only up
    // to rounding, which the comparisons allow for
    let _ = single;
    x
}
impl<'m> Exec<'m> {
    pub fn new(m: &'m Module) -> Exec<'m> {
        Exec { m, mem: Mem::new(), globals: HashMap::new(), fnaddr: HashMap::new(), depth: 0, steps: 0 }
    }
    fn global(&mut self, n: &str) -> u64 {
        if let Some(a) = self.globals.get(n) {
            return *a;
        }
        if let Some((t, o)) = self.m.globals.get(n) {
            let a = self.mem.alloc(t.size());
            self.globals.insert(n.to_string(), a);
            self.init(a, t, o);
            if let Some(ob) = self.mem.objs.get_mut(&a) {
                ob.ro = false;
            }
            return a;
        }
        // a function or an unknown object
        let a = self.mem.alloc(0);
        self.globals.insert(n.to_string(), a);
        self.fnaddr.insert(a, n.to_string());
        a
    }
    fn init(&mut self, a: u64, t: &Ty, o: &Op) {
        match o {
            Op::Str(s) => self.mem.put(a, s.iter().map(|b| Byte::C(*b)).collect()),
            Op::Agg(f) => {
                for (i, (ft, fo)) in f.iter().enumerate() {
                    let (off, _) = t.field(i);
                    self.init(a + off as u64, ft, fo);
                }
            }
            Op::Zero => self.mem.put(a, vec![Byte::C(0); t.size()]),
            Op::Undef => {}
            _ => {
                let v = self.val(t, o, &[]);
                self.mem.store(a, t, &v);
            }
        }
    }
    fn val(&mut self, t: &Ty, o: &Op, regs: &[V]) -> V {
        match o {
            Op::Reg(r) => regs[*r as usize].clone(),
            Op::Int(b, x) => V::I(*b, *x),
            Op::Flt(x, s) => V::F(Sym::C(*x), *s),
            Op::Global(n) => V::I(64, self.global(n) as u128),
            Op::Undef => match t {
                Ty::Struct(f, _) => V::A(vec![V::U; f.len()]),
                Ty::Arr(n, _) | Ty::Vec(n, _) => V::A(vec![V::U; *n]),
                _ => V::U,
            },
            Op::Zero => zero(t),
            Op::Agg(f) => V::A(f.iter().map(|(t, o)| self.val(t, o, regs)).collect()),
            Op::Str(s) => V::A(s.iter().map(|b| V::I(8, *b as u128)).collect()),
            Op::Gep(bt, p, ix) => {
                let b = self.val(&Ty::Ptr, p, regs);
                self.gep(bt, b, ix, regs)
            }
            Op::Cast(v, t) => {
                let x = self.val(&Ty::I(64), v, regs);
                match (x, t) {
                    (V::I(_, x), Ty::I(b)) => V::I(*b, x & mask(*b)),
                    (V::I(_, x), _) => V::I(64, x),
                    _ => bad("constant cast"),
                }
            }
            Op::Bin(w, t, a, b) => {
                let (a, b) = (self.val(t, a, regs), self.val(t, b, regs));
                bin(w, t, a, b)
            }
            Op::Meta => V::U,
        }
    }
    fn gep(&mut self, bt: &Ty, p: V, ix: &[(Ty, Op)], regs: &[V]) -> V {
        let V::I(_, base) = p else { return if matches!(p, V::U) { V::U } else { bad("pointer") } };
        let mut a = base as i128;
        let mut t = bt.clone();
        for (k, (it, o)) in ix.iter().enumerate() {
            let V::I(b, x) = settle(&self.val(it, o, regs)) else { bad("symbolic index") };
            let i = signed(b, x);
            if k == 0 {
                a += i * t.stride() as i128;
            } else {
                match &t {
                    Ty::Struct(..) => {
                        let (o, f) = t.field(i as usize);
                        let f = f.clone();
                        a += o as i128;
                        t = f;
                    }
                    Ty::Arr(_, e) | Ty::Vec(_, e) => {
                        a += i * e.stride() as i128;
                        t = (**e).clone();
                    }
                    _ => bad("gep"),
                }
            }
        }
        V::I(64, a as u128 & mask(64))
    }
    pub fn call(&mut self, name: &str, args: Vec<V>) -> V {
        let name = self.m.aliases.get(name).map(|s| s.as_str()).unwrap_or(name);
        let Some(f) = self.m.funcs.get(name) else { return self.external(name, args) };
        if self.depth > 200 {
            bad("recursion too deep");
        }
        CALLED.with(|c| {
            let mut c = c.borrow_mut();
            if !c.contains(name) {
                c.insert(name.to_string());
            }
        });
        self.depth += 1;
        let r = self.run(f, args);
        self.depth -= 1;
        r
    }
    fn run(&mut self, f: &'m Func, args: Vec<V>) -> V {
        let mut regs = vec![V::U; f.regs];
        if args.len() != f.params.len() {
            bad(&format!("arguments of {}", f.name));
        }
        for ((_, r), v) in f.params.iter().zip(args) {
            regs[*r as usize] = v;
        }
        let mut stack: Vec<u64> = vec![];
        let mut cur = f.blocks.len() - 1;
        let mut prev = usize::MAX;
        'b: loop {
            let blk = &f.blocks[cur];
            // phis read the values before any is written
            let mut i = 0;
            let mut ph = vec![];
            while let Some((Some(d), Inst::Phi(t, v))) = blk.get(i) {
                let Some((o, _)) = v.iter().find(|(_, l)| *l as usize == prev) else { bad("phi without predecessor") };
                ph.push((*d, self.val(t, o, &regs)));
                i += 1;
            }
            for (d, v) in ph {
                regs[d as usize] = v;
            }
            for (dst, ins) in &blk[i..] {
                self.steps += 1;
                if self.steps > 40_000_000 {
                    bad("too many steps");
                }
                let v = match ins {
                    Inst::Bin(w, t, a, b) => {
                        let (a, b) = (self.val(t, a, &regs), self.val(t, b, &regs));
                        bin(w, t, a, b)
                    }
                    Inst::ICmp(p, t, a, b) => {
                        let (a, b) = (self.val(t, a, &regs), self.val(t, b, &regs));
                        icmp(p, t, a, b)
                    }
                    Inst::FCmp(p, t, a, b) => {
                        let (a, b) = (self.val(t, a, &regs), self.val(t, b, &regs));
                        fcmp(p, a, b)
                    }
                    Inst::FNeg(t, a) => un(self.val(t, a, &regs), &|x| -x),
                    Inst::Load(t, p) => {
                        let V::I(_, a) = self.val(&Ty::Ptr, p, &regs) else { ub("read through an undefined pointer".into()) };
                        self.mem.load(a as u64, t)
                    }
                    Inst::Store(t, v, p) => {
                        let v = self.val(t, v, &regs);
                        let V::I(_, a) = self.val(&Ty::Ptr, p, &regs) else { ub("write through an undefined pointer".into()) };
                        self.mem.store(a as u64, t, &v);
                        V::U
                    }
                    Inst::Gep(bt, p, ix) => {
                        let b = self.val(&Ty::Ptr, p, &regs);
                        match (bt, b) {
                            (Ty::Vec(..), _) => bad("vector gep"),
                            (bt, b) => self.gep(bt, b, ix, &regs),
                        }
                    }
                    Inst::Call(_, c, a) => {
                        let args: Vec<V> = a.iter().map(|(t, o)| self.val(t, o, &regs)).collect();
                        match c {
                            Op::Global(n) => self.call(n, args),
                            o => {
                                let V::I(_, x) = self.val(&Ty::Ptr, o, &regs) else { bad("indirect call") };
                                let Some(n) = self.fnaddr.get(&(x as u64)).cloned() else { bad("indirect call") };
                                self.call(&n, args)
                            }
                        }
                    }
                    Inst::Phi(..) => bad("late phi"),
                    Inst::Select(ct, c, a, b) => {
                        let c = self.val(ct, c, &regs);
                        match c {
                            V::I(_, x) => self.val(&Ty::Other, if x & 1 == 1 { a } else { b }, &regs),
                            V::A(cs) => {
                                let n = cs.len();
                                let vt = Ty::Vec(n, Box::new(Ty::Other));
                                match (self.val(&vt, a, &regs), self.val(&vt, b, &regs)) {
                                    (V::A(x), V::A(y)) => V::A(cs.iter().zip(x.into_iter().zip(y)).map(|(c, (x, y))| if matches!(c, V::I(_, 1)) { x } else { y }).collect()),
                                    _ => bad("select"),
                                }
                            }
                            _ => bad("select on an undefined value"),
                        }
                    }
                    Inst::Cast(w, t, v, tt) => {
                        let v = self.val(t, v, &regs);
                        cast(w, t, v, tt)
                    }
                    Inst::Extract(t, v, ix) => {
                        let mut v = self.val(t, v, &regs);
                        for i in ix {
                            v = match v {
                                V::A(f) => f[*i].clone(),
                                V::U => V::U,
                                _ => bad("extractvalue"),
                            };
                        }
                        v
                    }
                    Inst::Insert(t, v, et, e, ix) => {
                        let mut v = self.val(t, v, &regs);
                        let e = self.val(et, e, &regs);
                        let mut p = &mut v;
                        for i in ix {
                            p = match p {
                                V::A(f) => &mut f[*i],
                                _ => bad("insertvalue"),
                            };
                        }
                        *p = e;
                        v
                    }
                    Inst::ExtractEl(v, i) => {
                        let V::I(_, i) = self.val(&Ty::I(64), i, &regs) else { bad("element index") };
                        match self.val(&Ty::Other, v, &regs) {
                            V::A(f) => f[i as usize].clone(),
                            V::U => V::U,
                            _ => bad("extractelement"),
                        }
                    }
                    Inst::InsertEl(n, v, e, i) => {
                        let V::I(_, i) = self.val(&Ty::I(64), i, &regs) else { bad("element index") };
                        let e = self.val(&Ty::Other, e, &regs);
                        let mut f = match self.val(&Ty::Vec(*n, Box::new(Ty::Other)), v, &regs) {
                            V::A(f) => f,
                            _ => vec![V::U; *n],
                        };
                        f[i as usize] = e;
                        V::A(f)
                    }
                    Inst::Shuffle(n, a, b, m) => {
                        let vt = Ty::Vec(*n, Box::new(Ty::Other));
                        let (a, b) = (self.val(&vt, a, &regs), self.val(&vt, b, &regs));
                        let get = |v: &V, i: usize| match v {
                            V::A(f) => f[i].clone(),
                            _ => V::U,
                        };
                        match self.val(&Ty::Other, m, &regs) {
                            V::A(ix) => V::A(
                                ix.iter()
                                    .map(|i| match i {
                                        V::I(_, i) if (*i as usize) < *n => get(&a, *i as usize),
                                        V::I(_, i) => get(&b, *i as usize - n),
                                        _ => V::U,
                                    })
                                    .collect(),
                            ),
                            _ => bad("shuffle"),
                        }
                    }
                    Inst::Alloca(t, n) => {
                        let V::I(_, n) = self.val(&Ty::I(64), n, &regs) else { bad("alloca") };
                        let a = self.mem.alloc(t.stride() * n as usize);
                        stack.push(a);
                        V::I(64, a as u128)
                    }
                    Inst::Br(l) => {
                        prev = cur;
                        cur = *l as usize;
                        continue 'b;
                    }
                    Inst::CondBr(c, a, b) => {
                        let V::I(_, x) = self.val(&Ty::I(1), c, &regs) else { ub("branch on an undefined value".into()) };
                        prev = cur;
                        cur = if x & 1 == 1 { *a } else { *b } as usize;
                        continue 'b;
                    }
                    Inst::Switch(t, v, d, cs) => {
                        let v = self.val(t, v, &regs);
                        let mut to = *d;
                        for (c, l) in cs {
                            let c = self.val(t, c, &regs);
                            if matches!(icmp("eq", t, v.clone(), c), V::I(_, 1)) {
                                to = *l;
                                break;
                            }
                        }
                        prev = cur;
                        cur = to as usize;
                        continue 'b;
                    }
                    Inst::Ret(t, o) => {
                        let v = self.val(t, o, &regs);
                        for a in stack {
                            self.mem.objs.remove(&a);
                        }
                        return v;
                    }
                    Inst::Unreachable => ub("unreachable code reached".into()),
                    Inst::Freeze(t, v) => match self.val(t, v, &regs) {
                        V::U => match t {
                            Ty::I(b) => V::I(*b, 0),
                            Ty::Ptr => V::I(64, 0),
                            _ => zero(t),
                        },
                        v => v,
                    },
                    Inst::Unsupported(s) => bad(s),
                };
                if let Some(d) = dst {
                    regs[*d as usize] = v;
                }
            }
            bad("block without end");
        }
    }
    fn external(&mut self, name: &str, args: Vec<V>) -> V {
        let int = |i: usize| -> u128 {
            match args.get(i) {
                Some(V::I(_, x)) => *x,
                Some(v @ V::S(..)) => match settle(v) {
                    V::I(_, x) => x,
                    _ => bad(&format!("argument {i} of {name}")),
                },
                _ => bad(&format!("argument {i} of {name}")),
            }
        };
        if let Some(n) = name.strip_prefix("llvm.") {
            let head: String = n.split('.').take_while(|p| !is_suffix(p)).collect::<Vec<_>>().join(".");
            return match &head[..] {
                "lifetime.start" | "lifetime.end" | "dbg.value" | "dbg.declare" | "dbg.assign" | "experimental.noalias.scope.decl" | "assume" | "donothing" | "invariant.start" | "invariant.end" | "sideeffect" | "prefetch" => V::U,
                "expect" | "ssa.copy" | "launder.invariant.group" | "strip.invariant.group" => args[0].clone(),
                "memcpy" | "memmove" | "memcpy.inline" => {
                    let n = int(2) as usize;
                    if n > 0 {
                        let b = self.mem.get(int(1) as u64, n);
                        self.mem.put(int(0) as u64, b);
                    }
                    V::U
                }
                "memset" => {
                    let n = int(2) as usize;
                    if n > 0 {
                        let x = match &args[1] {
                            V::I(_, x) => Byte::C(*x as u8),
                            _ => Byte::U,
                        };
                        self.mem.put(int(0) as u64, vec![x; n]);
                    }
                    V::U
                }
                "trap" | "debugtrap" | "ubsantrap" => panic!("trap"),
                "is.constant" => V::I(1, 0),
                "objectsize" => V::I(64, mask(64)),
                "fma" | "fmuladd" => tri(&args, &|a, b, c| a * b + c),
                "sqrt" | "fabs" | "exp" | "exp2" | "log" | "log2" | "log10" | "sin" | "cos" | "tan" | "floor" | "ceil" | "trunc" | "rint" | "nearbyint" | "round" | "roundeven" | "sinh" | "cosh" | "tanh" | "asin" | "acos" | "atan" => fun1(&head, args[0].clone()),
                "pow" => bi(&args, &|a, b| a.powf(b)),
                "powi" => {
                    let V::I(b, k) = args[1] else { bad("powi") };
                    un(args[0].clone(), &|x| Float::powi(x, signed(b, k) as i32))
                }
                "copysign" => bi(&args, &|a, b| Float::copysign(a, b)),
                "minnum" | "minimum" | "minimumnum" => bi(&args, &|a, b| Float::min(a, b)),
                "maxnum" | "maximum" | "maximumnum" => bi(&args, &|a, b| Float::max(a, b)),
                "umax" | "umin" | "smax" | "smin" => {
                    let p = match &head[..] {
                        "umax" => "ugt",
                        "umin" => "ult",
                        "smax" => "sgt",
                        _ => "slt",
                    };
                    lanes2(args[0].clone(), args[1].clone(), &|a, b| if matches!(icmp(p, &Ty::Other, a.clone(), b.clone()), V::I(_, 1)) { a } else { b })
                }
                "abs" => match &args[0] {
                    V::I(b, x) => V::I(*b, signed(*b, *x).unsigned_abs() & mask(*b)),
                    V::S(..) => {
                        let (b, x, _, _) = sview(&args[0], true);
                        if isless(x, Sym::C(0.0)) { sint(b, iop("sub", Sym::C(0.0), x)) } else { sint(b, x) }
                    }
                    _ => bad("abs"),
                },
                "ctpop" | "ctlz" | "cttz" | "bswap" | "bitreverse" => match &settle(&args[0]) {
                    V::I(b, x) => V::I(
                        *b,
                        match &head[..] {
                            "ctpop" => x.count_ones() as u128,
                            "ctlz" => (x.leading_zeros() - (128 - b)) as u128,
                            "cttz" => if *x == 0 { *b as u128 } else { x.trailing_zeros() as u128 },
                            "bswap" => x.swap_bytes() >> (128 - b),
                            _ => x.reverse_bits() >> (128 - b),
                        },
                    ),
                    _ => bad(&head),
                },
                "uadd.with.overflow" | "usub.with.overflow" | "umul.with.overflow" | "sadd.with.overflow" | "ssub.with.overflow" | "smul.with.overflow" | "uadd.sat" | "usub.sat" | "sadd.sat" | "ssub.sat" => match (&args[0], &args[1]) {
                    (V::I(b, x), V::I(_, y)) => {
                        let sg = head.starts_with('s');
                        let op = &head[1..4];
                        let (w, o) = if sg {
                            let (x, y) = (signed(*b, *x), signed(*b, *y));
                            let r = match op {
                                "add" => x.checked_add(y),
                                "sub" => x.checked_sub(y),
                                _ => x.checked_mul(y),
                            };
                            let Some(r) = r else {
                                if head.ends_with("sat") {
                                    bad("128-bit saturating arithmetic");
                                }
                                return V::A(vec![V::U, V::I(1, 1)]);
                            };
                            let lim = 1i128 << (b - 1).min(126);
                            let o = *b < 128 && (r < -lim || r >= lim);
                            if head.ends_with("sat") && o {
                                return V::I(*b, (if r < 0 { -lim } else { lim - 1 }) as u128 & mask(*b));
                            }
                            (r as u128 & mask(*b), o)
                        } else {
                            match op {
                                "add" => (x.wrapping_add(*y) & mask(*b), x.checked_add(*y).map_or(true, |r| r > mask(*b))),
                                "sub" => (x.wrapping_sub(*y) & mask(*b), y > x),
                                _ => (x.wrapping_mul(*y) & mask(*b), x.checked_mul(*y).map_or(true, |r| r > mask(*b))),
                            }
                        };
                        if head.ends_with("sat") {
                            if o { V::I(*b, if op == "add" { mask(*b) } else { 0 }) } else { V::I(*b, w) }
                        } else {
                            V::A(vec![V::I(*b, w), V::I(1, o as u128)])
                        }
                    }
                    (a, c) => {
                        let sg = head.starts_with('s');
                        let ((b, x, _, _), (_, y, _, _)) = (sview(a, sg), sview(c, sg));
                        let r = iop(&head[1..4], x, y);
                        let (l, h) = limits(b, sg);
                        let (over, under) = (isless(icst(&h), r), isless(r, icst(&l)));
                        match (over || under, head.ends_with("sat")) {
                            (false, false) => V::A(vec![sint(b, r), V::I(1, 0)]),
                            (true, false) => V::A(vec![V::U, V::I(1, 1)]),
                            (false, true) => sint(b, r),
                            (true, true) => vint(b, &if over { h } else { l }),
                        }
                    }
                },
                "fptosi.sat" | "fptoui.sat" => match &args[0] {
                    V::F(x, _) => match x.concrete() {
                        Some(_) => bad("saturating conversion"),
                        None => bad("conversion of a symbolic value to an integer"),
                    },
                    _ => bad(&head),
                },
                "vector.reduce.fadd" => match (&args[0], &args[1]) {
                    (V::F(s, k), V::A(f)) => V::F(
                        f.iter().fold(*s, |a, x| match x {
                            V::F(x, _) => a + *x,
                            _ => bad("reduce"),
                        }),
                        *k,
                    ),
                    _ => bad("reduce"),
                },
                "threadlocal.address" => args[0].clone(),
                _ => bad(&format!("intrinsic {name}")),
            };
        }
        let ends = |s: &str| name.ends_with(s);
        if ends("___rust_alloc") || ends("__rust_alloc") || name == "malloc" {
            return V::I(64, self.mem.alloc(int(0) as usize) as u128);
        }
        if ends("__rust_alloc_zeroed") {
            let n = int(0) as usize;
            let a = self.mem.alloc(n);
            self.mem.put(a, vec![Byte::C(0); n]);
            return V::I(64, a as u128);
        }
        if ends("__rust_realloc") {
            let (p, old, new) = (int(0) as u64, int(1) as usize, int(3) as usize);
            let b = self.mem.get(p, old.min(new));
            let a = self.mem.alloc(new);
            self.mem.put(a, b);
            if let Some(o) = self.mem.objs.get_mut(&p) {
                o.live = false;
            }
            return V::I(64, a as u128);
        }
        if ends("__rust_dealloc") || name == "free" {
            let p = int(0) as u64;
            match self.mem.objs.get_mut(&p) {
                Some(o) if o.live => o.live = false,
                _ => ub(format!("free of {p:#x}")),
            }
            return V::U;
        }
        if name.contains("__rust_no_alloc_shim") {
            return V::U;
        }
        if name.contains("panic_nounwind") {
            ub("unsafe precondition violated".into());
        }
        if self.m.noreturn.contains(name) || name.contains("panic") {
            panic!("panic in {name}");
        }
        let f1 = |n: &str| -> Option<&str> {
            Some(match n {
                "exp" | "expf" => "exp",
                "exp2" | "exp2f" => "exp2",
                "log" | "logf" => "log",
                "sqrt" | "sqrtf" => "sqrt",
                "sin" | "sinf" => "sin",
                "cos" | "cosf" => "cos",
                "tan" | "tanf" => "tan",
                "sinh" | "sinhf" => "sinh",
                "cosh" | "coshf" => "cosh",
                "tanh" | "tanhf" => "tanh",
                "fabs" | "fabsf" => "fabs",
                "floor" | "floorf" => "floor",
                "ceil" | "ceilf" => "ceil",
                "trunc" | "truncf" => "trunc",
                "round" | "roundf" => "round",
                _ => return None,
            })
        };
        if let Some(f) = f1(name) {
            return fun1(f, args[0].clone());
        }
        match name {
            "fmod" | "fmodf" => bi(&args, &|a, b| a % b),
            "pow" | "powf" => bi(&args, &|a, b| a.powf(b)),
            "fma" | "fmaf" => tri(&args, &|a, b, c| a * b + c),
            "expm1" | "expm1f" => un(args[0].clone(), &|x| Float::exp(x) - Sym::C(1.0)),
            _ => bad(&format!("call of {name}")),
        }
    }
}
fn is_suffix(p: &str) -> bool {
    let q = p.trim_start_matches('v').trim_start_matches(|c: char| c.is_ascii_digit());
    p.starts_with("p0") || (p.len() > 1 && (p.starts_with('i') || p.starts_with('f') || p.starts_with('v')) && (q.starts_with('i') || q.starts_with('f')) && q[1..].chars().all(|c| c.is_ascii_digit()) && q.len() > 1)
}
fn zero(t: &Ty) -> V {
    match t {
        Ty::I(b) => V::I(*b, 0),
        Ty::F32 => V::F(Sym::C(0.0), true),
        Ty::F64 => V::F(Sym::C(0.0), false),
        Ty::Ptr => V::I(64, 0),
        Ty::Arr(n, e) | Ty::Vec(n, e) => V::A(vec![zero(e); *n]),
        Ty::Struct(f, _) => V::A(f.iter().map(zero).collect()),
        _ => V::U,
    }
}
fn lanes2(a: V, b: V, f: &dyn Fn(V, V) -> V) -> V {
    match (a, b) {
        (V::A(x), V::A(y)) => V::A(x.into_iter().zip(y).map(|(a, b)| lanes2(a, b, f)).collect()),
        (a, b) => f(a, b),
    }
}
fn un(a: V, f: &dyn Fn(Sym) -> Sym) -> V {
    match a {
        V::A(x) => V::A(x.into_iter().map(|v| un(v, f)).collect()),
        V::F(x, s) => V::F(f(x), s),
        V::U => V::U,
        V::I(32, b) => V::F(f(Sym::C(f32::from_bits(b as u32) as f64)), true),
        _ => bad("float operand"),
    }
}
fn bi(a: &[V], f: &dyn Fn(Sym, Sym) -> Sym) -> V {
    lanes2(a[0].clone(), a[1].clone(), &|a, b| match (a, b) {
        (V::F(x, s), V::F(y, _)) => V::F(f(x, y), s),
        (V::U, _) | (_, V::U) => V::U,
        _ => bad("float operands"),
    })
}
fn tri(a: &[V], f: &dyn Fn(Sym, Sym, Sym) -> Sym) -> V {
    match (&a[0], &a[1], &a[2]) {
        (V::F(x, s), V::F(y, _), V::F(z, _)) => V::F(f(*x, *y, *z), *s),
        (V::A(x), V::A(y), V::A(z)) => V::A((0..x.len()).map(|i| tri(&[x[i].clone(), y[i].clone(), z[i].clone()], f)).collect()),
        _ => bad("float operands"),
    }
}
fn fun1(n: &str, a: V) -> V {
    let f: fn(Sym) -> Sym = match n {
        "sqrt" => Float::sqrt,
        "fabs" => Float::abs,
        "exp" => Float::exp,
        "exp2" => Float::exp2,
        "log" => Float::ln,
        "log2" => Float::log2,
        "log10" => Float::log10,
        "sin" => Float::sin,
        "cos" => Float::cos,
        "tan" => Float::tan,
        "floor" => Float::floor,
        "ceil" => Float::ceil,
        "trunc" => Float::trunc,
        "round" | "rint" | "nearbyint" | "roundeven" => Float::round,
        "sinh" => Float::sinh,
        "cosh" => Float::cosh,
        "tanh" => Float::tanh,
        "asin" => Float::asin,
        "acos" => Float::acos,
        "atan" => Float::atan,
        _ => bad(n),
    };
    un(a, &f)
}
fn fcmp(p: &str, a: V, b: V) -> V {
    lanes2(a, b, &|a, b| {
        let (x, y) = match (a, b) {
            (V::F(x, _), V::F(y, _)) => (x, y),
            _ => bad("fcmp operands"),
        };
        let nan = |x: &Sym| matches!(x.concrete(), Some(v) if v.is_nan());
        let un = nan(&x) || nan(&y);
        let r = match p {
            "true" => true,
            "false" => false,
            "ord" => !un,
            "uno" => un,
            _ if un => p.starts_with('u'),
            "oeq" | "ueq" => x == y,
            "one" | "une" => !(x == y),
            "ogt" | "ugt" => x > y,
            "oge" | "uge" => x >= y,
            "olt" | "ult" => x < y,
            "ole" | "ule" => x <= y,
            _ => bad(p),
        };
        V::I(1, r as u128)
    })
}
// ---- symbolic integers: exact terms over integer atoms ----
pub fn icst(x: &BigInt) -> Sym {
    mk(with(|a| a.constant(Rat::from_integer(x.clone()))))
}
pub fn iop(w: &str, x: Sym, y: Sym) -> Sym {
    let (a, b) = (x.node(), y.node());
    mk(with(|ar| match w {
        "add" => ar.add(a, b),
        "sub" => ar.sub(a, b),
        "mul" => ar.mul(a, b),
        _ => bad(w),
    }))
}
/// the exact value of a term that is constant
pub fn iconst(x: Sym) -> Option<BigInt> {
    with(|a| {
        let n = match x {
            Sym::C(v) => return rat_of_f64(v).is_integer().then(|| rat_of_f64(v).to_integer()),
            Sym::T(n) => n,
        };
        let rf = a.ratfun(n).ok()?;
        if rf.num.is_empty() {
            return Some(BigInt::from(0));
        }
        if rf.den.is_empty() && rf.num.len() == 1 {
            let (m, c) = rf.num.iter().next().unwrap();
            if a.monos[*m as usize].is_empty() && c.is_integer() {
                return Some(c.to_integer());
            }
        }
        None
    })
}
pub fn isless(x: Sym, y: Sym) -> bool {
    decide(iop("sub", x, y).node(), LT)
}
pub fn iseq(x: Sym, y: Sym) -> bool {
    decide(iop("sub", x, y).node(), EQ)
}
fn two(n: u32) -> BigInt {
    BigInt::from(1) << n
}
fn limits(b: u32, sg: bool) -> (BigInt, BigInt) {
    if sg { (-two(b - 1), two(b - 1) - 1) } else { (BigInt::from(0), two(b) - 1) }
}
/// a concrete integer of that width
pub fn vint(b: u32, x: &BigInt) -> V {
    let m = two(b);
    let r: BigInt = ((x % &m) + &m) % &m;
    V::I(b, r.to_u128().unwrap())
}
/// an integer of that width, its range taken from the term
pub fn sint(b: u32, x: Sym) -> V {
    if let Some(c) = iconst(x) {
        return vint(b, &c);
    }
    let (lo, hi) = x.interval();
    let f = |v: f64, up: bool| if v.is_finite() { rat_of_f64(if up { v.ceil() } else { v.floor() }).to_integer() } else { if up { two(400) } else { -two(400) } };
    V::S(b, x, f(lo, false), f(hi, true))
}
fn wide(v: &V) -> bool {
    matches!(v, V::S(_, _, lo, hi) if hi - lo > BigInt::from(40))
}
/// Bitwise `or`/`and` of integers of wide range: a named value of the right sign, bounded by its operands.
fn bits(w: &str, n: u32, a: &V, b: &V) -> V {
    let ((_, x, _, _), (_, y, _, _)) = (sview(a, true), sview(b, true));
    let zero = Sym::C(0.0);
    if w == "and" && (iconst(x) == Some(0.into()) || iconst(y) == Some(0.into())) {
        return V::I(n, 0);
    }
    if w == "or" && iconst(x) == Some(0.into()) {
        return b.clone();
    }
    if w == "or" && iconst(y) == Some(0.into()) {
        return a.clone();
    }
    let (nx, ny) = (isless(x, zero), isless(y, zero));
    let neg = if w == "or" { nx || ny } else { nx && ny };
    let (xn, yn) = (x.node(), y.node());
    let (lo, hi) = limits(n, true);
    let at = with(|ar| {
        let (at, _) = ar.fun(if w == "or" { "ior" } else { "iand" }, &[xn, yn], 0);
        ar.atoms[at as usize].is_int = true;
        at
    });
    let v = mk(with(|ar| ar.atom_node(at)));
    let le = |p: Sym, q: Sym| add_axiom(at, vec![Lit { node: iop("sub", q, p).node(), mask: GE }]);
    if w == "or" && !neg {
        le(x, v);
        le(y, v);
        le(v, iop("add", x, y));
    }
    if w == "and" {
        if !nx { le(v, x) }
        if !ny { le(v, y) }
    }
    le(icst(&lo), v);
    le(v, icst(&hi));
    if neg {
        le(v, icst(&BigInt::from(-1)));
        V::S(n, v, lo, BigInt::from(-1))
    } else {
        le(zero, v);
        V::S(n, v, BigInt::from(0), hi)
    }
}
/// every feasible value of a symbolic integer in turn
fn settle(v: &V) -> V {
    let V::S(b, ..) = v else { return v.clone() };
    let (_, x, lo, hi) = sview(v, false);
    if let Some(c) = iconst(x) {
        return vint(*b, &c);
    }
    if &hi - &lo > BigInt::from(400) {
        bad("a symbolic integer of wide range where a number is needed");
    }
    vint(*b, &pick(x, lo, hi))
}
/// the value of an integer known to lie in a range, one path per feasible value
pub fn pick(x: Sym, mut lo: BigInt, mut hi: BigInt) -> BigInt {
    if let Some(c) = iconst(x) {
        return c;
    }
    while lo < hi {
        let m: BigInt = &lo + (&hi - &lo) / 2;
        if isless(icst(&m), x) { lo = m + 1 } else { hi = m }
    }
    if !iseq(x, icst(&lo)) {
        throw(Abort::Infeasible)
    }
    lo
}
/// The remainder modulo `d` of a polynomial in one integer atom, where it is the same for every value:
/// a polynomial of degree k whose values at 0..=k are integers congruent modulo d is congruent everywhere.
fn residue(x: Sym, d: &BigInt) -> Option<BigInt> {
    let terms: Vec<(i32, Rat)> = with(|a| {
        let rf = a.ratfun(x.node()).ok()?;
        if !rf.den.is_empty() {
            return None;
        }
        let mut at = None;
        let mut t = vec![];
        for (m, c) in rf.num.iter() {
            let mm = &a.monos[*m as usize];
            match mm.len() {
                0 => t.push((0, c.clone())),
                1 if mm[0].1 > 0 && a.atoms[mm[0].0 as usize].is_int && *at.get_or_insert(mm[0].0) == mm[0].0 => t.push((mm[0].1, c.clone())),
                _ => return None,
            }
        }
        Some(t)
    })?;
    let deg = terms.iter().map(|t| t.0).max().unwrap_or(0);
    let mut res = None;
    for q in 0..=deg {
        let mut v = Rat::from_integer(BigInt::from(0));
        for (e, c) in &terms {
            v = v + c.clone() * Rat::from_integer(BigInt::from(q).pow(*e as u32));
        }
        if !v.is_integer() {
            return None;
        }
        let v = v.to_integer();
        let r = ((&v % d) + d) % d;
        if *res.get_or_insert(r.clone()) != r {
            return None;
        }
    }
    res
}
fn divrem(w: &str, a: &V, b: &V) -> V {
    let sg = w.starts_with('s');
    let ((n, x, _, xh), (_, y, _, _)) = (sview(a, sg), sview(b, sg));
    if sg && (isless(x, Sym::C(0.0)) || isless(y, Sym::C(0.0))) {
        return bin(w, &Ty::Other, settle(a), settle(b));
    }
    if iseq(y, Sym::C(0.0)) {
        ub("division by zero".into());
    }
    let yc = iconst(y);
    if let Some(d) = yc.as_ref().filter(|d| **d > BigInt::from(0)) {
        if let Some(c) = residue(x, d) {
            let inv = mk(with(|ar| ar.constant(Rat::new(BigInt::from(1), d.clone()))));
            let q = iop("mul", iop("sub", x, icst(&c)), inv);
            return if w.ends_with("div") { sint(n, q) } else { sint(n, icst(&c)) };
        }
    }
    // a named quotient says what divisibility means
    let (xn, yn) = (x.node(), y.node());
    let at = with(|ar| {
        let (at, new) = ar.fun("idiv", &[xn, yn], 0);
        let info = &mut ar.atoms[at as usize];
        info.is_int = true;
        if new {
            info.lo = 0.0;
        }
        at
    });
    let q = mk(with(|ar| ar.atom_node(at)));
    let r = iop("sub", x, iop("mul", y, q));
    add_axiom(at, vec![Lit { node: r.node(), mask: GE }]);
    add_axiom(at, vec![Lit { node: iop("sub", r, y).node(), mask: LT }]);
    let (q, r) = match yc {
        Some(d) if d <= BigInt::from(64) => {
            let mut k = BigInt::from(0);
            loop {
                if k >= d {
                    throw(Abort::Infeasible);
                }
                if iseq(r, icst(&k)) {
                    break;
                }
                k += 1;
            }
            let inv = mk(with(|ar| ar.constant(Rat::new(BigInt::from(1), d.clone()))));
            (iop("mul", iop("sub", x, icst(&k)), inv), icst(&k))
        }
        Some(d) => {
            // few quotients are possible
            if &xh / &d > BigInt::from(64) {
                bad("division by a large constant");
            }
            let mut k = BigInt::from(0);
            while !iseq(q, icst(&k)) {
                k += 1;
                if &k * &d > xh {
                    throw(Abort::Infeasible);
                }
            }
            (icst(&k), iop("sub", x, icst(&(&k * &d))))
        }
        None => {
            let mut k = BigInt::from(0);
            while !iseq(q, icst(&k)) {
                k += 1;
                if k > BigInt::from(80) {
                    bad("division by a symbolic integer");
                }
            }
            (icst(&k), iop("sub", x, iop("mul", y, icst(&k))))
        }
    };
    if w.ends_with("div") { sint(n, q) } else { sint(n, r) }
}
/// view of an integer as (bits, value, lo, hi) in the wanted signedness
fn sview(v: &V, sg: bool) -> (u32, Sym, BigInt, BigInt) {
    match v {
        V::I(b, x) => {
            let k = if sg { BigInt::from(signed(*b, *x)) } else { BigInt::from(*x) };
            (*b, icst(&k), k.clone(), k)
        }
        V::S(b, x, lo, hi) => {
            let (l, h) = limits(*b, sg);
            let (mut x, mut lo, mut hi) = (*x, lo.clone(), hi.clone());
            for _ in 0..4 {
                if lo >= l && hi <= h {
                    return (*b, x, lo, hi);
                }
                let m = two(*b);
                if lo < l && isless(x, icst(&l)) {
                    x = iop("add", x, icst(&m));
                    hi = std::cmp::min(&l - BigInt::from(1), hi) + &m;
                    lo += &m;
                } else if hi > h && isless(icst(&h), x) {
                    x = iop("sub", x, icst(&m));
                    lo = std::cmp::max(&h + BigInt::from(1), lo) - &m;
                    hi -= &m;
                } else {
                    lo = lo.max(l.clone());
                    hi = hi.min(h.clone());
                }
            }
            bad("wrapped symbolic integer")
        }
        _ => bad("integer operand"),
    }
}
fn icmp(p: &str, t: &Ty, a: V, b: V) -> V {
    lanes2(a, b, &|a, b| match (&a, &b) {
        (V::I(w, x), V::I(_, y)) => {
            let (sx, sy) = (signed(*w, *x), signed(*w, *y));
            let r = match p {
                "eq" => x == y,
                "ne" => x != y,
                "ugt" => x > y,
                "uge" => x >= y,
                "ult" => x < y,
                "ule" => x <= y,
                "sgt" => sx > sy,
                "sge" => sx >= sy,
                "slt" => sx < sy,
                "sle" => sx <= sy,
                _ => bad(p),
            };
            V::I(1, r as u128)
        }
        (V::U, _) | (_, V::U) => V::U,
        (V::S(..), _) | (_, V::S(..)) => {
            let sg = p.starts_with('s') || (p == "eq" || p == "ne");
            let ((_, x, xl, xh), (_, y, yl, yh)) = (sview(&a, sg), sview(&b, sg));
            let r = match p {
                "eq" => !(xh < yl || xl > yh) && iseq(x, y),
                "ne" => xh < yl || xl > yh || !iseq(x, y),
                "ugt" | "sgt" => isless(y, x),
                "uge" | "sge" => !isless(x, y),
                "ult" | "slt" => isless(x, y),
                _ => !isless(y, x),
            };
            V::I(1, r as u128)
        }
        _ => bad(&format!("icmp {t:?}")),
    })
}
fn bin(w: &str, t: &Ty, a: V, b: V) -> V {
    if let (V::A(_), V::A(_)) = (&a, &b) {
        return lanes2(a, b, &|a, b| bin(w, t, a, b));
    }
    if w.starts_with('f') {
        return bi(&[a, b], &|x, y| {
            round_const(
                match w {
                    "fadd" => x + y,
                    "fsub" => x - y,
                    "fmul" => x * y,
                    "fdiv" => x / y,
                    _ => x % y,
                },
                *t == Ty::F32,
            )
        });
    }
    match (&a, &b) {
        (V::I(n, x), V::I(_, y)) => {
            let n = *n;
            let (x, y) = (*x, *y);
            let r = match w {
                "add" => x.wrapping_add(y),
                "sub" => x.wrapping_sub(y),
                "mul" => x.wrapping_mul(y),
                "and" => x & y,
                "or" => x | y,
                "xor" => x ^ y,
                "shl" => if y >= n as u128 { return V::U } else { x << y },
                "lshr" => if y >= n as u128 { return V::U } else { x >> y },
                "ashr" => if y >= n as u128 { return V::U } else { (signed(n, x) >> y) as u128 },
                "udiv" | "urem" | "sdiv" | "srem" => {
                    if y == 0 {
                        ub("division by zero".into());
                    }
                    match w {
                        "udiv" => x / y,
                        "urem" => x % y,
                        "sdiv" => signed(n, x).wrapping_div(signed(n, y)) as u128,
                        _ => signed(n, x).wrapping_rem(signed(n, y)) as u128,
                    }
                }
                _ => bad(w),
            };
            V::I(n, r & mask(n))
        }
        (V::U, _) | (_, V::U) => match (w, &a, &b) {
            ("and", V::I(n, 0), _) | ("and", _, V::I(n, 0)) => V::I(*n, 0),
            _ => V::U,
        },
        (V::B(x), V::I(n, y)) if matches!(w, "shl" | "lshr") && y % 8 == 0 => {
            let k = (*y / 8) as usize;
            let len = (*n as usize / 8).max(x.len());
            let mut x = x.clone();
            x.resize(len, Byte::C(0));
            let r: Vec<Byte> = (0..len).map(|i| if w == "lshr" { x.get(i + k).cloned().unwrap_or(Byte::C(0)) } else if i >= k { x[i - k].clone() } else { Byte::C(0) }).collect();
            V::B(r)
        }
        (V::B(_) | V::S(..) | V::I(..), V::B(_)) | (V::B(_), _) if w == "or" || w == "and" || w == "add" || w == "xor" => {
            let n = match t {
                Ty::I(b) => *b as usize / 8,
                _ => bad("bits"),
            };
            let (x, y) = (to_bytes(&a, n), to_bytes(&b, n));
            V::B(
                x.iter()
                    .zip(&y)
                    .map(|(x, y)| match (x, y, w) {
                        (Byte::C(p), Byte::C(q), "and") => Byte::C(p & q),
                        (Byte::C(p), Byte::C(q), "or") => Byte::C(p | q),
                        (Byte::C(0), v, "or" | "add" | "xor") | (v, Byte::C(0), "or" | "add" | "xor") => v.clone(),
                        (Byte::C(0), _, "and") | (_, Byte::C(0), "and") => Byte::C(0),
                        (Byte::C(255), v, "and") | (v, Byte::C(255), "and") => v.clone(),
                        _ => bad("bit operation on a symbolic value"),
                    })
                    .collect(),
            )
        }
        (V::S(n, ..), V::I(..)) | (V::I(n, ..), V::S(..)) | (V::S(n, ..), V::S(..)) => {
            let n = *n;
            match (w, &b) {
                ("udiv" | "urem" | "sdiv" | "srem", _) => return divrem(w, &a, &b),
                ("and", V::I(_, m)) if (m + 1).is_power_of_two() && *m < 64 => return divrem("urem", &a, &V::I(n, m + 1)),
                ("lshr", V::I(_, k)) if *k < 100 && *k < n as u128 => return divrem("udiv", &a, &V::I(n, 1 << k)),
                ("xor", V::I(_, m)) if *m == mask(n) => {
                    let (x, xl, xh) = match raw(&a) { (_, x, l, h) => (x, l, h) };
                    return V::S(n, iop("sub", icst(&BigInt::from(-1)), x), -xh - 1, -xl - 1);
                }
                ("or" | "and", _) if wide(&a) || wide(&b) => return bits(w, n, &a, &b),
                ("and" | "or" | "xor" | "lshr" | "ashr", _) => return bin(w, t, settle(&a), settle(&b)),
                _ => {}
            }
            let ((_, x, xl, xh), (_, y, yl, yh)) = (raw(&a), raw(&b));
            let (r, lo, hi) = match w {
                "add" => (iop(w, x, y), xl + yl, xh + yh),
                "sub" => (iop(w, x, y), xl - yh, xh - yl),
                "mul" => {
                    let c = [&xl * &yl, &xl * &yh, &xh * &yl, &xh * &yh];
                    (iop(w, x, y), c.iter().min().unwrap().clone(), c.iter().max().unwrap().clone())
                }
                "shl" if matches!(b, V::I(..)) => {
                    let k = two(yl.to_u32().unwrap_or(0));
                    (iop("mul", x, icst(&k)), xl * &k, xh * &k)
                }
                _ => return bin(w, t, settle(&a), settle(&b)),
            };
            match iconst(r) {
                Some(c) => vint(n, &c),
                None => V::S(n, r, lo, hi),
            }
        }
        _ => bad(&format!("{w} operands {a:?} {b:?}")),
    }
}
fn raw(v: &V) -> (u32, Sym, BigInt, BigInt) {
    match v {
        V::S(b, x, l, h) => (*b, *x, l.clone(), h.clone()),
        v => sview(v, true),
    }
}
fn cast(w: &str, t: &Ty, v: V, tt: &Ty) -> V {
    if let (V::A(x), Ty::Vec(_, e)) = (&v, tt) {
        let et = match t {
            Ty::Vec(_, k) => (**k).clone(),
            _ => bad("vector cast"),
        };
        if w != "bitcast" || matches!(t, Ty::Vec(n, k) if k.size() == e.size() && *n == x.len()) {
            return V::A(x.iter().map(|v| cast(w, &et, v.clone(), e)).collect());
        }
    }
    if matches!(v, V::U) {
        return V::U;
    }
    let bits = |t: &Ty| match t {
        Ty::I(b) => *b,
        Ty::Ptr => 64,
        _ => bad("integer type"),
    };
    match w {
        "trunc" => match &v {
            V::I(_, x) => V::I(bits(tt), x & mask(bits(tt))),
            V::B(b) => {
                let n = bits(tt) as usize / 8;
                from_bytes(b[..n].to_vec(), tt)
            }
            V::S(_, x, lo, hi) => {
                let n = bits(tt);
                if *lo >= limits(n, true).0 && *hi <= limits(n, false).1 {
                    V::S(n, *x, lo.clone(), hi.clone())
                } else {
                    let (_, x, lo, hi) = sview(&v, false);
                    let (l, h) = limits(n, false);
                    if isless(icst(&h), x) {
                        // wrapped: keep the value, comparisons reduce it
                        if hi > &h * 8 { return cast(w, t, settle(&v), tt) }
                        V::S(n, x, lo, hi)
                    } else {
                        V::S(n, x, lo.max(l), hi.min(h))
                    }
                }
            }
            _ => bad("trunc"),
        },
        "zext" => match &v {
            V::I(_, x) => V::I(bits(tt), *x),
            V::B(b) => {
                let mut b = b.clone();
                b.resize(bits(tt) as usize / 8, Byte::C(0));
                V::B(b)
            }
            V::S(..) => {
                let (_, x, lo, hi) = sview(&v, false);
                V::S(bits(tt), x, lo, hi)
            }
            V::F(..) => {
                let mut b = to_bytes(&v, t.size());
                b.resize(bits(tt) as usize / 8, Byte::C(0));
                V::B(b)
            }
            _ => bad("zext"),
        },
        "sext" => match &v {
            V::I(b, x) => V::I(bits(tt), signed(*b, *x) as u128 & mask(bits(tt))),
            V::S(..) => {
                let (_, x, lo, hi) = sview(&v, true);
                V::S(bits(tt), x, lo, hi)
            }
            _ => bad("sext"),
        },
        "ptrtoint" => match &v {
            V::I(_, x) => V::I(bits(tt), x & mask(bits(tt))),
            _ => bad("ptrtoint"),
        },
        "inttoptr" | "addrspacecast" => match &v {
            V::I(_, x) => V::I(64, *x),
            _ => bad("inttoptr"),
        },
        "fpext" | "fptrunc" => match v {
            V::F(x, _) => V::F(x, *tt == Ty::F32),
            _ => bad(w),
        },
        "sitofp" | "uitofp" => match &v {
            V::I(b, x) => V::F(Sym::C(if w == "sitofp" { signed(*b, *x) as f64 } else { *x as f64 }), *tt == Ty::F32),
            V::S(..) => V::F(sview(&v, w == "sitofp").1, *tt == Ty::F32),
            V::B(b) => match from_bytes(b.clone(), t) {
                s @ V::S(..) => V::F(sview(&s, w == "sitofp").1, *tt == Ty::F32),
                _ => bad("integer made of parts"),
            },
            _ => bad(w),
        },
        "fptosi" | "fptoui" => match &v {
            V::F(x, _) => match x.concrete() {
                Some(c) => V::I(bits(tt), (c.trunc().to_i128().unwrap_or(0)) as u128 & mask(bits(tt))),
                None => {
                    let (lo, hi) = x.interval();
                    V::S(bits(tt), Float::trunc(*x), BigInt::from(lo.trunc() as i128), BigInt::from(hi.trunc() as i128))
                }
            },
            _ => bad(w),
        },
        "bitcast" => {
            let b = to_bytes(&v, t.size());
            match tt {
                Ty::Vec(n, e) => {
                    let k = e.size();
                    V::A((0..*n).map(|i| from_bytes(b[i * k..(i + 1) * k].to_vec(), e)).collect())
                }
                _ => from_bytes(b, tt),
            }
        }
        _ => bad(w),
    }
}

// ---------------- building ----------------
/// compile /repo into LLVM code and load it (once per process)
pub fn module() -> &'static Module {
    static M: std::sync::OnceLock<Module> = std::sync::OnceLock::new();
    M.get_or_init(|| match build() {
        Ok(m) => m,
        Err(e) => {
            eprintln!("cannot compile the code to LLVM: {e}");
            std::process::exit(3);
        }
    })
}
pub fn build() -> Result<Module, String> {
    let dir = concat!(env!("CARGO_MANIFEST_DIR"), "/../ir");
    let out = std::process::Command::new("cargo")
        .args(["build", "--release", "--offline", "--message-format=json"])
        .current_dir(dir)
        .env("CARGO_TARGET_DIR", format!("{dir}/../target/ir"))
        .env("RUSTFLAGS", "-C target-cpu=x86-64 --emit=llvm-ir -C no-vectorize-loops -C no-vectorize-slp")
        .output()
        .map_err(|e| e.to_string())?;
    if !out.status.success() {
        return Err(String::from_utf8_lossy(&out.stderr).to_string());
    }
    let mut m = Module::default();
    let mut n = 0;
    for l in String::from_utf8_lossy(&out.stdout).lines() {
        let Ok(j) = serde_json::from_str::<serde_json::Value>(l) else { continue };
        let name = j["target"]["name"].as_str().unwrap_or("");
        if j["reason"] != "compiler-artifact" || !(name == "sci_rs" || name == "sci-rs" || name == "irtarget") {
            continue;
        }
        for f in j["filenames"].as_array().into_iter().flatten() {
            let f = f.as_str().unwrap_or("");
            if let Some(b) = f.strip_suffix(".rlib") {
                let (d, b) = b.rsplit_once('/').unwrap_or(("", b));
                // the final crate is also linked to release/ without its hash
                let d = if d.ends_with("deps") { d.to_string() } else { format!("{d}/deps") };
                let stem = b.strip_prefix("lib").unwrap_or(b);
                let mut p = format!("{d}/{stem}.ll");
                if !std::path::Path::new(&p).exists() {
                    // irtarget: newest file of that name
                    let mut best = None;
                    for e in std::fs::read_dir(&d).map_err(|e| e.to_string())?.flatten() {
                        let s = e.file_name().to_string_lossy().to_string();
                        if s.starts_with(&format!("{stem}-")) && s.ends_with(".ll") {
                            let t = e.metadata().and_then(|m| m.modified()).ok();
                            if best.as_ref().map_or(true, |(b, _)| t > *b) {
                                best = Some((t, e.path()));
                            }
                        }
                    }
                    p = best.ok_or(format!("no {p}"))?.1.to_string_lossy().to_string();
                }
                m.parse(&std::fs::read_to_string(&p).map_err(|e| format!("{p}: {e}"))?);
                n += 1;
            }
        }
    }
    if n < 2 {
        return Err("llvm files not found".into());
    }
    Ok(m)
}
/// the value of an integer result
pub fn ivalue(v: &V, sg: bool) -> Sym {
    match v {
        V::I(..) | V::S(..) => sview(v, sg).1,
        _ => bad("integer result"),
    }
}
