//! Reference front end: lexer, recogniser and static rules written from the language definition.
use crate::canon::{is_temp, op_name};
use crate::gen_prog::OPS;
use koopa::front::ast::{AstBox, AstKind};
use std::collections::{HashMap, HashSet, VecDeque};
use std::fmt::Write;

#[derive(Clone, Debug, PartialEq)]
pub enum Tk {
    Int(i64),
    Sym(String),
    Kw(&'static str),
    Op(&'static str),
    Ch(char),
    End,
    Err,
}
#[derive(Clone, Debug)]
pub struct Tok {
    pub k: Tk,
    pub s: (u32, u32),
    pub e: (u32, u32),
}
pub const KWS: [&str; 15] = ["i32", "undef", "zeroinit", "global", "alloc", "load", "store", "getptr", "getelemptr", "br", "jump", "call", "ret", "fun", "decl"];

fn wsp(c: char) -> bool {
    c.is_whitespace()
}

/// every token and error of the text, ending with End; bytes are Latin-1 characters
pub fn lex(b: &[u8]) -> Vec<Tok> {
    // positions of every byte; the end of input has the position of the last byte
    let mut pos = vec![];
    let (mut l, mut c) = (1u32, 0u32);
    for x in b {
        if *x == b'\n' {
            l += 1;
            c = 0;
        } else {
            c += 1;
        }
        pos.push((l, c));
    }
    let last = (l, c);
    let at = |i: usize| if i < pos.len() { pos[i] } else { last };
    let ch = |i: usize| -> Option<char> { b.get(i).map(|x| *x as char) };
    let skip = |mut i: usize| {
        while ch(i).is_some_and(|c| !wsp(c)) {
            i += 1;
        }
        i
    };
    let mut out = vec![];
    let mut i = 0;
    let mut push = |k: Tk, s: usize, e: usize| out.push(Tok { k, s: at(s), e: at(e) });
    loop {
        while ch(i).is_some_and(wsp) {
            i += 1;
        }
        let s = i;
        let Some(c) = ch(i) else {
            push(Tk::End, i, i);
            break;
        };
        if c == '/' {
            if ch(i + 1) == Some('/') {
                i += 2;
                while ch(i).is_some_and(|c| c != '\r' && c != '\n') {
                    i += 1;
                }
            } else if ch(i + 1) == Some('*') {
                let mut j = i + 2;
                loop {
                    if j + 1 >= b.len() {
                        j = usize::MAX;
                        break;
                    }
                    if b[j] == b'*' && b[j + 1] == b'/' {
                        break;
                    }
                    j += 1;
                }
                if j == usize::MAX {
                    i = b.len();
                    push(Tk::Err, s, i);
                } else {
                    i = j + 2;
                }
            } else {
                push(Tk::Err, s, i + 1);
                i = skip(i + 1);
            }
            continue;
        }
        if c == '@' || c == '%' {
            i += 1;
            let mut bad = false;
            if ch(i).is_some_and(|c| c.is_numeric()) {
                if c == '@' {
                    bad = true;
                } else {
                    let zero = ch(i) == Some('0');
                    i += 1;
                    while !zero && ch(i).is_some_and(|c| c.is_numeric()) {
                        i += 1;
                    }
                }
            } else {
                while ch(i).is_some_and(|c| c.is_alphanumeric() || c == '_') {
                    i += 1;
                }
                bad = i == s + 1;
            }
            if bad {
                push(Tk::Err, s, s);
                i = skip(i);
            } else {
                push(Tk::Sym(b[s..i].iter().map(|x| *x as char).collect()), s, i - 1);
            }
        } else if c.is_alphabetic() {
            while ch(i).is_some_and(|c| c.is_alphanumeric()) {
                i += 1;
            }
            let w: String = b[s..i].iter().map(|x| *x as char).collect();
            if let Some(k) = KWS.iter().find(|k| **k == w) {
                push(Tk::Kw(k), s, i - 1);
            } else if let Some(o) = OPS.iter().map(|o| op_name(*o)).find(|o| *o == w) {
                push(Tk::Op(o), s, i - 1);
            } else {
                push(Tk::Err, s, i - 1);
                i = skip(i);
            }
        } else if c.is_numeric() || c == '-' {
            i += 1;
            while ch(i).is_some_and(|c| c.is_numeric()) {
                i += 1;
            }
            let t: String = b[s..i].iter().map(|x| *x as char).collect();
            // value computed here, not with the library's parser
            let digits = t.strip_prefix('-').unwrap_or(&t);
            let mut v: i128 = 0;
            let mut ok = !digits.is_empty();
            for d in digits.chars() {
                match d.to_digit(10) {
                    Some(d) if v < (1i128 << 70) => v = v * 10 + d as i128,
                    Some(_) => {}
                    None => ok = false,
                }
            }
            if t.starts_with('-') {
                v = -v;
            }
            if ok && v >= i64::MIN as i128 && v <= i64::MAX as i128 {
                push(Tk::Int(v as i64), s, i - 1);
            } else {
                push(Tk::Err, s, i - 1);
                i = skip(i);
            }
        } else {
            i += 1;
            push(Tk::Ch(c), s, s);
        }
    }
    out
}

// ---------------------------------------------------------------- syntax

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    I32,
    Arr(Box<Ty>, u64),
    Ptr(Box<Ty>),
    Fun(Vec<Ty>, Option<Box<Ty>>),
}
#[derive(Clone, Debug, PartialEq)]
pub enum Val {
    Sym(String),
    Int(i32),
    Undef,
    Zero,
    Agg(Vec<Val>),
}
#[derive(Clone, Debug, PartialEq)]
pub enum Rhs {
    Alloc(Ty),
    Load(String),
    GetPtr(String, Val),
    Gep(String, Val),
    Bin(&'static str, Val, Val),
    Call(String, Vec<Val>),
}
#[derive(Clone, Debug, PartialEq)]
pub enum Stmt {
    Def(String, Rhs),
    Store(Val, String),
    Call(String, Vec<Val>),
    Br(Val, String, Vec<Val>, String, Vec<Val>),
    Jump(String, Vec<Val>),
    Ret(Option<Val>),
    Err,
}
#[derive(Clone, Debug, PartialEq)]
pub struct Block {
    pub name: String,
    pub params: Vec<(String, Ty)>,
    pub stmts: Vec<Stmt>,
}
#[derive(Clone, Debug, PartialEq)]
pub enum Item {
    Global(String, Ty, Val),
    Fun(String, Vec<(String, Ty)>, Option<Ty>, Vec<Block>),
    Decl(String, Vec<Ty>, Option<Ty>),
    Err,
}

pub struct P<'a> {
    t: &'a [Tok],
    i: usize,
}
type R<T> = Option<T>;
impl P<'_> {
    fn k(&self) -> &Tk {
        &self.t[self.i].k
    }
    fn eat(&mut self, k: &Tk) -> R<()> {
        if self.k() == k {
            self.i += 1;
            Some(())
        } else {
            None
        }
    }
    fn c(&mut self, c: char) -> R<()> {
        self.eat(&Tk::Ch(c))
    }
    fn is(&self, c: char) -> bool {
        *self.k() == Tk::Ch(c)
    }
    fn sym(&mut self) -> R<String> {
        if let Tk::Sym(s) = self.k() {
            let s = s.clone();
            self.i += 1;
            Some(s)
        } else {
            None
        }
    }
    fn list<T>(&mut self, f: impl Fn(&mut Self) -> R<T>) -> R<Vec<T>> {
        self.c('(')?;
        let mut v = vec![];
        if !self.is(')') {
            v.push(f(self)?);
            while self.is(',') {
                self.i += 1;
                v.push(f(self)?);
            }
        }
        self.c(')')?;
        Some(v)
    }
    fn opt_list<T>(&mut self, f: impl Fn(&mut Self) -> R<T>) -> R<Vec<T>> {
        if self.is('(') { self.list(f) } else { Some(vec![]) }
    }
    fn ty(&mut self) -> R<Ty> {
        match self.k().clone() {
            Tk::Kw("i32") => {
                self.i += 1;
                Some(Ty::I32)
            }
            Tk::Ch('[') => {
                self.i += 1;
                let b = self.ty()?;
                self.c(',')?;
                let Tk::Int(n) = self.k().clone() else { return None };
                if n <= 0 {
                    return None;
                }
                self.i += 1;
                self.c(']')?;
                Some(Ty::Arr(Box::new(b), n as u64))
            }
            Tk::Ch('*') => {
                self.i += 1;
                Some(Ty::Ptr(Box::new(self.ty()?)))
            }
            Tk::Ch('(') => {
                let p = self.list(|s| s.ty())?;
                let r = self.ret_ty()?;
                Some(Ty::Fun(p, r.map(Box::new)))
            }
            _ => None,
        }
    }
    fn ret_ty(&mut self) -> R<Option<Ty>> {
        if self.is(':') {
            self.i += 1;
            Some(Some(self.ty()?))
        } else {
            Some(None)
        }
    }
    fn value(&mut self) -> R<Val> {
        let v = match self.k().clone() {
            Tk::Sym(s) => Val::Sym(s),
            Tk::Int(i) => Val::Int(i as i32),
            Tk::Kw("undef") => Val::Undef,
            _ => return None,
        };
        self.i += 1;
        Some(v)
    }
    fn init(&mut self) -> R<Val> {
        match self.k().clone() {
            Tk::Int(i) => {
                self.i += 1;
                Some(Val::Int(i as i32))
            }
            Tk::Kw("undef") => {
                self.i += 1;
                Some(Val::Undef)
            }
            Tk::Kw("zeroinit") => {
                self.i += 1;
                Some(Val::Zero)
            }
            Tk::Ch('{') => {
                self.i += 1;
                let mut v = vec![self.init()?];
                while self.is(',') {
                    self.i += 1;
                    v.push(self.init()?);
                }
                self.c('}')?;
                Some(Val::Agg(v))
            }
            _ => None,
        }
    }
    fn param(&mut self) -> R<(String, Ty)> {
        let n = self.sym()?;
        self.c(':')?;
        Some((n, self.ty()?))
    }
    fn call(&mut self) -> R<(String, Vec<Val>)> {
        self.eat(&Tk::Kw("call"))?;
        let f = self.sym()?;
        Some((f, self.list(|s| s.value())?))
    }
    fn stmt(&mut self) -> R<Stmt> {
        match self.k().clone() {
            Tk::Sym(n) => {
                self.i += 1;
                self.c('=')?;
                let r = match self.k().clone() {
                    Tk::Kw("alloc") => {
                        self.i += 1;
                        Rhs::Alloc(self.ty()?)
                    }
                    Tk::Kw("load") => {
                        self.i += 1;
                        Rhs::Load(self.sym()?)
                    }
                    Tk::Kw("getptr") => {
                        self.i += 1;
                        let s = self.sym()?;
                        self.c(',')?;
                        Rhs::GetPtr(s, self.value()?)
                    }
                    Tk::Kw("getelemptr") => {
                        self.i += 1;
                        let s = self.sym()?;
                        self.c(',')?;
                        Rhs::Gep(s, self.value()?)
                    }
                    Tk::Op(o) => {
                        self.i += 1;
                        let a = self.value()?;
                        self.c(',')?;
                        Rhs::Bin(o, a, self.value()?)
                    }
                    Tk::Kw("call") => {
                        let (f, a) = self.call()?;
                        Rhs::Call(f, a)
                    }
                    _ => return None,
                };
                Some(Stmt::Def(n, r))
            }
            Tk::Kw("store") => {
                self.i += 1;
                let v = if let Tk::Sym(s) = self.k().clone() {
                    self.i += 1;
                    Val::Sym(s)
                } else {
                    self.init()?
                };
                self.c(',')?;
                Some(Stmt::Store(v, self.sym()?))
            }
            Tk::Kw("call") => {
                let (f, a) = self.call()?;
                Some(Stmt::Call(f, a))
            }
            Tk::Kw("br") => {
                self.i += 1;
                let c = self.value()?;
                self.c(',')?;
                let t = self.sym()?;
                let ta = self.opt_list(|s| s.value())?;
                self.c(',')?;
                let e = self.sym()?;
                let ea = self.opt_list(|s| s.value())?;
                Some(Stmt::Br(c, t, ta, e, ea))
            }
            Tk::Kw("jump") => {
                self.i += 1;
                let t = self.sym()?;
                Some(Stmt::Jump(t, self.opt_list(|s| s.value())?))
            }
            Tk::Kw("ret") => {
                let l = self.t[self.i].e.0;
                self.i += 1;
                // the value is on the same line; nothing else may follow on it
                if self.t[self.i].s.0 == l { Some(Stmt::Ret(Some(self.value()?))) } else { Some(Stmt::Ret(None)) }
            }
            _ => None,
        }
    }
    fn block(&mut self) -> R<Block> {
        let name = self.sym()?;
        let params = self.opt_list(|s| s.param())?;
        self.c(':')?;
        let mut stmts = vec![];
        loop {
            let s = self.stmt()?;
            let end = matches!(s, Stmt::Br(..) | Stmt::Jump(..) | Stmt::Ret(_));
            stmts.push(s);
            if end {
                return Some(Block { name, params, stmts });
            }
        }
    }
    fn item(&mut self) -> R<Item> {
        match self.k().clone() {
            Tk::Kw("global") => {
                self.i += 1;
                let n = self.sym()?;
                self.c('=')?;
                self.eat(&Tk::Kw("alloc"))?;
                let t = self.ty()?;
                self.c(',')?;
                Some(Item::Global(n, t, self.init()?))
            }
            Tk::Kw("decl") => {
                self.i += 1;
                let n = self.sym()?;
                let p = self.list(|s| s.ty())?;
                Some(Item::Decl(n, p, self.ret_ty()?))
            }
            Tk::Kw("fun") => {
                self.i += 1;
                let n = self.sym()?;
                let p = self.list(|s| s.param())?;
                let r = self.ret_ty()?;
                self.c('{')?;
                let mut b = vec![self.block()?];
                while !self.is('}') {
                    b.push(self.block()?);
                }
                self.c('}')?;
                Some(Item::Fun(n, p, r, b))
            }
            _ => None,
        }
    }
}

/// None if the token sequence is not derivable
pub fn parse(t: &[Tok]) -> Option<Vec<Item>> {
    if t.iter().any(|x| x.k == Tk::Err) {
        return None;
    }
    let mut p = P { t, i: 0 };
    let mut v = vec![];
    while *p.k() != Tk::End {
        v.push(p.item()?);
    }
    Some(v)
}

// ---------------------------------------------------------------- the crate's tree in the same terms

pub fn ty_of(a: &AstBox) -> Option<Ty> {
    Some(match &a.kind {
        AstKind::IntType(_) => Ty::I32,
        AstKind::ArrayType(x) => Ty::Arr(Box::new(ty_of(&x.base)?), x.len as u64),
        AstKind::PointerType(x) => Ty::Ptr(Box::new(ty_of(&x.base)?)),
        AstKind::FunType(x) => Ty::Fun(x.params.iter().map(ty_of).collect::<Option<_>>()?, match &x.ret {
            Some(r) => Some(Box::new(ty_of(r)?)),
            None => None,
        }),
        _ => return None,
    })
}
fn val_of(a: &AstBox) -> Option<Val> {
    Some(match &a.kind {
        AstKind::SymbolRef(s) => Val::Sym(s.symbol.clone()),
        AstKind::IntVal(i) => Val::Int(i.value),
        AstKind::UndefVal(_) => Val::Undef,
        AstKind::ZeroInit(_) => Val::Zero,
        AstKind::Aggregate(x) => Val::Agg(x.elems.iter().map(val_of).collect::<Option<_>>()?),
        _ => return None,
    })
}
fn vals_of(a: &[AstBox]) -> Option<Vec<Val>> {
    a.iter().map(val_of).collect()
}
fn stmt_of(a: &AstBox) -> Option<Stmt> {
    Some(match &a.kind {
        AstKind::SymbolDef(d) => Stmt::Def(d.name.clone(), match &d.value.kind {
            AstKind::MemDecl(x) => Rhs::Alloc(ty_of(&x.ty)?),
            AstKind::Load(x) => Rhs::Load(x.symbol.clone()),
            AstKind::GetPointer(x) => Rhs::GetPtr(x.symbol.clone(), val_of(&x.value)?),
            AstKind::GetElementPointer(x) => Rhs::Gep(x.symbol.clone(), val_of(&x.value)?),
            AstKind::BinaryExpr(x) => Rhs::Bin(op_name(x.op), val_of(&x.lhs)?, val_of(&x.rhs)?),
            AstKind::FunCall(x) => Rhs::Call(x.fun.clone(), vals_of(&x.args)?),
            _ => return None,
        }),
        AstKind::Store(x) => Stmt::Store(val_of(&x.value)?, x.symbol.clone()),
        AstKind::FunCall(x) => Stmt::Call(x.fun.clone(), vals_of(&x.args)?),
        AstKind::Branch(x) => Stmt::Br(val_of(&x.cond)?, x.tbb.clone(), vals_of(&x.targs)?, x.fbb.clone(), vals_of(&x.fargs)?),
        AstKind::Jump(x) => Stmt::Jump(x.target.clone(), vals_of(&x.args)?),
        AstKind::Return(x) => Stmt::Ret(match &x.value {
            Some(v) => Some(val_of(v)?),
            None => None,
        }),
        AstKind::Error(_) => Stmt::Err,
        _ => return None,
    })
}
pub fn item_of(a: &AstBox) -> Option<Item> {
    let params = |p: &[(String, AstBox)]| -> Option<Vec<(String, Ty)>> { p.iter().map(|(n, t)| Some((n.clone(), ty_of(t)?))).collect() };
    let ret = |r: &Option<AstBox>| -> Option<Option<Ty>> {
        match r {
            Some(r) => Some(Some(ty_of(r)?)),
            None => Some(None),
        }
    };
    Some(match &a.kind {
        AstKind::GlobalDef(x) => match &x.value.kind {
            AstKind::GlobalDecl(d) => Item::Global(x.name.clone(), ty_of(&d.ty)?, val_of(&d.init)?),
            _ => return None,
        },
        AstKind::FunDecl(x) => Item::Decl(x.name.clone(), x.params.iter().map(ty_of).collect::<Option<_>>()?, ret(&x.ret)?),
        AstKind::FunDef(x) => {
            let mut bs = vec![];
            for b in &x.bbs {
                match &b.kind {
                    AstKind::Block(b) => bs.push(Block { name: b.name.clone(), params: params(&b.params)?, stmts: b.stmts.iter().map(stmt_of).collect::<Option<_>>()? }),
                    _ => return None,
                }
            }
            Item::Fun(x.name.clone(), params(&x.params)?, ret(&x.ret)?, bs)
        }
        AstKind::Error(_) => Item::Err,
        _ => return None,
    })
}

// ---------------------------------------------------------------- static rules

/// the outcome of the static rules: canonical text of the program, an error, or not prescribed
pub enum Static {
    Ok(String),
    Bad(&'static str),
    Open(&'static str),
}

fn tstr(t: &Ty) -> String {
    match t {
        Ty::I32 => "i32".into(),
        Ty::Arr(b, n) => format!("[{} x {}]", n, tstr(b)),
        Ty::Ptr(b) => format!("ptr({})", tstr(b)),
        Ty::Fun(p, r) => format!("fn({})->{}", p.iter().map(tstr).collect::<Vec<_>>().join(","), r.as_ref().map_or("unit".into(), |r| tstr(r))),
    }
}
fn tag(n: &str) -> String {
    if is_temp(n) { String::new() } else { format!(" '{n}'") }
}

fn init_text(t: &Ty, v: &Val) -> Result<String, &'static str> {
    Ok(match v {
        Val::Undef => format!("undef {}", tstr(t)),
        Val::Zero => format!("zero {}", tstr(t)),
        Val::Int(i) => {
            if *t != Ty::I32 {
                return Err("integer for another type");
            }
            format!("int {i}")
        }
        Val::Agg(es) => {
            let Ty::Arr(b, n) = t else { return Err("aggregate for another type") };
            if *n != es.len() as u64 {
                return Err("wrong number of elements");
            }
            let v: Result<Vec<String>, _> = es.iter().map(|e| init_text(b, e)).collect();
            format!("agg {} {{{}}}", tstr(t), v?.join(", "))
        }
        Val::Sym(_) => return Err("symbol as initializer"),
    })
}

pub fn check(items: &[Item]) -> Static {
    match check_impl(items) {
        Ok(s) => Static::Ok(s),
        Err((true, w)) => Static::Bad(w),
        Err((false, w)) => Static::Open(w),
    }
}

type E = (bool, &'static str);
const fn bad(w: &'static str) -> E {
    (true, w)
}
const fn open(w: &'static str) -> E {
    (false, w)
}

fn check_impl(items: &[Item]) -> Result<String, E> {
    // an error anywhere makes the text invalid, so "open" is only returned when nothing is certainly bad
    let mut firstopen: Option<E> = None;
    let mut globals: HashMap<String, (usize, Ty)> = HashMap::new();
    let mut funcs: HashMap<String, (Vec<Ty>, Option<Ty>)> = HashMap::new();
    let mut gout = String::new();
    let mut fout = String::new();
    let mut ng = 0;
    for it in items {
        match it {
            Item::Global(n, t, v) => {
                let i = init_text(t, v).map_err(bad)?;
                if globals.contains_key(n) || funcs.contains_key(n) {
                    return Err(bad("global defined twice"));
                }
                globals.insert(n.clone(), (ng, t.clone()));
                let _ = writeln!(gout, "global g{ng}{}: ptr({}) = {i}", tag(n), tstr(t));
                ng += 1;
            }
            Item::Decl(n, p, r) => {
                if globals.contains_key(n) || funcs.contains_key(n) {
                    return Err(bad("function defined twice"));
                }
                funcs.insert(n.clone(), (p.clone(), r.clone()));
                let _ = writeln!(fout, "decl {n} : {}", tstr(&Ty::Fun(p.clone(), r.clone().map(Box::new))));
            }
            Item::Fun(n, p, r, bs) => {
                if globals.contains_key(n) || funcs.contains_key(n) {
                    return Err(bad("function defined twice"));
                }
                let ptys: Vec<Ty> = p.iter().map(|x| x.1.clone()).collect();
                funcs.insert(n.clone(), (ptys.clone(), r.clone()));
                let _ = writeln!(fout, "fun {n} : {}", tstr(&Ty::Fun(ptys, r.clone().map(Box::new))));
                match fun(p, r, bs, &globals, &funcs) {
                    Ok(s) => fout.push_str(&s),
                    Err(e) if e.0 => return Err(e),
                    Err(e) => firstopen = firstopen.or(Some(e)),
                }
            }
            Item::Err => return Err(bad("error item")),
        }
    }
    match firstopen {
        Some(e) => Err(e),
        None => Ok(gout + &fout),
    }
}

fn succs(b: &Block) -> Vec<&String> {
    match b.stmts.last() {
        Some(Stmt::Br(_, t, _, e, _)) => vec![t, e],
        Some(Stmt::Jump(t, _)) => vec![t],
        _ => vec![],
    }
}

fn fun(params: &[(String, Ty)], ret: &Option<Ty>, bs: &[Block], globals: &HashMap<String, (usize, Ty)>, funcs: &HashMap<String, (Vec<Ty>, Option<Ty>)>) -> Result<String, E> {
    let mut opened: Option<E> = None;
    let mut out = String::new();
    let mut names: HashSet<&String> = HashSet::new();
    for (i, (n, t)) in params.iter().enumerate() {
        if !names.insert(n) || globals.contains_key(n) {
            return Err(bad("parameter name taken"));
        }
        let _ = writeln!(out, "  param p{i}{}: {}", tag(n), tstr(t));
    }
    let mut byname: HashMap<&String, &Block> = HashMap::new();
    for b in bs {
        if byname.insert(&b.name, b).is_some() {
            return Err(bad("block defined twice"));
        }
    }
    // reachable blocks, breadth first
    let mut order: Vec<&Block> = vec![];
    let mut seen = HashSet::new();
    let mut q = VecDeque::new();
    q.push_back(&bs[0]);
    seen.insert(&bs[0].name);
    while let Some(b) = q.pop_front() {
        order.push(b);
        for s in succs(b) {
            if *s == bs[0].name {
                return Err(bad("branch to the entry"));
            }
            let Some(t) = byname.get(s) else { return Err(bad("undefined block")) };
            if seen.insert(s) {
                q.push_back(t);
            }
        }
    }
    if !order[0].params.is_empty() {
        opened = Some(open("entry block with parameters"));
    }
    let idx: HashMap<&String, usize> = order.iter().enumerate().map(|(i, b)| (&b.name, i)).collect();
    let n = order.len();
    // definitions: name -> (block, position (0 = parameter), canonical, type)
    let mut defs: HashMap<&String, (usize, usize, String, Option<Ty>)> = HashMap::new();
    for (i, (nm, t)) in params.iter().enumerate() {
        defs.insert(nm, (0, 0, format!("p{i}"), Some(t.clone())));
    }
    for (k, b) in order.iter().enumerate() {
        for (j, (nm, t)) in b.params.iter().enumerate() {
            if !names.insert(nm) || globals.contains_key(nm) {
                return Err(bad("block parameter name taken"));
            }
            defs.insert(nm, (k, 0, format!("b{k}p{j}"), Some(t.clone())));
        }
        for (i, s) in b.stmts.iter().enumerate() {
            if let Stmt::Def(nm, _) = s {
                if !names.insert(nm) || globals.contains_key(nm) {
                    return Err(bad("symbol name taken"));
                }
                defs.insert(nm, (k, i + 1, format!("v{k}.{i}"), None));
            }
        }
    }
    // reachability and dominators over reachable blocks
    let sc: Vec<Vec<usize>> = order.iter().map(|b| succs(b).iter().map(|s| idx[*s]).collect()).collect();
    let mut reach = vec![vec![false; n]; n];
    for b in 0..n {
        let mut st = sc[b].clone();
        while let Some(x) = st.pop() {
            if !reach[b][x] {
                reach[b][x] = true;
                st.extend(&sc[x]);
            }
        }
    }
    let dom = |d: usize, b: usize| -> bool {
        // does every path from the entry to b pass d
        if d == b || d == 0 {
            return true;
        }
        let mut vis = vec![false; n];
        let mut st = vec![0];
        vis[0] = true;
        while let Some(x) = st.pop() {
            if x == b {
                return false;
            }
            for &y in &sc[x] {
                if y != d && !vis[y] {
                    vis[y] = true;
                    st.push(y);
                }
            }
        }
        true
    };
    // types of definitions follow breadth-first order
    for (k, b) in order.iter().enumerate() {
        let ps: Vec<String> = b.params.iter().map(|(n, t)| format!("{}{}", tstr(t), tag(n))).collect();
        let _ = writeln!(out, "  block b{k}{} ({})", tag(&b.name), ps.join(", "));
        for (i, s) in b.stmts.iter().enumerate() {
            let mut op: Option<E> = None;
            let look = |s: &String, op: &mut Option<E>| -> Result<(String, Ty), E> {
                if let Some((g, t)) = globals.get(s) {
                    return Ok((format!("g{g}"), Ty::Ptr(Box::new(t.clone()))));
                }
                let Some((dk, di, c, t)) = defs.get(s) else { return Err(bad("undefined symbol")) };
                if *dk == k {
                    if *di > i {
                        // defined later in the same block: only a path around a loop reaches the use
                        return Err(bad("used before its definition"));
                    }
                } else if !dom(*dk, k) {
                    if !reach[*dk][k] {
                        return Err(bad("defined on no path to its use"));
                    }
                    *op = Some(open("definition does not dominate the use"));
                }
                match t {
                    Some(t) => Ok((c.clone(), t.clone())),
                    // a type not known yet can only belong to a definition that does not dominate
                    None => {
                        *op = Some(open("definition does not dominate the use"));
                        Err(open("definition does not dominate the use"))
                    }
                }
            };
            let value = |t: &Ty, v: &Val, op: &mut Option<E>| -> Result<String, E> {
                match v {
                    Val::Sym(s) => {
                        let (c, st) = look(s, op)?;
                        if st != *t {
                            return Err(bad("type mismatch"));
                        }
                        Ok(c)
                    }
                    v => init_text(t, v).map_err(bad),
                }
            };
            let args = |ts: &[Ty], vs: &[Val], op: &mut Option<E>| -> Result<String, E> {
                if ts.len() != vs.len() {
                    return Err(bad("wrong number of arguments"));
                }
                let mut o = vec![];
                for (t, v) in ts.iter().zip(vs) {
                    o.push(value(t, v, op)?);
                }
                Ok(o.join(", "))
            };
            let call = |f: &String, a: &Vec<Val>, op: &mut Option<E>| -> Result<(String, Option<Ty>), E> {
                let Some((ps, r)) = funcs.get(f) else { return Err(bad("undefined function")) };
                Ok((format!("call {f}({})", args(ps, a, op)?), r.clone()))
            };
            let bargs = |bn: &String, a: &Vec<Val>, op: &mut Option<E>| -> Result<String, E> {
                let t: Vec<Ty> = order[idx[bn]].params.iter().map(|x| x.1.clone()).collect();
                Ok(format!("b{}({})", idx[bn], args(&t, a, op)?))
            };
            let ptr = |s: &String, op: &mut Option<E>| -> Result<(String, Ty), E> {
                let (c, t) = look(s, op)?;
                match t {
                    Ty::Ptr(b) => Ok((c, *b)),
                    _ => Err(bad("pointer expected")),
                }
            };
            let r: Result<(String, String, String, Option<(&String, Ty)>), E> = (|| {
                Ok(match s {
                    Stmt::Def(nm, r) => {
                        let (text, t) = match r {
                            Rhs::Alloc(t) => ("alloc".into(), Ty::Ptr(Box::new(t.clone()))),
                            Rhs::Load(s) => {
                                let (c, b) = ptr(s, &mut op)?;
                                (format!("load {c}"), b)
                            }
                            Rhs::GetPtr(s, v) => {
                                let (c, b) = ptr(s, &mut op)?;
                                let v = value(&Ty::I32, v, &mut op)?;
                                (format!("getptr {c} [{v}]"), Ty::Ptr(Box::new(b)))
                            }
                            Rhs::Gep(s, v) => {
                                let (c, b) = ptr(s, &mut op)?;
                                let Ty::Arr(e, _) = b else { return Err(bad("pointer to array expected")) };
                                let v = value(&Ty::I32, v, &mut op)?;
                                (format!("getelemptr {c} [{v}]"), Ty::Ptr(e))
                            }
                            Rhs::Bin(o, a, b) => {
                                let a = value(&Ty::I32, a, &mut op)?;
                                let b = value(&Ty::I32, b, &mut op)?;
                                (format!("{o} {a}, {b}"), Ty::I32)
                            }
                            Rhs::Call(f, a) => {
                                let (t, r) = call(f, a, &mut op)?;
                                let Some(r) = r else { return Err(bad("unit value named")) };
                                (t, r)
                            }
                        };
                        (tag(nm), tstr(&t), text, Some((nm, t)))
                    }
                    Stmt::Store(v, d) => {
                        let (c, b) = ptr(d, &mut op)?;
                        let v = value(&b, v, &mut op)?;
                        (String::new(), "unit".into(), format!("store {v} -> {c}"), None)
                    }
                    Stmt::Call(f, a) => {
                        let (t, r) = call(f, a, &mut op)?;
                        (String::new(), r.map_or("unit".into(), |r| tstr(&r)), t, None)
                    }
                    Stmt::Br(c, t, ta, e, ea) => {
                        let c = value(&Ty::I32, c, &mut op)?;
                        let ta2 = bargs(t, ta, &mut op)?;
                        let ea2 = bargs(e, ea, &mut op)?;
                        if t == e && (!ta.is_empty() || !ea.is_empty()) {
                            return Err(bad("same targets with arguments"));
                        }
                        (String::new(), "unit".into(), format!("br {c} {ta2} {ea2}"), None)
                    }
                    Stmt::Jump(t, a) => (String::new(), "unit".into(), format!("jump {}", bargs(t, a, &mut op)?), None),
                    Stmt::Ret(v) => {
                        let t = match (ret, v) {
                            (None, None) => String::new(),
                            (Some(t), Some(v)) => value(t, v, &mut op)?,
                            _ => return Err(bad("return value does not match")),
                        };
                        (String::new(), "unit".into(), format!("ret {t}"), None)
                    }
                    Stmt::Err => return Err(bad("error statement")),
                })
            })();
            opened = opened.or(op);
            match r {
                Ok((nm, t, text, d)) => {
                    let _ = writeln!(out, "    v{k}.{i}{nm}: {t} = {text}");
                    if let Some((n, t)) = d {
                        defs.get_mut(n).unwrap().3 = Some(t);
                    }
                }
                // a type error after an open question may be an artefact of it
                Err(e) if e.0 && opened.is_none() => return Err(e),
                Err(e) => {
                    return Err(opened.unwrap_or(if e.0 { open("error after an open question") } else { e }));
                }
            }
        }
    }
    match opened {
        Some(e) => Err(e),
        None => Ok(out),
    }
}
