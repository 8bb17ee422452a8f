//! Inlining of helper functions that carry no contract, and lowering of `write!`.
use crate::source::{Found, Source};
use crate::pattern::HasExit;
use crate::R;
use std::collections::HashSet;
use syn::visit::Visit;
use syn::visit_mut::{self, VisitMut};
use syn::*;

struct Inl<'a> {
    src: &'a Source,
    self_ty: Option<String>,
    module: Vec<String>,
    known: &'a HashSet<String>,
    hits: &'a mut Vec<String>,
    depth: usize,
    err: Option<String>,
    /// the return type of the function that receives the inlined bodies
    ret: String,
}

/// How the body of a helper may leave early for its call to be replaced by the body.
#[derive(Clone, Copy, PartialEq)]
enum Exits {
    /// not at all
    None,
    /// by `?` (the call itself is followed by `?`)
    Try,
    /// in any way (the call is the result of the caller, of the same type)
    Any,
}

struct Early {
    ret: bool,
    tried: bool,
}
impl<'a> syn::visit::Visit<'a> for Early {
    fn visit_expr_return(&mut self, _: &'a ExprReturn) {
        self.ret = true;
    }
    fn visit_expr_try(&mut self, e: &'a ExprTry) {
        self.tried = true;
        syn::visit::visit_expr_try(self, e);
    }
    fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
}

/// `if c { ..; return X; } rest` becomes `if c { ..; X } else { rest }`, and
/// `let P = e else { ..; return X; }; rest` becomes `match e { P => { rest } _ => { ..; X } }`.
fn guards(b: &mut Block) {
    fn value(b: &Block) -> Option<Block> {
        let mut b = b.clone();
        match b.stmts.pop()? {
            Stmt::Expr(Expr::Return(r), _) => {
                if let Some(e) = r.expr {
                    b.stmts.push(Stmt::Expr(*e, None));
                }
            }
            _ => return None,
        };
        Some(b)
    }
    for i in 0..b.stmts.len() {
        let new: Option<Expr> = match &b.stmts[i] {
            Stmt::Expr(Expr::If(f), semi) if f.else_branch.is_none() && (i + 1 < b.stmts.len() || semi.is_some()) => value(&f.then_branch).map(|t| {
                let c = &f.cond;
                let mut rest: Block = parse_quote!({});
                rest.stmts = b.stmts[i + 1..].to_vec();
                guards(&mut rest);
                parse_quote!(if #c #t else #rest)
            }),
            Stmt::Local(l) => l.init.as_ref().and_then(|n| n.diverge.as_ref().map(|d| (n, d))).and_then(|(n, d)| {
                let Expr::Block(d) = &*d.1 else { return None };
                let t = value(&d.block)?;
                let (p, e) = (&l.pat, &n.expr);
                let mut rest: Block = parse_quote!({});
                rest.stmts = b.stmts[i + 1..].to_vec();
                guards(&mut rest);
                Some(parse_quote!(match #e { #p => #rest, _ => #t }))
            }),
            _ => None,
        };
        if let Some(e) = new {
            b.stmts.truncate(i);
            b.stmts.push(Stmt::Expr(e, None));
            break;
        }
    }
    if let Some(s) = b.stmts.last_mut() {
        if let Stmt::Expr(Expr::Return(r), _) = s {
            if let Some(e) = &r.expr {
                *s = Stmt::Expr((**e).clone(), None);
            }
        }
    }
}

fn ret_text(s: &Signature) -> String {
    quote::ToTokens::to_token_stream(&s.output).to_string()
}

impl<'a> Inl<'a> {
    fn lookup(&self, ty: Option<&str>, name: &str) -> Option<Found<'a>> {
        let mut segs = self.module.clone();
        if let Some(t) = ty {
            segs.push(t.to_string());
        }
        segs.push(name.to_string());
        let mut f = self.src.find(&segs);
        if f.len() == 1 {
            f.pop()
        } else {
            None
        }
    }

    fn body(&mut self, name: &str, f: &Found, args: Vec<Expr>, exits: Exits) -> Option<Expr> {
        if self.depth >= 4 {
            return None;
        }
        if f.block.stmts.iter().any(|s| matches!(s, Stmt::Item(Item::Static(_)))) {
            return None;
        }
        let mut block = f.block.clone();
        if exits != Exits::Any {
            guards(&mut block);
        }
        let mut h = Early { ret: false, tried: false };
        h.visit_block(&block);
        let ok = match exits {
            Exits::None => !h.ret && !h.tried,
            Exits::Try => !h.ret,
            Exits::Any => ret_text(f.sig) == self.ret,
        };
        if !ok {
            return None;
        }
        let mut pats: Vec<Pat> = vec![];
        for a in &f.sig.inputs {
            if let FnArg::Typed(t) = a {
                pats.push((*t.pat).clone());
            }
        }
        if pats.len() != args.len() {
            return None;
        }
        self.depth += 1;
        self.visit_block_mut(&mut block);
        self.depth -= 1;
        self.hits.push(format!("inlined helper {name}"));
        if let (true, ReturnType::Type(_, t)) = (exits == Exits::Try, &f.sig.output) {
            let text = ret_text(f.sig);
            if !text.contains('\'') && !text.contains("impl") && !text.contains("Self") {
                let b = &block;
                block = parse_quote!({ let vx_h: #t = #b; vx_h });
            }
        }
        let stmts = &block.stmts;
        Some(if pats.is_empty() {
            parse_quote!({ #(#stmts)* })
        } else if pats.len() == 1 {
            let (p, a) = (&pats[0], &args[0]);
            parse_quote!({ let #p = #a; #(#stmts)* })
        } else {
            parse_quote!({ let (#(#pats),*) = (#(#args),*); #(#stmts)* })
        })
    }
}

impl<'a> Inl<'a> {
    /// the body that stands for a call of a helper
    fn call(&mut self, e: &Expr, exits: Exits) -> Option<Expr> {
        match e {
            Expr::Paren(p) => self.call(&p.expr, exits),
            Expr::MethodCall(m) if matches!(&*m.receiver, Expr::Path(p) if p.path.is_ident("self")) => {
                let n = m.method.to_string();
                if self.known.contains(&n) {
                    return None;
                }
                let st = self.self_ty.clone();
                match st.as_deref().and_then(|t| self.lookup(Some(t), &n)) {
                    Some(f) if f.sig.receiver().is_some() => {
                        let a = m.args.iter().cloned().collect();
                        self.body(&n, &f, a, exits)
                    }
                    _ => None,
                }
            }
            Expr::Call(c) => {
                let Expr::Path(p) = &*c.func else { return None };
                let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                let n = segs.last().cloned().unwrap_or_default();
                if self.known.contains(&n) || n.starts_with(|c: char| c.is_uppercase()) {
                    return None;
                }
                let st = self.self_ty.clone();
                let f = match segs.len() {
                    1 => self.lookup(None, &n),
                    2 if segs[0] == "Self" => st.as_deref().and_then(|t| self.lookup(Some(t), &n)),
                    2 if segs[0].starts_with(|c: char| c.is_uppercase()) && Some(&segs[0]) == st.as_ref() => self.lookup(Some(&segs[0]), &n),
                    _ => None,
                };
                match f {
                    Some(f) if f.sig.receiver().is_none() => {
                        let a = c.args.iter().cloned().collect();
                        self.body(&n, &f, a, exits)
                    }
                    _ => None,
                }
            }
            _ => None,
        }
    }

    /// calls whose result is the result of the function
    fn tail(&mut self, e: &mut Expr) {
        match e {
            Expr::Block(b) => self.tail_block(&mut b.block),
            Expr::If(i) => {
                self.tail_block(&mut i.then_branch);
                if let Some((_, x)) = &mut i.else_branch {
                    self.tail(x);
                }
            }
            Expr::Match(m) => {
                for a in &mut m.arms {
                    self.tail(&mut a.body);
                }
            }
            Expr::Paren(p) => self.tail(&mut p.expr),
            Expr::MethodCall(_) | Expr::Call(_) => {
                if let Some(n) = self.call(e, Exits::Any) {
                    *e = n;
                    self.depth += 1;
                    if self.depth < 4 {
                        self.tail(e);
                    }
                    self.depth -= 1;
                }
            }
            _ => {}
        }
    }

    fn tail_block(&mut self, b: &mut Block) {
        if let Some(Stmt::Expr(e, None)) = b.stmts.last_mut() {
            self.tail(e);
        }
    }
}

impl<'a> VisitMut for Inl<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        let new = match e {
            Expr::MethodCall(_) | Expr::Call(_) => self.call(e, Exits::None),
            Expr::Try(t) => self.call(&t.expr, Exits::Try).map(|b| parse_quote!((#b)?)),
            _ => None,
        };
        if let Some(n) = new {
            *e = n;
        }
    }
}

pub fn run(src: &Source, f: &Found, block: &mut Block, known: &HashSet<String>, hits: &mut Vec<String>) -> R<()> {
    let mut i = Inl { src, self_ty: f.self_ty.clone(), module: f.module.clone(), known, hits, depth: 0, err: None, ret: ret_text(f.sig) };
    i.visit_block_mut(block);
    i.tail_block(block);
    match i.err {
        Some(e) => Err(e),
        None => Ok(()),
    }
}

/// One piece of a format string.
enum Piece {
    Lit(String),
    Arg(usize, String),
}

fn parse_fmt(s: &str) -> Option<Vec<Piece>> {
    let mut out = vec![];
    let mut cur = String::new();
    let cs: Vec<char> = s.chars().collect();
    let mut i = 0;
    let mut auto = 0;
    while i < cs.len() {
        match cs[i] {
            '{' if cs.get(i + 1) == Some(&'{') => {
                cur.push('{');
                i += 2;
            }
            '}' if cs.get(i + 1) == Some(&'}') => {
                cur.push('}');
                i += 2;
            }
            '{' => {
                let j = cs[i..].iter().position(|c| *c == '}')? + i;
                let inner: String = cs[i + 1..j].iter().collect();
                let (name, spec) = match inner.split_once(':') {
                    Some((a, b)) => (a.to_string(), b.to_string()),
                    None => (inner, String::new()),
                };
                let idx = if name.is_empty() {
                    auto += 1;
                    auto - 1
                } else {
                    name.parse().ok()?
                };
                if !cur.is_empty() {
                    out.push(Piece::Lit(std::mem::take(&mut cur)));
                }
                out.push(Piece::Arg(idx, spec));
                i = j + 1;
            }
            c => {
                cur.push(c);
                i += 1;
            }
        }
    }
    if !cur.is_empty() {
        out.push(Piece::Lit(cur));
    }
    Some(out)
}

/// `W.write_fmt(format_args!("a{0}b", x))` -> `{ W.vx_ch('a'); W.vx_put(x); W.vx_ch('b'); }`,
/// followed by `W.vx_done()`, the result of the whole.
struct Lower<'a>(&'a mut Vec<String>);

struct FmtArgs {
    lit: LitStr,
    args: Vec<Expr>,
}
impl syn::parse::Parse for FmtArgs {
    fn parse(i: syn::parse::ParseStream) -> Result<Self> {
        let lit: LitStr = i.parse()?;
        let mut args = vec![];
        while i.peek(Token![,]) {
            i.parse::<Token![,]>()?;
            if i.is_empty() {
                break;
            }
            args.push(i.parse::<Expr>()?);
        }
        Ok(FmtArgs { lit, args })
    }
}

fn fmt_args(e: &Expr) -> Option<FmtArgs> {
    if let Expr::Macro(m) = e {
        if m.mac.path.segments.last()?.ident == "format_args" {
            return m.mac.parse_body::<FmtArgs>().ok();
        }
    }
    None
}

/// Writes one argument; a choice between literals becomes a choice of what is written.
fn put(w: &Expr, a: &Expr) -> Stmt {
    fn chosen(w: &Expr, a: &Expr) -> Option<Expr> {
        fn block(w: &Expr, b: &Block) -> Option<Block> {
            let Some((Stmt::Expr(e, None), init)) = b.stmts.split_last() else { return None };
            let e = chosen(w, e)?;
            Some(parse_quote!({ #(#init)* #e }))
        }
        Some(match a {
            Expr::Paren(p) => chosen(w, &p.expr)?,
            Expr::Group(p) => chosen(w, &p.expr)?,
            Expr::Reference(r) => chosen(w, &r.expr)?,
            Expr::Block(b) => {
                let b = block(w, &b.block)?;
                parse_quote!(#b)
            }
            Expr::Lit(ExprLit { lit: Lit::Str(s), .. }) => {
                let t = s.value();
                let cs = t.chars();
                parse_quote!({ #((#w).vx_ch(#cs);)* })
            }
            Expr::If(i) => {
                let (c, t, e) = (&i.cond, block(w, &i.then_branch)?, chosen(w, &i.else_branch.as_ref()?.1)?);
                parse_quote!(if #c #t else { #e })
            }
            Expr::Match(m) => {
                let mut m = m.clone();
                for x in &mut m.arms {
                    let b = chosen(w, &x.body)?;
                    *x.body = parse_quote!({ #b });
                    x.comma = Some(Default::default());
                }
                Expr::Match(m)
            }
            _ => return None,
        })
    }
    match chosen(w, a) {
        Some(e) => parse_quote!({ #e }),
        None => parse_quote!(#w.vx_put(&(#a));),
    }
}

impl<'a> VisitMut for Lower<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        let new: Option<Expr> = match e {
            Expr::MethodCall(m) if m.method == "write_fmt" && m.args.len() == 1 => fmt_args(&m.args[0]).and_then(|fa| {
                let w = &m.receiver;
                let pieces = parse_fmt(&fa.lit.value())?;
                let mut st: Vec<Stmt> = vec![];
                for p in pieces {
                    match p {
                        Piece::Lit(l) => {
                            for c in l.chars() {
                                st.push(parse_quote!((#w).vx_ch(#c);));
                            }
                        }
                        Piece::Arg(k, spec) => {
                            let a = fa.args.get(k)?;
                            if spec.is_empty() {
                                st.push(put(&parse_quote!((#w)), a));
                            } else {
                                return None;
                            }
                        }
                    }
                }
                Some(parse_quote!({ #(#st)* (#w).vx_done() }))
            }),
            Expr::Call(c) => {
                let Expr::Path(p) = &*c.func else { return };
                if p.path.segments.last().map(|s| s.ident == "format").unwrap_or(false) && p.path.segments.len() > 1 && c.args.len() == 1 {
                    fmt_args(&c.args[0]).and_then(|fa| {
                        let pieces = parse_fmt(&fa.lit.value())?;
                        let mut st: Vec<Stmt> = vec![];
                        for p in pieces {
                            match p {
                                Piece::Lit(l) => {
                                    for c in l.chars() {
                                        st.push(parse_quote!(vx_s.vx_ch(#c);));
                                    }
                                }
                                Piece::Arg(k, spec) => {
                                    let a = fa.args.get(k)?;
                                    if spec.is_empty() {
                                        st.push(put(&parse_quote!(vx_s), a));
                                    } else {
                                        return None;
                                    }
                                }
                            }
                        }
                        Some(parse_quote!({ let mut vx_s = vx_new_string(); #(#st)* vx_s }))
                    })
                } else {
                    None
                }
            }
            _ => None,
        };
        if let Some(n) = new {
            self.0.push("write!/format! lowered to per-character pushes".into());
            *e = n;
        }
    }
}

/// `if a && let P = e && b { .. } else { .. }` -> nested `if`s (the else block is repeated)
struct LetChains<'a>(&'a mut Vec<String>);
fn conjuncts(e: &Expr, out: &mut Vec<Expr>) {
    if let Expr::Binary(b) = e {
        if matches!(b.op, BinOp::And(_)) {
            conjuncts(&b.left, out);
            conjuncts(&b.right, out);
            return;
        }
    }
    out.push(e.clone());
}
impl<'a> VisitMut for LetChains<'a> {
    fn visit_expr_if_mut(&mut self, i: &mut ExprIf) {
        visit_mut::visit_expr_if_mut(self, i);
        let mut cs = vec![];
        conjuncts(&i.cond, &mut cs);
        if cs.len() < 2 || !cs.iter().any(|c| matches!(c, Expr::Let(_))) {
            return;
        }
        let mut inner = ExprIf { cond: Box::new(cs.pop().unwrap()), ..i.clone() };
        while let Some(c) = cs.pop() {
            inner = ExprIf { cond: Box::new(c), then_branch: parse_quote!({ #inner }), ..i.clone() };
        }
        *i = inner;
        self.0.push("let chain nested".into());
    }
}
pub fn let_chains(b: &mut Block, hits: &mut Vec<String>) {
    LetChains(hits).visit_block_mut(b);
}

/// option `showargs`: `format_args!("..", a, b)` -> `(&(a), &(b),)`; the text itself is dropped, but
/// the arguments are evaluated
struct ShowArgs<'a>(&'a mut Vec<String>);
impl<'a> VisitMut for ShowArgs<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Some(fa) = fmt_args(e) {
            let args = &fa.args;
            *e = parse_quote!((#(&(#args),)*));
            self.0.push("format_args! lowered to the evaluation of its arguments".into());
        }
        visit_mut::visit_expr_mut(self, e);
    }
}
pub fn show_args(b: &mut Block, hits: &mut Vec<String>) {
    ShowArgs(hits).visit_block_mut(b);
}

pub fn lower_write(b: &mut Block, hits: &mut Vec<String>) {
    Lower(hits).visit_block_mut(b);
}

/// `let mut f = |a, b| body;` that is only called: the calls become `{ let (a, b) = (x, y); body }`
struct Locals<'a>(&'a mut Vec<String>);

struct Uses<'a>(&'a str, usize);
impl<'a, 'b> Visit<'b> for Uses<'a> {
    fn visit_ident(&mut self, i: &'b Ident) {
        if i == self.0 {
            self.1 += 1;
        }
    }
    fn visit_macro(&mut self, m: &'b Macro) {
        if m.tokens.to_string().split(|c: char| !(c.is_alphanumeric() || c == '_')).any(|w| w == self.0) {
            self.1 += 100;
        }
    }
}
struct CallOf<'a> {
    name: &'a str,
    pats: &'a [Pat],
    body: &'a Expr,
    n: usize,
}
impl<'a> VisitMut for CallOf<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        let Expr::Call(c) = e else { return };
        let Expr::Path(p) = &*c.func else { return };
        if !p.path.is_ident(self.name) || c.args.len() != self.pats.len() {
            return;
        }
        self.n += 1;
        let (pats, body) = (self.pats, self.body);
        let args: Vec<Expr> = c.args.iter().cloned().collect();
        *e = match pats.len() {
            0 => parse_quote!({ #body }),
            1 => {
                let (p, a) = (&pats[0], &args[0]);
                parse_quote!({ let #p = #a; #body })
            }
            _ => parse_quote!({ let (#(#pats),*) = (#(#args),*); #body }),
        };
    }
}
impl<'a> VisitMut for Locals<'a> {
    fn visit_block_mut(&mut self, b: &mut Block) {
        visit_mut::visit_block_mut(self, b);
        let mut i = 0;
        while i < b.stmts.len() {
            let found = match &b.stmts[i] {
                Stmt::Local(l) => match (&l.pat, &l.init) {
                    (Pat::Ident(n), Some(init)) if init.diverge.is_none() => match crate::pattern::strip(&init.expr) {
                        Expr::Closure(c) => {
                            let mut h = HasExit(false);
                            h.visit_expr(&c.body);
                            if h.0 {
                                None
                            } else {
                                let pats = c.inputs.iter().map(|p| if let Pat::Type(t) = p { (*t.pat).clone() } else { p.clone() }).collect::<Vec<_>>();
                                Some((n.ident.to_string(), pats, (*c.body).clone()))
                            }
                        }
                        _ => None,
                    },
                    _ => None,
                },
                _ => None,
            };
            if let Some((name, pats, body)) = found {
                let mut rest: Vec<Stmt> = b.stmts[i + 1..].to_vec();
                let mut u = Uses(&name, 0);
                for s in &rest {
                    u.visit_stmt(s);
                }
                let mut c = CallOf { name: &name, pats: &pats, body: &body, n: 0 };
                for s in rest.iter_mut() {
                    c.visit_stmt_mut(s);
                }
                if c.n == u.1 {
                    self.0.push(format!("inlined local closure {name}"));
                    b.stmts.truncate(i);
                    b.stmts.extend(rest);
                    continue;
                }
            }
            i += 1;
        }
    }
}
pub fn local_closures(b: &mut Block, hits: &mut Vec<String>) {
    Locals(hits).visit_block_mut(b);
}
