use crate::pattern::{self, Binds, Subst};
use crate::source::Source;
use crate::{inline, print, FnBlock, Rules, R};
use quote::{format_ident, quote, ToTokens};
use std::collections::{BTreeMap, HashSet};
use syn::visit_mut::{self, VisitMut};
use syn::*;

/// Drops doc comments and attributes, nested macro definitions.
struct Strip;
impl VisitMut for Strip {
    fn visit_attributes_mut(&mut self, a: &mut Vec<Attribute>) {
        a.clear();
    }
    fn visit_block_mut(&mut self, b: &mut Block) {
        b.stmts.retain(|s| match s {
            Stmt::Item(Item::Macro(_)) => false,
            Stmt::Macro(m) => !m.mac.path.is_ident("macro_rules"),
            _ => true,
        });
        visit_mut::visit_block_mut(self, b);
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let Expr::Unsafe(u) = e {
            *e = Expr::Block(ExprBlock { attrs: vec![], label: None, block: u.block.clone() });
        }
    }
}

const PRIMS: &[&str] = &[
    "i8", "i16", "i32", "i64", "i128", "isize", "u8", "u16", "u32", "u64", "u128", "usize", "bool", "char", "str", "f32", "f64",
];

const RESERVED: &[&str] = &["int", "nat", "real", "proof", "spec", "ghost", "tracked", "exec"];

/// `crate::a::b::T::f` -> `T::f`; `std::mem::swap` -> `swap`; renames by `//@ path`.
struct Flatten<'a>(&'a Rules, &'a mut Vec<String>);
impl<'a> VisitMut for Flatten<'a> {
    /// local names that mean something to the verifier
    fn visit_pat_ident_mut(&mut self, p: &mut PatIdent) {
        visit_mut::visit_pat_ident_mut(self, p);
        if RESERVED.iter().any(|r| p.ident == r) {
            p.ident = quote::format_ident!("vx_{}", p.ident);
        }
    }
    fn visit_expr_path_mut(&mut self, p: &mut ExprPath) {
        visit_mut::visit_expr_path_mut(self, p);
        if p.qself.is_none() && p.path.segments.len() == 1 && RESERVED.iter().any(|r| p.path.segments[0].ident == r) {
            let n = quote::format_ident!("vx_{}", p.path.segments[0].ident);
            p.path.segments[0].ident = n;
        }
    }
    fn visit_path_mut(&mut self, p: &mut Path) {
        visit_mut::visit_path_mut(self, p);
        let full = p
            .segments
            .iter()
            .map(|s| s.ident.to_string())
            .collect::<Vec<_>>()
            .join("::");
        // longest matching suffix rename first
        if let Some(to) = self.0.paths.get(&full) {
            self.1.push(format!("path {full} => {to}"));
            if let Ok(mut np) = parse_str::<Path>(to) {
                if let (Some(l), Some(o)) = (np.segments.last_mut(), p.segments.last()) {
                    if l.arguments.is_empty() {
                        l.arguments = o.arguments.clone();
                    }
                }
                *p = np;
                return;
            }
        }
        if p.segments.len() > 1 {
            let k = p
                .segments
                .iter()
                .position(|s| {
                    let n = s.ident.to_string();
                    n.starts_with(|c: char| c.is_uppercase()) || PRIMS.contains(&n.as_str())
                })
                .unwrap_or(p.segments.len() - 1);
            // keep a primitive only when followed by an associated item
            let segs: Vec<_> = p.segments.iter().skip(k).cloned().collect();
            p.leading_colon = None;
            p.segments = segs.into_iter().collect();
            let s2 = p.segments.iter().map(|s| s.ident.to_string()).collect::<Vec<_>>().join("::");
            if let Some(to) = self.0.paths.get(&s2) {
                self.1.push(format!("path {s2} => {to}"));
                if let Ok(mut np) = parse_str::<Path>(to) {
                    if let (Some(l), Some(o)) = (np.segments.last_mut(), p.segments.last()) {
                        if l.arguments.is_empty() {
                            l.arguments = o.arguments.clone();
                        }
                    }
                    *p = np;
                }
            }
        }
    }
    fn visit_item_use_mut(&mut self, u: &mut ItemUse) {
        fn drop_mods(t: UseTree) -> UseTree {
            match t {
                UseTree::Path(p) if p.ident.to_string().starts_with(|c: char| c.is_lowercase()) => drop_mods(*p.tree),
                o => o,
            }
        }
        u.tree = drop_mods(u.tree.clone());
        u.leading_colon = None;
    }
}

const PANICS: &[&str] = &[
    "panic_fmt", "panic", "panic_display", "panic_explicit", "panic_str", "unreachable_display", "assert_failed", "panic_str_2015", "begin_panic",
    "todo", "unimplemented_default_msg", "todo_default_msg", "unreachable_default_msg", "unimplemented", "panic_nounwind",
];

struct Panics<'a>(&'a str, &'a mut Vec<String>);
impl<'a> VisitMut for Panics<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let Expr::Call(c) = e {
            if let Expr::Path(p) = &*c.func {
                let s: Vec<String> = p.path.segments.iter().map(|x| x.ident.to_string()).collect();
                if s.len() > 1 && (s.contains(&"panicking".to_string()) || s.contains(&"rt".to_string())) && PANICS.contains(&s.last().unwrap().as_str()) {
                    let f = format_ident!("{}", self.0);
                    if self.0 == "vx_refuse" {
                        *e = parse_quote!(vx_refuse(Ghost(vx_ok)));
                    } else {
                    *e = parse_quote!(#f());
                    }
                    self.1.push("panicking::* => ".to_string() + self.0);
                }
            }
        }
    }
}

struct ApplyRules<'a>(&'a [(String, Expr, Expr)], &'a mut Vec<String>);
impl<'a> VisitMut for ApplyRules<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        'again: for _ in 0..20 {
            for (txt, p, r) in self.0 {
                let mut b = Binds::default();
                if pattern::m(p, e, &mut b) {
                    let mut n = r.clone();
                    Subst(&b).visit_expr_mut(&mut n);
                    if n.to_token_stream().to_string() == e.to_token_stream().to_string() {
                        continue;
                    }
                    *e = n;
                    self.1.push(format!("rule {txt}"));
                    continue 'again;
                }
            }
            break;
        }
    }
}

struct ApplyTypes<'a>(&'a [(String, Type, Type)], &'a mut Vec<String>);
impl<'a> VisitMut for ApplyTypes<'a> {
    fn visit_type_mut(&mut self, t: &mut Type) {
        visit_mut::visit_type_mut(self, t);
        for _ in 0..10 {
            let mut hit = false;
            for (txt, p, r) in self.0 {
                let mut b = Binds::default();
                if pattern::mt(p, t, &mut b) {
                    let mut n = r.clone();
                    Subst(&b).visit_type_mut(&mut n);
                    if n.to_token_stream().to_string() == t.to_token_stream().to_string() {
                        continue;
                    }
                    *t = n;
                    self.1.push(format!("type {txt}"));
                    hit = true;
                    break;
                }
            }
            if !hit {
                break;
            }
        }
    }
}

/// Numbers loops (pre-order) and desugars `for` / `while let`.
/// `loop { if c { break; } rest }` is `while !c { rest }`.
struct LoopForm;
fn lone_break(e: &Expr) -> bool {
    match e {
        Expr::Break(b) => b.label.is_none() && b.expr.is_none(),
        Expr::Block(b) if b.label.is_none() => matches!(&b.block.stmts[..], [Stmt::Expr(e, _)] if lone_break(e)),
        _ => false,
    }
}
/// a place that can be read twice
fn place(e: &Expr) -> bool {
    match e {
        Expr::Path(_) => true,
        Expr::Field(f) => place(&f.base),
        Expr::Paren(p) => place(&p.expr),
        _ => false,
    }
}
/// an expression whose evaluation does nothing but read
fn readable(e: &Expr) -> bool {
    match e {
        Expr::Lit(_) => true,
        Expr::Reference(r) => r.mutability.is_none() && readable(&r.expr),
        Expr::Tuple(t) => t.elems.iter().all(readable),
        Expr::Paren(p) => readable(&p.expr),
        _ => place(e),
    }
}
impl LoopForm {
    fn from_loop(l: &ExprLoop) -> Option<Expr> {
        // a loop that yields a value does so by another `break`
        struct Values(bool);
        impl<'a> syn::visit::Visit<'a> for Values {
            fn visit_expr_break(&mut self, b: &'a ExprBreak) {
                self.0 |= b.expr.is_some();
            }
        }
        let mut v = Values(false);
        syn::visit::Visit::visit_block(&mut v, &l.body);
        if v.0 {
            return None;
        }
        let label = &l.label;
        let (first, rest) = l.body.stmts.split_first()?;
        match first {
            // loop { if c { break; } .. }
            Stmt::Expr(Expr::If(i), _) if i.else_branch.is_none() && !matches!(&*i.cond, Expr::Let(_)) => {
                if !matches!(&i.then_branch.stmts[..], [Stmt::Expr(e, _)] if lone_break(e)) {
                    return None;
                }
                let c: Expr = match &*i.cond {
                    Expr::Unary(ExprUnary { op: UnOp::Not(_), expr, .. }) => (**expr).clone(),
                    c => parse_quote!(!(#c)),
                };
                Some(parse_quote!(#label while #c { #(#rest)* }))
            }
            // loop { let P = e else { break }; .. }
            Stmt::Local(Local { pat, init: Some(LocalInit { expr, diverge: Some((_, d)), .. }), .. }) if lone_break(d) => {
                Some(parse_quote!(#label while let #pat = #expr { #(#rest)* }))
            }
            // loop { if let P = e { .. } else { break } }
            Stmt::Expr(Expr::If(i), _) if rest.is_empty() => {
                let (Expr::Let(c), Some((_, d))) = (&*i.cond, &i.else_branch) else { return None };
                let (pat, expr, b) = (&c.pat, &c.expr, &i.then_branch.stmts);
                lone_break(d).then(|| parse_quote!(#label while let #pat = #expr { #(#b)* }))
            }
            // loop { match e { P => .., _ => break } }
            Stmt::Expr(Expr::Match(m), _) if rest.is_empty() => {
                let [a, b] = &m.arms[..] else { return None };
                let other = match &b.pat {
                    Pat::Wild(_) => true,
                    Pat::Ident(i) => i.ident == "None" && i.subpat.is_none(),
                    Pat::Path(p) => p.path.is_ident("None"),
                    _ => false,
                };
                if !other || a.guard.is_some() || b.guard.is_some() || !lone_break(&b.body) {
                    return None;
                }
                let (pat, expr, body) = (&a.pat, &m.expr, &a.body);
                if !matches!(pat, Pat::TupleStruct(p) if p.path.is_ident("Some")) {
                    return None;
                }
                Some(match &**body {
                    Expr::Block(k) if k.label.is_none() => {
                        let s = &k.block.stmts;
                        parse_quote!(#label while let #pat = #expr { #(#s)* })
                    }
                    e => parse_quote!(#label while let #pat = #expr { #e; }),
                })
            }
            _ => None,
        }
    }
}
impl VisitMut for LoopForm {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let Expr::Loop(l) = e {
            if let Some(n) = Self::from_loop(l) {
                *e = n;
            }
        }
        // for p in [a, b] { .. }: one copy of the body per element
        if let Expr::ForLoop(f) = e {
            let arr = match &*f.expr {
                Expr::Reference(r) => &*r.expr,
                x => x,
            };
            if let Expr::Array(a) = arr {
                struct Plain(bool);
                impl<'a> syn::visit::Visit<'a> for Plain {
                    fn visit_expr(&mut self, e: &'a Expr) {
                        match e {
                            Expr::Break(_) | Expr::Continue(_) | Expr::Loop(_) | Expr::While(_) | Expr::ForLoop(_) => self.0 = false,
                            _ => syn::visit::visit_expr(self, e),
                        }
                    }
                }
                let mut v = Plain(true);
                syn::visit::Visit::visit_block(&mut v, &f.body);
                let elems: Vec<&Expr> = a.elems.iter().collect();
                if v.0 && elems.len() <= 8 && elems.iter().all(|e| readable(e)) {
                    let by_ref = matches!(&*f.expr, Expr::Reference(_));
                    let (pat, k) = (&f.pat, &f.body.stmts);
                    let copies: Vec<Expr> = elems
                        .iter()
                        .map(|e| if by_ref { parse_quote!({ let #pat = &#e; #(#k)* }) } else { parse_quote!({ let #pat = #e; #(#k)* }) })
                        .collect();
                    *e = parse_quote!({ #(#copies)* });
                    return;
                }
            }
        }
        // while let Some(x) = place: what holds behind the loop is that the place is empty
        if let Expr::While(w) = e {
            if let Expr::Let(c) = &*w.cond {
                let (label, pat, ex, body) = (&w.label, &c.pat, &c.expr, &w.body);
                let simple = matches!(&**pat, Pat::TupleStruct(p) if p.path.is_ident("Some") && p.elems.len() == 1
                    && matches!(&p.elems[0], Pat::Ident(i) if i.by_ref.is_none() && i.mutability.is_none() && i.subpat.is_none()));
                if simple && place(ex) {
                    let k = &body.stmts;
                    *e = parse_quote!(#label while #ex.is_some() {
                        match #ex { #pat => { #(#k)* } _ => { vx_panic(); } }
                    });
                }
            }
        }
    }
}

/// What each loop of a body iterates over, in the order `Loops` numbers them.
#[derive(Default)]
struct LoopPrints(Vec<String>, usize);
impl LoopPrints {
    fn push(&mut self, kind: &str, e: Option<&Expr>) {
        let t = e.map(|e| quote::ToTokens::to_token_stream(e).to_string()).unwrap_or_default();
        self.0.push(format!("{} {} {}", self.1, kind, t.split_whitespace().collect::<Vec<_>>().join(" ")));
    }
}
impl<'a> syn::visit::Visit<'a> for LoopPrints {
    fn visit_expr(&mut self, e: &'a Expr) {
        match e {
            Expr::ForLoop(f) => {
                self.push("for", Some(&f.expr));
                self.visit_expr(&f.expr);
                self.1 += 1;
                self.visit_block(&f.body);
                self.1 -= 1;
            }
            Expr::While(w) => {
                self.push("while", Some(&w.cond));
                match &*w.cond {
                    Expr::Let(l) => self.visit_expr(&l.expr),
                    c => self.visit_expr(c),
                }
                self.1 += 1;
                self.visit_block(&w.body);
                self.1 -= 1;
            }
            Expr::Loop(l) => {
                self.push("loop", None);
                self.1 += 1;
                self.visit_block(&l.body);
                self.1 -= 1;
            }
            _ => syn::visit::visit_expr(self, e),
        }
    }
}

/// When the loops are those of the recorded order in another order: the recorded number of each.
fn realign(have: &[String], rec: &[String]) -> Option<Vec<usize>> {
    if have == rec || have.len() != rec.len() {
        return None;
    }
    let mut used = vec![false; rec.len()];
    let mut m = vec![];
    for h in have {
        let k = (0..rec.len()).find(|k| !used[*k] && rec[*k] == *h)?;
        used[k] = true;
        m.push(k);
    }
    Some(m)
}

struct Loops(usize, Option<Vec<usize>>);
impl Loops {
    fn number(&mut self) -> usize {
        let n = self.0;
        self.0 += 1;
        self.1.as_ref().map_or(n, |m| m[n])
    }
}
impl VisitMut for Loops {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::ForLoop(f) => {
                let n = self.number();
                self.visit_expr_mut(&mut f.expr);
                self.visit_block_mut(&mut f.body);
                let (it, lit) = (format_ident!("vx_it{}", n), LitInt::new(&n.to_string(), proc_macro2::Span::call_site()));
                at_continue(&mut f.body, &f.label, &lit);
                let (pat, ex, body, label) = (&f.pat, &f.expr, &f.body, &f.label);
                let stmts = &body.stmts;
                let (pat2, pre): (Pat, Option<Stmt>) = match &**pat {
                    Pat::Reference(r) => {
                        let p = &r.pat;
                        (parse_quote!(vx_ref), Some(parse_quote!(let #p = *vx_ref;)))
                    }
                    p => (p.clone(), None),
                };
                *e = parse_quote!({
                    let mut #it = (#ex).vx_into_iter();
                    __vx_beforeloop!(#lit);
                    #label loop {
                        __vx_loop!(#lit);
                        __vx_loopstart!(#lit);
                        match #it.next() {
                            None => { __vx_break!(#lit); break; }
                            Some(#pat2) => { #pre __vx_body!(#lit); #(#stmts)* __vx_bodyend!(#lit); }
                        }
                    }
                    __vx_afterloop!(#lit);
                });
            }
            Expr::While(w) => {
                let n = self.number();
                let lit = LitInt::new(&n.to_string(), proc_macro2::Span::call_site());
                if let Expr::Let(l) = &mut *w.cond {
                    self.visit_expr_mut(&mut l.expr);
                    self.visit_block_mut(&mut w.body);
                    at_continue(&mut w.body, &w.label, &lit);
                    let (pat, ex, stmts, label) = (&l.pat, &l.expr, &w.body.stmts, &w.label);
                    *e = parse_quote!({
                        __vx_beforeloop!(#lit);
                        #label loop {
                            __vx_loop!(#lit);
                            __vx_loopstart!(#lit);
                            match #ex {
                                #pat => { __vx_body!(#lit); #(#stmts)* __vx_bodyend!(#lit); }
                                _ => { break; }
                            }
                        }
                        __vx_afterloop!(#lit);
                    });
                } else {
                    self.visit_expr_mut(&mut w.cond);
                    self.visit_block_mut(&mut w.body);
                    at_continue(&mut w.body, &w.label, &lit);
                    let (c, stmts, label) = (&w.cond, &w.body.stmts, &w.label);
                    *e = parse_quote!({
                        __vx_beforeloop!(#lit);
                        #label while #c {
                            __vx_loop!(#lit);
                            __vx_loopstart!(#lit);
                            __vx_body!(#lit);
                            #(#stmts)*
                            __vx_bodyend!(#lit);
                        }
                        __vx_afterloop!(#lit);
                    });
                }
            }
            Expr::Loop(l) => {
                let n = self.number();
                let lit = LitInt::new(&n.to_string(), proc_macro2::Span::call_site());
                self.visit_block_mut(&mut l.body);
                at_continue(&mut l.body, &l.label, &lit);
                let (stmts, label) = (&l.body.stmts, &l.label);
                let plain: Expr = parse_quote!(#label loop {
                    __vx_loop!(#lit);
                    __vx_loopstart!(#lit);
                    #(#stmts)*
                    __vx_bodyend!(#lit);
                });
                struct Breaks(bool, bool);
                impl<'a> syn::visit::Visit<'a> for Breaks {
                    fn visit_expr_break(&mut self, b: &'a ExprBreak) {
                        self.0 = true;
                        self.1 |= b.expr.is_some();
                    }
                }
                let mut v = Breaks(false, false);
                syn::visit::Visit::visit_block(&mut v, &l.body);
                *e = match v {
                    Breaks(true, false) => parse_quote!({ __vx_beforeloop!(#lit); #plain __vx_afterloop!(#lit); }),
                    Breaks(false, _) => parse_quote!({ __vx_beforeloop!(#lit); #plain }),
                    _ => plain,
                };
            }
            _ => visit_mut::visit_expr_mut(self, e),
        }
    }
}

/// a loop whose value is the value of the function: `break x` is `return x`
fn tail_breaks(b: &mut Block) {
    struct B;
    impl VisitMut for B {
        fn visit_expr_mut(&mut self, e: &mut Expr) {
            match e {
                Expr::Break(b) if b.label.is_none() && b.expr.is_some() => {
                    visit_mut::visit_expr_mut(self, e);
                    if let Expr::Break(b) = e {
                        let x = &b.expr;
                        *e = parse_quote!(return #x);
                    }
                }
                Expr::Closure(_) | Expr::Loop(_) | Expr::While(_) | Expr::ForLoop(_) => {}
                _ => visit_mut::visit_expr_mut(self, e),
            }
        }
    }
    fn tail(e: &mut Expr) {
        match e {
            Expr::Block(b) if b.label.is_none() => tail_breaks(&mut b.block),
            Expr::If(i) => {
                tail_breaks(&mut i.then_branch);
                if let Some((_, e)) = &mut i.else_branch {
                    tail(e);
                }
            }
            Expr::Match(m) => m.arms.iter_mut().for_each(|a| tail(&mut a.body)),
            Expr::Loop(l) if l.label.is_none() => B.visit_block_mut(&mut l.body),
            _ => {}
        }
    }
    if let Some(Stmt::Expr(e, None)) = b.stmts.last_mut() {
        tail(e);
    }
}
/// `if c { ..; return x; } rest` is `if c { ..; x } else { rest }`, which ends in one place
fn early_returns(b: &mut Block) {
    let ret = |b: &Block| matches!(b.stmts.last(), Some(Stmt::Expr(Expr::Return(r), _)) if r.expr.is_some());
    let at = b.stmts.iter().position(|s| match s {
        Stmt::Expr(Expr::If(i), _) if i.else_branch.is_none() => ret(&i.then_branch),
        Stmt::Local(l) => match l.init.as_ref().and_then(|i| i.diverge.as_ref()) {
            Some((_, e)) => matches!(&**e, Expr::Block(b) if b.label.is_none() && ret(&b.block)),
            None => false,
        },
        _ => false,
    });
    let Some(at) = at else { return };
    if at + 1 == b.stmts.len() || !matches!(b.stmts.last(), Some(Stmt::Expr(_, None))) {
        return;
    }
    let rest: Vec<Stmt> = b.stmts.drain(at + 1..).collect();
    let mut rest: Block = parse_quote!({ #(#rest)* });
    early_returns(&mut rest);
    let value = |b: &mut Block| {
        if let Some(Stmt::Expr(Expr::Return(r), _)) = b.stmts.pop() {
            b.stmts.push(Stmt::Expr(*r.expr.unwrap(), None));
        }
    };
    match b.stmts.pop() {
        Some(Stmt::Expr(Expr::If(mut i), _)) => {
            value(&mut i.then_branch);
            let tail: Expr = parse_quote!(#rest);
            i.else_branch = Some((Default::default(), Box::new(tail)));
            b.stmts.push(Stmt::Expr(Expr::If(i), None));
        }
        Some(Stmt::Local(l)) => {
            let (pat, init) = (l.pat, l.init.unwrap());
            let (e, (_, d)) = (init.expr, init.diverge.unwrap());
            if let Expr::Block(mut d) = *d {
                value(&mut d.block);
                let d = d.block;
                b.stmts.push(Stmt::Expr(parse_quote!(match #e { #pat => #rest _ => #d }), None));
            }
        }
        _ => {}
    }
}
/// `continue` ends the body as well: `bodyend` before each one of this loop
fn at_continue(body: &mut Block, label: &Option<Label>, lit: &LitInt) {
    struct C<'a>(Option<&'a Lifetime>, &'a LitInt, bool);
    impl VisitMut for C<'_> {
        fn visit_expr_mut(&mut self, e: &mut Expr) {
            match e {
                Expr::Continue(c) if c.label.as_ref().map_or(!self.2, |l| Some(l) == self.0) => {
                    let (c, lit) = (c.clone(), self.1);
                    *e = parse_quote!({ __vx_bodyend!(#lit); #c });
                }
                Expr::Closure(_) => {}
                Expr::Loop(_) | Expr::While(_) | Expr::ForLoop(_) => {
                    let o = std::mem::replace(&mut self.2, true);
                    visit_mut::visit_expr_mut(self, e);
                    self.2 = o;
                }
                _ => visit_mut::visit_expr_mut(self, e),
            }
        }
    }
    C(label.as_ref().map(|l| &l.name), lit, false).visit_block_mut(body);
}

fn clause(l: &str) -> Option<&str> {
    let w = l.trim_start();
    ["requires", "ensures", "decreases", "returns", "opens_invariants", "no_unwind", "invariant_except_break", "invariant"]
        .into_iter()
        .find(|k| w.strip_prefix(k).is_some_and(|r| !r.starts_with(|c: char| c.is_alphanumeric() || c == '_')))
}
/// the `requires` clauses of a contract
fn requires(spec: &str) -> Option<String> {
    let (mut on, mut out) = (false, String::new());
    for l in spec.lines() {
        let k = clause(l);
        if let Some(k) = k {
            on = k == "requires";
        }
        if on {
            out.push_str(if k.is_some() { &l.trim_start()["requires".len()..] } else { l });
            out.push('\n');
        }
    }
    let out = out.trim().trim_end_matches(',').to_string();
    (!out.is_empty()).then_some(out)
}
/// a loop contract with further invariants
fn with_invariant(s: &str, inv: &str) -> String {
    let lines: Vec<&str> = s.lines().collect();
    let at = lines.iter().position(|l| clause(l) == Some("invariant"));
    let end = lines.iter().position(|l| matches!(clause(l), Some("ensures" | "decreases"))).unwrap_or(lines.len());
    let mut out = String::new();
    for (i, l) in lines.iter().enumerate() {
        if at.is_none() && i == end {
            out.push_str(&format!("    invariant {inv},\n"));
        }
        if at == Some(i) {
            out.push_str(&format!("    invariant {inv},\n{}\n", &l.trim_start()["invariant".len()..]));
        } else {
            out.push_str(l);
            out.push('\n');
        }
    }
    if at.is_none() && end == lines.len() {
        out.push_str(&format!("    invariant {inv},\n"));
    }
    out
}

/// `;` after a desugared block statement
fn fix_stmts(_b: &mut Block) {}

/// Function-local `static N: T = E;` becomes `let N = T::vx_static(K, E);`, where K numbers
/// the statics of the function.  (Helpers that hold statics are never inlined.)
struct Statics<'a>(u64, &'a mut Vec<String>);
impl<'a> VisitMut for Statics<'a> {
    fn visit_block_mut(&mut self, b: &mut Block) {
        for s in b.stmts.iter_mut() {
            if let Stmt::Item(Item::Static(st)) = s {
                let key = LitInt::new(&format!("{}u64", self.0), proc_macro2::Span::call_site());
                let (n, t, e) = (&st.ident, &st.ty, &st.expr);
                let (Type::Path(tp), Expr::Call(c)) = (&**t, &**e) else { continue };
                let (tn, args) = (&tp.path.segments.last().unwrap().ident, &c.args);
                self.1.push(format!("static {n} => value numbered within its function"));
                self.0 += 1;
                *s = parse_quote!(let #n = #tn::vx_static(#key, #args););
            }
        }
        visit_mut::visit_block_mut(self, b);
    }
}

/// `let p: *const T = e;` coerces a reference: `e` becomes `vx_addr(e)`.
struct PtrLet<'a>(&'a mut Vec<String>);
impl<'a> VisitMut for PtrLet<'a> {
    fn visit_local_mut(&mut self, l: &mut Local) {
        visit_mut::visit_local_mut(self, l);
        let Pat::Type(t) = &l.pat else { return };
        let Type::Ptr(_) = &*t.ty else { return };
        if let Some(i) = &mut l.init {
            let e = &i.expr;
            *i.expr = parse_quote!(vx_addr(#e));
            self.0.push("let p: *const T = e => vx_addr(e)".into());
        }
    }
}

struct PubFields;
impl VisitMut for PubFields {
    fn visit_fields_mut(&mut self, f: &mut Fields) {
        for x in f.iter_mut() {
            x.vis = parse_quote!(pub);
        }
    }
}

pub fn item(it: &Item, attrs: &str, rules: &Rules) -> R<String> {
    let mut it = it.clone();
    Strip.visit_item_mut(&mut it);
    let mut h = vec![];
    Flatten(rules, &mut h).visit_item_mut(&mut it);
    ApplyTypes(&rules.types, &mut h).visit_item_mut(&mut it);
    if matches!(it, Item::Const(_)) {
        ApplyRules(&rules.exprs, &mut h).visit_item_mut(&mut it);
    }
    match &mut it {
        Item::Struct(s) => {
            s.vis = parse_quote!(pub);
            PubFields.visit_fields_mut(&mut s.fields);
        }
        Item::Enum(s) => s.vis = parse_quote!(pub),
        Item::Type(s) => s.vis = parse_quote!(pub),
        Item::Const(s) => s.vis = parse_quote!(pub),
        Item::Trait(s) => s.vis = parse_quote!(pub),
        _ => {}
    }
    let mut out = String::new();
    out.push_str(attrs);
    out.push('\n');
    print::print(it.to_token_stream(), &BTreeMap::new(), &mut out);
    out.push('\n');
    Ok(out)
}

/// `closure=NAME`: the body of the closure passed to the only call of method NAME that is given
/// one; its parameters are renamed to `vx_c0`, `vx_c1`, ..
fn closure_arg(b: &Block, call: &str) -> R<Block> {
    struct Find<'a>(&'a str, Vec<ExprClosure>);
    impl<'a, 'b> syn::visit::Visit<'b> for Find<'a> {
        fn visit_expr_method_call(&mut self, c: &'b ExprMethodCall) {
            if c.method == self.0 {
                for a in &c.args {
                    if let Expr::Closure(k) = crate::pattern::strip(a) {
                        self.1.push(k.clone());
                    }
                }
            }
            syn::visit::visit_expr_method_call(self, c);
        }
    }
    let mut f = Find(call, vec![]);
    syn::visit::Visit::visit_block(&mut f, b);
    if f.1.len() != 1 {
        return Err(format!("{} closures are passed to {call}, expected one", f.1.len()));
    }
    let k = f.1.pop().unwrap();
    let mut body: Block = match *k.body {
        Expr::Block(e) if e.label.is_none() => e.block,
        e => parse_quote!({ #e }),
    };
    struct Ren(String, Ident);
    impl VisitMut for Ren {
        fn visit_expr_path_mut(&mut self, p: &mut ExprPath) {
            if p.path.is_ident(&self.0) {
                let n = &self.1;
                *p = parse_quote!(#n);
            }
        }
    }
    for (i, p) in k.inputs.iter().enumerate() {
        let p = if let Pat::Type(t) = p { &*t.pat } else { p };
        let Pat::Ident(n) = p else { return Err("closure parameter pattern".into()) };
        Ren(n.ident.to_string(), format_ident!("vx_c{}", i)).visit_block_mut(&mut body);
    }
    Ok(body)
}

/// `Self::Name` for an associated type of the implementation
struct Assoc<'a>(&'a [(Ident, Type)]);
impl VisitMut for Assoc<'_> {
    fn visit_type_mut(&mut self, t: &mut Type) {
        visit_mut::visit_type_mut(self, t);
        if let Type::Path(p) = t {
            let s = &p.path.segments;
            if p.qself.is_none() && s.len() == 2 && s[0].ident == "Self" {
                if let Some((_, x)) = self.0.iter().find(|a| a.0 == s[1].ident) {
                    *t = x.clone();
                }
            }
        }
    }
}

pub fn func(src: &Source, b: &FnBlock, rules: &Rules, known: &HashSet<String>, vac: bool, skipped: bool, rec: Option<&Vec<String>>, hits: &mut Vec<String>) -> R<(String, Vec<String>, bool)> {
    let f = src.func(&b.path)?;
    let mut sig = f.sig.clone();
    let mut block = f.block.clone();
    if let Some(call) = b.opts.get("closure") {
        block = closure_arg(&block, call)?;
    }
    if skipped {
        block = parse_quote!({ unimplemented!() });
    }
    if !skipped && !b.opts.contains_key("noinline") {
        inline::run(src, &f, &mut block, known, hits)?;
    }
    Strip.visit_block_mut(&mut block);
    Strip.visit_signature_mut(&mut sig);
    inline::local_closures(&mut block, hits);
    let pan = match b.opts.get("panics").map(|s| s.as_str()) {
        Some("exit") => "vx_exit",
        Some("refuse") => "vx_refuse",
        _ => "vx_panic",
    };
    Panics(pan, hits).visit_block_mut(&mut block);
    Statics(0, hits).visit_block_mut(&mut block);
    PtrLet(hits).visit_block_mut(&mut block);
    crate::inline::let_chains(&mut block, hits);
    if b.opts.contains_key("showargs") {
        crate::inline::show_args(&mut block, hits);
    }
    crate::inline::lower_write(&mut block, hits);
    if !f.assoc.is_empty() {
        Assoc(&f.assoc).visit_block_mut(&mut block);
        Assoc(&f.assoc).visit_signature_mut(&mut sig);
    }
    Flatten(rules, hits).visit_block_mut(&mut block);
    Flatten(rules, hits).visit_signature_mut(&mut sig);
    ApplyTypes(&rules.types, hits).visit_block_mut(&mut block);
    ApplyTypes(&rules.types, hits).visit_signature_mut(&mut sig);
    let mut all = vec![];
    if let Some(t) = b.sections.get("rules") {
        for l in t.lines() {
            let (p, r) = l.split_once(" => ").ok_or_else(|| format!("bad rule {l}"))?;
            all.push((
                l.to_string(),
                parse_str(p).map_err(|e| format!("rule {l}: {e}"))?,
                parse_str(r).map_err(|e| format!("rule {l}: {e}"))?,
            ));
        }
    }
    all.extend(rules.exprs.iter().cloned());
    ApplyRules(&all, hits).visit_block_mut(&mut block);
    if b.sections.contains_key("exit") {
        early_returns(&mut block);
    }
    tail_breaks(&mut block);
    LoopForm.visit_block_mut(&mut block);
    let mut prints = LoopPrints::default();
    syn::visit::Visit::visit_block(&mut prints, &block);
    let order = rec.and_then(|r| realign(&prints.0, r));
    let realigned = order.is_some();
    let mut lp = Loops(0, order);
    lp.visit_block_mut(&mut block);
    fix_stmts(&mut block);
    let want: HashSet<usize> = b
        .sections
        .keys()
        .filter_map(|k| k.strip_prefix("loop ").and_then(|n| n.parse().ok()))
        .collect();
    if !skipped && !b.opts.contains_key("anyloops") {
        let have: HashSet<usize> = (0..lp.0).collect();
        if want != have {
            return Err(format!("loop structure mismatch: contract for {} loops, code has {}", want.len(), lp.0));
        }
    }
    // mutable by-value parameters
    let mut pre: Vec<Stmt> = vec![];
    let sig_mut = sig.inputs.iter().any(|a| matches!(a, FnArg::Typed(t) if matches!(&*t.pat, Pat::Ident(i) if i.mutability.is_some())));
    for a in sig.inputs.iter_mut() {
        if let FnArg::Typed(t) = a {
            if let Pat::Ident(i) = &mut *t.pat {
                if i.mutability.is_some() {
                    i.mutability = None;
                    let n = i.ident.clone();
                    pre.push(parse_quote!(let mut #n = #n;));
                }
            }
        }
    }
    // `mut self`
    for a in sig.inputs.iter_mut() {
        if let FnArg::Receiver(r) = a {
            if r.reference.is_none() && r.mutability.is_some() {
                r.mutability = None;
                struct SelfVar;
                impl VisitMut for SelfVar {
                    fn visit_expr_path_mut(&mut self, p: &mut ExprPath) {
                        if p.path.is_ident("self") {
                            *p = parse_quote!(vx_self);
                        }
                    }
                }
                SelfVar.visit_block_mut(&mut block);
                pre.push(parse_quote!(let mut vx_self = self;));
            }
        }
    }
    let mut sec = b.sections.clone();
    // what a function requires holds in its loops as well (parameters are not assigned)
    let shadowed = sig_mut || b.sections.get("sig").is_some_and(|s| s.contains("(mut ") || s.contains(", mut "));
    let bound = {
        struct Bound(HashSet<String>);
        impl<'a> syn::visit::Visit<'a> for Bound {
            fn visit_pat_ident(&mut self, p: &'a PatIdent) {
                self.0.insert(p.ident.to_string());
                syn::visit::visit_pat_ident(self, p);
            }
        }
        let mut v = Bound(HashSet::new());
        syn::visit::Visit::visit_block(&mut v, &block);
        v.0
    };
    let word = |c: char| !c.is_alphanumeric() && c != '_';
    let req = requires(&b.spec).filter(|r| !r.split(word).any(|w| bound.contains(w)));
    if let (false, Some(req)) = (shadowed, req) {
        for (k, s) in sec.iter_mut() {
            if k.starts_with("loop ") {
                *s = with_invariant(s, &req);
            }
        }
    }
    if skipped {
        sec.clear();
    } else if vac {
        let e = sec.entry("entry".into()).or_default();
        e.push_str("assert(false); // vacuity\n");
        // without isolation the first failed assertion hides the later ones
        let flat = b.sections.get("sig").is_some_and(|s| s.contains("loop_isolation(false)"));
        for n in 0..(if flat { 0 } else { lp.0 }) {
            let e = sec.entry(format!("loopstart {n}")).or_default();
            *e = format!("assert(false); // vacuity\n{e}");
        }
    }
    let stmts = &block.stmts;
    let has_exit = !skipped && sec.contains_key("exit");
    let body: proc_macro2::TokenStream = if has_exit {
        let (init, last) = stmts.split_at(stmts.len().saturating_sub(1));
        match last.first() {
            Some(Stmt::Expr(e, None)) if !matches!(sig.output, ReturnType::Default) => {
                quote!({ #(#pre)* __vx_entry!(); #(#init)* let vx_ret = #e; __vx_exit!(); vx_ret })
            }
            Some(Stmt::Expr(e, None)) => quote!({ #(#pre)* __vx_entry!(); #(#init)* #e ; __vx_exit!(); }),
            _ => quote!({ #(#pre)* __vx_entry!(); #(#stmts)* __vx_exit!(); }),
        }
    } else {
        if skipped { quote!({ unimplemented!() }) } else { quote!({ #(#pre)* __vx_entry!(); #(#stmts)* }) }
    };
    let mut out = String::new();
    if skipped {
        out.push_str("#[verifier::external_body]\n");
    }
    if let Some(a) = b.sections.get("attr") {
        out.push_str(a);
    }
    if let Some(s) = b.sections.get("sig") {
        hits.push(format!("signature override: {}", s.trim()));
        out.push_str(s.trim_end());
        out.push('\n');
    } else {
        let name = match b.opts.get("as") {
            Some(n) => format_ident!("{}", n),
            None => sig.ident.clone(),
        };
        let (g, w, ins) = (&sig.generics, &sig.generics.where_clause, &sig.inputs);
        let mut g2 = g.clone();
        g2.where_clause = None;
        let mut ts = quote!(fn #name #g2 (#ins));
        if let ReturnType::Type(_, t) = &sig.output {
            let rn = format_ident!("{}", b.opts.get("ret").map(|s| s.as_str()).unwrap_or("r"));
            if !matches!(&**t, Type::Tuple(x) if x.elems.is_empty()) && !matches!(&**t, Type::Never(_)) {
                ts = quote!(#ts -> (#rn : #t));
            } else if matches!(&**t, Type::Never(_)) {
                ts = quote!(#ts -> #t);
            }
        }
        ts = quote!(#ts #w);
        if !b.opts.contains_key("nopub") {
            out.push_str("pub ");
        }
        print::print(ts, &BTreeMap::new(), &mut out);
        out.push('\n');
    }
    out.push_str(&b.spec);
    print::print(body, &sec, &mut out);
    out.push('\n');
    Ok((out, prints.0, realigned))
}

pub fn _unused(b: &Binds) -> usize {
    b.e.len()
}
