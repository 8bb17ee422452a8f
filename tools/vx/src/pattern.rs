//! Syntactic rewrite rules with metavariables (`__x`).
use quote::ToTokens;
use std::collections::HashMap;
use syn::visit_mut::VisitMut;
use syn::*;

#[derive(Default, Clone)]
pub struct Binds {
    pub e: HashMap<String, Expr>,
    pub p: HashMap<String, Pat>,
    pub t: HashMap<String, Type>,
}

fn toks<T: ToTokens>(t: &T) -> String {
    t.to_token_stream().to_string()
}

pub fn strip(e: &Expr) -> &Expr {
    match e {
        Expr::Paren(p) => strip(&p.expr),
        Expr::Group(p) => strip(&p.expr),
        _ => e,
    }
}

fn meta(e: &Expr) -> Option<String> {
    if let Expr::Path(p) = e {
        if let Some(i) = p.path.get_ident() {
            let s = i.to_string();
            if s.starts_with("__") {
                return Some(s);
            }
        }
    }
    None
}

pub struct HasExit(pub bool);
impl<'a> syn::visit::Visit<'a> for HasExit {
    fn visit_expr_return(&mut self, _: &'a ExprReturn) {
        self.0 = true;
    }
    fn visit_expr_try(&mut self, _: &'a ExprTry) {
        self.0 = true;
    }
    fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
}

fn has_exit(e: &Expr) -> bool {
    let mut h = HasExit(false);
    syn::visit::Visit::visit_expr(&mut h, e);
    h.0
}

pub fn m(p: &Expr, e: &Expr, b: &mut Binds) -> bool {
    let (p, e) = (strip(p), strip(e));
    if let Some(n) = meta(p) {
        if let Some(o) = b.e.get(&n) {
            return toks(o) == toks(e);
        }
        b.e.insert(n, e.clone());
        return true;
    }
    match (p, e) {
        (Expr::MethodCall(a), Expr::MethodCall(c)) => {
            a.method == c.method
                && a.args.len() == c.args.len()
                && (a.turbofish.is_none() || toks(&a.turbofish) == toks(&c.turbofish))
                && m(&a.receiver, &c.receiver, b)
                && a.args.iter().zip(&c.args).all(|(x, y)| m(x, y, b))
        }
        (Expr::Call(a), Expr::Call(c)) => {
            a.args.len() == c.args.len() && m(&a.func, &c.func, b) && a.args.iter().zip(&c.args).all(|(x, y)| m(x, y, b))
        }
        (Expr::Field(a), Expr::Field(c)) => toks(&a.member) == toks(&c.member) && m(&a.base, &c.base, b),
        (Expr::Reference(a), Expr::Reference(c)) => a.mutability.is_some() == c.mutability.is_some() && m(&a.expr, &c.expr, b),
        (Expr::Unary(a), Expr::Unary(c)) => toks(&a.op) == toks(&c.op) && m(&a.expr, &c.expr, b),
        (Expr::Binary(a), Expr::Binary(c)) => toks(&a.op) == toks(&c.op) && m(&a.left, &c.left, b) && m(&a.right, &c.right, b),
        (Expr::Assign(a), Expr::Assign(c)) => m(&a.left, &c.left, b) && m(&a.right, &c.right, b),
        (Expr::Try(a), Expr::Try(c)) => m(&a.expr, &c.expr, b),
        (Expr::Cast(a), Expr::Cast(c)) => mt(&a.ty, &c.ty, b) && m(&a.expr, &c.expr, b),
        (Expr::Index(a), Expr::Index(c)) => m(&a.expr, &c.expr, b) && m(&a.index, &c.index, b),
        (Expr::Tuple(a), Expr::Tuple(c)) => a.elems.len() == c.elems.len() && a.elems.iter().zip(&c.elems).all(|(x, y)| m(x, y, b)),
        (Expr::Array(a), Expr::Array(c)) => a.elems.len() == c.elems.len() && a.elems.iter().zip(&c.elems).all(|(x, y)| m(x, y, b)),
        (Expr::Macro(a), Expr::Macro(c)) => toks(a) == toks(c),
        (Expr::Closure(a), Expr::Closure(c)) => {
            if a.inputs.len() != c.inputs.len() {
                return false;
            }
            for (x, y) in a.inputs.iter().zip(&c.inputs) {
                let y = if let Pat::Type(t) = y { &*t.pat } else { y };
                match x {
                    Pat::Ident(i) if i.ident.to_string().starts_with("__") => {
                        b.p.insert(i.ident.to_string(), y.clone());
                    }
                    _ => {
                        if toks(x) != toks(y) && !bind_names(x, y, b) {
                            return false;
                        }
                    }
                }
            }
            let body = block_expr(&c.body);
            // `__ret…` stands for a body that may leave the function: for rules whose left side
            // hands the result to `?` at once
            if has_exit(&body) && !meta(strip(&a.body)).is_some_and(|n| n.starts_with("__ret")) {
                return false;
            }
            m(&a.body, &body, b)
        }
        (Expr::Block(a), Expr::Block(c)) => {
            a.label.is_none()
                && c.label.is_none()
                && a.block.stmts.len() == c.block.stmts.len()
                && a.block.stmts.iter().zip(&c.block.stmts).all(|(x, y)| match (x, y) {
                    (Stmt::Expr(x, s), Stmt::Expr(y, t)) => s.is_some() == t.is_some() && m(x, y, b),
                    _ => toks(x) == toks(y),
                })
        }
        _ => toks(p) == toks(e),
    }
}

/// a tuple of `__x`s binds the names of a tuple of names
fn bind_names(x: &Pat, y: &Pat, b: &mut Binds) -> bool {
    match (x, y) {
        (Pat::Tuple(x), Pat::Tuple(y)) => x.elems.len() == y.elems.len() && x.elems.iter().zip(&y.elems).all(|(x, y)| bind_names(x, y, b)),
        (Pat::Ident(x), Pat::Ident(y)) => {
            if !x.ident.to_string().starts_with("__") || y.by_ref.is_some() || y.mutability.is_some() || y.subpat.is_some() {
                return false;
            }
            let i = &y.ident;
            b.e.insert(x.ident.to_string(), parse_quote!(#i));
            true
        }
        _ => false,
    }
}

/// `{ e }` and `return e` as a closure body are `e`
fn block_expr(e: &Expr) -> Expr {
    if let Expr::Return(ExprReturn { expr: Some(x), .. }) = strip(e) {
        return block_expr(x);
    }
    if let Expr::Block(bl) = strip(e) {
        if bl.label.is_none() && bl.block.stmts.len() == 1 {
            if let Stmt::Expr(x, None) = &bl.block.stmts[0] {
                return block_expr(x);
            }
            if let Stmt::Expr(x @ Expr::Return(_), Some(_)) = &bl.block.stmts[0] {
                return block_expr(x);
            }
        }
    }
    e.clone()
}

pub fn mt(p: &Type, t: &Type, b: &mut Binds) -> bool {
    match (p, t) {
        (Type::Path(a), _) if a.path.get_ident().map(|i| i.to_string().starts_with("__")).unwrap_or(false) => {
            let n = a.path.get_ident().unwrap().to_string();
            if let Some(o) = b.t.get(&n) {
                return toks(o) == toks(t);
            }
            b.t.insert(n, t.clone());
            true
        }
        (Type::Path(a), Type::Path(c)) => {
            if a.path.segments.len() != c.path.segments.len() || a.qself.is_some() != c.qself.is_some() {
                return false;
            }
            a.path.segments.iter().zip(&c.path.segments).all(|(x, y)| {
                x.ident == y.ident
                    && match (&x.arguments, &y.arguments) {
                        (PathArguments::AngleBracketed(u), PathArguments::AngleBracketed(v)) => {
                            u.args.len() == v.args.len()
                                && u.args.iter().zip(&v.args).all(|(g, h)| match (g, h) {
                                    (GenericArgument::Type(g), GenericArgument::Type(h)) => mt(g, h, b),
                                    _ => toks(g) == toks(h),
                                })
                        }
                        (u, v) => toks(u) == toks(v),
                    }
            })
        }
        (Type::Reference(a), Type::Reference(c)) => a.mutability.is_some() == c.mutability.is_some() && mt(&a.elem, &c.elem, b),
        (Type::Tuple(a), Type::Tuple(c)) => a.elems.len() == c.elems.len() && a.elems.iter().zip(&c.elems).all(|(x, y)| mt(x, y, b)),
        (Type::Slice(a), Type::Slice(c)) => mt(&a.elem, &c.elem, b),
        (Type::Ptr(a), Type::Ptr(c)) => a.mutability.is_some() == c.mutability.is_some() && mt(&a.elem, &c.elem, b),
        _ => toks(p) == toks(t),
    }
}

pub struct Subst<'a>(pub &'a Binds);
impl<'a> Subst<'a> {
    fn raw(&self, ts: proc_macro2::TokenStream) -> proc_macro2::TokenStream {
        use proc_macro2::{Group, TokenTree};
        let mut out = proc_macro2::TokenStream::new();
        for t in ts {
            match t {
                TokenTree::Ident(i) => {
                    let n = i.to_string();
                    if let Some(x) = self.0.e.get(&n) {
                        out.extend(x.to_token_stream());
                    } else if let Some(x) = self.0.p.get(&n) {
                        out.extend(x.to_token_stream());
                    } else if let Some(x) = self.0.t.get(&n) {
                        out.extend(x.to_token_stream());
                    } else {
                        out.extend([TokenTree::Ident(i)]);
                    }
                }
                TokenTree::Group(g) => {
                    let n = Group::new(g.delimiter(), self.raw(g.stream()));
                    out.extend([TokenTree::Group(n)]);
                }
                o => out.extend([o]),
            }
        }
        out
    }
}
impl<'a> VisitMut for Subst<'a> {
    /// `vx_raw! { .. }` in a replacement: verifier syntax that is not Rust expression syntax
    fn visit_macro_mut(&mut self, m: &mut Macro) {
        if m.path.is_ident("vx_raw") {
            m.tokens = self.raw(m.tokens.clone());
        }
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Some(n) = meta(e) {
            if let Some(x) = self.0.e.get(&n) {
                *e = match x {
                    Expr::Path(_) | Expr::MethodCall(_) | Expr::Call(_) | Expr::Field(_) | Expr::Lit(_) | Expr::Block(_) | Expr::Tuple(_) => x.clone(),
                    _ => parse_quote!((#x)),
                };
                return;
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
    fn visit_pat_mut(&mut self, p: &mut Pat) {
        if let Pat::Ident(i) = p {
            if let Some(x) = self.0.p.get(&i.ident.to_string()) {
                *p = x.clone();
                return;
            }
        }
        visit_mut::visit_pat_mut(self, p);
    }
    fn visit_type_mut(&mut self, t: &mut Type) {
        if let Type::Path(a) = t {
            if let Some(i) = a.path.get_ident() {
                if let Some(x) = self.0.t.get(&i.to_string()) {
                    *t = x.clone();
                    return;
                }
            }
        }
        visit_mut::visit_type_mut(self, t);
    }
}
