// ---- shim/ast: the syntax tree types, extracted; every node stands for a tree ----
verus! {
// ---- trees ----
pub enum Tree {
    IntType, ArrayType(Box<Tree>, usize), PointerType(Box<Tree>), FunType(Seq<Tree>, Option<Box<Tree>>),
    SymbolRef(Seq<char>), IntVal(i32), UndefVal, Aggregate(Seq<Tree>), ZeroInit,
    SymbolDef(Seq<char>, Box<Tree>), GlobalDef(Seq<char>, Box<Tree>), MemDecl(Box<Tree>), GlobalDecl(Box<Tree>, Box<Tree>),
    Load(Seq<char>), Store(Box<Tree>, Seq<char>), GetPointer(Seq<char>, Box<Tree>), GetElementPointer(Seq<char>, Box<Tree>),
    BinaryExpr(BinaryOp, Box<Tree>, Box<Tree>),
    Branch(Box<Tree>, Seq<char>, Seq<Tree>, Seq<char>, Seq<Tree>), Jump(Seq<char>, Seq<Tree>),
    FunCall(Seq<char>, Seq<Tree>), Return(Option<Box<Tree>>),
    FunDef(Seq<char>, Seq<(Seq<char>, Tree)>, Option<Box<Tree>>, Seq<Tree>), Block(Seq<char>, Seq<(Seq<char>, Tree)>, Seq<Tree>),
    FunDecl(Seq<char>, Seq<Tree>, Option<Box<Tree>>), End, Error,
}
pub type AstBox = Box<ast::Ast>;
pub open spec fn trees(v: Seq<AstBox>) -> Seq<Tree> { v.map_values(|a: AstBox| a.tree()) }
pub open spec fn ptrees(v: Seq<(String, AstBox)>) -> Seq<(Seq<char>, Tree)> { v.map_values(|a: (String, AstBox)| (a.0@, a.1.tree())) }
pub open spec fn otree(a: Option<AstBox>) -> Option<Box<Tree>> { match a { Some(a) => Some(Box::new(a.tree())), None => None } }
pub mod ast {
    use super::*;
//@ item front::ast::IntType
//@ item front::ast::ArrayType
//@ item front::ast::PointerType
//@ item front::ast::FunType
//@ item front::ast::SymbolRef
//@ item front::ast::IntVal
//@ item front::ast::UndefVal
//@ item front::ast::Aggregate
//@ item front::ast::ZeroInit
//@ item front::ast::SymbolDef
//@ item front::ast::GlobalDef
//@ item front::ast::MemDecl
//@ item front::ast::GlobalDecl
//@ item front::ast::Load
//@ item front::ast::Store
//@ item front::ast::GetPointer
//@ item front::ast::GetElementPointer
//@ item front::ast::BinaryExpr
//@ item front::ast::Branch
//@ item front::ast::Jump
//@ item front::ast::FunCall
//@ item front::ast::Return
//@ item front::ast::FunDef
//@ item front::ast::Block
//@ item front::ast::FunDecl
//@ item front::ast::End
//@ item front::ast::Error
//@ item front::ast::AstKind
//@ item front::ast::Ast
impl Ast { pub uninterp spec fn tree(self) -> Tree; }
/// the tree of an `Ast`, by recursion over its parts
pub broadcast axiom fn axiom_tree(a: Ast)
    ensures #[trigger] a.tree() == kind_tree(a.kind);
pub open spec fn kind_tree(k: AstKind) -> Tree {
    match k {
        AstKind::IntType(_) => Tree::IntType,
        AstKind::ArrayType(a) => Tree::ArrayType(Box::new(a.base.tree()), a.len),
        AstKind::PointerType(a) => Tree::PointerType(Box::new(a.base.tree())),
        AstKind::FunType(a) => Tree::FunType(trees(a.params@), otree(a.ret)),
        AstKind::SymbolRef(a) => Tree::SymbolRef(a.symbol@),
        AstKind::IntVal(a) => Tree::IntVal(a.value),
        AstKind::UndefVal(_) => Tree::UndefVal,
        AstKind::Aggregate(a) => Tree::Aggregate(trees(a.elems@)),
        AstKind::ZeroInit(_) => Tree::ZeroInit,
        AstKind::SymbolDef(a) => Tree::SymbolDef(a.name@, Box::new(a.value.tree())),
        AstKind::GlobalDef(a) => Tree::GlobalDef(a.name@, Box::new(a.value.tree())),
        AstKind::MemDecl(a) => Tree::MemDecl(Box::new(a.ty.tree())),
        AstKind::GlobalDecl(a) => Tree::GlobalDecl(Box::new(a.ty.tree()), Box::new(a.init.tree())),
        AstKind::Load(a) => Tree::Load(a.symbol@),
        AstKind::Store(a) => Tree::Store(Box::new(a.value.tree()), a.symbol@),
        AstKind::GetPointer(a) => Tree::GetPointer(a.symbol@, Box::new(a.value.tree())),
        AstKind::GetElementPointer(a) => Tree::GetElementPointer(a.symbol@, Box::new(a.value.tree())),
        AstKind::BinaryExpr(a) => Tree::BinaryExpr(a.op, Box::new(a.lhs.tree()), Box::new(a.rhs.tree())),
        AstKind::Branch(a) => Tree::Branch(Box::new(a.cond.tree()), a.tbb@, trees(a.targs@), a.fbb@, trees(a.fargs@)),
        AstKind::Jump(a) => Tree::Jump(a.target@, trees(a.args@)),
        AstKind::FunCall(a) => Tree::FunCall(a.fun@, trees(a.args@)),
        AstKind::Return(a) => Tree::Return(otree(a.value)),
        AstKind::FunDef(a) => Tree::FunDef(a.name@, ptrees(a.params@), otree(a.ret), trees(a.bbs@)),
        AstKind::Block(a) => Tree::Block(a.name@, ptrees(a.params@), trees(a.stmts@)),
        AstKind::FunDecl(a) => Tree::FunDecl(a.name@, trees(a.params@), otree(a.ret)),
        AstKind::End(_) => Tree::End,
        AstKind::Error(_) => Tree::Error,
    }
}
} // mod ast
use ast::{axiom_tree, IntType, ArrayType, PointerType, FunType, SymbolRef, IntVal, UndefVal, Aggregate, ZeroInit, SymbolDef, GlobalDef, MemDecl, GlobalDecl, Load, Store, GetPointer, GetElementPointer, BinaryExpr, Branch, Jump, FunCall, Return, FunDef, Block, FunDecl, End, AstKind};

// ---- what the parser hands to the builder ----
/// a name starts with `%` or `@` and has at least one more character (C07)
pub open spec fn sym_ok(s: Seq<char>) -> bool { s.len() > 1 && (s[0] == '%' || s[0] == '@') }
pub open spec fn wf_ty(t: Tree) -> bool
    decreases t,
{
    match t {
        Tree::IntType => true,
        Tree::ArrayType(b, n) => n > 0 && wf_ty(*b),
        Tree::PointerType(b) => wf_ty(*b),
        Tree::FunType(p, r) => (forall|i: int| #![trigger p[i]] 0 <= i < p.len() ==> wf_ty(p[i])) && match r { Some(r) => wf_ty(*r), None => true },
        _ => false,
    }
}
pub open spec fn wf_init(t: Tree) -> bool
    decreases t,
{
    match t {
        Tree::IntVal(_) => true,
        Tree::UndefVal => true,
        Tree::ZeroInit => true,
        Tree::Aggregate(e) => forall|i: int| #![trigger e[i]] 0 <= i < e.len() ==> wf_init(e[i]),
        _ => false,
    }
}
pub open spec fn wf_val(t: Tree) -> bool { match t { Tree::SymbolRef(_) => true, _ => wf_init(t) } }
pub open spec fn wf_vals(v: Seq<Tree>) -> bool { forall|i: int| 0 <= i < v.len() ==> wf_val(#[trigger] v[i]) }
pub open spec fn wf_rty(r: Option<Box<Tree>>) -> bool { match r { Some(r) => wf_ty(*r), None => true } }
pub open spec fn wf_params(p: Seq<(Seq<char>, Tree)>) -> bool { forall|i: int| 0 <= i < p.len() ==> sym_ok((#[trigger] p[i]).0) && wf_ty(p[i].1) }
pub open spec fn wf_inst(t: Tree) -> bool {
    match t {
        Tree::MemDecl(t) => wf_ty(*t),
        Tree::Load(_) => true,
        Tree::GetPointer(_, v) => wf_val(*v),
        Tree::GetElementPointer(_, v) => wf_val(*v),
        Tree::BinaryExpr(_, a, b) => wf_val(*a) && wf_val(*b),
        Tree::FunCall(_, v) => wf_vals(v),
        _ => false,
    }
}
pub open spec fn wf_end(t: Tree) -> bool {
    match t {
        Tree::Branch(c, _, ta, _, fa) => wf_val(*c) && wf_vals(ta) && wf_vals(fa),
        Tree::Jump(_, a) => wf_vals(a),
        Tree::Return(v) => match v { Some(v) => wf_val(*v), None => true },
        Tree::Error => true,
        _ => false,
    }
}
pub open spec fn wf_stmt(t: Tree) -> bool {
    match t {
        Tree::SymbolDef(n, v) => sym_ok(n) && wf_inst(*v),
        Tree::Store(v, _) => wf_val(*v),
        Tree::FunCall(_, v) => wf_vals(v),
        _ => wf_end(t),
    }
}
pub open spec fn wf_block(t: Tree) -> bool {
    match t {
        Tree::Block(n, p, s) => sym_ok(n) && wf_params(p) && s.len() > 0 && wf_end(s.last()) && forall|i: int| 0 <= i < s.len() ==> wf_stmt(#[trigger] s[i]),
        _ => false,
    }
}
pub open spec fn wf_item(t: Tree) -> bool {
    match t {
        Tree::GlobalDef(n, d) => sym_ok(n) && match *d { Tree::GlobalDecl(t, i) => wf_ty(*t) && wf_init(*i), _ => false },
        Tree::FunDef(n, p, r, b) => sym_ok(n) && wf_params(p) && wf_rty(r) && b.len() > 0 && forall|i: int| 0 <= i < b.len() ==> wf_block(#[trigger] b[i]),
        Tree::FunDecl(n, p, r) => sym_ok(n) && wf_rty(r) && forall|i: int| 0 <= i < p.len() ==> wf_ty(#[trigger] p[i]),
        Tree::Error => true,
        Tree::End => true,
        _ => false,
    }
}
/// a statement that could not be read (its error is reported)
pub open spec fn broken(t: Tree) -> bool {
    match t {
        Tree::FunDef(_, _, _, b) => exists|i: int| 0 <= i < b.len() && broken_block(#[trigger] b[i]),
        _ => false,
    }
}
pub open spec fn broken_block(t: Tree) -> bool {
    match t { Tree::Block(_, _, s) => exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]) is Error, _ => false }
}
} // verus!
