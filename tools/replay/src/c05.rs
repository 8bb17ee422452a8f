use crate::ctx::Ctx;
use crate::rng::Rng;
use koopa::ir::*;
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};

#[derive(Clone, PartialEq, Debug)]
pub enum Ref {
    I32,
    Unit,
    Array(Box<Ref>, usize),
    Ptr(Box<Ref>),
    Fun(Vec<Ref>, Box<Ref>),
}
impl Ref {
    pub fn text(&self) -> String {
        match self {
            Ref::I32 => "i32".into(),
            Ref::Unit => "unit".into(),
            Ref::Array(b, n) => format!("[{}, {n}]", b.text()),
            Ref::Ptr(b) => format!("*{}", b.text()),
            Ref::Fun(p, r) => {
                let ps: Vec<String> = p.iter().map(|x| x.text()).collect();
                let tail = if **r == Ref::Unit { String::new() } else { format!(": {}", r.text()) };
                format!("({}){tail}", ps.join(", "))
            }
        }
    }
    pub fn size(&self, ptr: u128) -> u128 {
        match self {
            Ref::I32 => 4,
            Ref::Unit => 0,
            Ref::Array(b, n) => b.size(ptr) * *n as u128,
            _ => ptr,
        }
    }
    pub fn build(&self) -> Type {
        match self {
            Ref::I32 => Type::get_i32(),
            Ref::Unit => Type::get_unit(),
            Ref::Array(b, n) => Type::get_array(b.build(), *n),
            Ref::Ptr(b) => Type::get_pointer(b.build()),
            Ref::Fun(p, r) => Type::get_function(p.iter().map(|x| x.build()).collect(), r.build()),
        }
    }
    pub fn build_get(&self) -> Type {
        Type::get(match self {
            Ref::I32 => TypeKind::Int32,
            Ref::Unit => TypeKind::Unit,
            Ref::Array(b, n) => TypeKind::Array(b.build_get(), *n),
            Ref::Ptr(b) => TypeKind::Pointer(b.build_get()),
            Ref::Fun(p, r) => TypeKind::Function(p.iter().map(|x| x.build_get()).collect(), r.build_get()),
        })
    }
    pub fn of(t: &Type) -> Ref {
        match t.kind() {
            TypeKind::Int32 => Ref::I32,
            TypeKind::Unit => Ref::Unit,
            TypeKind::Array(b, n) => Ref::Array(Box::new(Ref::of(b)), *n),
            TypeKind::Pointer(b) => Ref::Ptr(Box::new(Ref::of(b))),
            TypeKind::Function(p, r) => Ref::Fun(p.iter().map(Ref::of).collect(), Box::new(Ref::of(r))),
        }
    }
}

pub fn gen_ref(r: &mut Rng, d: usize) -> Ref {
    if d == 0 {
        return if r.chance(1, 4) { Ref::Unit } else { Ref::I32 };
    }
    match r.below(7) {
        0 => Ref::I32,
        1 => Ref::Unit,
        2 | 3 => Ref::Array(Box::new(gen_ref(r, d - 1)), 1 + r.below(4)),
        4 | 5 => Ref::Ptr(Box::new(gen_ref(r, d - 1))),
        _ => {
            let n = r.below(4);
            Ref::Fun((0..n).map(|_| gen_ref(r, d - 1)).collect(), Box::new(gen_ref(r, d - 1)))
        }
    }
}

fn h(t: &Type) -> u64 {
    let mut h = DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

pub fn run(c: &mut Ctx) {
    c.rule = "random type descriptions: equality and hashing of two independently requested types against structural equality, rendered text and size (pointer size varied) against independent definitions; zero-length arrays must be refused".into();
    let mut n = 0u64;
    let mut pool: Vec<(Ref, Type)> = vec![];
    while c.time_left() {
        n += 1;
        let mut r = Rng::new(c.seed.wrapping_mul(1_000_003) ^ n);
        let d = r.below(5);
        let a = gen_ref(&mut r, d);
        let desc = format!("{a:?}");
        let pool2 = &mut pool;
        let ptr = *r.pick(&[1usize, 2, 4, 8, 16]);
        c.case("types", desc, true, || {
            let t = if r.chance(1, 2) { a.build() } else { a.build_get() };
            let u = if r.chance(1, 2) { a.build() } else { a.build_get() };
            if t != u || h(&t) != h(&u) {
                return Err("two requests for the same type gave unequal or differently hashed types".into());
            }
            if Ref::of(&t) != a {
                return Err(format!("type structure is {:?}", Ref::of(&t)));
            }
            if t.to_string() != a.text() || format!("{t:?}") != a.text() {
                return Err(format!("rendered as {t} / {t:?}, expected {}", a.text()));
            }
            Type::set_ptr_size(ptr);
            let s = t.size();
            Type::set_ptr_size(8);
            if s as u128 != a.size(ptr as u128) {
                return Err(format!("size {s} with {ptr}-byte pointers, expected {}", a.size(ptr as u128)));
            }
            if t.size() as u128 != a.size(8) {
                return Err("size after restoring the pointer size".into());
            }
            if t.is_i32() != (a == Ref::I32) || t.is_unit() != (a == Ref::Unit) {
                return Err("is_i32/is_unit".into());
            }
            for (b, bt) in pool2.iter() {
                if (b == &a) != (*bt == t) {
                    return Err(format!("equality with {bt} is {}", *bt == t));
                }
                if b == &a && h(bt) != h(&t) {
                    return Err("equal types with different hashes".into());
                }
            }
            if pool2.len() < 200 {
                pool2.push((a.clone(), t));
            } else {
                let i = r.below(200);
                pool2[i] = (a.clone(), t);
            }
            Ok(())
        });
        if n % 64 == 1 {
            c.case("types", "zero-length array".into(), true, || {
                let b = Type::get_i32();
                if crate::ctx::quiet(|| Type::get_array(b.clone(), 0)).is_ok() {
                    return Err("a zero-length array type was created".into());
                }
                Ok(())
            });
        }
    }
}
