//! Lookup of items and functions in an expanded crate.
use crate::R;
use syn::*;

pub struct Source {
    pub file: File,
}

pub struct Found<'a> {
    pub sig: &'a Signature,
    pub block: &'a Block,
    pub self_ty: Option<String>,
    pub module: Vec<String>,
    /// associated types of the implementation
    pub assoc: Vec<(Ident, Type)>,
}

fn assoc(im: &ItemImpl) -> Vec<(Ident, Type)> {
    im.items.iter().filter_map(|i| if let ImplItem::Type(t) = i { Some((t.ident.clone(), t.ty.clone())) } else { None }).collect()
}

pub fn type_name(t: &Type) -> String {
    match t {
        Type::Path(p) => p.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default(),
        Type::Reference(r) => type_name(&r.elem),
        Type::Ptr(r) => type_name(&r.elem),
        _ => String::new(),
    }
}

impl Source {
    pub fn load(p: &str) -> R<Self> {
        let t = std::fs::read_to_string(p).map_err(|e| format!("{p}: {e}"))?;
        Ok(Source { file: parse_file(&t).map_err(|e| format!("{p}: {e}"))? })
    }

    /// Resolves the module prefix of a path; returns the items and the remaining segments.
    fn resolve<'a, 'b>(&'a self, segs: &'b [String]) -> (&'a [Item], &'b [String], Vec<String>) {
        let mut items: &[Item] = &self.file.items;
        let mut k = 0;
        let mut m = vec![];
        'o: while k < segs.len() {
            for it in items {
                if let Item::Mod(md) = it {
                    if md.ident == segs[k].as_str() {
                        if let Some((_, is)) = &md.content {
                            items = is;
                            m.push(segs[k].clone());
                            k += 1;
                            continue 'o;
                        }
                    }
                }
            }
            break;
        }
        (items, &segs[k..], m)
    }

    pub fn module<'a>(&'a self, path: &str) -> R<&'a [Item]> {
        let segs: Vec<String> = path.split("::").map(|s| s.to_string()).collect();
        let (items, rest, _) = self.resolve(&segs);
        if rest.is_empty() { Ok(items) } else { Err(format!("module {path} not found")) }
    }

    pub fn item(&self, path: &str) -> R<Item> {
        let segs: Vec<String> = path.split("::").map(|s| s.to_string()).collect();
        let mut items: &[Item] = &self.file.items;
        for (k, s) in segs.iter().enumerate() {
            let last = k + 1 == segs.len();
            let mut next = None;
            for it in items {
                let name = match it {
                    Item::Struct(x) => x.ident.to_string(),
                    Item::Enum(x) => x.ident.to_string(),
                    Item::Type(x) => x.ident.to_string(),
                    Item::Const(x) => x.ident.to_string(),
                    Item::Trait(x) => x.ident.to_string(),
                    _ => String::new(),
                };
                if last && name == *s {
                    return Ok(it.clone());
                }
                if let (Item::Impl(im), Some(c)) = (it, segs.get(k + 1)) {
                    if type_name(&im.self_ty) == *s && k + 2 == segs.len() {
                        for ii in &im.items {
                            if let ImplItem::Const(x) = ii {
                                if x.ident == c.as_str() {
                                    let (n, t, e) = (&x.ident, &x.ty, &x.expr);
                                    return Ok(parse_quote!(const #n: #t = #e;));
                                }
                            }
                        }
                    }
                }
                if let Item::Mod(md) = it {
                    if md.ident == s.as_str() {
                        next = md.content.as_ref().map(|c| &c.1);
                    }
                }
            }
            items = next.ok_or_else(|| format!("item {path} not found"))?;
        }
        Err(format!("item {path} not found"))
    }

    pub fn func(&self, path: &str) -> R<Found<'_>> {
        let segs: Vec<String> = path.split("::").map(|s| s.to_string()).collect();
        let mut found = self.find(&segs);
        match found.len() {
            1 => Ok(found.pop().unwrap()),
            0 => Err(format!("function {path} not found")),
            _ => Err(format!("function {path} is ambiguous")),
        }
    }

    /// `mod::..::f`, `mod::..::Type::f` or `mod::..::Type@Trait::f`
    pub fn find(&self, segs: &[String]) -> Vec<Found<'_>> {
        let mut res = vec![];
        let segs_owned: Vec<String> = segs.to_vec();
        let mut items: &[Item] = &self.file.items;
        let mut k = 0;
        let mut m: Vec<String> = vec![];
        'o: while k + 1 < segs_owned.len() {
            for it in items {
                if let Item::Mod(md) = it {
                    if md.ident == segs_owned[k].as_str() {
                        if let Some((_, is)) = &md.content {
                            items = is;
                            m.push(segs_owned[k].clone());
                            k += 1;
                            continue 'o;
                        }
                    }
                }
            }
            break;
        }
        let rest = &segs_owned[k..];
        match rest.len() {
            1 => {
                for it in items {
                    if let Item::Fn(f) = it {
                        if f.sig.ident == rest[0].as_str() {
                            res.push(Found { sig: &f.sig, block: &f.block, self_ty: None, module: m.clone(), assoc: vec![] });
                        }
                    }
                }
            }
            2 => {
                let (ty, tr) = match rest[0].split_once('@') {
                    Some((a, b)) => (a.to_string(), Some(b.to_string())),
                    None => (rest[0].clone(), None),
                };
                let (trn, tra) = match &tr {
                    Some(t) => match t.split_once('/') {
                        Some((a, b)) => (Some(a.to_string()), Some(b.to_string())),
                        None => (Some(t.clone()), None),
                    },
                    None => (None, None),
                };
                for it in items {
                    match it {
                        Item::Impl(im) if type_name(&im.self_ty) == ty => {
                            if let Some(t) = &trn {
                                let seg = im.trait_.as_ref().and_then(|x| x.1.segments.last().cloned());
                                match seg {
                                    Some(sg) if sg.ident == t.as_str() => {
                                        if let Some(a) = &tra {
                                            let mut ok = false;
                                            if let PathArguments::AngleBracketed(ab) = &sg.arguments {
                                                for g in &ab.args {
                                                    if let GenericArgument::Type(gt) = g {
                                                        ok |= type_name(gt) == *a;
                                                    }
                                                }
                                            }
                                            if !ok {
                                                continue;
                                            }
                                        }
                                    }
                                    _ => continue,
                                }
                            }
                            for ii in &im.items {
                                if let ImplItem::Fn(f) = ii {
                                    if f.sig.ident == rest[1].as_str() {
                                        res.push(Found { sig: &f.sig, block: &f.block, self_ty: Some(ty.clone()), module: m.clone(), assoc: assoc(im) });
                                    }
                                }
                            }
                        }
                        Item::Trait(td) if td.ident == ty.as_str() => {
                            for ti in &td.items {
                                if let TraitItem::Fn(f) = ti {
                                    if f.sig.ident == rest[1].as_str() {
                                        if let Some(b) = &f.default {
                                            res.push(Found { sig: &f.sig, block: b, self_ty: Some(ty.clone()), module: m.clone(), assoc: vec![] });
                                        }
                                    }
                                }
                            }
                        }
                        _ => {}
                    }
                }
            }
            _ => {}
        }
        let _ = self.resolve(&[]);
        res
    }
}
