//! Rewriting of the parts that own memory, are written out, or list parameters (memory_pool.rs, tensor.rs,
//! model.rs ...): locks, atomics and counted pointers are erased, pointers become addresses, a device an
//! index into the memory `m`, iterator chains become loops.  Types are followed as the Rust source writes them.
use crate::{FnItem, World};
use quote::ToTokens;
use serde_json::{json, Value};
use std::collections::{HashMap, HashSet};
use syn::punctuated::Punctuated;
use syn::*;

type Res<T> = std::result::Result<T, String>;

#[derive(Clone, Debug)]
struct V {
    t: String,
    ty: String,      // Rust type, without references, locks and counted pointers
    own: Option<String>, // name of the local whose value this is
    sp: String,      // the same as a specification (bit-vector functions)
}
fn v(t: impl Into<String>, ty: impl Into<String>) -> V {
    V { t: t.into(), ty: ty.into(), own: None, sp: String::new() }
}
fn tn<T: ToTokens>(t: &T) -> String {
    let s: String = t.to_token_stream().to_string();
    // lifetimes go first: without blanks they would run into what follows
    let mut o = String::new();
    for w in s.split_whitespace() {
        let mut rest = w;
        while let Some(i) = rest.find('\'') {
            o.push_str(&rest[..i]);
            let j = rest[i + 1..].find(|c: char| !c.is_alphanumeric() && c != '_').map_or(rest.len(), |j| i + 1 + j);
            rest = &rest[j..];
        }
        o.push_str(rest);
    }
    o.replace("<,", "<").replace(",>", ">").replace("<>", "").replace("crate::", "")
}

pub struct GM<'a> {
    w: &'a World,
    cfg: &'a Value,
    f: &'a FnItem,
    selfty: String,
    world: bool,
    tok: bool,
    guards: Vec<String>,
    bv: bool,
    scopes: Vec<HashMap<String, V>>,
    out: Vec<String>,
    n: usize,
    cnt: HashMap<String, usize>,
    loops: Vec<Value>,
    skel: Vec<String>,
    calls: Vec<String>,
    muts: Vec<Value>,
    defs: Vec<String>,
    ok: String,
    owned: Vec<String>, // locals that own a tensor
    moved: HashSet<String>,
    has_return: bool,
    depth: usize,
    inl: usize,
    rett: String,
}

/// `Mutex<T>`, `Arc<T>`, .. stand for T
fn peel_ty(s: &str) -> String {
    let mut s = s.trim_start_matches('&').to_string();
    if let Some(x) = s.strip_prefix("mut") {
        if x.chars().next().map_or(false, |c| c.is_uppercase() || c == '[') {
            s = x.into();
        }
    }
    let s = s.trim_start_matches('&').trim_end_matches('+').to_string();
    for p in ["Mutex<", "Arc<", "Box<", "RefCell<", "Ref<", "RefMut<"] {
        if s.starts_with(p) && s.ends_with('>') {
            return peel_ty(&s[p.len()..s.len() - 1]);
        }
    }
    for p in ["Vec<", "Option<"] {
        if s.starts_with(p) && s.ends_with('>') {
            return format!("{}{}>", p, peel_ty(&s[p.len()..s.len() - 1]));
        }
    }
    if s.starts_with('[') && s.ends_with(']') && !s.contains(';') {
        return format!("[{}]", peel_ty(&s[1..s.len() - 1]));
    }
    if s.starts_with("HashMap<") {
        return s.replace("RefCell<Tensor>", "Tensor");
    }
    s
}
fn inner(ty: &str, p: &str) -> Option<String> {
    ty.strip_prefix(p).and_then(|x| x.strip_suffix('>')).map(|x| x.to_string())
}

impl<'a> GM<'a> {
    fn norm(&self, t: &Type) -> String {
        let s = tn(t);
        let st = &self.selfty;
        let s = s.replace("Self::Target", "Tensor");
        peel_ty(&s.replace("Self", st))
    }
    fn vt(&self, ty: &str) -> Res<String> {
        Ok(match ty {
            "AtomicPtr<c_void>" | "usize" => "usize".into(),
            "*mutc_void" => "usize".into(),
            "Device" => "usize".into(),
            "MemoryPool" => "Pool".into(),
            "dynDeviceImpl" | "Naive" => "NHeap".into(),
            "Tensor" => "TT".into(),
            "Parameter" => (if self.tok { "usize" } else { "MParam" }).into(),
            "Shape" | "u32" | "bool" | "u64" | "i32" => ty.into(),
            "f32" => "R".into(),
            "Option<Tensor>" => "Option<TRef>".into(),
            "HashMap<usize,usize>" => "HashMap<usize, usize>".into(),
            "HashMap<String,Tensor>" => "StatMap".into(),
            "str" | "String" => "u64".into(),
            "dynInitializer" => "MInit".into(),
            "S" | "__S" => "Ser".into(),
            "D" | "__D" => "De".into(),
            "Result<S::Ok,S::Error>" | "_serde::__private229::Result<__S::Ok,__S::Error>" => "Result<SerOk, SerErr>".into(),
            "TensorSerde" | "ShapeSerde" | "M" | "MOpt" | "Constant" | "Normal" | "Uniform" | "XavierUniform" => ty.into(),
            "T" => "dyn_".into(),
            _ => {
                if ty.starts_with("Result<") || ty.contains("::Result<") {
                    if ty.contains("::Ok,") {
                        return Ok("Result<SerOk, SerErr>".into());
                    }
                    if ty.contains("D::Error>") {
                        let i = ty.find("Result<").unwrap() + 7;
                        let j = ty.find(',').unwrap();
                        return Ok(format!("Result<{}, DeErr>", self.vt(&ty[i..j])?));
                    }
                }
                if let Some(x) = inner(ty, "Vec<") {
                    return Ok(format!("Vec<{}>", self.vt(&x)?));
                }
                if let Some(x) = inner(ty, "Option<") {
                    return Ok(format!("Option<{}>", self.vt(&x)?));
                }
                if ty.starts_with('[') {
                    return Ok(format!("[{}]", self.vt(&ty[1..ty.len() - 1])?));
                }
                return Err(format!("type {}", ty));
            }
        })
    }
    /// values that are copied, whatever reference they are reached through
    fn copy(&self, ty: &str) -> bool {
        matches!(ty, "AtomicPtr<c_void>" | "usize" | "*mutc_void" | "Device" | "u32" | "u64" | "i32" | "bool" | "f32" | "Shape" | "str" | "Option<Device>" | "")
            || (self.tok && ty == "Parameter")
    }
    fn fresh(&mut self, p: &str) -> String {
        self.n += 1;
        format!("{}_{}", p, self.n)
    }
    fn canon(&mut self, p: &str) -> String {
        let c = self.cnt.entry(p.into()).or_insert(0);
        *c += 1;
        format!("{}{}", p, *c - 1)
    }
    fn lookup(&self, n: &str) -> Option<V> {
        self.scopes.iter().rev().find_map(|s| s.get(n).cloned())
    }
    fn bind(&mut self, n: &str, x: V) {
        self.scopes.last_mut().unwrap().insert(n.into(), x);
    }
    fn strip<'b>(e: &'b Expr) -> &'b Expr {
        match e {
            Expr::Paren(p) => Self::strip(&p.expr),
            Expr::Group(p) => Self::strip(&p.expr),
            Expr::Unsafe(u) if u.block.stmts.len() == 1 => match &u.block.stmts[0] {
                Stmt::Expr(e, None) => Self::strip(e),
                _ => e,
            },
            _ => e,
        }
    }
    fn peel<'b>(e: &'b Expr) -> &'b Expr {
        match Self::strip(e) {
            Expr::Reference(r) => Self::peel(&r.expr),
            Expr::Unary(u) if matches!(u.op, UnOp::Deref(_)) => Self::peel(&u.expr),
            x => x,
        }
    }
    fn panics(b: &Block) -> bool {
        match b.stmts.last() {
            Some(Stmt::Expr(e, _)) => match Self::strip(e) {
                Expr::Call(c) => {
                    let p = tn(&c.func);
                    p.contains("panicking::panic") || p.contains("assert_failed") || p.contains("begin_panic")
                }
                Expr::Block(b) => Self::panics(&b.block),
                _ => false,
            },
            _ => false,
        }
    }
    fn callee(&self, table: &str, key: &str) -> Option<Value> {
        if self.tok && key.starts_with("M:") {
            return self.cfg[table].get(&format!("T:{}", &key[2..])).cloned();
        }
        self.cfg[table].get(key).cloned()
    }
    fn moved(&mut self, x: &V) {
        if let Some(o) = &x.own {
            if x.t == *o {
                self.moved.insert(o.clone());
            }
        }
    }
    /// a value that is used up
    fn val(&mut self, e: &Expr) -> Res<V> {
        let x = self.ex(e)?;
        self.moved(&x);
        Ok(x)
    }
    fn hoist(&mut self, t: String, ty: &str) -> V {
        let n = self.fresh("c");
        self.out.push(format!("let {} = {};", n, t));
        v(n, ty)
    }
    fn eq(&mut self, a: V, b: V, ne: bool) -> V {
        let num = |t: &str| matches!(t, "usize" | "u32" | "u64" | "i32" | "bool" | "" | "AtomicPtr<c_void>" | "Device" | "*mutc_void");
        let t = if num(&a.ty) && num(&b.ty) {
            format!("({} {} {})", a.t, if ne { "!=" } else { "==" }, b.t)
        } else {
            format!("{}meq(&{}, &{})", if ne { "!" } else { "" }, a.t.trim_start_matches('&'), b.t.trim_start_matches('&'))
        };
        let mut r = v(t, "bool");
        r.sp = format!("({} {} {})", a.sp, if ne { "!=" } else { "==" }, b.sp);
        r
    }

    fn known(&mut self, c: &Value, recv: Option<V>, args: Vec<V>, ty: &str) -> V {
        let emit = c["emit"].as_str().unwrap().to_string();
        self.calls.push(emit.clone());
        let rk = c["recv"].as_str().unwrap_or("&");
        let mut a: Vec<String> = vec![];
        if rk.starts_with('w') {
            a.push("m".into());
        }
        if let Some(x) = recv {
            let mode = rk.trim_start_matches('w');
            if self.copy(&x.ty) || mode == "." {
                a.push(x.t);
            } else {
                let bare = x.t.trim_start_matches("&mut ").trim_start_matches('&').to_string();
                a.push(match mode {
                    "&mut" => format!("&mut {}", bare),
                    _ => format!("&{}", bare),
                });
            }
        }
        for x in args {
            // the list handed over is a temporary: what the callee does to it is not seen again
            a.push(if self.tok && x.t.starts_with("&mut c_") { x.t.replacen("&mut ", "&", 1) } else { x.t });
        }
        if c["ok"].as_bool().unwrap_or(false) {
            a.push(format!("Ghost({})", self.ok));
        }
        let t = format!("{}({})", emit, a.join(", "));
        if ty == "()" {
            v(t, "()")
        } else {
            self.hoist(t, ty)
        }
    }
    /// a function that is not under contract is read in place
    fn inline(&mut self, f: &'a FnItem, recv: Option<V>, args: Vec<V>) -> Res<V> {
        if self.inl > 4 {
            return Err("recursion".into());
        }
        let b = f.block.as_ref().ok_or("no body")?;
        if tn(b).contains("return") || tn(b).contains("?;") {
            return Err(format!("return in {}", f.key));
        }
        let st = f.self_ty.as_ref().map(|t| tn(t)).unwrap_or_default();
        let mut sc = HashMap::new();
        let mut it = args.into_iter();
        let mut recv = recv;
        for p in f.sig.inputs.iter() {
            let (n, x) = match p {
                FnArg::Receiver(_) => ("self".to_string(), recv.take().or_else(|| None).ok_or("receiver")?),
                FnArg::Typed(pt) => match &*pt.pat {
                    Pat::Ident(i) => {
                        let a = it.next().ok_or("arguments")?;
                        let a = if self.copy(&a.ty) {
                            let mut h = self.hoist(a.t.clone(), &a.ty);
                            if h.ty.is_empty() {
                                let ty = self.norm(&pt.ty);
                                let vt = self.vt(&ty)?;
                                let last = self.out.pop().unwrap();
                                self.out.push(last.replacen(" = ", &format!(": {} = ", vt), 1));
                                h.ty = ty;
                            }
                            h
                        } else {
                            V { t: a.t.trim_start_matches("&mut ").trim_start_matches('&').to_string(), ..a }
                        };
                        if i.mutability.is_some() {
                            let n = self.fresh("x");
                            self.out.push(format!("let mut {} = {};", n, a.t));
                            (i.ident.to_string(), v(n, a.ty))
                        } else {
                            (i.ident.to_string(), a)
                        }
                    }
                    _ => return Err("pattern".into()),
                },
            };
            sc.insert(n, x);
        }
        let saved = std::mem::replace(&mut self.scopes, vec![sc]);
        let (sty, sf) = (std::mem::replace(&mut self.selfty, st), self.f);
        self.f = f;
        self.inl += 1;
        let r = self.stmts(&b.stmts, true);
        self.inl -= 1;
        self.scopes = saved;
        self.selfty = sty;
        self.f = sf;
        Ok(r?.unwrap_or(v("()", "()")))
    }
    fn find(&self, ty: &str, name: &str) -> Option<&'a FnItem> {
        let l: Vec<&FnItem> = self
            .w
            .fns
            .iter()
            .filter(|f| !f.module.starts_with("operators") && f.sig.ident == name && f.self_ty.as_ref().map_or(ty.is_empty() && f.trait_name.is_none() && f.module == self.f.module, |t| peel_ty(&tn(t)) == ty))
            .collect();
        if l.len() == 1 {
            Some(l[0])
        } else {
            None
        }
    }
    fn ret_ty(&self, f: &FnItem) -> String {
        match &f.sig.output {
            ReturnType::Default => "()".into(),
            ReturnType::Type(_, t) => {
                let st = f.self_ty.as_ref().map(|t| tn(t)).unwrap_or_default();
                peel_ty(&tn(t).replace("Self", &st))
            }
        }
    }
    fn lit_ty(&self, a: &V, b: &V) -> String {
        if a.ty.is_empty() { b.ty.clone() } else { a.ty.clone() }
    }

    fn ex(&mut self, e: &Expr) -> Res<V> {
        if !self.bv && self.float_arith(Self::strip(e)) {
            self.calls.push("f_any".into());
            return Ok(self.hoist("f_any()".into(), "f32"));
        }
        match Self::strip(e) {
            Expr::Lit(l) => match &l.lit {
                Lit::Int(i) if i.suffix() == "f32" => Ok(v(format!("rl(Ghost({}.0real))", i.base10_digits()), "f32")),
                Lit::Int(i) => {
                    let mut r = v(i.to_string(), i.suffix().to_string());
                    r.sp = if i.suffix().is_empty() { format!("{}u32", i.base10_digits()) } else { i.to_string() };
                    Ok(r)
                }
                Lit::Bool(b) => Ok(v(b.value.to_string(), "bool")),
                Lit::Str(s) => Ok(v(crate::gen::str_id(&s.value()), "str")),
                Lit::Float(f) => {
                    let s = f.base10_digits();
                    let s = if s.contains('.') { s.trim_end_matches('.').to_string() } else { format!("{}.0", s) };
                    let s = if s.contains('.') { s } else { format!("{}.0", s) };
                    Ok(v(format!("rl(Ghost({}real))", s), "f32"))
                }
                _ => Err("literal".into()),
            },
            Expr::Path(p) => {
                let n = tn(&p.path);
                if let Some(x) = self.lookup(&n) {
                    return Ok(x);
                }
                if n == "None" || n.ends_with("::None") {
                    return Ok(v("None", "Option<?>"));
                }
                if let Some(c) = self.w.consts.get(&format!("{}::{}", self.f.module, n)) {
                    let c = c.clone();
                    return self.ex(&c);
                }
                Err(format!("name {}", n))
            }
            Expr::Unary(u) => match &u.op {
                UnOp::Deref(_) => {
                    let x = self.ex(&u.expr)?;
                    let t = x.t.trim_start_matches("&mut ").trim_start_matches('&').to_string();
                    Ok(V { t, ..x })
                }
                UnOp::Not(_) => {
                    let x = self.ex(&u.expr)?;
                    let mut r = v(format!("!({})", x.t), x.ty);
                    r.sp = format!("!({})", x.sp);
                    Ok(r)
                }
                _ => Err("unary".into()),
            },
            Expr::Reference(r) => {
                let x = self.ex(&r.expr)?;
                if self.copy(&x.ty) {
                    return Ok(x);
                }
                let b = x.t.trim_start_matches("&mut ").trim_start_matches('&').to_string();
                Ok(V { t: format!("{}{}", if r.mutability.is_some() { "&mut " } else { "&" }, b), ..x })
            }
            Expr::Field(f) => {
                let b = self.ex(&f.base)?;
                let n = match &f.member {
                    Member::Named(i) => i.to_string(),
                    _ => return Err("tuple field".into()),
                };
                let fs = self.w.structs.get(&b.ty).ok_or(format!("fields of {}", b.ty))?;
                let ft = fs.iter().find(|x| x.0 == n).ok_or("field")?;
                let ft = peel_ty(&tn(&ft.1));
                let t = b.t.trim_start_matches("&mut ").trim_start_matches('&');
                if b.ty == "Device" {
                    return match n.as_str() {
                        "mem_pool" => Ok(v(format!("m.devs[{}]", b.t), ft)),
                        "imp" => Ok(v(format!("m.devs[{}].imp", b.t), ft)),
                        _ => Err(format!("field {}", n)),
                    };
                }
                Ok(V { t: format!("{}.{}", t, n), ty: ft, own: b.own, sp: String::new() })
            }
            Expr::Index(i) => {
                let b = self.ex(&i.expr)?;
                let k = self.ex(&i.index)?;
                let el = inner(&b.ty, "Vec<").or_else(|| if b.ty.starts_with('[') { Some(b.ty[1..b.ty.len() - 1].into()) } else { None }).ok_or(format!("index of {}", b.ty))?;
                let t = b.t.trim_start_matches("&mut ").trim_start_matches('&');
                Ok(v(format!("{}[{}]", t, k.t), el))
            }
            Expr::Cast(c) => {
                let x = self.ex(&c.expr)?;
                let ty = tn(&c.ty);
                if ty.starts_with("*mut") || ty.starts_with("*const") {
                    return Ok(V { ty: if ty.contains("Vec") { "*mutVec<f32>".into() } else { "*mutc_void".into() }, ..x });
                }
                if x.ty == "bool" {
                    let mut r = v(format!("(if {} {{ 1{} }} else {{ 0{} }})", x.t, ty, ty), ty.clone());
                    r.sp = format!("(if {} {{ 1{} }} else {{ 0{} }})", x.sp, ty, ty);
                    return Ok(r);
                }
                if ty == "usize" && matches!(x.ty.as_str(), "usize" | "AtomicPtr<c_void>" | "*mutc_void") {
                    return Ok(V { ty: "usize".into(), ..x });
                }
                if ty == "u64" && x.ty == "u32" || ty == "usize" && x.ty == "u32" || ty == "u32" && x.ty == "u32" || x.ty.is_empty() {
                    return Ok(v(format!("({} as {})", x.t, ty), ty));
                }
                Err(format!("cast {} to {}", x.ty, ty))
            }
            Expr::Binary(b) => self.bin(b),
            Expr::If(i) => self.if_(i),
            Expr::Match(m) => self.match_(m),
            Expr::Block(b) => {
                if b.label.is_some() {
                    return Err("label".into());
                }
                self.scopes.push(HashMap::new());
                let r = self.stmts(&b.block.stmts, true)?;
                self.scopes.pop();
                Ok(r.unwrap_or(v("()", "()")))
            }
            Expr::Unsafe(b) => {
                self.scopes.push(HashMap::new());
                let r = self.stmts(&b.block.stmts, true)?;
                self.scopes.pop();
                Ok(r.unwrap_or(v("()", "()")))
            }
            Expr::Try(t) => {
                if !self.owned.is_empty() {
                    return Err("? with tensors".into());
                }
                let x = self.ex(&t.expr)?;
                let ty = x.ty.strip_prefix("Result<").and_then(|s| s.rfind(',').map(|i| s[..i].to_string())).unwrap_or("()".into());
                self.has_return = true;
                Ok(self.hoist(format!("match {} {{ Ok(x_) => x_, Err(e_) => return Err(e_) }}", x.t), &ty))
            }
            Expr::Return(r) => {
                if self.inl > 0 || !self.owned.is_empty() {
                    return Err("return".into());
                }
                self.has_return = true;
                let x = match &r.expr {
                    Some(e) => self.val(e)?.t,
                    None => String::new(),
                };
                self.out.push(format!("return {};", x));
                Ok(v("()", "!"))
            }
            Expr::Struct(s) => self.struct_(s),
            Expr::Call(c) => self.call(c),
            Expr::MethodCall(m) => self.method(m),
            Expr::Assign(a) => {
                let x = self.val(&a.right)?;
                let x = self.coerce(x);
                let l = self.ex(&a.left)?;
                if l.ty == "Tensor" || l.ty == "Parameter" {
                    return Err("assignment of a tensor".into());
                }
                if self.bv {
                    return self.bv_assign(&a.left, x);
                }
                self.out.push(format!("{} = {};", l.t, x.t));
                Ok(v("()", "()"))
            }
            Expr::Array(a) if !self.bv && !a.elems.is_empty() => {
                let n = self.canon("vec");
                let mut xs = vec![];
                let mut ty = String::new();
                for e in &a.elems {
                    let x = self.val(e)?;
                    ty = x.ty.clone();
                    xs.push(x.t);
                }
                if ty != "f32" {
                    return Err("array".into());
                }
                self.out.push(format!("let mut {}: Vec<R> = Vec::new();", n));
                for x in xs {
                    self.out.push(format!("{}.push({});", n, x));
                }
                self.muts.push(json!({"name": n, "class": "vec", "base": ""}));
                Ok(v(n, "Vec<f32>"))
            }
            x => Err(format!("expression {}", tn(x).chars().take(60).collect::<String>())),
        }
    }
    /// arithmetic on floats: no effect on memory
    fn float_arith(&self, e: &Expr) -> bool {
        let mut fl = false;
        fn go(g: &GM, e: &Expr, fl: &mut bool) -> bool {
            match e {
                Expr::Paren(p) => go(g, &p.expr, fl),
                Expr::Group(p) => go(g, &p.expr, fl),
                Expr::Lit(l) => {
                    if matches!(l.lit, Lit::Float(_)) {
                        *fl = true;
                    }
                    matches!(l.lit, Lit::Float(_) | Lit::Int(_))
                }
                Expr::Binary(b) => !tn(&b.op).ends_with("==") && matches!(b.op, BinOp::Add(_) | BinOp::Sub(_) | BinOp::Mul(_) | BinOp::Div(_)) && go(g, &b.left, fl) & go(g, &b.right, fl),
                Expr::Unary(u) => matches!(u.op, UnOp::Neg(_)) && go(g, &u.expr, fl),
                Expr::Cast(c) => {
                    if tn(&c.ty) == "f32" {
                        *fl = true;
                    }
                    go(g, &c.expr, fl)
                }
                Expr::Index(i) => go(g, &i.expr, fl) && go(g, &i.index, fl),
                Expr::Field(f) => go(g, &f.base, fl),
                Expr::Path(p) => match g.lookup(&tn(p)) {
                    Some(x) => {
                        if x.ty == "f32" {
                            *fl = true;
                        }
                        true
                    }
                    None => false,
                },
                Expr::MethodCall(m) => matches!(m.method.to_string().as_str(), "sqrt" | "abs" | "powi" | "powf" | "recip") && m.args.iter().all(|a| go(g, a, fl)) && go(g, &m.receiver, fl),
                _ => false,
            }
        }
        let ok = match e {
            Expr::Binary(_) | Expr::Unary(_) => true,
            Expr::MethodCall(m) => matches!(m.method.to_string().as_str(), "sqrt" | "abs" | "powi" | "powf" | "recip"),
            _ => false,
        };
        ok && go(self, e, &mut fl) && fl
    }
    /// references to tensors are kept as such
    fn coerce(&mut self, x: V) -> V {
        x
    }
    fn bv_assign(&mut self, l: &Expr, x: V) -> Res<V> {
        let n = match Self::strip(l) {
            Expr::Path(p) => tn(&p.path),
            _ => return Err("assignment".into()),
        };
        if self.depth > 0 {
            return Err("assignment in a branch".into());
        }
        let y = self.bv_let(x);
        for s in self.scopes.iter_mut().rev() {
            if s.contains_key(&n) {
                s.insert(n, y);
                return Ok(v("()", "()"));
            }
        }
        Err("assignment".into())
    }
    fn bv_let(&mut self, x: V) -> V {
        let n = self.fresh("b");
        let ty = if x.ty.is_empty() { "u32".to_string() } else { x.ty.clone() };
        self.out.push(format!("let {}: {} = {};", n, ty, x.t));
        self.defs.push(format!("{} == {}", n, x.sp));
        let mut r = v(n.clone(), ty);
        r.sp = n;
        r
    }
    fn bin(&mut self, b: &ExprBinary) -> Res<V> {
        use BinOp::*;
        let comp = match &b.op {
            AddAssign(_) => Some("+"),
            SubAssign(_) => Some("-"),
            BitOrAssign(_) => Some("|"),
            BitAndAssign(_) => Some("&"),
            ShlAssign(_) => Some("<<"),
            ShrAssign(_) => Some(">>"),
            BitXorAssign(_) => Some("^"),
            _ => None,
        };
        let op = match &b.op {
            Add(_) => "+",
            Sub(_) => "-",
            Mul(_) => "*",
            BitAnd(_) => "&",
            BitOr(_) => "|",
            BitXor(_) => "^",
            Shl(_) => "<<",
            Shr(_) => ">>",
            Lt(_) => "<",
            Le(_) => "<=",
            Gt(_) => ">",
            Ge(_) => ">=",
            And(_) => "&&",
            Or(_) => "||",
            Eq(_) | Ne(_) => {
                let x = self.ex(&b.left)?;
                let y = self.ex(&b.right)?;
                return Ok(self.eq(x, y, matches!(b.op, Ne(_))));
            }
            _ => match comp {
                Some(o) => o,
                None => return Err("operator".into()),
            },
        };
        let mut x = self.ex(&b.left)?;
        let nout = self.out.len();
        let mut y = self.ex(&b.right)?;
        if (op == "&&" || op == "||") && self.out.len() > nout {
            return Err("call behind a short circuit".into());
        }
        let cmp = matches!(op, "<" | "<=" | ">" | ">=" | "&&" | "||");
        let ty = if cmp { "bool".to_string() } else if op == "<<" || op == ">>" { x.ty.clone() } else { self.lit_ty(&x, &y) };
        if self.bv && !cmp && matches!(op, "+" | "-" | "<<" | ">>") {
            x = self.bv_let(x);
            if op == "+" || op == "-" {
                y = self.bv_let(y);
                let c = if op == "+" { format!("add({0}, {1}) >= {0}", x.sp, y.sp) } else { format!("{} >= {}", x.sp, y.sp) };
                self.out.push(format!("assert({}) by (bit_vector) requires {};", c, self.defs.join(", ")));
                if op == "+" {
                    self.out.push(format!("assert({0} + {1} <= 0xffff_ffff) by {{ assert(add({0}, {1}) >= {0}); lemma_add32({0}, {1}); }};", x.sp, y.sp));
                }
            } else if !y.t.chars().all(|c| c.is_ascii_digit()) {
                y = self.bv_let(y);
                self.out.push(format!("assert({} < 32) by (bit_vector) requires {};", y.sp, self.defs.join(", ")));
            }
        }
        let mut r = v(format!("({} {} {})", x.t, op, y.t), ty);
        r.sp = match op {
            "+" => format!("add({}, {})", x.sp, y.sp),
            "-" => format!("sub({}, {})", x.sp, y.sp),
            "*" => format!("mul({}, {})", x.sp, y.sp),
            _ => format!("({} {} {})", x.sp, op, y.sp),
        };
        if comp.is_some() {
            if self.bv {
                return self.bv_assign(&b.left, r);
            }
            let l = self.ex(&b.left)?;
            self.out.push(format!("{} = {};", l.t, r.t));
            return Ok(v("()", "()"));
        }
        Ok(r)
    }
    /// a block as text, with its value
    fn blk(&mut self, b: &[Stmt]) -> Res<(String, V)> {
        let saved = std::mem::take(&mut self.out);
        self.scopes.push(HashMap::new());
        self.depth += 1;
        let own = self.owned.len();
        let r = self.stmts(b, true)?;
        if self.owned.len() > own {
            return Err("tensor owned by a block".into());
        }
        self.depth -= 1;
        self.scopes.pop();
        let o = std::mem::replace(&mut self.out, saved);
        let r = r.unwrap_or(v("()", "()"));
        self.moved(&r);
        let o = o.join("\n");
        Ok((if r.t == "()" { o } else { format!("{}\n{}", o, r.t) }, r))
    }
    fn branches(&mut self, head: &str, a: (String, V), b: Option<(String, V)>) -> Res<V> {
        let (bt, bv) = b.unwrap_or((String::new(), v("()", "()")));
        let ty = if a.1.ty == "!" || a.1.ty.is_empty() { bv.ty.clone() } else { a.1.ty.clone() };
        let t = format!("{} {{\n{}\n}} else {{\n{}\n}}", head, a.0, bt);
        self.skel.push("fi".into());
        if ty == "()" || ty == "!" {
            self.out.push(t);
            Ok(v("()", ty))
        } else {
            let n = self.fresh("c");
            self.out.push(format!("let {} = {};", n, t));
            Ok(v(n, ty))
        }
    }
    fn if_(&mut self, i: &ExprIf) -> Res<V> {
        if i.else_branch.is_none() && Self::panics(&i.then_branch) {
            if let Expr::Let(_) = Self::strip(&i.cond) {
                return Err("if let .. panic".into());
            }
            let (t, sp) = match Self::strip(&i.cond) {
                Expr::Unary(u) if matches!(u.op, UnOp::Not(_)) => {
                    let c = self.ex(&u.expr)?;
                    (c.t, c.sp)
                }
                c => {
                    let c = self.ex(c)?;
                    (format!("!({})", c.t), format!("!({})", c.sp))
                }
            };
            self.out.push(format!("chk({}, Ghost({}));", t, self.ok));
            if self.bv {
                self.defs.push(sp);
            }
            return Ok(v("()", "()"));
        }
        if self.bv {
            return Err("branch".into());
        }
        self.skel.push("if".into());
        let mut bound: HashMap<String, V> = HashMap::new();
        let head = if let Expr::Let(l) = Self::strip(&i.cond) {
            let (pat, sc) = self.opt_pat(&l.pat, &l.expr)?;
            bound = sc;
            pat
        } else {
            let c = self.ex(&i.cond)?;
            format!("if {}", c.t)
        };
        self.scopes.push(bound);
        let a = self.blk(&i.then_branch.stmts)?;
        self.scopes.pop();
        let b = match &i.else_branch {
            None => None,
            Some((_, e)) => Some(match Self::strip(e) {
                Expr::Block(b) => self.blk(&b.block.stmts)?,
                e => {
                    let st = [Stmt::Expr(e.clone(), None)];
                    self.blk(&st)?
                }
            }),
        };
        self.branches(&head, a, b)
    }
    /// `if let Some(x) = e`
    fn opt_pat(&mut self, pat: &Pat, e: &Expr) -> Res<(String, HashMap<String, V>)> {
        let x = self.ex(e)?;
        let el = inner(&x.ty, "Option<").ok_or(format!("pattern on {}", x.ty))?;
        let mut sc = HashMap::new();
        match pat {
            Pat::TupleStruct(t) if tn(&t.path).ends_with("Some") && t.elems.len() == 1 => {
                let n = self.fresh("s");
                match &t.elems[0] {
                    Pat::Ident(i) => {
                        let byref = x.t.starts_with('&');
                        let t = if byref && self.copy(&el) { format!("(*{})", n) } else { n.clone() };
                        sc.insert(i.ident.to_string(), v(t, el));
                        Ok((format!("if let Some({}{}) = {}", if i.mutability.is_some() { "mut " } else { "" }, n, x.t), sc))
                    }
                    Pat::Wild(_) => Ok((format!("if let Some(_) = {}", x.t), sc)),
                    _ => Err("pattern".into()),
                }
            }
            Pat::Ident(i) if i.ident == "None" => Ok((format!("if ({}).is_none()", x.t), sc)),
            Pat::Path(p) if tn(&p.path).ends_with("None") => Ok((format!("if ({}).is_none()", x.t), sc)),
            _ => Err("pattern".into()),
        }
    }
    fn match_(&mut self, m: &ExprMatch) -> Res<V> {
        if m.arms.len() == 1 {
            if let Expr::Tuple(t) = Self::strip(&m.expr) {
                let s = tn(&m.arms[0].body);
                if t.elems.len() == 2 && s.contains("assert_failed") {
                    let eq = s.contains("!(*left_val==*right_val)");
                    if !eq && !s.contains("if*left_val==*right_val") {
                        return Err("assert form".into());
                    }
                    let a = self.ex(Self::peel(&t.elems[0]))?;
                    let b = self.ex(Self::peel(&t.elems[1]))?;
                    let c = self.eq(a, b, !eq);
                    self.out.push(format!("chk({}, Ghost({}));", c.t, self.ok));
                    return Ok(v("()", "()"));
                }
            }
        }
        // a match on an option
        if m.arms.len() == 2 && m.arms.iter().all(|a| a.guard.is_none()) && !self.bv {
            let some = m.arms.iter().position(|a| matches!(&a.pat, Pat::TupleStruct(t) if tn(&t.path).ends_with("Some")));
            if let Some(si) = some {
                let (s, n) = (&m.arms[si], &m.arms[1 - si]);
                let none = match &n.pat {
                    Pat::Wild(_) => true,
                    p => tn(p).ends_with("None"),
                };
                if !none {
                    return Err("match".into());
                }
                self.skel.push("if".into());
                let (head, sc) = self.opt_pat(&s.pat, &m.expr)?;
                self.scopes.push(sc);
                let a = self.blk(&[Stmt::Expr((*s.body).clone(), None)])?;
                self.scopes.pop();
                let b = self.blk(&[Stmt::Expr((*n.body).clone(), None)])?;
                return self.branches(&head, a, Some(b));
            }
        }
        Err("match".into())
    }
    fn struct_(&mut self, s: &ExprStruct) -> Res<V> {
        if s.rest.is_some() {
            return Err("struct update".into());
        }
        let n = tn(&s.path);
        let n = if n == "Self" { self.selfty.clone() } else { n.rsplit("::").next().unwrap().to_string() };
        let mut fs = vec![];
        for f in &s.fields {
            let name = match &f.member {
                Member::Named(i) => i.to_string(),
                _ => return Err("tuple struct".into()),
            };
            let x = self.val(&f.expr)?;
            fs.push(format!("{}: {}", name, x.t));
        }
        let vt = self.vt(&n)?;
        Ok(v(format!("{} {{ {} }}", vt, fs.join(", ")), n))
    }
    fn args(&mut self, a: &Punctuated<Expr, Token![,]>) -> Res<Vec<V>> {
        a.iter().map(|e| self.val(e)).collect()
    }
    /// arguments as the callee's parameters want them
    fn fit(&mut self, f: Option<&FnItem>, mut a: Vec<V>) -> Vec<V> {
        if let Some(f) = f {
            let ps: Vec<String> = f.sig.inputs.iter().filter_map(|p| if let FnArg::Typed(t) = p { Some(tn(&t.ty)) } else { None }).collect();
            for (x, p) in a.iter_mut().zip(ps) {
                let mu = p.starts_with("&mut");
                let rf = p.starts_with('&');
                let p = p.trim_start_matches('&').trim_start_matches("mut").trim_start().to_string();
                let bare = x.t.trim_start_matches("&mut ").trim_start_matches('&').to_string();
                if self.tok && p.starts_with('[') && x.ty.starts_with("Vec<") {
                    x.t = format!("&{}", bare);
                } else if p.starts_with('[') && x.ty.starts_with("Vec<") {
                    x.t = format!("{}.as_slice()", bare);
                } else if rf && !self.copy(&x.ty) {
                    x.t = format!("{}{}", if mu { "&mut " } else { "&" }, bare);
                }
            }
        }
        a
    }
    fn list_lit(c: &ExprCall) -> Option<&ExprArray> {
        fn arr(e: &Expr) -> Option<&ExprArray> {
            match e {
                Expr::Array(a) => Some(a),
                Expr::Call(c) => c.args.iter().find_map(arr),
                Expr::Paren(p) => arr(&p.expr),
                _ => None,
            }
        }
        if tn(&c.func).contains("box_assume_init_into_vec_unsafe") {
            c.args.iter().find_map(arr)
        } else {
            None
        }
    }
    fn call(&mut self, c: &ExprCall) -> Res<V> {
        let f = tn(&c.func);
        if let Some(a) = Self::list_lit(c) {
            let n = self.canon("vec");
            let mut xs = vec![];
            let mut ty = String::new();
            for e in &a.elems {
                let x = self.val(e)?;
                ty = x.ty.clone();
                xs.push(x.t);
            }
            let et = self.vt(&ty)?;
            self.out.push(format!("let mut {}: Vec<{}> = Vec::new();", n, et));
            for x in xs {
                self.out.push(format!("{}.push({});", n, x));
            }
            self.muts.push(json!({"name": n, "class": "vec", "base": ""}));
            return Ok(v(n, format!("Vec<{}>", ty)));
        }
        let last2 = {
            let l: Vec<&str> = f.split("::").collect();
            if l.len() >= 2 { format!("{}::{}", l[l.len() - 2], l[l.len() - 1]) } else { f.clone() }
        };
        match last2.as_str() {
            "AtomicPtr::new" | "Mutex::new" | "Arc::new" | "RefCell::new" | "Arc::clone" | "Box::new" => {
                let x = self.val(&c.args[0])?;
                if last2 == "AtomicPtr::new" {
                    return Ok(V { ty: "AtomicPtr<c_void>".into(), ..x });
                }
                return Ok(x);
            }
            "ptr::null_mut" | "ptr::null" => return Ok(v("0usize", "*mutc_void")),
            "HashMap::new" => {
                return Ok(v(if self.selfty == "Parameter" { "StatMap::new()" } else { "HashMap::new()" }, "HashMap<?>"))
            }
            "Vec::new" => return Ok(v("Vec::new()", "Vec<?>")),
            "Box::into_raw" => {
                let x = self.val(&c.args[0])?;
                if x.ty != "Vec<f32>" {
                    return Err("into_raw".into());
                }
                self.calls.push("heap_into_raw".into());
                return Ok(self.hoist(format!("heap_into_raw(im, {})", x.t), "*mutc_void"));
            }
            "Box::from_raw" => {
                let x = self.val(&c.args[0])?;
                if x.ty != "*mutVec<f32>" {
                    return Err("from_raw".into());
                }
                self.calls.push("heap_from_raw".into());
                return Ok(self.hoist(format!("heap_from_raw(im, {})", x.t), "Vec<f32>"));
            }
            "vec::from_elem" => {
                let x = self.val(&c.args[0])?;
                let n = self.val(&c.args[1])?;
                if x.ty != "f32" {
                    return Err("from_elem".into());
                }
                self.calls.push("vec_from_elem".into());
                return Ok(self.hoist(format!("vec_from_elem({}, {})", x.t, n.t), "Vec<f32>"));
            }
            "cmp::max" | "cmp::min" => {
                let a = self.ex(&c.args[0])?;
                let b = self.ex(&c.args[1])?;
                let ty = self.lit_ty(&a, &b);
                if ty != "u32" {
                    return Err("max".into());
                }
                let (a, b) = (self.hoist(format!("({} as u32)", a.t), "u32"), self.hoist(format!("({} as u32)", b.t), "u32"));
                return Ok(v(format!("(if {0} {2} {1} {{ {0} }} else {{ {1} }})", a.t, b.t, if last2 == "cmp::max" { ">" } else { "<" }), "u32"));
            }
            "mem::drop" | "drop" => {
                if self.guards.contains(&tn(&c.args[0])) {
                    return Ok(v("()", "()"));
                }
                let x = self.val(&c.args[0])?;
                if x.ty != "Vec<f32>" {
                    return Err("drop".into());
                }
                return Ok(v("()", "()"));
            }
            _ => {}
        }
        if f == "Some" || f.ends_with("::Some") {
            let x = self.val(&c.args[0])?;
            if x.ty == "Tensor" {
                let b = x.t.trim_start_matches('&').to_string();
                if x.own.is_some() && !x.t.starts_with('&') && self.owned.contains(&b) {
                    return Err("option of a tensor".into());
                }
                return Ok(v(format!("Some(tref(&{}))", b), "Option<Tensor>"));
            }
            return Ok(v(format!("Some({})", x.t), format!("Option<{}>", x.ty)));
        }
        if f == "Ok" || f.ends_with("::Ok") {
            let x = self.val(&c.args[0])?;
            return Ok(v(format!("Ok({})", x.t), "Result"));
        }
        // serde's derived and hand-written code calls the data format through its traits
        let fl = f.rsplit("::").next().unwrap().to_string();
        if matches!(fl.as_str(), "serialize_struct" | "serialize_field" | "end") && f.contains("_serde::") {
            let mut a = vec![];
            for e in c.args.iter() {
                a.push(self.val(e)?);
            }
            let r = a.remove(0);
            return self.serde_call(&fl, r, a);
        }
        if fl == "deserialize" {
            let x = self.val(&c.args[0])?;
            return Ok(V { t: x.t, ty: "Result<?>".into(), own: None, sp: "deserialize".into() });
        }
        let key = f.replace("Self::", &format!("{}::", self.selfty)).trim_start_matches("crate::").to_string();
        let (ty, name) = match key.rfind("::") {
            Some(i) => (key[..i].rsplit("::").next().unwrap().to_string(), key[i + 2..].to_string()),
            None => (String::new(), key.clone()),
        };
        let ty0 = if ty.chars().next().map_or(true, |c| c.is_lowercase()) { String::new() } else { ty.clone() };
        if key == "memory_pool::calculate_shifts" || self.callee("paths", &format!("M:{}", name)).is_some() && ty0.is_empty() {
            let cc = self.callee("paths", &format!("M:{}", name)).unwrap();
            let fi = self.find("", &name);
            let rt = fi.map(|f| self.ret_ty(f)).ok_or("callee")?;
            let a = self.args(&c.args)?;
            return Ok(self.known(&cc, None, a, &rt));
        }
        let shape_new = if ty0 == "Shape" && name == "new" { self.callee("paths", "Shape::new") } else { None };
        if let Some(cc) = self.callee("paths", &format!("M:{}::{}", ty0, name)).or(shape_new) {
            let fi = self.find(&ty0, &name).ok_or(format!("callee {}", key))?;
            let rt = self.ret_ty(fi);
            let a = self.args(&c.args)?;
            let a = self.fit(Some(fi), a);
            return Ok(self.known(&cc, None, a, &rt));
        }
        let fi = self.find(&ty0, &name).ok_or(format!("call {}", f))?;
        let a = self.args(&c.args)?;
        let has_self = fi.sig.receiver().is_some();
        let mut a = a;
        let r = if has_self { Some(a.remove(0)) } else { None };
        self.inline(fi, r, a)
    }
    fn serde_call(&mut self, name: &str, r: V, a: Vec<V>) -> Res<V> {
        self.calls.push(format!("ser_{}", name));
        Ok(match name {
            "serialize_struct" => {
                let n = self.hoist(format!("{}", a[1].t), "usize");
                self.hoist(format!("ser_serialize_struct({}, {}, {})", r.t, a[0].t, n.t), "Result<SerState,E>")
            }
            "serialize_field" => {
                let b = r.t.trim_start_matches("&mut ").to_string();
                let x = if self.copy(&a[1].ty) || !a[1].t.starts_with('&') { format!("&{}", a[1].t) } else { a[1].t.clone() };
                self.hoist(format!("ser_serialize_field(m, &mut {}, {}, {})", b, a[0].t, x), "Result<(),E>")
            }
            _ => self.hoist(format!("ser_end({}, Ghost({}))", r.t, self.ok), "Result"),
        })
    }
    fn method(&mut self, m: &ExprMethodCall) -> Res<V> {
        let n = m.method.to_string();
        // iterator chains that build a vector
        if n == "collect" {
            return self.collect_(&m.receiver);
        }
        if n == "load" {
            let x = self.ex(&m.receiver)?;
            if x.ty != "AtomicPtr<c_void>" {
                return Err("load".into());
            }
            return Ok(V { ty: "*mutc_void".into(), own: None, ..x });
        }
        if n == "store" {
            let x = self.ex(&m.receiver)?;
            let y = self.ex(&m.args[0])?;
            if x.ty != "AtomicPtr<c_void>" {
                return Err("store".into());
            }
            self.out.push(format!("{} = {};", x.t, y.t));
            return Ok(v("()", "()"));
        }
        if n == "unwrap" {
            if let Expr::MethodCall(l) = Self::strip(&m.receiver) {
                if l.method == "lock" {
                    let x = self.ex(&l.receiver)?;
                    return Ok(if x.sp.is_empty() && !self.bv { V { sp: "lock".into(), ..x } } else { x });
                }
            }
        }
        if matches!(n.as_str(), "borrow_mut" | "borrow" | "as_ref" | "get_mut" | "as_mut") && m.args.is_empty() {
            let x = self.ex(&m.receiver)?;
            if x.ty.starts_with("Option<") {
                return Ok(V { t: format!("&{}", x.t.trim_start_matches('&')), ..x });
            }
            if x.ty == "Tensor" || x.ty.starts_with("HashMap") {
                return Ok(x);
            }
            return Err(n);
        }
        if matches!(n.as_str(), "to_string" | "clone") && m.args.is_empty() {
            let x = self.ex(&m.receiver)?;
            if self.copy(&x.ty) {
                return Ok(x);
            }
            return Err(n);
        }
        let r = self.ex(&m.receiver)?;
        let bare = r.t.trim_start_matches("&mut ").trim_start_matches('&').to_string();
        match (r.ty.as_str(), n.as_str()) {
            ("*mutc_void", "is_null") => return Ok(v(format!("({} == 0)", r.t), "bool")),
            (t, "unwrap") | (t, "expect") if t.starts_with("Option<") => {
                let el = inner(t, "Option<").unwrap();
                return Ok(self.hoist(format!("opt_unwrap({}, Ghost({}))", r.t, self.ok), &el));
            }
            (t, "is_some") | (t, "is_none") if t.starts_with("Option<") => {
                return Ok(v(format!("{}.{}()", bare, n), "bool"));
            }
            (t, "take") if t.starts_with("Option<") => return Ok(self.hoist(format!("{}.take()", bare), t)),
            (t, "pop") if t.starts_with("Vec<") => {
                let el = inner(t, "Vec<").unwrap();
                return Ok(self.hoist(format!("{}.pop()", bare), &format!("Option<{}>", el)));
            }
            (t, "push") if t.starts_with("Vec<") => {
                let x = self.val(&m.args[0])?;
                self.out.push(format!("{}.push({});", bare, x.t));
                return Ok(v("()", "()"));
            }
            (t, "append") if t.starts_with("Vec<") => {
                let x = self.val(&m.args[0])?;
                let b = x.t.trim_start_matches("&mut ").to_string();
                let b = if b.chars().all(|c| c.is_alphanumeric() || c == '_' || c == '.') {
                    b
                } else {
                    self.hoist(b, &x.ty).t
                };
                let b2 = self.fresh("a");
                self.out.push(format!("let mut {} = {}; {}.append(&mut {});", b2, b, bare, b2));
                return Ok(v("()", "()"));
            }
            (t, "len") if t.starts_with("Vec<") || t.starts_with('[') => return Ok(v(format!("{}.len()", bare), "usize")),
            (t, "is_empty") if t.starts_with("Vec<") || t.starts_with('[') => return Ok(v(format!("({}.len() == 0)", bare), "bool")),
            ("HashMap<usize,usize>", "insert") => {
                let k = self.val(&m.args[0])?;
                let x = self.val(&m.args[1])?;
                return Ok(self.hoist(format!("{}.insert({}, {})", bare, k.t, x.t), "Option<usize>"));
            }
            ("HashMap<usize,usize>", "remove") => {
                let k = self.val(&m.args[0])?;
                return Ok(self.hoist(format!("{}.remove(&({}))", bare, k.t), "Option<usize>"));
            }
            ("HashMap<usize,usize>", "get") => {
                let k = self.val(&m.args[0])?;
                return Ok(self.hoist(format!("map_get(&{}, {})", bare, k.t), "Option<usize>"));
            }
            ("HashMap<usize,usize>", "contains_key") => {
                let k = self.val(&m.args[0])?;
                return Ok(v(format!("{}.contains_key(&({}))", bare, k.t), "bool"));
            }
            ("HashMap<String,Tensor>", "contains_key") => {
                let k = self.val(&m.args[0])?;
                return Ok(self.hoist(format!("{}.contains_key({})", bare, k.t), "bool"));
            }
            ("HashMap<String,Tensor>", "insert") => {
                let k = self.val(&m.args[0])?;
                let x = self.val(&m.args[1])?;
                self.out.push(format!("{}.insert({}, {});", bare, k.t, x.t));
                return Ok(v("()", "()"));
            }
            (_, "serialize_struct") | (_, "serialize_field") | (_, "end") => {
                let a = self.args(&m.args)?;
                return self.serde_call(&n, r, a);
            }
            ("Shape", "size") | ("Shape", "batch") | ("Shape", "volume") | ("Shape", "dims") | ("Shape", "is_matrix") if self.callee("methods", &format!("M:Shape.{}", n)).is_none() => {
                let c = self.callee("methods", &format!("Shape.{}", n)).ok_or("shape method")?;
                let fi = self.find("Shape", &n).ok_or("shape method")?;
                let rt = self.ret_ty(fi);
                return Ok(self.known(&c, Some(v(format!("&{}", bare), "Shape")), vec![], &rt));
            }
            _ => {}
        }
        if n.starts_with("call_") && n.ends_with("_impl") && r.ty == "Device" {
            return self.kernel(&n, &r, m);
        }
        let key = format!("M:{}.{}", r.ty, n);
        let fi = self.find(&r.ty, &n);
        if let Some(c) = self.callee("methods", &key) {
            let rt = match c["ret"].as_str() {
                Some(s) if !s.is_empty() => s.to_string(),
                _ => match fi {
                    Some(f) => self.ret_ty(f),
                    None => return Err(format!("callee {}", key)),
                },
            };
            let a = self.args(&m.args)?;
            let a = self.fit(fi, a);
            return Ok(self.known(&c, Some(r), a, &rt));
        }
        if fi.is_none() && r.ty == "Parameter" && !self.tok && r.sp != "deref" {
            // auto-dereference: Parameter derefs to its value (contract of MP_deref)
            self.calls.push("MP_deref".into());
            let c = self.callee("methods", &format!("M:Tensor.{}", n)).ok_or(format!("method {}.{}", r.ty, n))?;
            let fi = self.find("Tensor", &n);
            let rt = match c["ret"].as_str() {
                Some(s) if !s.is_empty() => s.to_string(),
                _ => self.ret_ty(fi.ok_or("callee")?),
            };
            let a = self.args(&m.args)?;
            let a = self.fit(fi, a);
            return Ok(self.known(&c, Some(v(format!("MP_deref(&{})", bare), "Tensor")), a, &rt));
        }
        let fi = fi.ok_or(format!("method {}.{}", r.ty, n))?;
        let a = self.args(&m.args)?;
        self.inline(fi, Some(V { t: bare, ..r }), a)
    }
    /// `dev.call_fw_impl("name", &[xs], &[u32s], f32s, &mut [y])`: the kernel's effect on memory is a library contract
    fn kernel(&mut self, n: &str, r: &V, m: &ExprMethodCall) -> Res<V> {
        let name = match Self::strip(&m.args[0]) {
            Expr::Lit(ExprLit { lit: Lit::Str(s), .. }) => s.value(),
            _ => return Err("kernel name".into()),
        };
        let kind = n.trim_start_matches("call_");
        let reg = self.w.registrations.get(&format!("{}:{}", kind, name)).ok_or("unregistered kernel")?;
        let emit = format!("mk_{}", reg.1);
        if self.callee("paths", &format!("M:{}", emit)).is_none() {
            return Err(format!("kernel {}", emit));
        }
        let mut a = vec!["m".to_string(), r.t.clone()];
        for e in m.args.iter().skip(1) {
            let mu = matches!(Self::strip(e), Expr::Reference(x) if x.mutability.is_some());
            match Self::peel(e) {
                Expr::Array(ar) => {
                    for x in &ar.elems {
                        let x = self.ex(x)?;
                        let b = x.t.trim_start_matches("&mut ").trim_start_matches('&').to_string();
                        a.push(if x.ty == "Tensor" {
                            format!("&{}", b)
                        } else if mu {
                            return Err("kernel output".into());
                        } else {
                            x.t
                        });
                    }
                }
                Expr::MethodCall(mc) if mc.method == "as_mut_slice" => {
                    let x = self.ex(&mc.receiver)?;
                    a.push(format!("&mut {}", x.t));
                }
                e => {
                    let x = self.ex(e)?;
                    a.push(if mu && x.ty.starts_with("Vec<") { format!("&mut {}", x.t.trim_start_matches('&')) } else if x.ty.starts_with("Vec<") { format!("{}.as_slice()", x.t.trim_start_matches('&')) } else if x.ty.starts_with('[') { format!("&{}", x.t.trim_start_matches('&')) } else { x.t });
                }
            }
        }
        a.push(format!("Ghost({})", self.ok));
        self.calls.push(emit.clone());
        self.out.push(format!("{}({});", emit, a.join(", ")));
        Ok(v("()", "()"))
    }

    fn iter<'e>(&mut self, e: &'e Expr) -> Res<(Option<(V, V)>, Option<V>, Option<&'e ExprClosure>)> {
        // (range, list, map)
        match Self::strip(e) {
            Expr::Range(r) => {
                if matches!(r.limits, RangeLimits::Closed(_)) {
                    return Err("closed range".into());
                }
                let a = self.ex(r.start.as_ref().ok_or("range")?)?;
                let b = self.ex(r.end.as_ref().ok_or("range")?)?;
                Ok((Some((a, b)), None, None))
            }
            Expr::MethodCall(m) if m.method == "map" => {
                let (r, l, p) = self.iter(&m.receiver)?;
                if p.is_some() {
                    return Err("map of map".into());
                }
                match Self::strip(&m.args[0]) {
                    Expr::Closure(c) => Ok((r, l, Some(c))),
                    _ => Err("map".into()),
                }
            }
            Expr::MethodCall(m) if matches!(m.method.to_string().as_str(), "iter" | "iter_mut" | "into_iter" | "values_mut" | "values") => {
                let (r, l, p) = self.iter(&m.receiver)?;
                if let Some(x) = &l {
                    if x.ty.starts_with("HashMap<") && (m.method == "values" || m.method == "values_mut") {
                        let mut x = x.clone();
                        x.sp = "values".into();
                        return Ok((r, Some(x), p));
                    }
                }
                Ok((r, l, p))
            }
            e => {
                let x = self.ex(e)?;
                Ok((None, Some(x), None))
            }
        }
    }
    /// opens a loop; gives its number, the element and what to do at the end of the body
    fn open(&mut self, r: Option<(V, V)>, l: Option<V>) -> Res<(usize, V, String, String)> {
        let k = self.loops.len();
        self.loops.push(json!({"kind": "range", "var": ""}));
        self.skel.push("for".into());
        let (x, en, ann) = match (r, l) {
            (Some((a, b)), _) => {
                let ty = self.lit_ty(&a, &b);
                let ann = if ty.is_empty() { "usize".into() } else { ty.clone() };
                self.out.push(format!("let st{k}: {ann} = {}; let en{k}: {ann} = {};", a.t, b.t));
                (v(format!("it{k}"), ty), format!("en{k}"), ann)
            }
            (_, Some(x)) => {
                let bare = x.t.trim_start_matches("&mut ").trim_start_matches('&').to_string();
                self.out.push(format!("let st{k}: usize = 0;"));
                if x.ty == "HashMap<String,Tensor>" {
                    self.out.push(format!("let en{k}: usize = {bare}.len();"));
                    let mut y = v(format!("{bare}.items[it{k}].1"), "Tensor");
                    y.sp = if x.sp == "values" { String::new() } else { "pair".into() };
                    (y, format!("en{k}"), "usize".into())
                } else {
                    let el = inner(&x.ty, "Vec<").or_else(|| if x.ty.starts_with('[') { Some(x.ty[1..x.ty.len() - 1].into()) } else { None }).ok_or(format!("iteration over {}", x.ty))?;
                    self.out.push(format!("let en{k}: usize = {bare}.len();"));
                    if self.tok {
                        self.out.push(format!("let ghost sq{k} = {bare}@;"));
                    }
                    (v(format!("{bare}[it{k}]"), el), format!("en{k}"), "usize".into())
                }
            }
            _ => return Err("iteration".into()),
        };
        self.out.push(format!("let mut it{k}: {ann} = st{k};\n/*@PRE {k}@*/"));
        Ok((k, x, en, ann))
    }
    fn close(&mut self, k: usize, body: Vec<String>) {
        self.out.push(format!(
            "while it{k} < en{k} invariant st{k} <= it{k} <= en{k} || (it{k} == st{k} && st{k} >= en{k}), /*@INV {k}@*/ decreases en{k} - it{k}, {{\n/*@HEAD {k}@*/\n{}\nit{k} = it{k} + 1;\n/*@BODYEND {k}@*/\n}}\n/*@POST {k}@*/",
            body.join("\n")
        ));
        self.skel.push("rof".into());
    }
    fn collect_(&mut self, e: &Expr) -> Res<V> {
        let (r, l, map) = self.iter(e)?;
        let vecn = self.canon("vec");
        let at = self.out.len();
        self.muts.push(json!({"name": vecn, "class": "vec", "base": ""}));
        let (k, x, _, _) = self.open(r, l)?;
        let saved = std::mem::take(&mut self.out);
        self.scopes.push(HashMap::new());
        self.depth += 1;
        let y = match map {
            None => x,
            Some(c) => {
                match &c.inputs[0] {
                    Pat::Ident(i) => self.bind(&i.ident.to_string(), x),
                    Pat::Wild(_) => {}
                    _ => return Err("closure pattern".into()),
                }
                self.ex(&c.body)?
            }
        };
        self.scopes.pop();
        self.depth -= 1;
        self.out.push(format!("{}.push({});", vecn, y.t));
        let body = std::mem::replace(&mut self.out, saved);
        self.close(k, body);
        let el = if y.ty == "Vec<?>" { "Vec<AtomicPtr<c_void>>".to_string() } else { y.ty.clone() };
        let et = self.vt(&el)?;
        self.out.insert(at, format!("let mut {}: Vec<{}> = Vec::new();", vecn, et));
        Ok(v(vecn, format!("Vec<{}>", el)))
    }
    fn for_(&mut self, f: &ExprForLoop) -> Res<()> {
        if f.label.is_some() || self.bv {
            return Err("label".into());
        }
        let (r, l, map) = self.iter(&f.expr)?;
        if map.is_some() {
            return Err("map in a loop".into());
        }
        let (k, x, _, _) = self.open(r, l)?;
        let saved = std::mem::take(&mut self.out);
        self.scopes.push(HashMap::new());
        self.depth += 1;
        match &*f.pat {
            Pat::Ident(i) => {
                if x.sp == "pair" {
                    return Err("pair".into());
                }
                self.bind(&i.ident.to_string(), x)
            }
            Pat::Wild(_) => {}
            Pat::Tuple(t) if t.elems.len() == 2 && x.sp == "pair" => match (&t.elems[0], &t.elems[1]) {
                (Pat::Wild(_), Pat::Ident(i)) => {
                    let mut x = x;
                    x.sp = String::new();
                    self.bind(&i.ident.to_string(), x)
                }
                _ => return Err("pattern".into()),
            },
            _ => return Err("pattern".into()),
        }
        let own = self.owned.len();
        if let Some(x) = self.stmts(&f.body.stmts, true)? {
            if x.t != "()" {
                self.out.push(format!("{};", x.t));
            }
        }
        if self.owned.len() > own {
            return Err("tensor owned by a loop body".into());
        }
        self.scopes.pop();
        self.depth -= 1;
        let body = std::mem::replace(&mut self.out, saved);
        self.close(k, body);
        Ok(())
    }
    fn let_(&mut self, l: &Local) -> Res<()> {
        let (pat, ann) = match &l.pat {
            Pat::Type(t) => (&*t.pat, Some(self.norm(&t.ty))),
            p => (p, None),
        };
        let init = l.init.as_ref().ok_or("uninitialised")?;
        if init.diverge.is_some() {
            return Err("let else".into());
        }
        let mut x = self.val(&init.expr)?;
        if x.sp == "deserialize" {
            return Err("deserialize".into());
        }
        if let Some(a) = &ann {
            // `let t: T = Deserialize::deserialize(d)?`
            if let Expr::Try(t) = Self::strip(&init.expr) {
                if tn(&t.expr).contains("eserialize::deserialize(") {
                    x = V { ty: a.clone(), ..x };
                    let last = self.out.pop().unwrap();
                    let vt = self.vt(a)?;
                    self.calls.push(format!("de_{}", a));
                    self.out.push(last.replacen("match ", &format!("match de_{}(", a), 1).replacen(" { Ok", &format!(", Ghost({})) {{ Ok", self.ok), 1).replacen(" = ", &format!(": {} = ", vt), 1));
                }
            }
        }
        match pat {
            Pat::Ident(i) => {
                let n = i.ident.to_string();
                if self.bv {
                    let y = self.bv_let(x);
                    self.bind(&n, y);
                    return Ok(());
                }
                if x.sp == "lock" {
                    // a guard stands for the place it guards
                    let mut x = x;
                    x.sp = String::new();
                    self.guards.push(n.clone());
                    self.bind(&n, x);
                    return Ok(());
                }
                let mu = i.mutability.is_some();
                let ty = if let Some(a) = ann { a } else { x.ty.clone() };
                let cls = match ty.as_str() {
                    "u32" | "usize" | "" | "u64" => "int",
                    t if t.starts_with("Vec<") => "vec",
                    _ => "other",
                };
                let name = self.canon(if mu { "mu" } else { "lo" });
                let t = if x.t.starts_with('&') && !self.copy(&ty) { x.t.clone() } else { x.t.clone() };
                let tyann = if cls == "int" && ty.is_empty() {
                    ": u32".to_string()
                } else if ty == "Vec<?>" {
                    format!(": {}", self.vec_type(&n)?)
                } else {
                    String::new()
                };
                let ty = if ty.is_empty() {
                    "u32".into()
                } else if ty == "Vec<?>" {
                    self.rett_or_vec()
                } else {
                    ty
                };
                self.out.push(format!("let {}{}{} = {};", if mu { "mut " } else { "" }, name, tyann, t));
                self.muts.push(json!({"name": name, "class": cls, "base": ""}));
                let mut y = v(name.clone(), ty.clone());
                if ty == "Tensor" && !x.t.starts_with('&') {
                    if self.depth > 0 {
                        return Err("tensor owned by a block".into());
                    }
                    y.own = Some(name.clone());
                    self.owned.push(name);
                    if !mu {
                        let last = self.out.pop().unwrap();
                        self.out.push(last.replacen("let ", "let mut ", 1));
                    }
                }
                self.bind(&n, y);
                Ok(())
            }
            Pat::Wild(_) => Ok(()),
            _ => Err("pattern".into()),
        }
    }
    fn rett_or_vec(&self) -> String {
        if self.rett.starts_with("Vec<") { self.rett.clone() } else { "Vec<Parameter>".into() }
    }
    fn vec_type(&self, _n: &str) -> Res<String> {
        self.vt(&self.rett_or_vec())
    }
    fn stmts(&mut self, ss: &[Stmt], want: bool) -> Res<Option<V>> {
        for (i, s) in ss.iter().enumerate() {
            let last = i + 1 == ss.len();
            match s {
                Stmt::Local(l) => self.let_(l)?,
                Stmt::Item(Item::Const(c)) => {
                    let x = self.ex(&c.expr)?;
                    let ty = self.norm(&c.ty);
                    let n = c.ident.to_string();
                    let mut y = v(x.t, ty);
                    y.sp = x.sp;
                    self.bind(&n, y);
                }
                Stmt::Item(_) => return Err("item".into()),
                Stmt::Macro(_) => return Err("macro".into()),
                Stmt::Expr(e, semi) => {
                    if let Expr::ForLoop(f) = Self::strip(e) {
                        self.for_(f)?;
                        continue;
                    }
                    if matches!(Self::strip(e), Expr::While(_) | Expr::Loop(_)) {
                        return Err("while".into());
                    }
                    if last && want && semi.is_none() {
                        let x = self.ex(e)?;
                        return Ok(Some(x));
                    }
                    if last && want {
                        if let Expr::Return(r) = Self::strip(e) {
                            if self.inl == 0 && self.depth == 0 {
                                return match &r.expr {
                                    Some(e) => Ok(Some(self.ex(e)?)),
                                    None => Ok(None),
                                };
                            }
                        }
                    }
                    let x = self.ex(e)?;
                    if x.t != "()" && x.t.contains('(') {
                        self.out.push(format!("{};", x.t));
                    }
                }
            }
        }
        Ok(None)
    }
}

pub fn gen_fn(w: &World, f: &FnItem, o: &Value, cfg: &Value) -> Res<Value> {
    let mode = o["self_kind"].as_str().unwrap_or("mem").to_string();
    let mut selfty = f.self_ty.as_ref().map(|t| peel_ty(&tn(t))).unwrap_or_default();
    if f.self_ty.is_none() && mode.contains("tok") {
        selfty = match f.trait_name.as_deref() {
            Some("Model") => "M".into(),
            Some("Optimizer") => "MOpt".into(),
            _ => selfty,
        };
    }
    let mut g = GM {
        w,
        cfg,
        f,
        selfty: selfty.clone(),
        world: mode.contains('w'),
        tok: mode.contains("tok"), guards: vec![],
        bv: mode.contains("bv"),
        scopes: vec![HashMap::new()],
        out: vec![],
        n: 0,
        cnt: HashMap::new(),
        loops: vec![],
        skel: vec![],
        calls: vec![],
        muts: vec![],
        defs: vec![],
        ok: if o["ok"].as_bool().unwrap_or(false) { "ok".into() } else { "true".into() },
        owned: vec![],
        moved: HashSet::new(),
        has_return: false,
        depth: 0,
        inl: 0,
        rett: String::new(),
    };
    let names: Vec<String> = o["params"].as_array().map(|a| a.iter().map(|x| x.as_str().unwrap().to_string()).collect()).unwrap_or_default();
    let mut params = vec![];
    if g.world {
        params.push(json!({"name": "m", "type": if mode.contains("tok") { "&mut Log" } else if mode.contains("w&") { "&Mem" } else { "&mut Mem" }}));
    }
    let mut pre = vec![];
    for (i, p) in f.sig.inputs.iter().enumerate() {
        let (orig, ty, mu, rf, mutpat) = match p {
            FnArg::Receiver(r) => ("self".to_string(), selfty.clone(), r.mutability.is_some() && r.reference.is_some(), r.reference.is_some(), false),
            FnArg::Typed(pt) => {
                let raw = tn(&pt.ty);
                match &*pt.pat {
                    Pat::Ident(i) => (i.ident.to_string(), g.norm(&pt.ty), raw.starts_with("&mut"), raw.starts_with('&'), i.mutability.is_some()),
                    _ => return Err("parameter".into()),
                }
            }
        };
        let c = match names.get(i) {
            Some(n) if n == "-" => continue,
            Some(n) => n.clone(),
            None => orig.clone(),
        };
        let vt = g.vt(&ty)?;
        // pools and device memory change behind a shared reference
        let mu = mu || ((ty == "MemoryPool" || ty == "Naive") && rf);
        let t = if g.copy(&ty) { vt.clone() } else if mu { format!("&mut {}", vt) } else if rf { format!("&{}", vt) } else { vt.clone() };
        params.push(json!({"name": c, "type": t}));
        let mut x = v(if t.starts_with('&') { format!("(*{})", c) } else { c.clone() }, ty.clone());
        x.sp = c.clone();
        if ty == "Tensor" && !rf {
            let n = g.fresh("own");
            pre.push(format!("let mut {} = {};", n, c));
            x = v(n.clone(), ty);
            x.own = Some(n.clone());
            g.owned.push(n);
        } else if mutpat {
            let n = g.canon("mu");
            pre.push(format!("let mut {} = {};", n, c));
            x.t = n;
        }
        g.bind(&orig, x);
    }
    let rett = match &f.sig.output {
        ReturnType::Default => "()".to_string(),
        ReturnType::Type(_, t) => g.norm(t),
    };
    g.rett = rett.clone();
    let mut ret = if rett == "()" { String::new() } else { g.vt(&rett)? };
    let by_ref = !g.bv && !g.copy(&rett) && matches!(&f.sig.output, ReturnType::Type(_, t) if { let r = tn(t); r.starts_with('&') && !r.starts_with("&mut") });
    if by_ref {
        ret = format!("&{}", ret);
    }
    let b = f.block.as_ref().ok_or("no body")?;
    let tail = g.stmts(&b.stmts, true)?;
    let mut text = String::from("/*@START@*/\n");
    text.push_str(&pre.join("\n"));
    text.push('\n');
    let mut tail_t = String::new();
    let mut end = vec![];
    if let Some(x) = tail {
        g.moved(&x);
        if rett == "()" {
            if x.t != "()" {
                end.push(format!("{};", x.t));
            }
        } else if g.bv {
            let y = g.bv_let(x);
            end.push(format!("let ret_ : {} = {};", ret, y.t));
            g.defs.push(format!("ret_ == {}", y.t));
            tail_t = "\nret_".into();
        } else {
            let t = if by_ref && !x.t.starts_with('&') { format!("&{}", x.t) } else { x.t.clone() };
            end.push(format!("let ret_ : {} = {};", ret, t));
            tail_t = "\nret_".into();
        }
    } else if rett != "()" {
        return Err("no value".into());
    }
    text.push_str(&g.out.join("\n"));
    text.push('\n');
    text.push_str(&end.join("\n"));
    // tensors that were not given away are dropped here
    for n in g.owned.iter().rev() {
        if !g.moved.contains(n) {
            if !g.world {
                return Err("tensor dropped".into());
            }
            text.push_str(&format!("\nTensor_life_drop(m, &mut {}, Ghost(true));", n));
            g.calls.push("Tensor_life_drop".into());
        }
    }
    text.push_str("\n/*@END@*/");
    text.push_str(&tail_t);
    g.muts.push(json!({"name": g.defs.join(", "), "class": "defs", "base": ""}));
    Ok(json!({"status": "ok", "params": params, "ret": ret, "body": text, "loops": g.loops, "muts": g.muts, "skeleton": g.skel.join(" "),
        "calls": g.calls, "has_return": g.has_return, "has_self_mut": false}))
}

/// serde's derived `Deserialize` of a struct: which name and which position fill which field.
/// The loop over the entries of a map is dropped; its arms are read off.
pub fn gen_derive(w: &World, f: &FnItem, o: &Value, cfg: &Value) -> Res<Value> {
    let b = f.block.as_ref().ok_or("no body")?;
    let mut seq: Option<&ImplItemFn> = None;
    let mut map: Option<&ImplItemFn> = None;
    let mut strs: Option<&ImplItemFn> = None;
    let mut fields: Vec<String> = vec![];
    let mut last = None;
    for s in &b.stmts {
        match s {
            Stmt::Item(Item::Impl(im)) => {
                let t = tn(&im.self_ty);
                for ii in &im.items {
                    if let ImplItem::Fn(g) = ii {
                        let n = g.sig.ident.to_string();
                        if t.starts_with("__Visitor") && n == "visit_seq" {
                            seq = Some(g);
                        }
                        if t.starts_with("__Visitor") && n == "visit_map" {
                            map = Some(g);
                        }
                        if t == "__FieldVisitor" && n == "visit_str" {
                            strs = Some(g);
                        }
                    }
                }
            }
            Stmt::Item(Item::Const(c)) if c.ident == "FIELDS" => {
                let mut e = &*c.expr;
                if let Expr::Reference(r) = e {
                    e = &r.expr;
                }
                if let Expr::Array(a) = e {
                    for x in &a.elems {
                        if let Expr::Lit(ExprLit { lit: Lit::Str(s), .. }) = x {
                            fields.push(s.value());
                        }
                    }
                }
            }
            Stmt::Expr(e, _) => last = Some(e),
            _ => {}
        }
    }
    let (seq, map, strs) = (seq.ok_or("visit_seq")?, map.ok_or("visit_map")?, strs.ok_or("visit_str")?);
    match last.map(|e| tn(e)) {
        Some(t) if t.contains("deserialize_struct(__deserializer,") && t.contains(",FIELDS,") => {}
        _ => return Err("not a derived struct".into()),
    }
    let me = peel_ty(&tn(f.self_ty.as_ref().ok_or("self")?));
    let g = GM {
        w, cfg, f, selfty: me.clone(), world: false, tok: false, guards: vec![], bv: false, scopes: vec![HashMap::new()], out: vec![], n: 0, cnt: HashMap::new(), loops: vec![], skel: vec![],
        calls: vec![], muts: vec![], defs: vec![], ok: "ok".into(), owned: vec![], moved: HashSet::new(), has_return: true, depth: 0, inl: 0, rett: String::new(),
    };
    let vt = g.vt(&me)?;
    let clean = |t: &str| -> String { t.replace("_serde::__private229::", "").replace("_serde::__private::", "").replace("_serde::", "") };
    let priv_ = |t: String| -> String {
        // the private module's name carries a version
        let mut r = String::new();
        let mut rest = t.as_str();
        while let Some(i) = rest.find("__private") {
            r.push_str(&rest[..i]);
            let j = rest[i..].find("::").map(|j| i + j + 2).unwrap_or(rest.len());
            rest = &rest[j..];
        }
        r.push_str(rest);
        clean(&r)
    };
    let txt = |b: &Block| priv_(tn(b));
    // names -> field numbers
    let st = txt(&strs.block);
    let mut name_of: HashMap<usize, String> = HashMap::new();
    let arms = st.split('"').collect::<Vec<_>>();
    let mut i = 1;
    while i + 1 < arms.len() {
        let n = arms[i].to_string();
        let r = arms[i + 1];
        let k = r.strip_prefix("=>Ok(__Field::__field").and_then(|x| x.split(')').next()).and_then(|x| x.parse::<usize>().ok()).ok_or("visit_str")?;
        if name_of.insert(k, n).is_some() {
            return Err("alias".into());
        }
        i += 2;
    }
    let n = fields.len();
    if name_of.len() != n {
        return Err("names".into());
    }
    let member = |t: &str| -> Res<Vec<(String, usize)>> {
        let i = t.rfind(&format!("Ok({}{{", me)).ok_or("constructor")?;
        let t = &t[i + 4 + me.len()..];
        let t = &t[..t.find('}').ok_or("constructor")?];
        let mut v = vec![];
        for p in t.split(',').filter(|p| !p.is_empty()) {
            let (a, b) = p.split_once(':').ok_or("constructor")?;
            v.push((a.to_string(), b.strip_prefix("__field").and_then(|x| x.parse().ok()).ok_or("constructor")?));
        }
        Ok(v)
    };
    let ty_name = |t: &str| -> Res<String> {
        let s = strip_life(t);
        let s = if s.starts_with("HashMap<String,") { "Stats".to_string() } else { s };
        Ok(s.replace('<', "_").replace('>', ""))
    };
    let mut calls = vec!["de_struct".to_string(), "de_is_seq".into(), "de_next".into(), "de_named".into()];
    let mut out = String::from("/*@START@*/\nlet mut vec0: Vec<u64> = Vec::new();\n");
    for x in &fields {
        out.push_str(&format!("vec0.push({});\n", crate::gen::str_id(x)));
    }
    out.push_str("let mut st_ = match de_struct(d, vec0) { Ok(x_) => x_, Err(e_) => return Err(e_) };\nif de_is_seq(&st_) {\n");
    // by position
    let t = txt(&seq.block);
    let mut at = 0;
    for k in 0..n {
        let head = format!("let__field{}=matchde::SeqAccess::next_element::<", k);
        let i = t[at..].find(&head).ok_or("visit_seq order")? + at + head.len();
        let j = t[i..].find(">(&mut__seq)?{Some(__value)=>__value,None=>returnErr(").ok_or("visit_seq element")? + i;
        if t[at..i].matches("next_element").count() != 1 {
            return Err("visit_seq extra element".into());
        }
        let c = ty_name(&t[i..j])?;
        out.push_str(&format!("let e_{k} = match de_next(&mut st_) {{ Ok(x_) => x_, Err(e_) => return Err(e_) }};\nlet f_{k} = match de_{c}(e_{k}, Ghost(ok)) {{ Ok(x_) => x_, Err(e_) => return Err(e_) }};\n"));
        calls.push(format!("de_{}", c));
        at = j;
    }
    let cons = |ms: Vec<(String, usize)>| -> String { ms.iter().map(|(m, k)| format!("{}: f_{}", m, k)).collect::<Vec<_>>().join(", ") };
    out.push_str(&format!("return Ok({} {{ {} }});\n}}\n", vt, cons(member(&t)?)));
    // by name
    let t = txt(&map.block);
    if t.matches("next_value::<").count() != n + 1 || t.matches("next_key").count() != 1 {
        return Err("visit_map".into());
    }
    for k in 0..n {
        let head = format!("__Field::__field{k}=>{{ifOption::is_some(&__field{k}){{returnErr(<__A::ErrorasError>::duplicate_field(");
        let alt = format!("__Field::__field{k}=>{{ifOption::is_some(&__field{k}){{returnErr(<__A::Errorasde::Error>::duplicate_field(");
        let i = t.find(&head).or_else(|| t.find(&alt)).ok_or(format!("visit_map arm {}", k))?;
        let set = format!("__field{k}=Some(de::MapAccess::next_value::<");
        let i = t[i..].find(&set).ok_or("visit_map value")? + i + set.len();
        let j = t[i..].find(">(&mut__map)?)").ok_or("visit_map value")? + i;
        let c = ty_name(&t[i..j])?;
        let fin = format!("let__field{k}=match__field{k}{{Some(__field{k})=>__field{k},None=>de::missing_field(\"{}\")?,}};", name_of[&k]);
        if !t.contains(&fin) {
            return Err(format!("visit_map end {}", k));
        }
        out.push_str(&format!("let e_{k} = match de_named(&mut st_, {}) {{ Ok(x_) => x_, Err(e_) => return Err(e_) }};\nlet f_{k} = match de_{c}(e_{k}, Ghost(ok)) {{ Ok(x_) => x_, Err(e_) => return Err(e_) }};\n", crate::gen::str_id(&name_of[&k])));
    }
    out.push_str(&format!("let ret_ : Result<{}, DeErr> = Ok({} {{ {} }});\n/*@END@*/\nret_", vt, vt, cons(member(&t)?)));
    calls.sort();
    calls.dedup();
    let _ = o;
    Ok(json!({"status": "ok", "params": [{"name": "d", "type": "De"}], "ret": format!("Result<{}, DeErr>", vt), "body": out, "loops": [], "muts": [], "skeleton": "derive",
        "calls": calls, "has_return": true, "has_self_mut": false}))
}
fn strip_life(t: &str) -> String {
    let mut s = crate::strip_lt(t).replace("Tensor<>", "Tensor");
    if let Some(x) = s.strip_prefix("crate::") {
        s = x.to_string();
    }
    s
}
