//! The rewriter: one function of the expanded source -> Verus text with markers.
use crate::{FnItem, World};
use quote::ToTokens;
use serde_json::{json, Value};
use std::collections::HashMap;
use syn::punctuated::Punctuated;
use syn::*;

#[derive(Clone, Debug, PartialEq)]
pub enum K {
    R,
    Int(String), // "", "u32", "usize", ...
    Bool,
    Shape,
    Tensor,
    Device,
    Ptr(String), // provenance: text of the tensor place
    Slice(Box<K>), // slices and vectors, by element kind; references inside are shared
    Cells,       // `&[&RefCell<Tensor>]`
    Mut0,        // `ys: &mut [&mut Tensor]` with only ys[0] used
    Node,
    SelfOp,
    Unit,
    Str,
    Other(String),
    Unknown,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Rf {
    Own,
    Sh,
    Mu,
}
#[derive(Clone, Debug)]
pub struct V {
    pub t: String,
    pub k: K,
    pub r: Rf,
}
fn v(t: impl Into<String>, k: K) -> V {
    V { t: t.into(), k, r: Rf::Own }
}
type Res<T> = std::result::Result<T, String>;

fn ts<T: ToTokens>(t: &T) -> String {
    t.to_token_stream().to_string()
}
fn tn<T: ToTokens>(t: &T) -> String {
    ts(t).replace(' ', "")
}
fn nc(s: &str) -> String {
    // no comment terminators / newlines in a message
    s.chars().filter(|c| *c != '\n').take(160).collect()
}

/// names are read as numbers (FNV-1a, 64 bits)
pub fn str_id(s: &str) -> String {
    let mut h: u64 = 0xcbf29ce484222325;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    format!("{:#x}u64", h)
}

pub struct G<'a> {
    w: &'a World,
    cfg: &'a Value,
    f: &'a FnItem,
    scopes: Vec<HashMap<String, V>>,
    out: Vec<String>, // current statement list
    tmp: usize,
    loops: Vec<Value>,
    depth: usize,
    muts: Vec<Value>,
    skel: Vec<String>,
    ok: String, // the ghost expression passed to rejecting callees
    inline_depth: usize,
    lenient: bool,
    has_return: bool,
    calls: Vec<String>,
    pub_names: HashMap<String, usize>,
    vec_ty: HashMap<String, String>,
    sg: Vec<(String, String, String)>,      // cells borrowed by the current statement: (cells, index, local)
    bg: Vec<Vec<(String, String, String)>>, // cells borrowed until the end of a block
    guards: Vec<(String, String, String)>, // (map, key, local): entries of a map of cells, borrowed until the end
    rc: Vec<String>, // cells of the receiver that have been borrowed
}

impl<'a> G<'a> {
    fn lookup(&self, n: &str) -> Option<&V> {
        self.scopes.iter().rev().find_map(|s| s.get(n))
    }
    fn bind(&mut self, n: &str, val: V) {
        self.scopes.last_mut().unwrap().insert(n.into(), val);
    }
    fn fresh(&mut self, p: &str) -> String {
        self.tmp += 1;
        format!("{}{}", p, self.tmp)
    }
    /// a local variable's emitted name, unique in the function
    fn local(&mut self, n: &str) -> String {
        let c = self.pub_names.entry(n.to_string()).or_insert(0);
        *c += 1;
        if *c == 1 {
            format!("v_{}", n)
        } else {
            format!("v_{}_{}", n, c)
        }
    }

    // ---------------------------------------------------------------- types
    fn ty(&self, t: &Type) -> (String, K, Rf) {
        match t {
            Type::Paren(p) => self.ty(&p.elem),
            Type::Group(p) => self.ty(&p.elem),
            Type::Reference(r) => {
                if matches!(tn(&r.elem).replace("std::cell::", "").replace("crate::", "").as_str(), "[&RefCell<Tensor>]") {
                    return ("&mut Cells".into(), K::Cells, Rf::Mu);
                }
                let (s, k, _) = self.ty(&r.elem);
                if k == K::Str {
                    return (s, k, Rf::Own);
                }
                if r.mutability.is_some() {
                    if let (Type::Slice(sl), K::Slice(e)) = (&*r.elem, &k) {
                        if matches!(&*sl.elem, Type::Reference(m) if m.mutability.is_some()) {
                            // a list of exclusive references: a vector of the things themselves
                            let (es, _, _) = self.ty(&sl.elem);
                            let _ = e;
                            return (format!("&mut Vec<{}>", es.trim_start_matches("&mut ")), k, Rf::Mu);
                        }
                    }
                    (format!("&mut {}", s), k, Rf::Mu)
                } else {
                    (format!("&{}", s), k, Rf::Sh)
                }
            }
            Type::Slice(s) => {
                let (e, k, _) = self.ty(&s.elem);
                (format!("[{}]", e), K::Slice(Box::new(k)), Rf::Own)
            }
            Type::Array(s) => {
                let (e, k, _) = self.ty(&s.elem);
                (format!("[{}; {}]", e, tn(&s.len)), K::Slice(Box::new(k)), Rf::Own)
            }
            Type::Tuple(t) if t.elems.is_empty() => ("()".into(), K::Unit, Rf::Own),
            Type::Tuple(t) => {
                let v: Vec<String> = t.elems.iter().map(|e| self.ty(e).0).collect();
                (format!("({})", v.join(", ")), K::Unknown, Rf::Own)
            }
            Type::Path(p) => {
                let last = p.path.segments.last().unwrap();
                let n = last.ident.to_string();
                let k = match n.as_str() {
                    "f32" | "f64" => return ("R".into(), K::R, Rf::Own),
                    "u32" | "usize" | "i32" | "u64" | "i64" | "u8" | "isize" => K::Int(n.clone()),
                    "bool" => K::Bool,
                    "str" | "String" => return ("u64".into(), K::Str, Rf::Own),
                    "HashMap" if tn(t) == "HashMap<String,RefCell<Tensor<'dev>>>" => return ("Stats".into(), K::Other("Stats".into()), Rf::Own),
                    "Shape" => K::Shape,
                    "Ref" | "RefMut" if matches!(&last.arguments, PathArguments::AngleBracketed(a) if a.args.iter().any(|t| tn(t).starts_with("Tensor"))) => K::Tensor,
                    "Tensor" => K::Tensor,
                    "Device" => K::Device,
                    "Node" => K::Node,
                    "Self" => {
                        if let Some(st) = &self.f.self_ty {
                            return self.ty(st);
                        }
                        K::Unknown
                    }
                    "Vec" => {
                        if let PathArguments::AngleBracketed(a) = &last.arguments {
                            if let Some(GenericArgument::Type(t)) = a.args.first() {
                                let (e, k, _) = self.ty(t);
                                return (format!("Vec<{}>", e), K::Slice(Box::new(k)), Rf::Own);
                            }
                        }
                        K::Unknown
                    }
                    "Output" => {
                        // Self::Output of the operator traits on tensors / nodes
                        if let Some(st) = &self.f.self_ty {
                            let (s, k, _) = self.ty(st);
                            if k == K::R {
                                // `impl Add<Tensor> for f32`
                                let n = if self.f.key.contains("Node") { "Node" } else { "Tensor" };
                                return (n.into(), if n == "Node" { K::Node } else { K::Tensor }, Rf::Own);
                            }
                            return (s.trim_start_matches('&').to_string(), k, Rf::Own);
                        }
                        K::Unknown
                    }
                    _ => {
                        // operators are named apart from the traits of the same name
                        if p.path.segments.len() == 1 && self.f.module.starts_with("operators::") && self.w.structs.contains_key(&format!("{}::{}", self.f.module, n)) {
                            let o = format!("O_{}", n);
                            return (o.clone(), K::Other(o), Rf::Own);
                        }
                        K::Other(n.clone())
                    }
                };
                (n, k, Rf::Own)
            }
            _ => (tn(t), K::Unknown, Rf::Own),
        }
    }
    fn kind_of_str(&self, s: &str) -> (K, Rf) {
        if s.is_empty() {
            return (K::Unknown, Rf::Own);
        }
        match syn::parse_str::<Type>(s) {
            Ok(t) => {
                let (_, k, r) = self.ty(&t);
                (k, r)
            }
            Err(_) => (K::Unknown, Rf::Own),
        }
    }

    fn bor(&self, x: &V) -> String {
        match x.r {
            Rf::Own => format!("&{}", x.t),
            Rf::Sh => x.t.clone(),
            Rf::Mu => format!("&*{}", x.t),
        }
    }
    fn bor_mut(&self, x: &V) -> String {
        match x.r {
            Rf::Own => format!("&mut {}", x.t),
            Rf::Mu => x.t.clone(),
            Rf::Sh => format!("&mut {}", x.t),
        }
    }
    fn own(&self, x: &V) -> String {
        match x.r {
            Rf::Own => x.t.clone(),
            _ => format!("*{}", x.t),
        }
    }

    // ------------------------------------------------------------ expressions
    fn pb(b: &str) -> String {
        let (t, p) = b.split_once(':').unwrap_or(("o", b));
        match t {
            "o" => format!("&{}", p),
            "s" => p.to_string(),
            _ => format!("&*{}", p),
        }
    }
    fn pbm(b: &str) -> String {
        let (t, p) = b.split_once(':').unwrap_or(("o", b));
        match t {
            "o" => format!("&mut {}", p),
            _ => p.to_string(),
        }
    }
    fn strip<'b>(e: &'b Expr) -> &'b Expr {
        match e {
            Expr::Paren(p) => Self::strip(&p.expr),
            Expr::Group(p) => Self::strip(&p.expr),
            _ => e,
        }
    }

    /// `(T.handle().load(..) as *const Vec<f32>).as_ref().unwrap().as_ptr()`
    fn is_ptr_macro<'b>(e: &'b Expr) -> Option<(&'b Expr, bool)> {
        let m = match Self::strip(e) {
            Expr::MethodCall(m) => m,
            _ => return None,
        };
        let mu = match m.method.to_string().as_str() {
            "as_ptr" => false,
            "as_mut_ptr" => true,
            _ => return None,
        };
        let u = match Self::strip(&m.receiver) {
            Expr::MethodCall(u) if u.method == "unwrap" => u,
            _ => return None,
        };
        let a = match Self::strip(&u.receiver) {
            Expr::MethodCall(u) if u.method == "as_ref" || u.method == "as_mut" => u,
            _ => return None,
        };
        let c = match Self::strip(&a.receiver) {
            Expr::Cast(c) => c,
            _ => return None,
        };
        let t = tn(&c.ty);
        if t != "*constVec<f32>" && t != "*mutVec<f32>" {
            return None;
        }
        let l = match Self::strip(&c.expr) {
            Expr::MethodCall(l) if l.method == "load" => l,
            _ => return None,
        };
        match Self::strip(&l.receiver) {
            Expr::MethodCall(h) if h.method == "handle" && h.args.is_empty() => {
                Some((&h.receiver, mu))
            }
            _ => None,
        }
    }

    fn block_val(&mut self, b: &Block) -> Res<V> {
        // a block used as an expression; its statements stay inside braces
        let saved = std::mem::take(&mut self.out);
        self.scopes.push(HashMap::new());
        let r = self.stmts(&b.stmts, true);
        self.scopes.pop();
        let inner = std::mem::replace(&mut self.out, saved);
        let tail = r?;
        if inner.is_empty() {
            if let Some(t) = tail {
                return Ok(V { t: format!("{{ {} }}", t.t), k: t.k, r: t.r });
            }
            return Ok(v("{ }", K::Unit));
        }
        match tail {
            Some(t) => Ok(V { t: format!("{{ {} {} }}", inner.join("\n"), t.t), k: t.k, r: t.r }),
            None => Ok(v(format!("{{ {} }}", inner.join("\n")), K::Unit)),
        }
    }

    fn lit(&self, l: &Lit, neg: bool) -> Res<V> {
        let m = if neg { "-" } else { "" };
        match l {
            Lit::Int(i) => {
                let suf = i.suffix();
                if suf == "f32" || suf == "f64" {
                    return Ok(v(format!("rl(Ghost({}{}.0real))", m, i.base10_digits()), K::R));
                }
                Ok(v(format!("{}{}{}", m, i.base10_digits(), suf), K::Int(suf.into())))
            }
            Lit::Float(f) => {
                let d = f.base10_digits();
                if d.contains('e') || d.contains('E') {
                    // decimal expansion of the exponent form
                    let lower = d.to_lowercase();
                    let (mant, ex) = lower.split_once('e').unwrap();
                    let ex: i32 = ex.parse().map_err(|_| "float literal")?;
                    let (ip, fp) = mant.split_once('.').unwrap_or((mant, ""));
                    let mut digits: String = format!("{}{}", ip, fp);
                    let mut point = ip.len() as i32 + ex;
                    while point <= 0 {
                        digits.insert(0, '0');
                        point += 1;
                    }
                    while (digits.len() as i32) < point {
                        digits.push('0');
                    }
                    let (a, b) = digits.split_at(point as usize);
                    let b = if b.is_empty() { "0" } else { b };
                    return Ok(v(format!("rl(Ghost({}{}.{}real))", m, a, b), K::R));
                }
                let d = if d.ends_with('.') {
                    format!("{}0", d)
                } else if !d.contains('.') {
                    format!("{}.0", d)
                } else {
                    d.to_string()
                };
                Ok(v(format!("rl(Ghost({}{}real))", m, d), K::R))
            }
            Lit::Bool(b) => Ok(v(b.value.to_string(), K::Bool)),
            Lit::Str(s) => Ok(v(str_id(&s.value()), K::Str)),
            _ => Err("literal".into()),
        }
    }

    fn args(&mut self, a: &Punctuated<Expr, Token![,]>) -> Res<Vec<V>> {
        a.iter()
            .map(|e| {
                let x = self.expr(e)?;
                if let (Expr::Index(i), K::Tensor) = (e, &x.k) {
                    // an element of a list of exclusive references, passed on
                    if let Expr::Path(p) = Self::strip(&i.expr) {
                        let n = p.path.segments.last().unwrap().ident.to_string();
                        if self.lookup(&n).map_or(false, |b| b.r == Rf::Mu) {
                            return Ok(V { t: format!("&mut {}", x.t), k: x.k, r: Rf::Mu });
                        }
                    }
                }
                Ok(x)
            })
            .collect()
    }

    fn callee(&self, table: &str, key: &str) -> Option<&'a Value> {
        self.cfg[table].get(key)
    }

    /// emit a call to a function under contract
    fn call_known(&mut self, c: &Value, mut args: Vec<String>) -> V {
        let name = c["emit"].as_str().unwrap().to_string();
        self.calls.push(name.clone());
        if c["ok"].as_bool().unwrap_or(false) {
            args.push(format!("Ghost({})", self.ok));
        }
        let (k, r) = self.kind_of_str(c["ret"].as_str().unwrap_or(""));
        V { t: format!("{}({})", name, args.join(", ")), k, r }
    }

    /// inline a function of the same crate that is under no contract of its own
    fn inline(&mut self, f: &FnItem, args: Vec<V>) -> Res<V> {
        if self.inline_depth >= 4 {
            return Err("inlining too deep".into());
        }
        let b = f.block.as_ref().ok_or("no body")?;
        struct Ret(bool);
        impl<'ast> visit::Visit<'ast> for Ret {
            fn visit_expr_return(&mut self, _: &'ast ExprReturn) {
                self.0 = true;
            }
            fn visit_expr_try(&mut self, _: &'ast ExprTry) {
                self.0 = true;
            }
        }
        let mut r = Ret(false);
        visit::Visit::visit_block(&mut r, b);
        if r.0 {
            return Err(format!("cannot inline {} (early return)", f.key));
        }
        let mut frame = HashMap::new();
        let mut pre = vec![];
        let mut it = args.into_iter();
        for p in &f.sig.inputs {
            let a = it.next().ok_or("arity")?;
            let (name, t) = match p {
                FnArg::Receiver(_) => ("self".to_string(), None),
                FnArg::Typed(pt) => match &*pt.pat {
                    Pat::Ident(i) => (i.ident.to_string(), Some(&*pt.ty)),
                    Pat::Wild(_) => ("_".to_string(), Some(&*pt.ty)),
                    _ => return Err("parameter pattern".into()),
                },
            };
            let is_mut = matches!(p, FnArg::Typed(pt) if matches!(&*pt.pat, Pat::Ident(i) if i.mutability.is_some()));
            let (_, tk, tr) = match t {
                Some(t) => self.ty(t),
                None => (String::new(), a.k.clone(), a.r),
            };
            let k = match (&a.k, &tk) {
                (K::Ptr(_), _) => a.k.clone(),
                (_, K::Unknown) | (_, K::Other(_)) => a.k.clone(),
                _ => tk,
            };
            if tr == Rf::Mu || name == "self" || matches!(k, K::Mut0 | K::Cells | K::Device) {
                // alias of a place
                let mut x = a.clone();
                if x.t.starts_with("&mut ") {
                    x.t = x.t["&mut ".len()..].to_string();
                    x.r = Rf::Own;
                }
                frame.insert(name, x);
            } else {
                let n = self.local(if name == "_" { "_u" } else { &name });
                let ann = match &k {
                    K::Int(s) if !s.is_empty() => format!(": {}", s),
                    K::R => ": R".into(),
                    K::Bool => ": bool".into(),
                    _ => String::new(),
                };
                pre.push(format!("let {}{}{} = {};", if is_mut { "mut " } else { "" }, n, ann, a.t));
                frame.insert(name, V { t: n, k, r: a.r });
            }
        }
        let saved_scopes = std::mem::replace(&mut self.scopes, vec![frame]);
        self.inline_depth += 1;
        let r = self.block_val(b);
        self.inline_depth -= 1;
        self.scopes = saved_scopes;
        let r = r?;
        if pre.is_empty() {
            return Ok(r);
        }
        Ok(V { t: format!("{{ {} {} }}", pre.join(" "), r.t), k: r.k, r: r.r })
    }

    fn closure_call(&mut self, c: &ExprClosure, args: Vec<V>) -> Res<V> {
        if c.inputs.len() != args.len() {
            return Err("closure arity".into());
        }
        let mut pre = vec![];
        let mut frame = HashMap::new();
        for (p, a) in c.inputs.iter().zip(args) {
            let (pat, tk) = match p {
                Pat::Type(t) => (&*t.pat, Some(self.ty(&t.ty))),
                _ => (p, None),
            };
            let a = match tk {
                Some((_, k, r)) if !matches!(a.k, K::Ptr(_)) => V { t: a.t, k, r },
                _ => a,
            };
            if a.k == K::Device || a.k == K::Cells {
                if let Pat::Ident(i) = pat {
                    frame.insert(i.ident.to_string(), a);
                }
                continue;
            }
            match pat {
                Pat::Ident(i) => {
                    let n = self.local(&i.ident.to_string());
                    let m = if i.mutability.is_some() { "mut " } else { "" };
                    pre.push(format!("let {}{} = {};", m, n, a.t));
                    frame.insert(i.ident.to_string(), V { t: n, k: a.k, r: a.r });
                }
                Pat::Wild(_) => {
                    let n = self.fresh("u_");
                    pre.push(format!("let {} = {};", n, a.t));
                }
                _ => return Err("closure pattern".into()),
            }
        }
        self.scopes.push(frame);
        let body = self.expr(&c.body);
        self.scopes.pop();
        let body = body?;
        Ok(V { t: format!("{{ {} {} }}", pre.join(" "), body.t), k: body.k, r: body.r })
    }

    /// an operand of an operator trait: its text and the type that selects the impl
    fn operand(&self, x: &V, ty: &str) -> (String, String) {
        let n = if x.k == K::R || matches!(x.k, K::Int(_)) { "R" } else { ty };
        match x.r {
            Rf::Own => (x.t.clone(), n.to_string()),
            Rf::Sh => (x.t.clone(), format!("&{}", n)),
            Rf::Mu => (format!("&*{}", x.t), format!("&{}", n)),
        }
    }

    fn bin(&mut self, op: &BinOp, l: V, r: V, e: &ExprBinary) -> Res<V> {
        use BinOp::*;
        let tens = |x: &V| x.k == K::Tensor;
        let node = |x: &V| x.k == K::Node;
        let name = match op {
            Add(_) => "add",
            Sub(_) => "sub",
            Mul(_) => "mul",
            Div(_) => "div",
            _ => "",
        };
        if (tens(&l) || tens(&r) || node(&l) || node(&r)) && !matches!(op, Eq(_) | Ne(_)) {
            if name.is_empty() {
                return Err("operator on tensors".into());
            }
            let ty = if tens(&l) || tens(&r) { "Tensor" } else { "Node" };
            let (la, ka) = self.operand(&l, ty);
            let (ra, kb) = self.operand(&r, ty);
            let key = format!("{} {} {}", ka, name, kb);
            let c = self.callee("ops", &key).cloned().ok_or(format!("no contract for {}", key))?;
            return Ok(self.call_known(&c, vec![la, ra]));
        }
        if let (K::Ptr(_), _) | (_, K::Ptr(_)) = (&l.k, &r.k) {
            return match op {
                Eq(_) | Ne(_) | Lt(_) | Le(_) | Gt(_) | Ge(_) => {
                    Ok(v(format!("({} {} {})", l.t, ts(op), r.t), K::Bool))
                }
                _ => Err("pointer arithmetic".into()),
            };
        }
        match op {
            Eq(_) | Ne(_) => {
                if l.k == K::Device || r.k == K::Device {
                    // a device function compares the device of a tensor with its own
                    for (a, b) in [(&l, &r), (&r, &l)] {
                        if a.t == "self_dev()" && b.k == K::Device {
                            if let Some(x) = b.t.strip_prefix("dev_of") {
                                let s = format!("same_dev{}", x);
                                return Ok(v(if matches!(op, Eq(_)) { s } else { format!("!{}", s) }, K::Bool));
                            }
                        }
                    }
                    // elsewhere one device: stated in DESIGN.md
                    return Ok(v(if matches!(op, Eq(_)) { "true" } else { "false" }, K::Bool));
                }
                if l.k == K::Shape || r.k == K::Shape {
                    let s = format!("sh_eq({}, {})", self.bor(&l), self.bor(&r));
                    return Ok(v(if matches!(op, Eq(_)) { s } else { format!("!{}", s) }, K::Bool));
                }
                if let (K::Slice(x), K::Slice(y)) = (&l.k, &r.k) {
                    if **x == K::Int("u32".into()) && **y == K::Int("u32".into()) {
                        let s = format!("sl_eq({}, {})", self.bor(&l), self.bor(&r));
                        return Ok(v(if matches!(op, Eq(_)) { s } else { format!("!{}", s) }, K::Bool));
                    }
                }
                let (a, b) = (self.own(&l), self.own(&r));
                Ok(v(format!("({} {} {})", a, ts(op), b), K::Bool))
            }
            Lt(_) | Le(_) | Gt(_) | Ge(_) => {
                let (a, b) = (self.own(&l), self.own(&r));
                Ok(v(format!("({} {} {})", a, ts(op), b), K::Bool))
            }
            And(_) | Or(_) => Ok(v(format!("({} {} {})", l.t, ts(op), r.t), K::Bool)),
            Add(_) | Sub(_) | Mul(_) | Div(_) | Rem(_) | Shl(_) | Shr(_) | BitAnd(_) | BitOr(_) | BitXor(_) => {
                let k = match (&l.k, &r.k) {
                    (K::R, _) | (_, K::R) => K::R,
                    (K::Int(a), K::Int(b)) => {
                        if matches!(op, Shl(_) | Shr(_)) {
                            K::Int(a.clone())
                        } else {
                            K::Int(if a.is_empty() { b.clone() } else { a.clone() })
                        }
                    }
                    (K::Int(a), _) => K::Int(a.clone()),
                    (_, K::Int(b)) => K::Int(b.clone()),
                    (K::Bool, _) => K::Bool,
                    _ => K::Unknown,
                };
                if k == K::R && matches!(op, Rem(_)) {
                    return Err("remainder of floats".into());
                }
                if self.lenient && matches!(&k, K::Int(s) if s != "usize") && matches!(op, Add(_) | Sub(_) | Mul(_) | Div(_)) {
                    let (a, b) = (self.own(&l), self.own(&r));
                    return Ok(v(format!("chk_{}_u32({}, {}, Ghost({}))", name, a, b, self.ok), k));
                }
                let (a, b) = (self.own(&l), self.own(&r));
                Ok(v(format!("({} {} {})", a, ts(op), b), k))
            }
            _ => {
                let _ = e;
                Err(format!("operator {}", ts(op)))
            }
        }
    }

    /// a place expression that a pointer or `ys[0]` alias denotes
    fn ptr_place(&mut self, e: &Expr) -> Res<Option<(String, String)>> {
        // *P where P is a pointer: (tensor place, offset text)
        if let Expr::Unary(u) = Self::strip(e) {
            if let UnOp::Deref(_) = u.op {
                let save = (self.out.len(), self.sg.len(), self.guards.len(), self.calls.len(), self.tmp, self.skel.len(), self.rc.len());
                let p = self.expr(&u.expr)?;
                if let K::Ptr(b) = &p.k {
                    return Ok(Some((b.clone(), p.t.clone())));
                }
                self.out.truncate(save.0);
                self.sg.truncate(save.1);
                self.guards.truncate(save.2);
                self.calls.truncate(save.3);
                self.tmp = save.4;
                self.skel.truncate(save.5);
                self.rc.truncate(save.6);
            }
        }
        Ok(None)
    }

    fn expr(&mut self, e: &Expr) -> Res<V> {
        if let Some((t, _mu)) = Self::is_ptr_macro(e) {
            let t = self.expr(t)?;
            if t.k != K::Tensor {
                return Err("pointer of something that is no tensor".into());
            }
            let tag = match t.r {
                Rf::Own => "o",
                Rf::Sh => "s",
                Rf::Mu => "m",
            };
            return Ok(v(format!("t_ptr({}, Ghost({}))", self.bor(&t), self.ok), K::Ptr(format!("{}:{}", tag, t.t))));
        }
        match e {
            Expr::Paren(p) => {
                let x = self.expr(&p.expr)?;
                Ok(V { t: format!("({})", x.t), k: x.k, r: x.r })
            }
            Expr::Group(p) => self.expr(&p.expr),
            Expr::Lit(l) => self.lit(&l.lit, false),
            Expr::Path(p) => {
                if p.path.segments.len() == 1 {
                    let n = p.path.segments[0].ident.to_string();
                    if let Some(x) = self.lookup(&n) {
                        return Ok(x.clone());
                    }
                    let full = format!("{}::{}", self.f.module, n);
                    if let Some(c) = self.w.consts.get(&full).cloned() {
                        return self.expr(&c);
                    }
                    if n == "None" {
                        return Ok(v("None", K::Unknown));
                    }
                }
                let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                let s = segs.join("::");
                if s.ends_with("u32::MAX") {
                    return Ok(v("0xffff_ffffu32", K::Int("u32".into())));
                }
                if s.ends_with("usize::MAX") {
                    return Ok(v("usize::MAX", K::Int("usize".into())));
                }
                Err(format!("path {}", s))
            }
            Expr::Unary(u) => match u.op {
                UnOp::Neg(_) => {
                    if let Expr::Lit(l) = Self::strip(&u.expr) {
                        return self.lit(&l.lit, true);
                    }
                    let x = self.expr(&u.expr)?;
                    if x.k == K::Tensor || x.k == K::Node {
                        let (a, n) = self.operand(&x, if x.k == K::Tensor { "Tensor" } else { "Node" });
                        let key = format!("neg {}", n);
                        let c = self.callee("ops", &key).cloned().ok_or("no contract for neg")?;
                        return Ok(self.call_known(&c, vec![a]));
                    }
                    if x.k == K::R {
                        return Ok(v(format!("r_neg({})", x.t), K::R));
                    }
                    Ok(V { t: format!("(-{})", x.t), k: x.k, r: x.r })
                }
                UnOp::Not(_) => {
                    let x = self.expr(&u.expr)?;
                    Ok(V { t: format!("(!{})", x.t), k: x.k, r: x.r })
                }
                UnOp::Deref(_) => {
                    let x = self.expr(&u.expr)?;
                    if let K::Ptr(b) = &x.k {
                        return Ok(v(format!("t_rd({}, {})", Self::pb(b), x.t), K::R));
                    }
                    if x.r == Rf::Own && x.k == K::Tensor && (x.t.starts_with("cell_") || self.rc.contains(&x.t) || self.guards.iter().any(|g| g.2 == x.t)) {
                        return Ok(x);
                    }
                    if x.r == Rf::Sh && matches!(x.k, K::Tensor | K::Node) {
                        // an element of a slice of references: `*x` is the reference
                        return Ok(x);
                    }
                    match x.r {
                        Rf::Own => Ok(V { t: format!("(*{})", x.t), k: x.k, r: Rf::Own }),
                        _ => Ok(V { t: format!("(*{})", x.t), k: x.k, r: Rf::Own }),
                    }
                }
                _ => Err("unary operator".into()),
            },
            Expr::Binary(b) => {
                use BinOp::*;
                match b.op {
                    AddAssign(_) | SubAssign(_) | MulAssign(_) | DivAssign(_) | RemAssign(_)
                    | BitAndAssign(_) | BitOrAssign(_) | BitXorAssign(_) | ShlAssign(_) | ShrAssign(_) => {
                        self.compound(b)?;
                        Ok(v("()", K::Unit))
                    }
                    _ => {
                        let l = self.expr(&b.left)?;
                        let r = self.expr(&b.right)?;
                        self.bin(&b.op, l, r, b)
                    }
                }
            }
            Expr::Cast(c) => {
                let x = self.expr(&c.expr)?;
                let (t, k, _) = self.ty(&c.ty);
                match k {
                    K::R => {
                        if x.k == K::R {
                            return Ok(v(x.t, K::R));
                        }
                        let lit = matches!(Self::strip(&c.expr), Expr::Lit(_));
                        if lit {
                            return Ok(v(format!("to_r({}u32)", x.t), K::R));
                        }
                        Ok(v(format!("to_r({})", self.own(&x)), K::R))
                    }
                    K::Int(n) => {
                        if x.k == K::R {
                            return Err("float to integer cast".into());
                        }
                        if x.k == K::Bool {
                            return Ok(v(format!("(if {} {{ 1{} }} else {{ 0{} }})", x.t, n, n), K::Int(n)));
                        }
                        if x.k == K::Int("i32".into()) && n == "u32" {
                            return Ok(v(format!("i32_as_u32({})", x.t), K::Int(n)));
                        }
                        if x.k == K::Int("u32".into()) && n == "i32" {
                            return Ok(v(format!("u32_as_i32({})", x.t), K::Int(n)));
                        }
                        if x.k == K::Int("".into()) {
                            if let Expr::Lit(_) = Self::strip(&c.expr) {
                                return Ok(v(format!("{}{}", x.t, n), K::Int(n)));
                            }
                        }
                        let wide = |s: &str| matches!(s, "usize" | "u64" | "i64" | "isize");
                        if let K::Int(m) = &x.k {
                            if wide(m) && !wide(&n) {
                                return Ok(v(format!("({} as {})", self.own(&x), n), K::Int(n)));
                            }
                        }
                        Ok(v(format!("({} as {})", self.own(&x), n), K::Int(n)))
                    }
                    _ => Err(format!("cast to {}", t)),
                }
            }
            Expr::Field(f) => {
                let x = self.expr(&f.base)?;
                let m = match &f.member {
                    Member::Named(i) => i.to_string(),
                    Member::Unnamed(i) => i.index.to_string(),
                };
                let st = match &x.k {
                    K::Shape => "Shape".to_string(),
                    K::Tensor => "Tensor".to_string(),
                    K::Other(n) => n.clone(),
                    _ => String::new(),
                };
                let mut k = K::Unknown;
                let is_op = st.starts_with("O_");
                let stk = if is_op { format!("{}::{}", self.f.module, &st[2..]) } else { st.clone() };
                if let Some(fs) = self.w.structs.get(&stk) {
                    if let Some((_, t)) = fs.iter().find(|(n, _)| *n == m) {
                        k = self.ty(t).1;
                        if k == K::Device {
                            return Ok(v("dev()", K::Device));
                        }
                        if let (Type::Reference(_), true) = (t, is_op) {
                            return Ok(V { t: format!("(&{}.{})", x.t, m), k, r: Rf::Sh });
                        }
                        if let Type::Reference(r) = t {
                            return Ok(V { t: format!("{}.{}", x.t, m), k, r: if r.mutability.is_some() { Rf::Mu } else { Rf::Sh } });
                        }
                    }
                }
                if x.k == K::Tensor && m == "shape" {
                    k = K::Shape;
                }
                Ok(v(format!("{}.{}", x.t, m), k))
            }
            Expr::Index(i) => {
                let x = self.expr(&i.expr)?;
                if x.k == K::Cells {
                    let ix = self.expr(&i.index)?;
                    return Ok(v(ix.t, K::Other(format!("cell:{}", x.t))));
                }
                if x.k == K::Mut0 {
                    if tn(&i.index) == "0" {
                        return Ok(V { t: "y0".into(), k: K::Tensor, r: Rf::Mu });
                    }
                    return Err("only ys[0] is supported".into());
                }
                if x.k == K::Shape {
                    let n = self.expr(&i.index)?;
                    let nt = if n.k == K::Int("".into()) && matches!(Self::strip(&i.index), Expr::Lit(_)) {
                        format!("{}u32", n.t)
                    } else {
                        n.t
                    };
                    self.calls.push("Shape_index".into());
                    return Ok(v(format!("Shape_index({}, {})", self.bor(&x), nt), K::Int("u32".into())));
                }
                if let Expr::Range(r) = Self::strip(&i.index) {
                    let ek = if let K::Slice(_) = &x.k { x.k.clone() } else { K::Unknown };
                    let a = match &r.start {
                        Some(s) => Some(self.expr(s)?.t),
                        None => None,
                    };
                    let b = match &r.end {
                        Some(s) => Some(self.expr(s)?.t),
                        None => None,
                    };
                    if let RangeLimits::Closed(_) = r.limits {
                        return Err("closed range index".into());
                    }
                    let base = self.bor(&x);
                    let f = match (&a, &b) {
                        (None, None) => return Ok(V { t: format!("sl_all({})", base), k: ek, r: Rf::Sh }),
                        (Some(a), None) => format!("sl_from({}, {})", base, a),
                        (None, Some(b)) => format!("sl_to({}, {})", base, b),
                        (Some(a), Some(b)) => format!("sl_range({}, {}, {})", base, a, b),
                    };
                    // the value is already a reference; `&x[a..b]` adds no second one
                    return Ok(V { t: f, k: ek, r: Rf::Sh });
                }
                let n = self.expr(&i.index)?;
                match &x.k {
                    K::Slice(k) => {
                        let r = match **k {
                            K::Tensor | K::Node => Rf::Sh,
                            _ => Rf::Own,
                        };
                        Ok(V { t: format!("{}[{}]", x.t, n.t), k: (**k).clone(), r })
                    }
                    _ => Ok(v(format!("{}[{}]", x.t, n.t), K::Unknown)),
                }
            }
            Expr::Reference(r) => {
                let x = self.expr(&r.expr)?;
                if let Expr::Index(i) = Self::strip(&r.expr) {
                    if let Expr::Range(_) = Self::strip(&i.index) {
                        if r.mutability.is_some() {
                            return Err("mutable subslice".into());
                        }
                        return Ok(x);
                    }
                }
                if let Expr::Array(_) = Self::strip(&r.expr) {
                    if x.k == K::Mut0 {
                        return Ok(x);
                    }
                    if r.mutability.is_some() {
                        return Err("mutable array".into());
                    }
                    return Ok(V { t: format!("&{}", x.t), k: x.k, r: Rf::Sh });
                }
                if r.mutability.is_some() {
                    if x.k == K::Mut0 {
                        return Ok(x);
                    }
                    return Ok(V { t: self.bor_mut(&x), k: x.k.clone(), r: Rf::Mu });
                }
                match x.r {
                    Rf::Own => Ok(V { t: format!("&{}", x.t), k: x.k, r: Rf::Sh }),
                    Rf::Sh => Ok(x),
                    Rf::Mu => Ok(V { t: format!("&*{}", x.t), k: x.k, r: Rf::Sh }),
                }
            }
            Expr::Array(a) => {
                let xs = self.args(&a.elems)?;
                // `[&mut t]` of tensors: the single output
                if xs.len() == 1 && xs[0].k == K::Tensor && xs[0].r == Rf::Mu {
                    return Ok(V { t: xs[0].t.clone(), k: K::Mut0, r: Rf::Mu });
                }
                let k = xs.first().map(|x| x.k.clone()).unwrap_or(K::Unknown);
                let ts: Vec<String> = xs.iter().map(|x| x.t.clone()).collect();
                Ok(v(format!("[{}]", ts.join(", ")), K::Slice(Box::new(k))))
            }
            Expr::Repeat(r) => {
                let x = self.expr(&r.expr)?;
                let n = self.expr(&r.len)?;
                Ok(v(format!("[{}; {}]", x.t, n.t), K::Slice(Box::new(x.k))))
            }
            Expr::Tuple(t) if t.elems.is_empty() => Ok(v("()", K::Unit)),
            Expr::Tuple(t) => {
                let xs = self.args(&t.elems)?;
                let ts: Vec<String> = xs.iter().map(|x| x.t.clone()).collect();
                Ok(v(format!("({})", ts.join(", ")), K::Unknown))
            }
            Expr::Block(b) => self.block_val(&b.block),
            Expr::Unsafe(b) => self.block_val(&b.block),
            Expr::If(i) => self.if_expr(i),
            Expr::Match(m) => self.match_expr(m),
            Expr::Call(c) => self.call(c),
            Expr::MethodCall(m) => self.method(m),
            Expr::Struct(s) => {
                let n = self.ty(&Type::Path(TypePath { qself: None, path: s.path.clone() })).0;
                if s.rest.is_some() {
                    return Err("struct update".into());
                }
                let mut fs = vec![];
                for f in &s.fields {
                    let m = match &f.member {
                        Member::Named(i) => i.to_string(),
                        _ => return Err("tuple struct".into()),
                    };
                    let x = self.expr(&f.expr)?;
                    if x.k == K::Device {
                        continue;
                    }
                    if x.r != Rf::Own && x.k == K::Tensor {
                        // a stored reference: the field stands for the tensor it points to
                        fs.push(format!("{}: held({})", m, x.t));
                        continue;
                    }
                    fs.push(format!("{}: {}", m, x.t));
                }
                let k = if n == "Shape" { K::Shape } else { K::Other(n.clone()) };
                Ok(v(format!("{} {{ {} }}", n, fs.join(", ")), k))
            }
            Expr::Assign(_) | Expr::ForLoop(_) | Expr::While(_) | Expr::Loop(_) => {
                let saved = std::mem::take(&mut self.out);
                let r = self.stmt_expr(e);
                let inner = std::mem::replace(&mut self.out, saved);
                r?;
                Ok(v(format!("{{ {} }}", inner.join("\n")), K::Unit))
            }
            Expr::Return(r) => {
                self.has_return = true;
                if self.inline_depth > 0 {
                    return Err("return in inlined function".into());
                }
                self.skel.push("return".into());
                match &r.expr {
                    Some(x) => {
                        let x = self.expr(x)?;
                        Ok(v(format!("return {}", x.t), K::Unknown))
                    }
                    None => Ok(v("return", K::Unknown)),
                }
            }
            Expr::Break(b) if b.expr.is_none() && b.label.is_none() => {
                self.skel.push("break".into());
                Ok(v("break", K::Unknown))
            }
            Expr::Continue(b) if b.label.is_none() => {
                self.skel.push("continue".into());
                Ok(v("continue", K::Unknown))
            }
            _ => Err(format!("expression `{}`", nc(&ts(e)))),
        }
    }

    fn panics(e: &Expr) -> bool {
        match Self::strip(e) {
            Expr::Call(c) => {
                let p = tn(&c.func);
                p.contains("panicking::panic") || p.contains("panicking::assert_failed") || p.contains("rt::begin_panic") || p.contains("rt::panic_fmt")
            }
            Expr::Macro(_) => false,
            Expr::Block(b) => Self::block_panics(&b.block),
            _ => false,
        }
    }
    fn block_panics(b: &Block) -> bool {
        match b.stmts.last() {
            Some(Stmt::Expr(e, _)) => Self::panics(e),
            _ => false,
        }
    }

    fn if_expr(&mut self, i: &ExprIf) -> Res<V> {
        if let Expr::Let(_) = Self::strip(&i.cond) {
            return Err("if let".into());
        }
        // assert!: `if !cond { panic }`
        if i.else_branch.is_none() && Self::block_panics(&i.then_branch) {
            let c = match Self::strip(&i.cond) {
                Expr::Unary(u) if matches!(u.op, UnOp::Not(_)) => self.expr(&u.expr)?.t,
                c => format!("!({})", self.expr(c)?.t),
            };
            return Ok(v(format!("chk({}, Ghost({}))", c, self.ok), K::Unit));
        }
        let nsg = self.sg.len();
        let c = self.expr(&i.cond)?;
        if self.sg.len() > nsg {
            return Err("cell borrowed in a condition".into());
        }
        self.skel.push("if".into());
        self.depth += 1;
        let t = self.block_val(&i.then_branch)?;
        let r = match &i.else_branch {
            None => v(format!("if {} {}", c.t, t.t), K::Unit),
            Some((_, e)) => {
                let x = self.expr(e)?;
                let et = if x.t.starts_with('{') || x.t.starts_with("if ") {
                    x.t.clone()
                } else {
                    format!("{{ {} }}", x.t)
                };
                let k = match (&t.k, &x.k) {
                    (K::Ptr(a), K::Ptr(b)) if a != b => return Err("pointer of two tensors".into()),
                    (K::Int(a), K::Int(b)) => K::Int(if a.is_empty() { b.clone() } else { a.clone() }),
                    (K::Unknown, k) => k.clone(),
                    (k, _) => k.clone(),
                };
                V { t: format!("if {} {} else {}", c.t, t.t, et), k, r: t.r }
            }
        };
        self.depth -= 1;
        self.skel.push("fi".into());
        let wrap = r.k != K::Unit;
        Ok(V { t: if wrap { format!("({})", r.t) } else { r.t }, k: r.k, r: r.r })
    }

    fn match_expr(&mut self, m: &ExprMatch) -> Res<V> {
        // assert_eq!: match (&a, &b) { (l, r) => { if !(*l == *r) { panic } } }
        if m.arms.len() == 1 {
            if let Expr::Tuple(t) = Self::strip(&m.expr) {
                if t.elems.len() == 2 {
                    let s = tn(&m.arms[0].body);
                    if s.contains("assert_failed") {
                        let eq = s.contains("!(*left_val==*right_val)");
                        let ne = s.contains("if*left_val==*right_val");
                        if !eq && !ne {
                            return Err("assert form".into());
                        }
                        let und = |e: &Expr| match Self::strip(e) {
                            Expr::Reference(r) => (*r.expr).clone(),
                            o => o.clone(),
                        };
                        let a = self.expr(&und(&t.elems[0]))?;
                        let b = self.expr(&und(&t.elems[1]))?;
                        let op: BinOp = if eq { parse_quote!(==) } else { parse_quote!(!=) };
                        let dummy: ExprBinary = parse_quote!(a == b);
                        let c = self.bin(&op, a, b, &dummy)?;
                        return Ok(v(format!("chk({}, Ghost({}))", c.t, self.ok), K::Unit));
                    }
                }
            }
        }
        Err("match".into())
    }

    fn minmax(&mut self, is_max: bool, a: V, b: V) -> V {
        let k = match (&a.k, &b.k) {
            (K::Int(x), K::Int(y)) => K::Int(if x.is_empty() { y.clone() } else { x.clone() }),
            (k, _) => k.clone(),
        };
        let (x, y) = (self.fresh("c_"), self.fresh("c_"));
        let op = if is_max { ">" } else { "<" };
        let ann = match &k {
            K::Int(s) if !s.is_empty() => format!(": {}", s),
            _ => String::new(),
        };
        v(
            format!(
                "{{ let {x}{ann} = {}; let {y}{ann} = {}; if {x} {op} {y} {{ {x} }} else {{ {y} }} }}",
                self.own(&a),
                self.own(&b)
            ),
            k,
        )
    }

    fn cells_ref(t: &str) -> String {
        format!("&*{}", t)
    }

    fn put_guards(&mut self, gs: Vec<(String, String, String)>) {
        for (c, i, g) in gs.into_iter().rev() {
            self.out.push(format!("cell_put({}, {}, {});", c, i, g));
        }
    }

    /// the expression of a `let` whose guard lives as long as the block
    fn is_borrow(e: &Expr) -> bool {
        match Self::strip(e) {
            Expr::MethodCall(m) => matches!(m.method.to_string().as_str(), "borrow_mut" | "borrow") && m.args.is_empty(),
            Expr::Reference(r) => Self::is_borrow(&r.expr),
            Expr::Unary(u) if matches!(u.op, UnOp::Deref(_)) => Self::is_borrow(&u.expr),
            _ => false,
        }
    }

    fn call(&mut self, c: &ExprCall) -> Res<V> {
        if let Expr::Closure(cl) = Self::strip(&c.func) {
            let a = self.args(&c.args)?;
            return self.closure_call(cl, a);
        }
        let p = match Self::strip(&c.func) {
            Expr::Path(p) => p,
            _ => return Err("call of an expression".into()),
        };
        let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
        let last = segs.last().unwrap().clone();
        if segs.len() == 1 {
            // a local closure
            if let Some(x) = self.lookup(&last) {
                if let K::Other(s) = &x.k {
                    if let Some(src) = s.strip_prefix("closure:") {
                        let cl: ExprClosure = syn::parse_str(src).map_err(|e| e.to_string())?;
                        let a = self.args(&c.args)?;
                        return self.closure_call(&cl, a);
                    }
                }
            }
        }
        let two = if segs.len() >= 2 { segs[segs.len() - 2..].join("::") } else { last.clone() };
        if two == "cmp::max" || two == "cmp::min" {
            let a = self.args(&c.args)?;
            let mut it = a.into_iter();
            let (x, y) = (it.next().unwrap(), it.next().unwrap());
            return Ok(self.minmax(two == "cmp::max", x, y));
        }
        if two == "u32::max_value" {
            return Ok(v("0xffff_ffffu32", K::Int("u32".into())));
        }
        if two == "vec::from_elem" {
            let a = self.args(&c.args)?;
            let k = a[0].k.clone();
            return Ok(v(format!("vec_of({}, {})", a[0].t, a[1].t), K::Slice(Box::new(k))));
        }
        if two == "Vec::new" {
            return Ok(v("Vec::new()", K::Slice(Box::new(K::Unknown))));
        }
        if two == "Vec::with_capacity" {
            let _ = self.args(&c.args)?;
            return Ok(v("Vec::new()", K::Slice(Box::new(K::Unknown))));
        }
        if last == "from_raw_parts_mut" {
            // a slice over the elements of a tensor, handed to the generator
            let a = self.args(&c.args)?;
            if let K::Ptr(b) = &a[0].k {
                return Ok(v("", K::Other(format!("raw:{}, {}, {}", Self::pbm(b), a[0].t, a[1].t))));
            }
            return Err("from_raw_parts_mut".into());
        }
        if last == "from" && segs.len() == 2 && (segs[0] == "Node" || (segs[0] == "Self" && matches!(&self.f.self_ty, Some(t) if self.ty(t).1 == K::Node))) {
            let a = self.args(&c.args)?;
            if a.len() == 1 && a[0].r == Rf::Own && a[0].k == K::Tensor {
                if let Some(cc) = self.callee("paths", "Node::from#Tensor").cloned() {
                    let al = vec![a[0].t.clone()];
                    return Ok(self.call_known(&cc, al));
                }
            }
            return Err("Node::from".into());
        }
        if last == "from" && segs.len() == 2 && segs[0] == "Self" {
            let a = self.args(&c.args)?;
            if a.len() == 1 && a[0].r == Rf::Own && matches!(a[0].k, K::Tensor | K::Node) {
                return Ok(a.into_iter().next().unwrap());
            }
            return Err("Self::from".into());
        }
        if two == "RefCell::new" {
            let a = self.args(&c.args)?;
            return Ok(a.into_iter().next().unwrap());
        }
        if two == "HashMap::new" {
            return Ok(v("stats_new()", K::Other("Stats".into())));
        }
        if last == "drop" {
            let a = self.args(&c.args)?;
            return Ok(v(format!("let _ = {}", a[0].t), K::Unit));
        }
        if two.ends_with("box_assume_init_into_vec_unsafe") || last == "into_vec" || last == "box_new" || last == "write_box_via_move" {
            // vec![..] literal
            let a = &c.args[0];
            return self.vec_lit(a);
        }
        if two == "Node::create" {
            // the operator decides which contract
            let a = self.args(&c.args)?;
            if a.len() == 2 {
                if let K::Other(o) = &a[0].k {
                    if let Some(cc) = self.callee("paths", &format!("Node::create#{}", o)).cloned() {
                        let nodes = self.fresh("ns_");
                        let al = vec![a[0].t.clone(), nodes.clone()];
                        let x = self.call_known(&cc, al);
                        return Ok(V { t: format!("{{ let {}: &[&Node] = {}; {} }}", nodes, a[1].t, x.t), k: x.k, r: x.r });
                    }
                }
            }
            return Err("Node::create".into());
        }
        let mut cands = vec![];
        if segs.len() >= 3 {
            cands.push(segs[segs.len() - 3..].join("::"));
        }
        if segs.len() == 1 {
            cands.push(format!("{}::{}", self.f.module, last));
        }
        if segs.len() >= 2 && segs[0] == "Self" {
            if let Some(st) = &self.f.self_ty {
                cands.push(format!("{}::{}", tn(st), last));
            }
        }
        cands.push(two.clone());
        for k in &cands {
            if let Some(cc) = self.callee("paths", k).cloned() {
                let a = self.args(&c.args)?;
                let al = a.iter().filter(|x| x.k != K::Device).map(|x| x.t.clone()).collect();
                return Ok(self.call_known(&cc, al));
            }
        }
        // an unlisted function of the crate: inline it
        let w = self.w;
        let fs: Vec<&FnItem> = w
            .fns
            .iter()
            .filter(|f| {
                if segs.len() == 1 {
                    f.self_ty.is_none() && f.trait_name.is_none() && f.key == format!("{}::{}", self.f.module, last)
                } else {
                    f.key.ends_with(&format!("::{}", two)) && f.trait_name.is_none()
                        || (segs[0] == "Self"
                            && f.trait_name.is_none()
                            && f.module == self.f.module
                            && self.f.self_ty.as_ref().map(|t| tn(t)) == f.self_ty.as_ref().map(|t| tn(t))
                            && f.sig.ident == last.as_str())
                }
            })
            .collect();
        let fs = if fs.is_empty() && segs.len() == 1 {
            // imported from elsewhere in the crate
            w.fns
                .iter()
                .filter(|f| f.self_ty.is_none() && f.trait_name.is_none() && f.sig.ident == last.as_str())
                .collect()
        } else {
            fs
        };
        if fs.len() == 1 {
            let a = self.args(&c.args)?;
            return self.inline(fs[0], a);
        }
        Err(format!("call of {}", segs.join("::")))
    }

    fn vec_lit(&mut self, e: &Expr) -> Res<V> {
        match Self::strip(e) {
            Expr::Array(a) => {
                let xs = self.args(&a.elems)?;
                let k = xs.first().map(|x| x.k.clone()).unwrap_or(K::Unknown);
                let mut t: Vec<String> = xs.iter().map(|x| x.t.clone()).collect();
                if t.iter().any(|x| x.contains("Ghost(")) {
                    // Verus' vec! takes no ghost arguments inside
                    for x in t.iter_mut() {
                        let n = self.fresh("ve_");
                        self.out.push(format!("let {} = {};", n, x));
                        *x = n;
                    }
                }
                Ok(v(format!("vec![{}]", t.join(", ")), K::Slice(Box::new(k))))
            }
            Expr::Call(c) => {
                // the array is somewhere among the arguments
                for a in c.args.iter().rev() {
                    if let Ok(x) = self.vec_lit(a) {
                        return Ok(x);
                    }
                }
                Err("vec literal".into())
            }
            Expr::Reference(r) => self.vec_lit(&r.expr),
            _ => Err("vec literal".into()),
        }
    }

    fn method(&mut self, m: &ExprMethodCall) -> Res<V> {
        let name = m.method.to_string();
        if let ("fill_bernoulli" | "fill_uniform" | "fill_normal", true) = (name.as_str(), tn(&m.receiver).ends_with("randomizer.lock().unwrap()")) {
            // the generator behind its lock: a trusted contract of spec/lib_tensor.rs
            let a = self.args(&m.args)?;
            let (s, ps) = a.split_last().ok_or("arity")?;
            let raw = match &s.k {
                K::Other(o) if o.starts_with("raw:") => o[4..].to_string(),
                _ => return Err("target of the generator".into()),
            };
            let mut al: Vec<String> = ps.iter().map(|x| x.t.clone()).collect();
            al.push(raw);
            al.push(format!("Ghost({})", self.ok));
            return Ok(v(format!("{}({})", name, al.join(", ")), K::Unit));
        }
        if (name == "borrow_mut" || name == "borrow") && m.args.is_empty() {
            if let Expr::Index(i) = Self::strip(&m.receiver) {
                let save = (self.tmp, self.calls.len());
                let map = self.expr(&i.expr)?;
                if map.k == K::Other("Stats".into()) {
                    if self.depth > 0 || self.inline_depth > 0 {
                        return Err("cell borrowed in a nested block".into());
                    }
                    let key = self.expr(&i.index)?;
                    let g = self.fresh("cell_");
                    self.out.push(format!("let mut {} = stats_take(&mut {}, {}, Ghost({}));", g, map.t, key.t, self.ok));
                    self.guards.push((map.t, key.t, g.clone()));
                    return Ok(v(g, K::Tensor));
                }
                self.tmp = save.0;
                self.calls.truncate(save.1);
            }
        }
        let recv = self.expr(&m.receiver)?;
        if recv.k == K::Cells {
            return match name.as_str() {
                "len" => Ok(v(format!("cells_len({})", Self::cells_ref(&recv.t)), K::Int("usize".into()))),
                "iter" if m.args.is_empty() => Ok(recv),
                _ => Err(format!("method {} on cells", name)),
            };
        }
        if let K::Other(o) = &recv.k {
            if let Some(cs) = o.strip_prefix("cell:") {
                if !matches!(name.as_str(), "borrow_mut" | "borrow") || !m.args.is_empty() {
                    return Err(format!("cell method {}", name));
                }
                let (ci, g) = (self.fresh("ci_"), self.fresh("cell_"));
                self.out.push(format!("let {}: usize = {}; let mut {} = cell_take({}, {}, Ghost({}));", ci, recv.t, g, cs, ci, self.ok));
                self.sg.push((cs.to_string(), ci, g.clone()));
                return Ok(v(g, K::Tensor));
            }
            if o.starts_with("RefCell") && (name == "borrow_mut" || name == "borrow") && m.args.is_empty() && recv.t.matches('.').count() == 1 {
                if self.rc.contains(&recv.t) || self.depth > 0 || self.inline_depth > 0 {
                    return Err("cell borrowed more than once".into());
                }
                self.rc.push(recv.t.clone());
                return Ok(V { t: recv.t, k: K::Tensor, r: Rf::Own });
            }
            if o.starts_with("O_") && name == "device" && m.args.is_empty() {
                return Ok(v("dev()", K::Device));
            }
        }
        if recv.k == K::Str && m.args.is_empty() && matches!(name.as_str(), "to_string" | "to_owned" | "as_str" | "clone" | "into") {
            return Ok(recv);
        }
        if recv.k == K::Other("Stats".into()) {
            let a = self.args(&m.args)?;
            let al: Vec<String> = a.iter().map(|x| x.t.clone()).collect();
            return match name.as_str() {
                "contains_key" => Ok(v(format!("stats_has(&{}, {})", recv.t, al[0]), K::Bool)),
                "insert" => Ok(v(format!("stats_insert(&mut {}, {})", recv.t, al.join(", ")), K::Unit)),
                _ => Err(format!("map method {}", name)),
            };
        }
        // pointers
        if let K::Ptr(b) = &recv.k {
            let a = self.args(&m.args)?;
            return match name.as_str() {
                "add" => Ok(v(format!("({} + {})", recv.t, a[0].t), K::Ptr(b.clone()))),
                "sub" => Ok(v(format!("({} - {})", recv.t, a[0].t), K::Ptr(b.clone()))),
                "read" => Ok(v(format!("t_rd({}, {})", Self::pb(b), recv.t), K::R)),
                "write" => Ok(v(format!("t_wr({}, {}, {})", Self::pbm(b), recv.t, a[0].t), K::Unit)),
                _ => Err(format!("pointer method {}", name)),
            };
        }
        if name == "device" && m.args.is_empty() && recv.k == K::Tensor {
            return Ok(V { t: format!("dev_of({})", self.bor(&recv)), k: K::Device, r: Rf::Own });
        }
        if name == "device" && m.args.is_empty() && matches!(recv.k, K::Tensor | K::Node | K::SelfOp) {
            return Ok(V { t: "dev()".into(), k: K::Device, r: Rf::Own });
        }
        if recv.k == K::Device {
            if name.starts_with("call_") && name.ends_with("_impl") {
                return self.kernel_call(&name, m);
            }
            if let Some(c) = self.callee("methods", &format!("Device.{}", name)).cloned() {
                let a = self.args(&m.args)?;
                let al = a.iter().map(|x| x.t.clone()).collect();
                return Ok(self.call_known(&c, al));
            }
            return self.inline_method("Device", &name, recv, m);
        }
        let ty = match &recv.k {
            K::Shape => "Shape",
            K::Tensor => "Tensor",
            K::Node => "Node",
            K::Other(n) => n.as_str(),
            _ => "",
        }
        .to_string();
        if !ty.is_empty() {
            if name == "clone" && ty == "Shape" {
                return Ok(v(self.own(&recv), K::Shape));
            }
            if let Some(c) = self.callee("methods", &format!("{}.{}", ty, name)).cloned() {
                let mut al = vec![match c["recv"].as_str().unwrap_or("&") {
                    "&" => self.bor(&recv),
                    "&mut" => self.bor_mut(&recv),
                    _ => self.own(&recv),
                }];
                let a = self.args(&m.args)?;
                al.extend(a.iter().map(|x| x.t.clone()));
                return Ok(self.call_known(&c, al));
            }
            if name == "borrow" && m.args.is_empty() {
                return Ok(recv);
            }
            return self.inline_method(&ty, &name, recv, m);
        }
        if let (K::Slice(k), "sort_unstable_by" | "sort_by") = (&recv.k, name.as_str()) {
            let k = (**k).clone();
            return self.sort_by(m, k);
        }
        let a = self.args(&m.args)?;
        if recv.k == K::R {
            let al: Vec<String> = a.iter().map(|x| x.t.clone()).collect();
            let k = match name.as_str() {
                "is_nan" | "is_infinite" | "is_finite" | "is_sign_negative" | "is_sign_positive" => {
                    return Err(format!("float method {}", name))
                }
                _ => K::R,
            };
            let mut al2 = vec![self.own(&recv)];
            al2.extend(al);
            return Ok(v(format!("r_{}({})", name, al2.join(", ")), k));
        }
        if let K::Int(n) = &recv.k {
            let n2 = n.clone();
            return match name.as_str() {
                "max" | "min" => {
                    let b = a.into_iter().next().ok_or("arity")?;
                    Ok(self.minmax(name == "max", recv.clone(), b))
                }
                "checked_add" | "checked_mul" | "checked_sub" => Ok(V {
                    t: format!("{}.{}({})", recv.t, name, a[0].t),
                    k: K::Other(format!("opt:{}", n2)),
                    r: Rf::Own,
                }),
                "saturating_add" | "saturating_sub" | "saturating_mul" | "wrapping_add" | "wrapping_sub" | "wrapping_mul" => {
                    Ok(v(format!("{}_{}({}, {})", name, if n2.is_empty() { "u32" } else { &n2 }, recv.t, a[0].t), K::Int(n2)))
                }
                "clone" => Ok(recv),
                _ => Err(format!("integer method {}", name)),
            };
        }
        if let K::Slice(k) = &recv.k {
            let k = (**k).clone();
            match name.as_str() {
                "len" => return Ok(v(format!("{}.len()", recv.t), K::Int("usize".into()))),
                "push" => {
                    if k == K::Unknown {
                        // learn the element kind
                        let et = match (&a[0].k, a[0].r) {
                            (K::Tensor, Rf::Own) => "Tensor",
                            (K::Tensor, _) => "&Tensor",
                            (K::Node, Rf::Own) => "Node",
                            (K::Node, _) => "&Node",
                            (K::Shape, Rf::Own) => "Shape",
                            (K::R, Rf::Own) => "R",
                            _ => "_",
                        };
                        self.vec_ty.insert(recv.t.clone(), et.into());
                        for s in self.scopes.iter_mut().rev() {
                            if let Some(b) = s.values_mut().find(|b| b.t == recv.t) {
                                b.k = K::Slice(Box::new(a[0].k.clone()));
                                break;
                            }
                        }
                    }
                    return Ok(v(format!("{}.push({})", recv.t, a[0].t), K::Unit));
                }
                "is_empty" => return Ok(v(format!("({}.len() == 0)", recv.t), K::Bool)),
                "iter" | "as_slice" | "as_ref" => return Ok(recv),
                "as_mut_slice" if m.args.is_empty() => return Ok(V { t: self.bor_mut(&recv), k: recv.k.clone(), r: Rf::Mu }),
                "pop" => {
                    return Ok(V { t: format!("{}.pop()", recv.t), k: K::Other(format!("opt1:{:?}", k)), r: Rf::Own })
                }
                "clone_from_slice" | "copy_from_slice" => {
                    // `v[a..].clone_from_slice(src)`
                    if let Expr::Index(i) = Self::strip(&m.receiver) {
                        let base = self.expr(&i.expr)?;
                        if let Expr::Range(r) = Self::strip(&i.index) {
                            if r.end.is_none() {
                                let st = match &r.start {
                                    Some(s) => self.expr(s)?.t,
                                    None => "0".into(),
                                };
                                return Ok(v(
                                    format!("vec_copy_from(&mut {}, {}, {}, Ghost({}))", base.t, st, self.bor(&a[0]), self.ok),
                                    K::Unit,
                                ));
                            }
                        }
                    }
                    return Err("clone_from_slice".into());
                }
                "to_vec" | "clone" => return Ok(V { t: format!("vec_clone({})", self.bor(&recv)), k: K::Slice(Box::new(k)), r: Rf::Own }),
                _ => {}
            }
        }
        Err(format!("method {} on {:?}", name, recv.k))
    }

    /// `v[a..b].sort_unstable_by(|&i, &j| (*p.add(f(i))).partial_cmp(&*p.add(f(j))).unwrap())`:
    /// the range of the index list is sorted by the elements that the indices name.
    fn sort_by(&mut self, m: &ExprMethodCall, k: K) -> Res<V> {
        let no = || "sort of another form".to_string();
        let it = match k {
            K::Int(n) if n.is_empty() || n == "usize" => "usize".to_string(),
            _ => return Err(no()),
        };
        let ix = match Self::strip(&m.receiver) {
            Expr::Index(i) => i,
            _ => return Err(no()),
        };
        let base = self.expr(&ix.expr)?;
        let rg = match Self::strip(&ix.index) {
            Expr::Range(r) if matches!(r.limits, RangeLimits::HalfOpen(_)) => r,
            _ => return Err(no()),
        };
        let a = match &rg.start {
            Some(x) => self.expr(x)?.t,
            None => "0".into(),
        };
        let b = match &rg.end {
            Some(x) => self.expr(x)?.t,
            None => format!("{}.len()", base.t),
        };
        let cl = match m.args.first() {
            Some(Expr::Closure(c)) if c.inputs.len() == 2 => c,
            _ => return Err(no()),
        };
        // the two parameters, by value or through a reference
        let mut names = vec![];
        for p in &cl.inputs {
            match p {
                Pat::Reference(r) => match &*r.pat {
                    Pat::Ident(i) => names.push((i.ident.to_string(), Rf::Own)),
                    _ => return Err(no()),
                },
                Pat::Ident(i) => names.push((i.ident.to_string(), Rf::Sh)),
                _ => return Err(no()),
            }
        }
        let mut body = Self::strip(&cl.body);
        if let Expr::Block(bl) = body {
            match bl.block.stmts.as_slice() {
                [Stmt::Expr(e, None)] => body = Self::strip(e),
                _ => return Err(no()),
            }
        }
        let un = match body {
            Expr::MethodCall(u) if u.method == "unwrap" && u.args.is_empty() => u,
            _ => return Err(no()),
        };
        let pc = match Self::strip(&un.receiver) {
            Expr::MethodCall(c) if c.method == "partial_cmp" && c.args.len() == 1 => c,
            _ => return Err(no()),
        };
        let left = Self::strip(&pc.receiver).clone();
        let right = match Self::strip(&pc.args[0]) {
            Expr::Reference(r) => Self::strip(&r.expr).clone(),
            _ => return Err(no()),
        };
        let mut fr = HashMap::new();
        for (n, (name, r)) in names.iter().enumerate() {
            let t = if *r == Rf::Own { format!("s_{}", n) } else { format!("(*s_{})", n) };
            fr.insert(name.clone(), V { t, k: K::Int(it.clone()), r: Rf::Own });
        }
        self.scopes.push(fr);
        let l = self.ptr_place(&left);
        let r = self.ptr_place(&right);
        self.scopes.pop();
        let ((lb, lo), (rb, ro)) = match (l?, r?) {
            (Some(x), Some(y)) => (x, y),
            _ => return Err(no()),
        };
        let (lo, ro) = (lo.replace("(*s_0)", "s_0").replace("(*s_1)", "s_1"), ro.replace("(*s_0)", "s_0").replace("(*s_1)", "s_1"));
        if lb != rb {
            return Err(no());
        }
        let asc = if lo.contains("s_0") && !lo.contains("s_1") && lo.replace("s_0", "s_1") == ro {
            true
        } else if lo.contains("s_1") && !lo.contains("s_0") && lo.replace("s_1", "s_0") == ro {
            false
        } else {
            return Err(no());
        };
        let key = if asc { lo } else { ro };
        Ok(v(
            format!(
                "sort_idx({}, {}, {}, {}, Ghost(|s_0: int| ({}) as int), Ghost({}), Ghost({}))",
                self.bor_mut(&base),
                a,
                b,
                Self::pb(&lb),
                key,
                asc,
                self.ok
            ),
            K::Unit,
        ))
    }

    fn inline_method(&mut self, ty: &str, name: &str, recv: V, m: &ExprMethodCall) -> Res<V> {
        if let Some(n) = ty.strip_prefix("opt:") {
            if name == "unwrap" || name == "expect" {
                return Ok(v(format!("opt_unwrap({}, Ghost({}))", recv.t, self.ok), K::Int(n.into())));
            }
        }
        if let Some(n) = ty.strip_prefix("opt1:") {
            if name == "unwrap" || name == "expect" {
                let k = match n {
                    "Tensor" => K::Tensor,
                    "Node" => K::Node,
                    _ => K::Unknown,
                };
                return Ok(v(format!("opt_unwrap({}, Ghost({}))", recv.t, self.ok), k));
            }
        }
        let w = self.w;
        let fs: Vec<&FnItem> = w
            .fns
            .iter()
            .filter(|f| {
                f.sig.ident == name
                    && f.sig.receiver().is_some()
                    && f.self_ty.as_ref().map(|t| {
                        let s = tn(t);
                        let s = s.trim_start_matches('&');
                        s.split('<').next().unwrap_or("").to_string() == ty
                    }) == Some(true)
            })
            .collect();
        if fs.len() == 1 {
            let mut a = vec![recv];
            a.extend(self.args(&m.args)?);
            return self.inline(fs[0], a);
        }
        Err(format!("method {}.{} is under no contract", ty, name))
    }

    /// `dev.call_fw_impl("name", xs, u32data, f32data, ys)` -> the registered kernel
    fn kernel_call(&mut self, name: &str, m: &ExprMethodCall) -> Res<V> {
        let kind = name.trim_start_matches("call_").to_string();
        let s = match Self::strip(&m.args[0]) {
            Expr::Lit(ExprLit { lit: Lit::Str(s), .. }) => s.value(),
            _ => return Err("kernel name is no literal".into()),
        };
        let (module, ty) = self
            .w
            .registrations
            .get(&format!("{}:{}", kind, s))
            .cloned()
            .ok_or(format!("kernel {} is not registered", s))?;
        let rest: Punctuated<Expr, Token![,]> = m.args.iter().skip(1).cloned().collect();
        let mut al = vec![];
        let sig: &[&str] = match kind.as_str() {
            "fw_impl" => &["T", "u", "f", "m"],
            "fw_u32_impl" | "fw_f32_impl" => &["T", "u", "f", "m"],
            "bw_impl" => &["T", "T", "T", "u", "f", "m"],
            _ => return Err(format!("kernel kind {}", kind)),
        };
        for (e, s) in rest.iter().zip(sig) {
            let x = self.expr(e)?;
            let empty = matches!(Self::strip(e), Expr::Reference(r) if matches!(Self::strip(&r.expr), Expr::Array(a) if a.elems.is_empty()));
            if empty {
                al.push(
                    match *s {
                        "T" => "no_tensors()",
                        "u" => "no_u32()",
                        _ => "no_f32()",
                    }
                    .to_string(),
                );
            } else if let Expr::Reference(r) = Self::strip(e) {
                if matches!(Self::strip(&r.expr), Expr::Array(_)) && *s != "m" {
                    // annotate the element type so that literals coerce
                    let b = self.fresh("a_");
                    let (t, a) = match *s {
                        "T" => ("&Tensor", "T"),
                        "u" => ("u32", "u"),
                        _ => ("R", "f"),
                    };
                    let n = x.t.matches(',').count();
                    let _ = (a, n);
                    al.push(format!("{{ let {b}: &[{t}] = {}; {b} }}", x.t));
                } else {
                    al.push(x.t);
                }
            } else {
                al.push(x.t);
            }
        }
        let key = format!("{}::{}", module, ty);
        let c = self.callee("kernels", &key).cloned().ok_or(format!("kernel {} has no contract", key))?;
        // hoist slice temporaries
        let mut pre = vec![];
        let mut al2 = vec![];
        for a in al {
            if let Some(rest) = a.strip_prefix("{ let ") {
                let (decl, var) = rest.rsplit_once("; ").unwrap();
                pre.push(format!("let {};", decl));
                al2.push(var.trim_end_matches('}').trim().to_string());
            } else {
                al2.push(a);
            }
        }
        let x = self.call_known(&c, al2);
        Ok(V { t: format!("{{ {} {} }}", pre.join(" "), x.t), k: x.k, r: x.r })
    }

    // ------------------------------------------------------------ statements
    fn compound(&mut self, b: &ExprBinary) -> Res<()> {
        use BinOp::*;
        let op: BinOp = match b.op {
            AddAssign(_) => parse_quote!(+),
            SubAssign(_) => parse_quote!(-),
            MulAssign(_) => parse_quote!(*),
            DivAssign(_) => parse_quote!(/),
            RemAssign(_) => parse_quote!(%),
            BitAndAssign(_) => parse_quote!(&),
            BitOrAssign(_) => parse_quote!(|),
            BitXorAssign(_) => parse_quote!(^),
            ShlAssign(_) => parse_quote!(<<),
            ShrAssign(_) => parse_quote!(>>),
            _ => return Err("compound".into()),
        };
        if let Some((base, off)) = self.ptr_place(&b.left)? {
            // the right operand of a primitive compound assignment is evaluated first
            let r = self.expr(&b.right)?;
            let (o, x) = (self.fresh("o_"), self.fresh("x_"));
            self.out.push(format!("let {} = {}; let {}: usize = {};", x, r.t, o, off));
            let l = v(format!("t_rd({}, {})", Self::pb(&base), o), K::R);
            let val = self.bin(&op, l, v(x, K::R), b)?;
            self.out.push(format!("t_wr({}, {}, {});", Self::pbm(&base), o, val.t));
            return Ok(());
        }
        let l = self.expr(&b.left)?;
        let r = self.expr(&b.right)?;
        if l.k == K::Tensor {
            let name = match b.op {
                AddAssign(_) => "add_assign",
                SubAssign(_) => "sub_assign",
                MulAssign(_) => "mul_assign",
                _ => return Err("compound assignment on tensor".into()),
            };
            let (ra, kr) = self.operand(&r, "Tensor");
            let key = format!("Tensor {} {}", name, kr);
            let c = self.callee("ops", &key).cloned().ok_or(format!("no contract for {}", key))?;
            // `*gx += ..` of a `&mut Tensor`
            let mut place = l.t.clone();
            if place.starts_with("(*") && place.ends_with(')') {
                place = place[2..place.len() - 1].to_string();
            } else if l.r == Rf::Own {
                place = format!("&mut {}", place);
            }
            let x = self.call_known(&c, vec![place, ra]);
            self.out.push(format!("{};", x.t));
            return Ok(());
        }
        if l.k == K::R {
            let x = self.fresh("x_");
            self.out.push(format!("let {} = {};", x, r.t));
            let lt = if l.r == Rf::Mu { format!("*{}", l.t) } else { l.t.clone() };
            let val = self.bin(&op, v(lt.clone(), K::R), v(x, K::R), b)?;
            self.out.push(format!("{} = {};", lt, val.t));
            return Ok(());
        }
        let lt = if l.r == Rf::Mu { format!("*{}", l.t) } else { l.t.clone() };
        let rt = self.own(&r);
        let val = self.bin(&op, V { t: lt.clone(), k: l.k.clone(), r: Rf::Own }, V { t: rt, k: r.k, r: Rf::Own }, b)?;
        self.out.push(format!("{} = {};", lt, val.t));
        Ok(())
    }

    fn stmt_expr(&mut self, e: &Expr) -> Res<()> {
        match e {
            Expr::Paren(p) => self.stmt_expr(&p.expr),
            Expr::Assign(a) => {
                if let Expr::Infer(_) = Self::strip(&a.left) {
                    let r = self.expr(&a.right)?;
                    self.out.push(format!("let _ = {};", r.t));
                    return Ok(());
                }
                if let Some((base, off)) = self.ptr_place(&a.left)? {
                    let r = self.expr(&a.right)?;
                    let x = self.fresh("x_");
                    self.out.push(format!("let {} = {};", x, r.t));
                    self.out.push(format!("t_wr({}, {}, {});", Self::pbm(&base), off, x));
                    return Ok(());
                }
                let r = self.expr(&a.right)?;
                let l = self.expr(&a.left)?;
                if let (K::Ptr(x), K::Ptr(y)) = (&l.k, &r.k) {
                    if x != y {
                        return Err("pointer changes its tensor".into());
                    }
                }
                let lt = if l.r == Rf::Mu && !l.t.starts_with("(*") { format!("*{}", l.t) } else { l.t.clone() };
                let rt = if l.r == Rf::Own && r.r == Rf::Sh && !matches!(l.k, K::Slice(_)) && matches!(r.k, K::R | K::Int(_) | K::Bool | K::Shape) {
                    self.own(&r)
                } else {
                    r.t.clone()
                };
                self.out.push(format!("{} = {};", lt, rt));
                Ok(())
            }
            Expr::Binary(b) => {
                use BinOp::*;
                match b.op {
                    AddAssign(_) | SubAssign(_) | MulAssign(_) | DivAssign(_) | RemAssign(_) | BitAndAssign(_)
                    | BitOrAssign(_) | BitXorAssign(_) | ShlAssign(_) | ShrAssign(_) => self.compound(b),
                    _ => {
                        let x = self.expr(e)?;
                        self.out.push(format!("let _ = {};", x.t));
                        Ok(())
                    }
                }
            }
            Expr::ForLoop(f) => self.for_loop(f),
            Expr::While(w) => self.while_loop(w),
            Expr::Loop(l) => {
                if l.label.is_some() {
                    return Err("label".into());
                }
                let k = self.loops.len();
                self.loops.push(json!({"kind": "loop"}));
                self.skel.push("loop".into());
                let nm = self.muts.len();
                let body = self.loop_body(&l.body, k)?;
                let car = self.carried(&body, nm);
                self.out.push(format!("/*@PRE {k}@*/ loop /*@INV {k}@*/ {{ {body} }} /*@POST {k}@*/"));
                self.skel.push(format!("pool{}", car));
                Ok(())
            }
            Expr::Block(b) => {
                let x = self.block_val(&b.block)?;
                self.out.push(x.t);
                Ok(())
            }
            Expr::Unsafe(b) => {
                // transparent: statements join the enclosing list, in a scope of their own
                self.scopes.push(HashMap::new());
                let r = self.stmts(&b.block.stmts, false);
                self.scopes.pop();
                if let Some(t) = r? {
                    self.out.push(format!("{};", t.t));
                }
                Ok(())
            }
            Expr::If(_) | Expr::Match(_) => {
                let x = self.expr(e)?;
                if x.t.starts_with("if ") {
                    self.out.push(x.t);
                } else {
                    self.out.push(format!("{};", x.t));
                }
                Ok(())
            }
            _ => {
                let x = self.expr(e)?;
                self.out.push(format!("{};", x.t));
                Ok(())
            }
        }
    }

    fn loop_body(&mut self, b: &Block, k: usize) -> Res<String> {
        let saved = std::mem::take(&mut self.out);
        self.scopes.push(HashMap::new());
        self.depth += 1;
        let r = self.stmts(&b.stmts, false);
        self.depth -= 1;
        self.scopes.pop();
        let inner = std::mem::replace(&mut self.out, saved);
        let tail = r?;
        let mut s = format!("/*@BODY {}@*/ {}", k, inner.join("\n"));
        if let Some(t) = tail {
            s.push_str(&t.t);
            s.push(';');
        }
        s.push_str(&format!(" /*@BODYEND {}@*/", k));
        Ok(s)
    }

    /// The variables declared before a loop that its body assigns: an invariant is about
    /// these, so they are part of the skeleton.
    fn carried(&self, body: &str, nm: usize) -> String {
        let mut r: Vec<String> = vec![];
        let mut cnt: HashMap<String, usize> = HashMap::new();
        for m in &self.muts[..nm] {
            let key = format!("{}_{}", m["class"].as_str().unwrap_or(""), m["base"].as_str().unwrap_or(""));
            let o = cnt.entry(key.clone()).or_insert(0);
            let id = format!("{}{}", key, o);
            *o += 1;
            let name = m["name"].as_str().unwrap_or("");
            let bytes = body.as_bytes();
            let mut from = 0;
            while let Some(p) = body[from..].find(name) {
                let a = from + p;
                let b = a + name.len();
                from = b;
                let idc = |c: u8| c == b'_' || c.is_ascii_alphanumeric();
                if (a > 0 && (idc(bytes[a - 1]) || bytes[a - 1] == b'.')) || bytes.get(b).map_or(false, |&c| idc(c)) {
                    continue;
                }
                let rest = body[b..].trim_start().trim_start_matches(|c: char| "+-*/%&|^".contains(c));
                if (rest.starts_with('=') && !rest.starts_with("==") && !rest.starts_with("=>"))
                    || (a >= 5 && &body[a - 5..a] == "&mut ")
                {
                    r.push(id.clone());
                    break;
                }
            }
        }
        r.sort();
        if r.is_empty() { String::new() } else { format!("[{}]", r.join(",")) }
    }

    fn while_loop(&mut self, w: &ExprWhile) -> Res<()> {
        if w.label.is_some() {
            return Err("label".into());
        }
        let k = self.loops.len();
        let c = self.expr(&w.cond)?;
        self.loops.push(json!({"kind": "while"}));
        self.skel.push("while".into());
        let nm = self.muts.len();
        let body = self.loop_body(&w.body, k)?;
        let car = self.carried(&body, nm);
        self.out.push(format!(
            "/*@PRE {k}@*/ while {} /*@INV {k}@*/ {{ {body} }} /*@POST {k}@*/",
            c.t
        ));
        self.skel.push(format!("elihw{}", car));
        Ok(())
    }

    fn for_loop(&mut self, f: &ExprForLoop) -> Res<()> {
        if f.label.is_some() {
            return Err("label".into());
        }
        // `a..b`, `(a..b).step_by(s)`, `(a..b).rev()` or a slice
        let mut it = Self::strip(&f.expr);
        let mut step: Option<&Expr> = None;
        let mut enumerate = false;
        let mut rev = false;
        loop {
            match it {
                Expr::MethodCall(m) if m.method == "step_by" && step.is_none() => {
                    step = Some(&m.args[0]);
                    it = Self::strip(&m.receiver);
                }
                Expr::MethodCall(m) if m.method == "enumerate" && !enumerate => {
                    enumerate = true;
                    it = Self::strip(&m.receiver);
                }
                Expr::MethodCall(m) if m.method == "rev" && !rev && step.is_none() => {
                    rev = true;
                    it = Self::strip(&m.receiver);
                }
                Expr::MethodCall(m) if (m.method == "iter" || m.method == "into_iter" || m.method == "iter_mut") && m.args.is_empty() => {
                    it = Self::strip(&m.receiver);
                }
                _ => break,
            }
        }
        let k = self.loops.len();
        let (itn, stn, enn) = (format!("it{}", k), format!("st{}", k), format!("en{}", k));
        let kind;
        let mut head;
        let bind;
        let ek;
        let mut elem: Option<(String, K)> = None;
        let mut mut_elems: Option<String> = None;
        let mut cells: Option<String> = None;
        if let Expr::Range(r) = it {
            if matches!(r.limits, RangeLimits::Closed(_)) {
                return Err("closed range".into());
            }
            let a = self.expr(r.start.as_ref().ok_or("open range")?)?;
            let b = self.expr(r.end.as_ref().ok_or("open range")?)?;
            let kk = match (&a.k, &b.k) {
                (K::Int(x), K::Int(y)) => K::Int(if x.is_empty() { y.clone() } else { x.clone() }),
                (K::Int(x), _) => K::Int(x.clone()),
                (_, y) => y.clone(),
            };
            let ann = match &kk {
                K::Int(s) if !s.is_empty() => format!(": {}", s),
                _ => String::new(),
            };
            kind = if step.is_some() { "step" } else if rev { "rev" } else { "range" };
            head = format!("let {stn}{ann} = {}; let {enn}{ann} = {}; ", a.t, b.t);
            ek = kk;
            bind = if rev { format!("{stn} + ({enn} - 1 - {itn})") } else { itn.clone() };
            if rev {
                // counts upwards; the variable runs downwards
                head = format!("let {stn}{ann} = {}; let {enn}{ann} = {}; ", a.t, b.t);
            }
        } else {
            if step.is_some() || rev {
                return Err("iterator form".into());
            }
            let x = self.expr(it)?;
            if x.k == K::Cells {
                cells = Some(x.t.clone());
            }
            let el = match &x.k {
                K::Cells => K::Other(format!("cell:{}", x.t)),
                K::Slice(k) => (**k).clone(),
                K::Mut0 => return Err("iteration over outputs".into()),
                _ => return Err(format!("iteration over {:?}", x.k)),
            };
            kind = "slice";
            let mu_elems = cells.is_none() && x.r == Rf::Mu && matches!(el, K::Other(_) | K::Tensor | K::Node | K::R) && !enumerate;
            if mu_elems {
                mut_elems = Some(x.t.clone());
            }
            let sn = self.fresh("sl_");
            head = if let Some(c) = &cells {
                format!("let {stn}: usize = 0; let {enn}: usize = cells_len({}); ", Self::cells_ref(c))
            } else if mu_elems {
                format!("let {stn}: usize = 0; let {enn}: usize = {}.len(); ", x.t)
            } else {
                format!("let {sn} = {}; let {stn}: usize = 0; let {enn}: usize = {sn}.len(); ", self.bor(&x))
            };
            ek = K::Int("usize".into());
            bind = itn.clone();
            elem = Some((sn, el));
        }
        let stepv = match step {
            Some(s) => {
                let s = self.expr(s)?;
                let n = format!("sp{}", k);
                let ann = match &ek {
                    K::Int(s) if !s.is_empty() => format!(": {}", s),
                    _ => ": usize".to_string(),
                };
                head.push_str(&format!("let {n}{ann} = {}; ", s.t));
                Some(n)
            }
            None => None,
        };
        head.push_str(&format!("let mut {itn} = {stn};"));
        self.loops.push(json!({"kind": kind}));
        self.skel.push(format!("for:{}", kind));
        self.out.push(head);
        // pattern
        let mut frame = HashMap::new();
        let mut lets = String::new();
        let mut bind_ident = |g: &mut Self, p: &Pat, txt: String, k: K, r: Rf| -> Res<()> {
            match p {
                Pat::Ident(i) => {
                    let n = g.local(&i.ident.to_string());
                    let m = if i.mutability.is_some() { "mut " } else { "" };
                    lets.push_str(&format!("let {}{} = {}; ", m, n, txt));
                    frame.insert(i.ident.to_string(), V { t: n, k, r });
                    Ok(())
                }
                Pat::Wild(_) => Ok(()),
                Pat::Reference(pr) => match &*pr.pat {
                    Pat::Ident(i) => {
                        let n = g.local(&i.ident.to_string());
                        lets.push_str(&format!("let {} = {}; ", n, txt.trim_start_matches('&')));
                        frame.insert(i.ident.to_string(), V { t: n, k, r: Rf::Own });
                        Ok(())
                    }
                    _ => Err("pattern".into()),
                },
                _ => Err("pattern".into()),
            }
        };
        match &elem {
            None => {
                if enumerate {
                    return Err("enumerate over a range".into());
                }
                bind_ident(self, &f.pat, bind, ek, Rf::Own)?
            }
            Some((_, el)) if mut_elems.is_some() => {
                let n = match &*f.pat {
                    Pat::Ident(i) if i.by_ref.is_none() && i.mutability.is_none() => i.ident.to_string(),
                    _ => return Err("pattern".into()),
                };
                let l = self.local(&n);
                lets.push_str(&format!("let {l} = &mut {}[{bind}]; ", mut_elems.as_ref().unwrap()));
                frame.insert(n, V { t: l, k: el.clone(), r: Rf::Mu });
            }
            Some((sn, el)) => {
                let isref = matches!(el, K::Tensor | K::Node);
                let txt = if cells.is_some() {
                    bind.clone()
                } else if isref {
                    format!("{sn}[{bind}]")
                } else {
                    format!("&{sn}[{bind}]")
                };
                if enumerate {
                    match &*f.pat {
                        Pat::Tuple(t) if t.elems.len() == 2 => {
                            bind_ident(self, &t.elems[0], bind.clone(), K::Int("usize".into()), Rf::Own)?;
                            bind_ident(self, &t.elems[1], txt, el.clone(), Rf::Sh)?;
                        }
                        _ => return Err("pattern".into()),
                    }
                } else {
                    bind_ident(self, &f.pat, txt, el.clone(), Rf::Sh)?
                }
            }
        }
        self.scopes.push(frame);
        let nm = self.muts.len();
        let body = self.loop_body(&f.body, k);
        self.scopes.pop();
        let body = body?;
        let car = self.carried(&body, nm);
        let adv = match &stepv {
            Some(n) => format!("{itn} = {itn} + {n};"),
            None => format!("{itn} = {itn} + 1;"),
        };
        let inv = if stepv.is_some() {
            format!("{stn} <= {itn},")
        } else {
            format!("{stn} <= {itn}, {itn} <= {enn} || {itn} == {stn},")
        };
        let dec = match &stepv {
            Some(n) => format!("{enn} + {n} - {itn}"),
            None => format!("{enn} - {itn}"),
        };
        self.out.push(format!(
            "/*@PRE {k}@*/ while {itn} < {enn} invariant {inv} /*@INV {k}@*/ decreases {dec} {{ /*@HEAD {k}@*/ {lets} {adv} {body} }} /*@POST {k}@*/"
        ));
        self.skel.push(format!("rof{}", car));
        Ok(())
    }

    /// `if c { (a1, b1) } else { (a2, b2) }` as `if c { a1 } else { a2 }`, `if c { b1 } else { b2 }`
    fn split_if(i: &ExprIf, n: usize) -> Option<Vec<Expr>> {
        fn tail(b: &Block, n: usize) -> Option<Vec<Expr>> {
            match b.stmts.as_slice() {
                [Stmt::Expr(Expr::Tuple(t), None)] if t.elems.len() == n => Some(t.elems.iter().cloned().collect()),
                _ => None,
            }
        }
        let a = tail(&i.then_branch, n)?;
        let b = match i.else_branch.as_ref().map(|x| &*x.1) {
            Some(Expr::Block(b)) => tail(&b.block, n)?,
            _ => return None,
        };
        let c = &i.cond;
        Some(a.iter().zip(&b).map(|(a, b)| syn::parse_quote! { if #c { #a } else { #b } }).collect())
    }
    fn let_stmt(&mut self, l: &Local) -> Res<()> {
        let (pat, ann) = match &l.pat {
            Pat::Type(t) => (&*t.pat, Some(&*t.ty)),
            p => (p, None),
        };
        let init = match &l.init {
            Some(i) if i.diverge.is_none() => &i.expr,
            Some(_) => return Err("let else".into()),
            None => return Err("let without value".into()),
        };
        let (name, is_mut) = match pat {
            Pat::Ident(i) if i.by_ref.is_none() && i.subpat.is_none() => (i.ident.to_string(), i.mutability.is_some()),
            Pat::Ident(i) if i.mutability.is_none() && i.subpat.is_none() => {
                let x = self.expr(init)?;
                if x.r != Rf::Own {
                    return Err("let ref of a reference".into());
                }
                let n = self.local(&i.ident.to_string());
                self.out.push(format!("let {} = {};", n, x.t));
                self.bind(&i.ident.to_string(), V { t: format!("&{}", n), k: x.k, r: Rf::Sh });
                return Ok(());
            }
            Pat::Wild(_) => {
                let x = self.expr(init)?;
                self.out.push(format!("let _ = {};", x.t));
                return Ok(());
            }
            Pat::Tuple(t) => {
                let es: Vec<Expr> = match Self::strip(init) {
                    Expr::Tuple(e) if e.elems.len() == t.elems.len() => e.elems.iter().cloned().collect(),
                    Expr::If(i) => Self::split_if(i, t.elems.len()).ok_or("let pattern")?,
                    _ => return Err("let pattern".into()),
                };
                let mut vals = vec![];
                for (p, e) in t.elems.iter().zip(&es) {
                    let n = match p {
                        Pat::Ident(i) if i.by_ref.is_none() && i.subpat.is_none() && i.mutability.is_none() => i.ident.to_string(),
                        _ => return Err("let pattern".into()),
                    };
                    let x = self.expr(e)?;
                    let l = self.local(&n);
                    self.out.push(format!("let {} = {};", l, x.t));
                    vals.push((n, V { t: l, k: x.k, r: x.r }));
                }
                for (n, x) in vals {
                    self.bind(&n, x);
                }
                return Ok(());
            }
            _ => return Err("let pattern".into()),
        };
        if let Expr::Closure(c) = Self::strip(init) {
            self.bind(&name, v("", K::Other(format!("closure:{}", ts(c)))));
            return Ok(());
        }
        if is_mut && ann.is_none() {
            // a stack array that is written later: a vector of the same length
            if let Expr::Array(_) = Self::strip(init) {
                let x = self.expr(init)?;
                let n = self.local(&name);
                if let Expr::Array(a) = Self::strip(init) {
                    self.out.push(format!("let mut {} = Vec::new();", n));
                    for e in &a.elems {
                        let y = self.expr(e)?;
                        self.out.push(format!("{}.push({});", n, y.t));
                    }
                }
                self.muts.push(json!({"name": n, "class": "vec", "base": "", "depth": self.depth, "before_loop": self.loops.len()}));
                self.bind(&name, V { t: n, k: x.k, r: Rf::Own });
                return Ok(());
            }
        }
        let mut x = self.expr(init)?;
        if self.guards.iter().any(|g| g.2 == x.t) {
            self.bind(&name, x);
            return Ok(());
        }
        if self.sg.iter().any(|g| x.t == g.2 || x.t == format!("&mut {}", g.2) || x.t == format!("&{}", g.2)) && Self::is_borrow(init) {
            let g = x.t.trim_start_matches('&').trim_start_matches("mut ").to_string();
            self.bind(&name, v(g, K::Tensor));
            return Ok(());
        }
        if matches!(&x.k, K::Other(o) if o.starts_with("raw:")) {
            self.bind(&name, x);
            return Ok(());
        }
        // aliases of the output tensor and of mutable tensor parameters
        if (x.k == K::Tensor || x.k == K::Mut0) && x.r == Rf::Mu && !is_mut {
            let mut y = x.clone();
            if y.t.starts_with("&mut ") {
                y.t = y.t["&mut ".len()..].to_string();
                y.r = Rf::Own;
            }
            self.bind(&name, y);
            return Ok(());
        }
        if matches!(x.k, K::Slice(_)) && x.r == Rf::Mu && !is_mut && ann.is_none() {
            if let Expr::Path(_) = Self::strip(init) {
                self.bind(&name, x);
                return Ok(());
            }
        }
        if x.k == K::Tensor && x.r == Rf::Sh && !is_mut && ann.is_none() {
            if let Expr::Index(i) = Self::strip(init) {
                if matches!(Self::strip(&i.index), Expr::Lit(_)) {
                    self.bind(&name, x);
                    return Ok(());
                }
            }
            if let Expr::Path(_) = Self::strip(init) {
                self.bind(&name, x);
                return Ok(());
            }
        }
        let mut ty = String::new();
        if let Some(t) = ann {
            let (s, k, r) = self.ty(t);
            if !s.contains('_') || s.len() > 1 {
                ty = if s.contains("<_>") || s == "_" { String::new() } else { format!(": {}", s) };
            }
            if !matches!(x.k, K::Ptr(_)) {
                x.k = k;
                x.r = r;
            }
        }
        if ty.is_empty() {
            if let K::Ptr(_) = x.k {
                ty = ": usize".into();
            }
        }
        let n = self.local(&name);
        self.out.push(format!("let {}{}{} = {};", if is_mut { "mut " } else { "" }, n, ty, x.t));
        if is_mut {
            let cls = match &x.k {
                K::R => "R",
                K::Ptr(_) => "ptr",
                K::Int(_) => "int",
                K::Bool => "bool",
                K::Tensor => "tensor",
                K::Shape => "shape",
                K::Slice(_) => "vec",
                _ => "other",
            };
            let base = match &x.k {
                K::Ptr(b) => b.split_once(':').map(|p| p.1.to_string()).unwrap_or_default().replace(['[', ']'], ""),
                _ => String::new(),
            };
            self.muts.push(json!({"name": n, "class": cls, "base": base, "depth": self.depth, "before_loop": self.loops.len()}));
        }
        self.bind(&name, V { t: n, k: x.k, r: x.r });
        Ok(())
    }

    /// returns the tail expression
    fn stmts(&mut self, ss: &[Stmt], want_tail: bool) -> Res<Option<V>> {
        // guards of cells: of a statement until its end, of a `let` until the block's end
        let saved = std::mem::take(&mut self.sg);
        self.bg.push(vec![]);
        let r = self.stmts1(ss, want_tail);
        let b = self.bg.pop().unwrap();
        let s = std::mem::replace(&mut self.sg, saved);
        let mut r = r?;
        if !b.is_empty() || !s.is_empty() {
            if self.has_return {
                return Err("return while a cell is borrowed".into());
            }
            r = match r {
                Some(x) if x.k == K::Unit => {
                    self.out.push(format!("{};", x.t));
                    None
                }
                Some(x) => {
                    if x.r != Rf::Own {
                        return Err("reference into a borrowed cell".into());
                    }
                    let n = self.fresh("tv_");
                    self.out.push(format!("let {} = {};", n, x.t));
                    Some(V { t: n, ..x })
                }
                None => None,
            };
            self.put_guards(s);
            self.put_guards(b);
        }
        Ok(r)
    }
    fn stmts1(&mut self, ss: &[Stmt], want_tail: bool) -> Res<Option<V>> {
        let n = ss.len();
        for (i, s) in ss.iter().enumerate() {
            match s {
                Stmt::Local(l) => {
                    self.let_stmt(l)?;
                    let g = std::mem::take(&mut self.sg);
                    if matches!(&l.init, Some(i) if Self::is_borrow(&i.expr)) {
                        self.bg.last_mut().unwrap().extend(g);
                    } else {
                        self.put_guards(g);
                    }
                }
                Stmt::Expr(e, semi) => {
                    let tail = i + 1 == n && semi.is_none();
                    if tail && want_tail {
                        match e {
                            Expr::ForLoop(_) | Expr::While(_) | Expr::Loop(_) | Expr::Assign(_) => {
                                self.stmt_expr(e)?;
                                return Ok(None);
                            }
                            Expr::Binary(b) if ts(&b.op).ends_with('=') && !matches!(ts(&b.op).as_str(), "==" | "!=" | "<=" | ">=") => {
                                self.stmt_expr(e)?;
                                return Ok(None);
                            }
                            Expr::If(f) if f.else_branch.is_none() => {
                                self.stmt_expr(e)?;
                                return Ok(None);
                            }
                            Expr::Unsafe(b) => {
                                self.scopes.push(HashMap::new());
                                let r = self.stmts(&b.block.stmts, true);
                                self.scopes.pop();
                                return r;
                            }
                            _ => {}
                        }
                        let x = self.expr(e)?;
                        return Ok(Some(x));
                    }
                    self.stmt_expr(e)?;
                    let g = std::mem::take(&mut self.sg);
                    self.put_guards(g);
                }
                Stmt::Item(_) => return Err("nested item".into()),
                Stmt::Macro(_) => return Err("macro".into()),
            }
        }
        Ok(None)
    }
}

pub fn gen_fn(w: &World, f: &FnItem, o: &Value, cfg: &Value) -> Res<Value> {
    let kernel = o["kernel"].as_str();
    let mut g = G {
        w,
        cfg,
        f,
        scopes: vec![HashMap::new()],
        out: vec![],
        tmp: 0,
        loops: vec![],
        depth: 0,
        muts: vec![],
        skel: vec![],
        ok: if o["ok"].as_bool().unwrap_or(false) { "ok".into() } else { "true".into() },
        inline_depth: 0,
        lenient: o["lenient"].as_bool().unwrap_or(false),
        has_return: false,
        calls: vec![],
        pub_names: HashMap::new(),
        vec_ty: HashMap::new(),
        guards: vec![],
        rc: vec![],
        sg: vec![],
        bg: vec![],
    };
    let names: Vec<String> = o["params"]
        .as_array()
        .map(|a| a.iter().map(|x| x.as_str().unwrap().to_string()).collect())
        .unwrap_or_default();
    let mut params = vec![];
    let mut pre = vec![];
    for (i, p) in f.sig.inputs.iter().enumerate() {
        let (orig, is_mut, t, k, r) = match p {
            FnArg::Receiver(rc) => {
                let (s, k, _) = match &f.self_ty {
                    Some(t) => g.ty(t),
                    None => match o["self_kind"].as_str() {
                        Some(n) => (n.to_string(), K::Other(n.to_string()), Rf::Own),
                        None => ("Self".into(), K::Unknown, Rf::Own),
                    },
                };
                let s0 = s.trim_start_matches('&').to_string();
                let k = if o["self_kind"].as_str() == Some("op") { K::SelfOp } else { k };
                let (t, r) = if rc.reference.is_some() {
                    if rc.mutability.is_some() {
                        (format!("&mut {}", s0), Rf::Mu)
                    } else {
                        (format!("&{}", s0), Rf::Sh)
                    }
                } else if s.starts_with('&') {
                    (s.clone(), Rf::Sh)
                } else {
                    (s0, Rf::Own)
                };
                ("self".to_string(), rc.mutability.is_some() && rc.reference.is_none(), t, k, r)
            }
            FnArg::Typed(pt) => {
                let (orig, m) = match &*pt.pat {
                    Pat::Ident(i) => (i.ident.to_string(), i.mutability.is_some()),
                    Pat::Wild(_) => ("_".into(), false),
                    _ => return Err("parameter pattern".into()),
                };
                let tx = tn(&pt.ty);
                // generic `T: Borrow<Self>`
                if tx == "T" {
                    let (s, k, _) = match &f.self_ty {
                        Some(t) => g.ty(t),
                        None => return Err("generic parameter".into()),
                    };
                    (orig, m, format!("&{}", s.trim_start_matches('&')), k, Rf::Sh)
                } else {
                    let (t, k, r) = g.ty(&pt.ty);
                    (orig, m, t, k, r)
                }
            }
        };
        if kernel.is_some() && orig == "self" {
            continue;
        }
        let idx = if kernel.is_some() { i - 1 } else { i };
        let canon = match names.get(idx) {
            Some(n) => n.clone(),
            None => orig.clone(),
        };
        if kernel.is_some() && r == Rf::Mu && matches!(&k, K::Slice(e) if **e == K::Tensor) {
            // ys: &mut [&mut Tensor]
            params.push(json!({"name": "y0", "type": "&mut Tensor"}));
            g.bind(&orig, v("ys", K::Mut0));
            continue;
        }
        if canon == "-" {
            // dropped (the device)
            g.bind(&orig, v("self_dev()", k));
            continue;
        }
        params.push(json!({"name": canon, "type": t}));
        let mut val = V { t: canon.clone(), k, r };
        if is_mut {
            let n = g.local(&orig);
            pre.push(format!("let mut {} = {};", n, canon));
            val.t = n;
        }
        g.bind(&orig, val);
    }
    let (ret, retk) = match &f.sig.output {
        ReturnType::Default => (String::new(), K::Unit),
        ReturnType::Type(_, t) => {
            let (s, k, _) = g.ty(t);
            (s, k)
        }
    };
    let body = f.block.as_ref().ok_or("no body")?;
    let tail = g.stmts(&body.stmts, true)?;
    let mut text = String::new();
    text.push_str("/*@START@*/\n");
    text.push_str(&pre.join("\n"));
    text.push_str(&g.out.join("\n"));
    let mut tail_t = String::new();
    if let Some(t) = tail {
        if retk == K::Unit {
            text.push_str(&format!("\n{};", t.t));
        } else {
            // `return x` style tails keep their type
            let val = if matches!(retk, K::Int(_) | K::R | K::Bool | K::Shape) && t.r != Rf::Own && !ret.starts_with('&') {
                g.own(&t)
            } else {
                t.t.clone()
            };
            text.push_str(&format!("\nlet ret_ : {} = {};", ret, val));
            tail_t = "\nret_".into();
        }
    }
    if !g.guards.is_empty() {
        if g.has_return {
            return Err("return while a cell is borrowed".into());
        }
        for (m, k, l) in g.guards.iter().rev() {
            text.push_str(&format!("\nstats_put(&mut {}, {}, {});", m, k, l));
        }
    }
    for (n, t) in &g.vec_ty {
        text = text.replace(&format!("let mut {} = Vec::new();", n), &format!("let mut {}: Vec<{}> = Vec::new();", n, t));
    }
    text.push_str("\n/*@END@*/");
    text.push_str(&tail_t);
    // cells of the receiver change through a shared reference
    for r in &g.rc {
        let o = r.split('.').next().unwrap().to_string();
        for p in params.iter_mut() {
            if p["name"] == o.as_str() {
                let t = p["type"].as_str().unwrap().to_string();
                if !t.starts_with("&mut") {
                    p["type"] = json!(format!("&mut {}", t.trim_start_matches('&')));
                }
            }
        }
    }
    Ok(json!({
        "status": "ok",
        "params": params,
        "ret": ret,
        "body": text,
        "loops": g.loops,
        "muts": g.muts,
        "skeleton": g.skel.join(" "),
        "calls": g.calls,
        "has_return": g.has_return,
        "has_self_mut": f.sig.receiver().map(|r| r.mutability.is_some()).unwrap_or(false),
    }))
}
