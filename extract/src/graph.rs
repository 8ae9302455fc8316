//! Rewriting of graph.rs: reference-counted operations become indices into a heap (`h`), cells become
//! places of that heap, iterator chains and `while let .. = pop()` become loops.
use crate::{FnItem, World};
use quote::ToTokens;
use serde_json::{json, Value};
use std::collections::HashMap;
use syn::punctuated::Punctuated;
use syn::*;

type Res<T> = std::result::Result<T, String>;

#[derive(Clone, Debug, PartialEq)]
enum K {
    Op,
    DRef,
    Rets(String),
    Ret(String, String),
    Cell(char, String, String), // 'v' value, 'g' gradient; operation, index
    Flag(String),
    Oper(String),
    Tens,
    Int,
    Bool,
    Ptr,
    Set,
    Queue,
    Pq,
    Wrap(Vec<String>),
    Shape,
    Node,
    OBox,
    OInfo,
    NData,
    Dev,
    Ord,
    Unit,
    Nodes,          // &[&Node]
    List(Box<K>),   // a vector; of Cell: of places
    Opt(Box<K>),
    Unknown,
}
#[derive(Clone, Debug)]
struct V {
    t: String,
    k: K,
}
fn v(t: impl Into<String>, k: K) -> V {
    V { t: t.into(), k }
}
fn tn<T: ToTokens>(t: &T) -> String {
    crate::strip_lt(&t.to_token_stream().to_string().replace(' ', ""))
}

enum Src {
    List(String, K), // expression of a vector, element kind
    Slice(String),   // of nodes
    Rets(String),
    Range(String, String),
}
struct It<'e> {
    src: Src,
    maps: Vec<&'e Expr>,
}

pub struct GG<'a> {
    w: &'a World,
    cfg: &'a Value,
    f: &'a FnItem,
    scopes: Vec<HashMap<String, V>>,
    out: Vec<String>,
    tmp: usize,
    cnt: HashMap<String, usize>,
    loops: Vec<Value>,
    skel: Vec<String>,
    calls: Vec<String>,
    ok: String,
    puts: Vec<Vec<String>>, // cells taken by the blocks being read, to put back at their ends
    sput: Vec<String>,      // of the current statement
    locks: Vec<Option<String>>, // blocks that hold borrowed cells: name of the state to go back to
    wraps: HashMap<String, Vec<String>>, // wrappers of the elements of a priority queue
}

impl<'a> GG<'a> {
    fn fresh(&mut self, p: &str) -> String {
        self.tmp += 1;
        format!("{}_{}", p, self.tmp)
    }
    fn canon(&mut self, p: &str) -> String {
        let c = self.cnt.entry(p.into()).or_insert(0);
        *c += 1;
        format!("{}{}", p, *c - 1)
    }
    fn lookup(&self, n: &str) -> Option<V> {
        self.scopes.iter().rev().find_map(|s| s.get(n).cloned())
    }
    fn bind(&mut self, n: &str, x: V) {
        self.scopes.last_mut().unwrap().insert(n.into(), x);
    }
    fn strip<'b>(e: &'b Expr) -> &'b Expr {
        match e {
            Expr::Paren(p) => Self::strip(&p.expr),
            Expr::Group(p) => Self::strip(&p.expr),
            _ => e,
        }
    }
    fn peel<'b>(e: &'b Expr) -> &'b Expr {
        match Self::strip(e) {
            Expr::Reference(r) => Self::peel(&r.expr),
            Expr::Unary(u) if matches!(u.op, UnOp::Deref(_)) => Self::peel(&u.expr),
            x => x,
        }
    }
    /// an expression as a name or literal
    fn simple(&mut self, t: String) -> String {
        if t.chars().all(|c| c.is_alphanumeric() || c == '_' || c == '.') {
            return t;
        }
        let n = self.fresh("sv");
        self.out.push(format!("let {} = {};", n, t));
        n
    }
    fn elty(k: &K) -> Res<&'static str> {
        Ok(match k {
            K::Tens => "Tensor",
            K::Cell(..) => "(usize, usize)",
            K::DRef => "DataRef",
            K::Shape => "Shape",
            K::NData => "NodeData",
            K::Node => "GNode",
            K::Int | K::Op | K::Ptr => "usize",
            K::Bool => "bool",
            _ => return Err(format!("list of {:?}", k)),
        })
    }
    fn callee(&self, table: &str, key: &str) -> Option<Value> {
        self.cfg[table].get(key).cloned()
    }
    fn kind_of(s: &str) -> K {
        match s.trim_start_matches('&') {
            "Tensor" => K::Tens,
            "bool" => K::Bool,
            "usize" => K::Int,
            "OInfo" => K::OInfo,
            "Vec<GNode>" => K::List(Box::new(K::Node)),
            "Vec<Shape>" => K::List(Box::new(K::Shape)),
            "Ordr" => K::Ord,
            "Option<Ordr>" => K::Opt(Box::new(K::Ord)),
            "Shape" => K::Shape,
            "" => K::Unit,
            _ => K::Unknown,
        }
    }
    fn known(&mut self, c: &Value, mut args: Vec<String>) -> V {
        let n = c["emit"].as_str().unwrap().to_string();
        self.calls.push(n.clone());
        if c["ok"].as_bool().unwrap_or(false) {
            args.push(format!("Ghost({})", self.ok));
        }
        v(format!("{}({})", n, args.join(", ")), Self::kind_of(c["ret"].as_str().unwrap_or("")))
    }

    // ------------------------------------------------------------ expressions
    fn ex(&mut self, e: &Expr) -> Res<V> {
        match e {
            Expr::Paren(p) => {
                let x = self.ex(&p.expr)?;
                Ok(V { t: format!("({})", x.t), k: x.k })
            }
            Expr::Group(p) => self.ex(&p.expr),
            Expr::Reference(r) => self.ex(&r.expr),
            Expr::Unary(u) => match u.op {
                UnOp::Deref(_) => self.ex(&u.expr),
                UnOp::Not(_) => {
                    let x = self.ex(&u.expr)?;
                    Ok(v(format!("(!{})", x.t), K::Bool))
                }
                _ => Err("unary".into()),
            },
            Expr::Lit(l) => match &l.lit {
                Lit::Int(i) => Ok(v(format!("{}usize", i.base10_digits()), K::Int)),
                Lit::Bool(b) => Ok(v(if b.value { "true" } else { "false" }, K::Bool)),
                Lit::Float(_) => Ok(v(l.lit.to_token_stream().to_string(), K::Unknown)),
                _ => Err("literal".into()),
            },
            Expr::Path(p) if p.path.segments.len() == 1 => {
                let n = p.path.segments[0].ident.to_string();
                self.lookup(&n).ok_or(format!("name {}", n))
            }
            Expr::Cast(c) => {
                let x = self.ex(&c.expr)?;
                match x.k {
                    K::Op | K::Ptr if tn(&c.ty).starts_with("*const") => Ok(v(x.t, K::Ptr)),
                    K::Int if tn(&c.ty) == "usize" => Ok(x),
                    _ => Err("cast".into()),
                }
            }
            Expr::Field(f) => self.field(f),
            Expr::Index(i) => {
                let b = self.ex(&i.expr)?;
                let j = self.ex(&i.index)?;
                if j.k != K::Int {
                    return Err("index".into());
                }
                match b.k {
                    K::Rets(op) => {
                        let j = self.simple(j.t);
                        Ok(v("", K::Ret(op, j)))
                    }
                    K::List(e) => Ok(v(format!("{}[{}]", b.t, j.t), *e)),
                    K::Nodes => Ok(v(format!("{}[{}]", b.t, j.t), K::Node)),
                    _ => Err("index".into()),
                }
            }
            Expr::Binary(b) => {
                let l = self.ex(&b.left)?;
                let r = self.ex(&b.right)?;
                let o = b.op.to_token_stream().to_string();
                match (o.as_str(), &l.k, &r.k) {
                    ("+", K::Int, K::Int) => Ok(v(format!("({} + {})", l.t, r.t), K::Int)),
                    ("-", K::Int, K::Int) => Ok(v(format!("({} - {})", l.t, r.t), K::Int)),
                    ("==" | "!=" | "<" | "<=" | ">" | ">=", K::Int | K::Ptr | K::Bool, _) => Ok(v(format!("({} {} {})", l.t, o, r.t), K::Bool)),
                    ("&&" | "||", K::Bool, K::Bool) => Ok(v(format!("({} {} {})", l.t, o, r.t), K::Bool)),
                    _ => Err(format!("operator {}", o)),
                }
            }
            Expr::Struct(s) => {
                let n = s.path.segments.last().unwrap().ident.to_string();
                let (en, k) = match n.as_str() {
                    "DataRef" => ("DataRef", K::DRef),
                    "NodeData" => ("NodeData", K::NData),
                    "OperatorInfo" => ("OInfo", K::OInfo),
                    "Node" => ("GNode", K::Node),
                    _ => return Err(format!("struct {}", n)),
                };
                let mut fs = vec![];
                for f in &s.fields {
                    let m = match &f.member {
                        Member::Named(i) => i.to_string(),
                        _ => return Err("member".into()),
                    };
                    let x = self.ex(&f.expr)?;
                    fs.push(format!("{}: {}", m, x.t));
                }
                Ok(v(format!("{} {{ {} }}", en, fs.join(", ")), k))
            }
            Expr::Call(c) => self.call(c),
            Expr::MethodCall(m) => self.method(m),
            Expr::Block(b) => self.block_val(&b.block),
            Expr::If(i) => {
                if let Some((_, el)) = &i.else_branch {
                    let c = self.ex(&i.cond)?;
                    let a = self.block_val(&i.then_branch)?;
                    let b = match &**el {
                        Expr::Block(b) => self.block_val(&b.block)?,
                        x => {
                            let y = self.ex(x)?;
                            V { t: format!("{{ {} }}", y.t), k: y.k }
                        }
                    };
                    return Ok(V { t: format!("(if {} {} else {})", c.t, a.t, b.t), k: a.k });
                }
                Err("if".into())
            }
            _ => Err(format!("expression {}", tn(e))),
        }
    }
    fn block_val(&mut self, b: &Block) -> Res<V> {
        let saved = std::mem::take(&mut self.out);
        self.scopes.push(HashMap::new());
        let r = self.block(&b.stmts, true);
        self.scopes.pop();
        let inner = std::mem::replace(&mut self.out, saved);
        match r? {
            Some(x) => Ok(V { t: format!("{{ {} {} }}", inner.join(" "), x.t), k: x.k }),
            None => Ok(v(format!("{{ {} }}", inner.join(" ")), K::Unit)),
        }
    }
    fn field(&mut self, f: &ExprField) -> Res<V> {
        let b = self.ex(&f.base)?;
        let m = f.member.to_token_stream().to_string();
        match (&b.k, m.as_str()) {
            (K::DRef, "op") => Ok(v(format!("{}.op", b.t), K::Op)),
            (K::DRef, "vid") => Ok(v(format!("{}.vid", b.t), K::Int)),
            (K::Node, "data") => Ok(v(format!("{}.data", b.t), K::DRef)),
            (K::Op, "args") => Ok(v(format!("h_args(&*h, {})", b.t), K::List(Box::new(K::DRef)))),
            (K::Op, "rets") => {
                let o = self.simple(b.t);
                Ok(v("", K::Rets(o)))
            }
            (K::Op, "forwarded") => {
                let o = self.simple(b.t);
                Ok(v("", K::Flag(o)))
            }
            (K::Op, "operator") => {
                let o = self.simple(b.t);
                Ok(v("", K::Oper(o)))
            }
            (K::Op, "depth") => Ok(v(format!("h_depth(&*h, {})", b.t), K::Int)),
            (K::Ret(o, i), "value") => Ok(v("", K::Cell('v', o.clone(), i.clone()))),
            (K::Ret(o, i), "gradient") => Ok(v("", K::Cell('g', o.clone(), i.clone()))),
            (K::Tens, "shape") => Ok(v(format!("{}.shape", b.t), K::Shape)),
            (K::Wrap(w), "0") => {
                let mut w = w.clone();
                w.remove(0);
                Ok(v(b.t, if w.is_empty() { K::Op } else { K::Wrap(w) }))
            }
            _ => Err(format!("field {} of {:?}", m, b.k)),
        }
    }
    fn args(&mut self, a: &Punctuated<Expr, Token![,]>) -> Res<Vec<V>> {
        a.iter().map(|e| self.ex(e)).collect()
    }
    fn place(k: &K) -> Option<(char, String)> {
        match k {
            K::Cell(c, o, i) => Some((*c, format!("({}, {})", o, i))),
            _ => None,
        }
    }
    fn call(&mut self, c: &ExprCall) -> Res<V> {
        let p = match Self::strip(&c.func) {
            Expr::Path(p) => p,
            _ => return Err("call".into()),
        };
        let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
        let last = segs.last().unwrap().clone();
        let two = if segs.len() >= 2 { segs[segs.len() - 2..].join("::") } else { last.clone() };
        match two.as_str() {
            "Rc::clone" | "RefCell::new" | "Cell::new" | "Box::new" => {
                let a = self.args(&c.args)?;
                return Ok(a.into_iter().next().unwrap());
            }
            "Rc::as_ptr" => {
                let a = self.args(&c.args)?;
                if a[0].k == K::Op {
                    return Ok(v(a[0].t.clone(), K::Ptr));
                }
            }
            "Rc::new" => {
                let a = self.args(&c.args)?;
                if a[0].k == K::OInfo {
                    let i = self.simple(a[0].t.clone());
                    let i = if i.contains('(') { i } else { i };
                    return Ok(v(format!("h_alloc(h, {})", i), K::Op));
                }
            }
            "HashSet::new" => return Ok(v("set_new()", K::Set)),
            "VecDeque::new" => return Ok(v("q_new()", K::Queue)),
            "BinaryHeap::new" => return Ok(v("pq_new()", K::Pq)),
            "Vec::new" => return Ok(v("Vec::new()", K::List(Box::new(K::Unknown)))),
            "cmp::max" => {
                let a = self.args(&c.args)?;
                return Ok(v(format!("u_max({}, {})", a[0].t, a[1].t), K::Int));
            }
            "Some" => {
                let a = self.args(&c.args)?;
                return Ok(v(format!("Some({})", a[0].t), K::Opt(Box::new(a[0].k.clone()))));
            }
            _ => {}
        }
        if last == "Reverse" || last == "OperatorInfoCmp" {
            let a = self.args(&c.args)?;
            let mut w = vec![last];
            match &a[0].k {
                K::Op => {}
                K::Wrap(x) => w.extend(x.clone()),
                _ => return Err("wrapper".into()),
            }
            return Ok(v(a[0].t.clone(), K::Wrap(w)));
        }
        let key = if segs.len() == 1 { format!("{}::{}", self.f.module, last) } else { format!("graph::{}", two) };
        let key = if segs.len() >= 2 && segs[0] == "Self" {
            format!("graph::{}::{}", self.f.self_ty.as_ref().map(|t| tn(t)).unwrap_or_default(), last)
        } else {
            key
        };
        if let Some(cc) = self.callee("paths", &key) {
            let a = self.args(&c.args)?;
            let mut al = vec!["h".to_string()];
            for x in a {
                al.push(x.t);
            }
            return Ok(self.known(&cc, al));
        }
        // a helper of this module under no contract
        let fs: Vec<&FnItem> = self.w.fns.iter().filter(|f| f.module == "graph" && f.key == key).collect();
        if fs.len() == 1 {
            let f = fs[0];
            let a = self.args(&c.args)?;
            let mut frame = HashMap::new();
            for (p, x) in f.sig.inputs.iter().zip(a) {
                let n = match p {
                    FnArg::Typed(pt) => match &*pt.pat {
                        Pat::Ident(i) => i.ident.to_string(),
                        _ => return Err("parameter".into()),
                    },
                    _ => return Err("receiver".into()),
                };
                frame.insert(n, x);
            }
            let b = f.block.as_ref().ok_or("body")?;
            if tn(b).contains("return") {
                return Err("return".into());
            }
            let ss = std::mem::replace(&mut self.scopes, vec![frame]);
            let r = self.block_val(b);
            self.scopes = ss;
            return r;
        }
        Err(format!("call of {}", segs.join("::")))
    }

    // ------------------------------------------------------------ iterators
    fn iter<'e>(&mut self, e: &'e Expr) -> Res<It<'e>> {
        let e = Self::strip(e);
        if let Expr::MethodCall(m) = e {
            match m.method.to_string().as_str() {
                "map" if m.args.len() == 1 => {
                    let mut i = self.iter(&m.receiver)?;
                    i.maps.push(&m.args[0]);
                    return Ok(i);
                }
                "iter" | "iter_mut" | "into_iter" | "cloned" | "copied" if m.args.is_empty() => return self.iter(&m.receiver),
                _ => {}
            }
        }
        if let Expr::Range(r) = e {
            if matches!(r.limits, RangeLimits::Closed(_)) {
                return Err("closed range".into());
            }
            let a = self.ex(r.start.as_ref().ok_or("range")?)?;
            let b = self.ex(r.end.as_ref().ok_or("range")?)?;
            return Ok(It { src: Src::Range(a.t, b.t), maps: vec![] });
        }
        let x = self.ex(e)?;
        let src = match x.k {
            K::List(k) => Src::List(x.t, *k),
            K::Nodes => Src::Slice(x.t),
            K::Rets(o) => Src::Rets(o),
            _ => return Err("iteration".into()),
        };
        Ok(It { src, maps: vec![] })
    }
    /// the head of a loop over `it`, and what an element is
    fn loop_head(&mut self, it: &It, k: usize) -> (String, V, String) {
        let sl = self.fresh("sl");
        match &it.src {
            Src::List(t, e) => {
                let el = match e {
                    K::Cell(c, _, _) => v("", K::Cell(*c, format!("{sl}[ix{k}].0"), format!("{sl}[ix{k}].1"))),
                    _ => v(format!("{sl}[ix{k}]"), e.clone()),
                };
                let amp = if t.ends_with(')') { "" } else { "&" };
                (format!("let {sl} = {amp}{t}; let st{k}: usize = 0; let en{k}: usize = {sl}.len();"), el, "slice".into())
            }
            Src::Slice(t) => (format!("let st{k}: usize = 0; let en{k}: usize = {t}.len();"), v(format!("{t}[ix{k}]"), K::Node), "slice".into()),
            Src::Rets(o) => (format!("let st{k}: usize = 0; let en{k}: usize = h_nrets(&*h, {o});"), v("", K::Ret(o.clone(), format!("ix{k}"))), "slice".into()),
            Src::Range(a, b) => (format!("let st{k}: usize = {a}; let en{k}: usize = {b};"), v(format!("ix{k}"), K::Int), "range".into()),
        }
    }
    fn closure(&mut self, c: &Expr, x: V) -> Res<V> {
        let c = match Self::strip(c) {
            Expr::Closure(c) => c,
            _ => return Err("closure".into()),
        };
        if c.inputs.len() != 1 {
            return Err("closure".into());
        }
        let mut p = &c.inputs[0];
        loop {
            match p {
                Pat::Type(t) => p = &t.pat,
                Pat::Reference(r) => p = &r.pat,
                _ => break,
            }
        }
        let n = match p {
            Pat::Ident(i) => i.ident.to_string(),
            Pat::Wild(_) => "_".into(),
            _ => return Err("closure pattern".into()),
        };
        let mut fr = HashMap::new();
        fr.insert(n, x);
        self.scopes.push(fr);
        let r = match &*c.body {
            Expr::MethodCall(m) if matches!(m.method.to_string().as_str(), "borrow" | "borrow_mut") && m.args.is_empty() => {
                // a guard handed on
                let x = self.ex(&m.receiver);
                x.and_then(|x| self.guard(x, m.method == "borrow_mut"))
            }
            b => self.ex(b),
        };
        self.scopes.pop();
        r
    }
    /// a borrow that outlives its statement: shared ones are snapshots, exclusive ones places
    fn guard(&mut self, x: V, mu: bool) -> Res<V> {
        match &x.k {
            K::Cell(c, o, i) => {
                if mu {
                    self.out.push(format!("h_lock_{c}(h, {o}, {i}, Ghost({}));", self.ok));
                    Ok(v(format!("({}, {})", o, i), x.k.clone()))
                } else {
                    Ok(v(format!("h_share_{c}(h, {o}, {i}, Ghost({}))", self.ok), K::Tens))
                }
            }
            K::Node | K::Tens => Ok(x),
            _ => Err("borrow".into()),
        }
    }
    fn holds_guard(e: &Expr) -> bool {
        let t = tn(e);
        t.contains(".borrow()") || t.contains(".borrow_mut()")
    }
    /// `|y| &**y` and the like
    fn identity(c: &Expr) -> bool {
        if let Expr::Closure(c) = Self::strip(c) {
            if c.inputs.len() == 1 {
                if let (Pat::Ident(i), Expr::Path(p)) = (&c.inputs[0], Self::peel(&c.body)) {
                    return p.path.segments.len() == 1 && p.path.segments[0].ident == i.ident;
                }
            }
        }
        false
    }
    fn collect(&mut self, e: &Expr) -> Res<V> {
        if let Expr::MethodCall(m) = Self::strip(e) {
            if m.method == "map" && Self::identity(&m.args[0]) {
                let x = self.ex(Self::peel(match Self::strip(&m.receiver) {
                    Expr::MethodCall(n) if matches!(n.method.to_string().as_str(), "iter" | "iter_mut") => &n.receiver,
                    x => x,
                }))?;
                if let K::List(k) = &x.k {
                    if matches!(**k, K::Tens | K::Cell(..)) {
                        return Ok(x);
                    }
                }
                return Err("collect".into());
            }
        }
        let it = self.iter(e)?;
        let k = self.loops.len();
        self.loops.push(json!({"kind": "slice"}));
        self.skel.push("for:collect".into());
        let (head, mut el, _) = self.loop_head(&it, k);
        let saved = std::mem::take(&mut self.out);
        let mut res = Ok(());
        for c in &it.maps {
            match self.closure(c, el.clone()) {
                Ok(x) => el = x,
                Err(e) => res = Err(e),
            }
        }
        if let Some((_, t)) = Self::place(&el.k) {
            if el.t.is_empty() {
                el.t = t;
            }
        }
        self.out.push(format!("vec{k}.push({});", el.t));
        let body = std::mem::replace(&mut self.out, saved).join(" ");
        res?;
        self.skel.push("rof".into());
        let et = Self::elty(&el.k)?;
        self.out.push(format!("let mut vec{k}: Vec<{et}> = Vec::new(); {head} let mut it{k} = st{k};"));
        self.out.push(Self::wrap_loop(k, &body));
        Ok(v(format!("vec{k}"), K::List(Box::new(el.k))))
    }
    fn wrap_loop(k: usize, body: &str) -> String {
        format!(
            "/*@PRE {k}@*/ while it{k} < en{k} invariant st{k} <= it{k}, it{k} <= en{k} || it{k} == st{k}, /*@INV {k}@*/ decreases en{k} - it{k} {{ /*@HEAD {k}@*/ let ix{k} = it{k}; it{k} = it{k} + 1; /*@BODY {k}@*/ {body} /*@BODYEND {k}@*/ }} /*@POST {k}@*/"
        )
    }

    // ------------------------------------------------------------ methods
    fn method(&mut self, m: &ExprMethodCall) -> Res<V> {
        let name = m.method.to_string();
        if name == "collect" {
            return self.collect(&m.receiver);
        }
        if name == "fold" && m.args.len() == 2 {
            let it = self.iter(&m.receiver)?;
            let init = self.ex(&m.args[0])?;
            let is_max = matches!(tn(&m.args[1]).as_str(), "cmp::max" | "std::cmp::max" | "usize::max" | "max");
            if init.k != K::Int || !is_max {
                return Err("fold".into());
            }
            let k = self.loops.len();
            self.loops.push(json!({"kind": "slice"}));
            self.skel.push("for:fold".into());
            let (head, mut el, _) = self.loop_head(&it, k);
            let saved = std::mem::take(&mut self.out);
            let mut res = Ok(());
            for c in &it.maps {
                match self.closure(c, el.clone()) {
                    Ok(x) => el = x,
                    Err(e) => res = Err(e),
                }
            }
            self.out.push(format!("acc{k} = u_max(acc{k}, {});", el.t));
            let body = std::mem::replace(&mut self.out, saved).join(" ");
            res?;
            self.skel.push("rof".into());
            self.out.push(format!("let mut acc{k}: usize = {}; {head} let mut it{k} = st{k};", init.t));
            self.out.push(Self::wrap_loop(k, &body));
            return Ok(v(format!("acc{k}"), K::Int));
        }
        let r = self.ex(&m.receiver)?;
        match (&r.k, name.as_str()) {
            (K::Op | K::Shape | K::DRef | K::Int, "clone") => return Ok(r),
            (K::Cell(c, o, i), "borrow") => {
                // until the end of the statement
                return Ok(v(format!("h_peek_{c}(&*h, {o}, {i}, Ghost({}))", self.ok), K::Tens));
            }
            (K::Cell(c, o, i), "borrow_mut") => {
                let g = self.fresh("cell");
                self.out.push(format!("let mut {g} = h_take_{c}(h, {o}, {i}, Ghost({}));", self.ok));
                self.sput.push(format!("h_put_{c}(h, {o}, {i}, {g});"));
                return Ok(v(g, K::Tens));
            }
            (K::Flag(o), "get") => return Ok(v(format!("h_fwd(&*h, {o})"), K::Bool)),
            (K::Flag(o), "set") => {
                let a = self.args(&m.args)?;
                return Ok(v(format!("h_set_fwd(h, {o}, {})", a[0].t), K::Unit));
            }
            (K::Oper(_), "device") | (K::OBox, "device") | (K::Tens, "device") => return Ok(v("", K::Dev)),
            (K::Oper(o), "forward") => {
                let a = self.args(&m.args)?;
                if let [V { t: x, k: K::List(xk) }, V { t: y, k: K::List(yk) }] = &a[..] {
                    if **xk == K::Tens && matches!(**yk, K::Cell('v', ..)) {
                        return Ok(v(format!("h_op_forward(h, {o}, &{x}, &{y})"), K::Unit));
                    }
                }
                return Err("forward of an operator".into());
            }
            (K::Oper(o), "backward") => {
                let a = self.args(&m.args)?;
                if let [V { t: x, k: K::List(xk) }, V { t: y, k: K::List(yk) }, V { t: gy, k: K::List(gyk) }, V { t: gx, k: K::List(gxk) }] = &a[..] {
                    if **xk == K::Tens && **yk == K::Tens && **gyk == K::Tens && matches!(**gxk, K::Cell('g', ..)) {
                        return Ok(v(format!("h_op_backward(h, {o}, &{x}, &{y}, &{gy}, &{gx})"), K::Unit));
                    }
                }
                return Err("backward of an operator".into());
            }
            (K::OBox, "forward_shape") => {
                let a = self.args(&m.args)?;
                return Ok(v(format!("o_forward_shape(&{}, &{}, Ghost({}))", r.t, a[0].t, self.ok), K::List(Box::new(K::Shape))));
            }
            (K::Dev, "new_tensor") => {
                let a = self.args(&m.args)?;
                return Ok(v(format!("new_tensor({})", a[0].t), K::Tens));
            }
            (K::Set, "contains" | "insert") => {
                let a = self.args(&m.args)?;
                if a[0].k != K::Ptr {
                    return Err("set element".into());
                }
                return Ok(if name == "contains" {
                    v(format!("set_contains(&{}, {})", r.t, a[0].t), K::Bool)
                } else {
                    v(format!("set_insert(&mut {}, {})", r.t, a[0].t), K::Bool)
                });
            }
            (K::Queue, "push_back" | "push_front") => {
                let a = self.args(&m.args)?;
                if a[0].k != K::Op {
                    return Err("queue element".into());
                }
                return Ok(v(format!("q_{}(&mut {}, {})", name, r.t, a[0].t), K::Unit));
            }
            (K::Pq, "push") => {
                let a = self.args(&m.args)?;
                if let K::Wrap(w) = &a[0].k {
                    if w.last().map(|s| s.as_str()) != Some("OperatorInfoCmp") || w.iter().filter(|s| *s == "OperatorInfoCmp").count() != 1 {
                        return Err("queue element".into());
                    }
                    if *self.wraps.entry(r.t.clone()).or_insert(w.clone()) != *w {
                        return Err("queue elements".into());
                    }
                    return Ok(v(format!("pq_push(&mut {}, {})", r.t, a[0].t), K::Unit));
                }
                return Err("queue element".into());
            }
            (K::Queue, "is_empty") => return Ok(v(format!("(!q_some(&{}))", r.t), K::Bool)),
            (K::Pq, "is_empty") => return Ok(v(format!("(!pq_some(&{}))", r.t), K::Bool)),
            (K::List(_), "len") => return Ok(v(format!("{}.len()", r.t), K::Int)),
            (K::Nodes, "len") => return Ok(v(format!("{}.len()", r.t), K::Int)),
            (K::Rets(o), "len") => return Ok(v(format!("h_nrets(&*h, {o})"), K::Int)),
            (K::Int, "cmp") => {
                let a = self.args(&m.args)?;
                return Ok(v(format!("u_cmp({}, {})", r.t, a[0].t), K::Ord));
            }
            (K::Int, "partial_cmp") => {
                let a = self.args(&m.args)?;
                return Ok(v(format!("Some(u_cmp({}, {}))", r.t, a[0].t), K::Opt(Box::new(K::Ord))));
            }
            (K::Int, "max") => {
                let a = self.args(&m.args)?;
                return Ok(v(format!("u_max({}, {})", r.t, a[0].t), K::Int));
            }
            (K::Ord, "reverse") => return Ok(v(format!("u_rev({})", r.t), K::Ord)),
            _ => {}
        }
        if let K::Wrap(w) = &r.k {
            if w.len() == 1 {
                if let Some(c) = self.callee("methods", &format!("OperatorInfoCmp.{}", name)) {
                    let a = self.args(&m.args)?;
                    let mut al = vec!["&*h".to_string(), r.t];
                    al.extend(a.into_iter().map(|x| x.t));
                    return Ok(self.known(&c, al));
                }
            }
        }
        if r.k == K::Node {
            if let Some(c) = self.callee("methods", &format!("GNode.{}", name)) {
                let a = self.args(&m.args)?;
                let mut al = vec!["h".to_string(), format!("&{}", r.t)];
                al.extend(a.into_iter().map(|x| x.t));
                return Ok(self.known(&c, al));
            }
        }
        if r.k == K::Tens {
            if let Some(c) = self.callee("methods", &format!("Tensor.{}", name)) {
                let mut al = vec![match c["recv"].as_str().unwrap_or("&") {
                    "&mut" => format!("&mut {}", r.t),
                    _ => format!("&{}", r.t),
                }];
                for e in &m.args {
                    match Self::strip(e) {
                        Expr::Lit(l) => al.push(match &l.lit {
                            Lit::Float(f) => {
                                let d = f.base10_digits();
                                if !d.chars().all(|c| c.is_ascii_digit() || c == '.') {
                                    return Err("float".into());
                                }
                                let d = if d.ends_with('.') { format!("{}0", d) } else if d.contains('.') { d.to_string() } else { format!("{}.0", d) };
                                al.push(format!("rl(Ghost({}real))", d));
                                continue;
                            
                            }
                            _ => return Err("argument".into()),
                        }),
                        e => al.push(self.ex(e)?.t),
                    }
                }
                return Ok(self.known(&c, al));
            }
        }
        Err(format!("method {} on {:?}", name, r.k))
    }

    // ------------------------------------------------------------ statements
    fn block(&mut self, ss: &[Stmt], want: bool) -> Res<Option<V>> {
        let at = self.out.len();
        self.puts.push(vec![]);
        self.locks.push(None);
        let sp = std::mem::take(&mut self.sput);
        let r = self.stmts(ss, want);
        let rest = std::mem::replace(&mut self.sput, sp);
        let p = self.puts.pop().unwrap();
        let l = self.locks.pop().unwrap();
        let mut r = r?;
        if (!p.is_empty() || l.is_some() || !rest.is_empty()) && r.is_some() {
            let x = r.unwrap();
            if x.k == K::Unit {
                self.out.push(format!("{};", x.t));
                r = None;
            } else {
                let n = self.fresh("tv");
                self.out.push(format!("let {} = {};", n, x.t));
                r = Some(V { t: n, k: x.k });
            }
        }
        for x in rest.iter().rev() {
            self.out.push(x.clone());
        }
        for x in p.iter().rev() {
            self.out.push(x.clone());
        }
        if let Some(n) = l {
            self.out.insert(at, format!("let ghost {n} = h.g();"));
            self.out.push(format!("h_unlock(h, Ghost({n}));"));
        }
        Ok(r)
    }
    fn lock_block(&mut self) {
        if self.locks.last().unwrap().is_none() {
            let n = self.fresh("lk");
            *self.locks.last_mut().unwrap() = Some(n);
        }
    }
    fn flush(&mut self) {
        let g = std::mem::take(&mut self.sput);
        for x in g.iter().rev() {
            self.out.push(x.clone());
        }
    }
    fn stmts(&mut self, ss: &[Stmt], want: bool) -> Res<Option<V>> {
        for (i, s) in ss.iter().enumerate() {
            let last = i + 1 == ss.len();
            match s {
                Stmt::Local(l) => {
                    self.let_(l)?;
                    self.flush();
                }
                Stmt::Expr(e, semi) => {
                    if let Expr::If(f) = e {
                        if f.else_branch.is_none() && matches!(f.then_branch.stmts.last(), Some(Stmt::Expr(Expr::Continue(c), _)) if c.label.is_none()) {
                            // `if c { a; continue; } rest` is `if c { a } else { rest }` in a loop's body
                            let c = self.ex(&f.cond)?;
                            if !self.sput.is_empty() {
                                return Err("cell borrowed in a condition".into());
                            }
                            let n = f.then_branch.stmts.len();
                            let a = self.inner(&f.then_branch.stmts[..n - 1])?;
                            let b = self.inner(&ss[i + 1..])?;
                            self.out.push(format!("if {} {{ {} }} else {{ {} }}", c.t, a, b));
                            return Ok(None);
                        }
                    }
                    match e {
                        Expr::ForLoop(f) => self.for_(f)?,
                        Expr::While(w) => self.while_(w)?,
                        Expr::If(f) if f.else_branch.is_none() || semi.is_some() || !want || !last => {
                            let c = self.ex(&f.cond)?;
                            if !self.sput.is_empty() {
                                return Err("cell borrowed in a condition".into());
                            }
                            let a = self.inner(&f.then_branch.stmts)?;
                            let mut t = format!("if {} {{ {} }}", c.t, a);
                            if let Some((_, el)) = &f.else_branch {
                                match &**el {
                                    Expr::Block(b) => t.push_str(&format!(" else {{ {} }}", self.inner(&b.block.stmts)?)),
                                    _ => return Err("else if".into()),
                                }
                            }
                            self.out.push(t);
                        }
                        Expr::Block(b) if semi.is_some() || !last || !want => {
                            let t = self.inner(&b.block.stmts)?;
                            self.out.push(format!("{{ {} }}", t));
                        }
                        _ => {
                            let x = self.ex(e)?;
                            if last && want && semi.is_none() {
                                return Ok(Some(x));
                            }
                            self.out.push(format!("{};", x.t));
                        }
                    }
                    self.flush();
                }
                _ => return Err("statement".into()),
            }
        }
        Ok(None)
    }
    fn inner(&mut self, ss: &[Stmt]) -> Res<String> {
        let saved = std::mem::take(&mut self.out);
        self.scopes.push(HashMap::new());
        let r = self.block(ss, false);
        self.scopes.pop();
        let o = std::mem::replace(&mut self.out, saved);
        let mut t = o.join("\n");
        if let Some(x) = r? {
            t.push_str(&format!(" {};", x.t));
        }
        Ok(t)
    }
    fn let_(&mut self, l: &Local) -> Res<()> {
        let mut p = &l.pat;
        if let Pat::Type(t) = p {
            p = &t.pat;
        }
        let (n, is_mut) = match p {
            Pat::Ident(i) if i.by_ref.is_none() && i.subpat.is_none() => (i.ident.to_string(), i.mutability.is_some()),
            Pat::Wild(_) => ("_".into(), false),
            _ => return Err("let pattern".into()),
        };
        let e = match &l.init {
            Some(i) if i.diverge.is_none() => &*i.expr,
            _ => return Err("let".into()),
        };
        // a single guard
        if let Expr::MethodCall(m) = Self::peel(e) {
            if matches!(m.method.to_string().as_str(), "borrow" | "borrow_mut") && m.args.is_empty() {
                let x = self.ex(&m.receiver)?;
                if let K::Cell(c, o, i) = &x.k {
                    if m.method == "borrow_mut" {
                        let g = self.fresh("cell");
                        self.out.push(format!("let mut {g} = h_take_{c}(h, {o}, {i}, Ghost({}));", self.ok));
                        self.puts.last_mut().unwrap().push(format!("h_put_{c}(h, {o}, {i}, {g});"));
                        self.bind(&n, v(g, K::Tens));
                    } else {
                        self.lock_block();
                        let g = self.fresh("cell");
                        self.out.push(format!("let {g} = h_share_{c}(h, {o}, {i}, Ghost({}));", self.ok));
                        self.bind(&n, v(g, K::Tens));
                    }
                    return Ok(());
                }
                return Err("borrow".into());
            }
            if m.method == "collect" && Self::holds_guard(e) {
                self.lock_block();
            }
        }
        let x = self.ex(e)?;
        match &x.k {
            K::Set | K::Queue | K::Pq => {
                let c = self.canon(match x.k {
                    K::Set => "set",
                    K::Queue => "queue",
                    _ => "pq",
                });
                self.out.push(format!("let mut {} = {};", c, x.t));
                self.bind(&n, v(c, x.k));
            }
            K::Rets(_) | K::Ret(..) | K::Cell(..) | K::Flag(_) | K::Oper(_) | K::Dev => self.bind(&n, x),
            K::List(_) if x.t.starts_with("vec") && !x.t.contains('(') => self.bind(&n, x),
            K::Unknown => return Err("let".into()),
            _ => {
                let c = self.canon(&format!("v_{}_", n));
                self.out.push(format!("let {}{} = {};", if is_mut { "mut " } else { "" }, c, x.t));
                self.bind(&n, v(c, x.k));
            }
        }
        Ok(())
    }
    fn for_(&mut self, f: &ExprForLoop) -> Res<()> {
        if f.label.is_some() {
            return Err("label".into());
        }
        let it = self.iter(Self::peel(&f.expr))?;
        let k = self.loops.len();
        self.loops.push(json!({"kind": "slice"}));
        self.skel.push("for:slice".into());
        let (head, mut el, _) = self.loop_head(&it, k);
        let mut p = &*f.pat;
        while let Pat::Reference(r) = p {
            p = &r.pat;
        }
        let n = match p {
            Pat::Ident(i) => i.ident.to_string(),
            Pat::Wild(_) => "_".into(),
            _ => return Err("pattern".into()),
        };
        let saved = std::mem::take(&mut self.out);
        let mut res = Ok(());
        for c in &it.maps {
            match self.closure(c, el.clone()) {
                Ok(x) => el = x,
                Err(e) => res = Err(e),
            }
        }
        let mut fr = HashMap::new();
        fr.insert(n, el);
        self.scopes.push(fr);
        let b = self.inner(&f.body.stmts);
        self.scopes.pop();
        let pre = std::mem::replace(&mut self.out, saved).join(" ");
        res?;
        let body = format!("{} {}", pre, b?);
        self.skel.push("rof".into());
        self.out.push(format!("{head} let mut it{k} = st{k};"));
        self.out.push(Self::wrap_loop(k, &body));
        Ok(())
    }
    fn while_(&mut self, w: &ExprWhile) -> Res<()> {
        if w.label.is_some() {
            return Err("label".into());
        }
        let k = self.loops.len();
        self.loops.push(json!({"kind": "while"}));
        self.skel.push("while".into());
        let l = match Self::strip(&w.cond) {
            Expr::Let(l) => l,
            _ => return Err("while".into()),
        };
        // while let Some(PAT) = q.pop()
        let inner = match &*l.pat {
            Pat::TupleStruct(t) if t.path.is_ident("Some") && t.elems.len() == 1 => &t.elems[0],
            _ => return Err("while let".into()),
        };
        let m = match Self::strip(&l.expr) {
            Expr::MethodCall(m) if m.args.is_empty() => m,
            _ => return Err("while let".into()),
        };
        let q = self.ex(&m.receiver)?;
        let mut wr = vec![];
        let mut p = inner;
        let cond;
        let pop;
        match (&q.k, m.method.to_string().as_str()) {
            (K::Queue, "pop_front" | "pop_back") => {
                cond = format!("q_some(&{})", q.t);
                pop = format!("q_{}(&mut {})", m.method, q.t);
            }
            (K::Pq, "pop") => {
                while let Pat::TupleStruct(t) = p {
                    if t.elems.len() != 1 {
                        return Err("pattern".into());
                    }
                    wr.push(t.path.segments.last().unwrap().ident.to_string());
                    p = &t.elems[0];
                }
                let ws = self.wraps.get(&q.t).cloned().ok_or("queue elements")?;
                if wr != ws {
                    return Err("queue pattern".into());
                }
                // greatest by the order of the wrapped operations, or least for an odd number of reversals
                let odd = ws.iter().filter(|s| *s == "Reverse").count() % 2 == 1;
                cond = format!("pq_some(&{})", q.t);
                pop = format!("pq_pop_{}(&mut {}, &*h)", if odd { "min" } else { "max" }, q.t);
                for n in ["OperatorInfoCmp.partial_cmp"] {
                    if let Some(c) = self.callee("methods", n) {
                        self.calls.push(c["emit"].as_str().unwrap().to_string());
                    }
                }
            }
            _ => return Err("while let".into()),
        }
        let n = match p {
            Pat::Ident(i) => i.ident.to_string(),
            _ => return Err("pattern".into()),
        };
        let mut fr = HashMap::new();
        fr.insert(n, v(format!("cur{k}"), K::Op));
        self.scopes.push(fr);
        let b = self.inner(&w.body.stmts);
        self.scopes.pop();
        let b = b?;
        self.out.push(format!(
            "/*@PRE {k}@*/ while {cond} /*@INV {k}@*/ {{ /*@HEAD {k}@*/ let cur{k} = {pop}; /*@BODY {k}@*/ {b} /*@BODYEND {k}@*/ }} /*@POST {k}@*/"
        ));
        self.skel.push("elihw".into());
        Ok(())
    }
}

pub fn gen_fn(w: &World, f: &FnItem, o: &Value, cfg: &Value) -> Res<Value> {
    let mut g = GG {
        w,
        cfg,
        f,
        scopes: vec![HashMap::new()],
        out: vec![],
        tmp: 0,
        cnt: HashMap::new(),
        loops: vec![],
        skel: vec![],
        calls: vec![],
        ok: if o["ok"].as_bool().unwrap_or(false) { "ok".into() } else { "true".into() },
        puts: vec![],
        sput: vec![],
        locks: vec![],
        wraps: HashMap::new(),
    };
    let ro = o["self_kind"].as_str() == Some("heap&");
    let names: Vec<String> = o["params"].as_array().map(|a| a.iter().map(|x| x.as_str().unwrap().to_string()).collect()).unwrap_or_default();
    let mut params = vec![json!({"name": "h", "type": if ro { "&Heap" } else { "&mut Heap" }})];
    let st = f.self_ty.as_ref().map(|t| tn(t)).unwrap_or_default();
    for (i, p) in f.sig.inputs.iter().enumerate() {
        let (orig, ty) = match p {
            FnArg::Receiver(r) => ("self".to_string(), if r.reference.is_some() { format!("&{}", st) } else { st.clone() }),
            FnArg::Typed(pt) => match &*pt.pat {
                Pat::Ident(i) => (i.ident.to_string(), tn(&pt.ty).replace("Self", &st)),
                _ => return Err("parameter".into()),
            },
        };
        let (t, k) = match ty.trim_start_matches('&') {
            "Rc<OperatorInfo>" | "OperatorInfo" => ("usize", K::Op),
            "usize" => ("usize", K::Int),
            "T" => ("OBox", K::OBox),
            "[&Node]" => ("&[&GNode]", K::Nodes),
            "Node" => ("&GNode", K::Node),
            "OperatorInfoCmp" => ("usize", K::Wrap(vec!["OperatorInfoCmp".into()])),
            x => return Err(format!("parameter type {}", x)),
        };
        let c = names.get(i).cloned().unwrap_or(orig.clone());
        params.push(json!({"name": c, "type": t}));
        g.bind(&orig, v(c, k));
    }
    let (ret, retk) = match &f.sig.output {
        ReturnType::Default => (String::new(), K::Unit),
        ReturnType::Type(_, t) => {
            let t = tn(t).replace("Self", &st);
            let s = match t.as_str() {
                "OperatorInfo" => "OInfo",
                "Vec<Node>" => "Vec<GNode>",
                "Ref<Tensor>" => "Tensor",
                "Ordering" => "Ordr",
                "Option<Ordering>" => "Option<Ordr>",
                "bool" => "bool",
                x => return Err(format!("return type {}", x)),
            };
            (s.to_string(), GG::kind_of(s))
        }
    };
    let b = f.block.as_ref().ok_or("no body")?;
    if tn(b).contains("return") {
        return Err("return".into());
    }
    let tail = g.block(&b.stmts, true)?;
    let mut text = String::from("/*@START@*/\n");
    text.push_str(&g.out.join("\n"));
    let mut tail_t = String::new();
    if let Some(t) = tail {
        if retk == K::Unit {
            text.push_str(&format!("\n{};", t.t));
        } else {
            text.push_str(&format!("\nlet ret_ : {} = {};", ret, t.t));
            tail_t = "\nret_".into();
        }
    } else if retk != K::Unit {
        return Err("no value".into());
    }
    text.push_str("\n/*@END@*/");
    text.push_str(&tail_t);
    Ok(json!({"status": "ok", "params": params, "ret": ret, "body": text, "loops": g.loops, "muts": [], "skeleton": g.skel.join(" "),
        "calls": g.calls, "has_return": false, "has_self_mut": false}))
}
