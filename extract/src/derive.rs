//! The derive macro.  `derive_model` is read as a function from the parsed struct to the list of
//! fields its `quote!` repeats over; the functions inside `quote!` are read as functions of that list.
use crate::{FnItem, World};
use proc_macro2::{Delimiter, Group, Ident, Span, TokenStream, TokenTree};
use quote::{quote, ToTokens};
use serde_json::{json, Value};
use std::collections::HashMap;
use syn::*;

type Res<T> = std::result::Result<T, String>;

struct Q {
    scopes: Vec<HashMap<String, String>>,
    out: Vec<String>,
    loops: Vec<Value>,
    skel: Vec<String>,
    muts: Vec<Value>,
    nvec: usize,
    n: usize,
    ups: Option<String>,     // the list that is repeated over
    indexed: Vec<String>,    // lists that are indexed
    template: Option<String>, // the name of the function in quote! that is read
    calls: Vec<String>,
    labels: Vec<Option<String>>,
    mu: bool,
}

fn ts<T: ToTokens>(t: &T) -> String {
    t.to_token_stream().to_string().replace(' ', "")
}

/// `#( body ) sep *` -> `for q__x in q__list_x { body }`, `#x` -> `q__x`
fn unquote(t: TokenStream, vars: &mut Vec<String>) -> Res<TokenStream> {
    let v: Vec<TokenTree> = t.into_iter().collect();
    let mut o: Vec<TokenTree> = vec![];
    let mut i = 0;
    while i < v.len() {
        if let TokenTree::Punct(p) = &v[i] {
            if p.as_char() == '#' && i + 1 < v.len() {
                match &v[i + 1] {
                    TokenTree::Group(g) if g.delimiter() == Delimiter::Parenthesis => {
                        let mut inner = vec![];
                        let b = unquote(g.stream(), &mut inner)?;
                        inner.sort();
                        inner.dedup();
                        if inner.len() != 1 {
                            return Err("repetition over several lists".into());
                        }
                        let x = Ident::new(&inner[0], Span::call_site());
                        vars.push(inner[0].clone());
                        match v.get(i + 2) {
                            Some(TokenTree::Punct(p)) if p.as_char() == '*' => i += 3,
                            _ => return Err("separator".into()),
                        }
                        o.extend(quote!(for #x in q__list { #b }));
                        continue;
                    }
                    TokenTree::Ident(x) => {
                        vars.push(format!("q__{}", x));
                        o.push(TokenTree::Ident(Ident::new(&format!("q__{}", x), Span::call_site())));
                        i += 2;
                        continue;
                    }
                    _ => {}
                }
            }
        }
        match &v[i] {
            TokenTree::Group(g) => {
                let s = unquote(g.stream(), vars)?;
                o.push(TokenTree::Group(Group::new(g.delimiter(), s)));
            }
            x => o.push(x.clone()),
        }
        i += 1;
    }
    Ok(o.into_iter().collect())
}

/// the body of `fn name` in the tokens of a quote!
fn body_of(t: TokenStream, name: &str) -> Option<TokenStream> {
    let v: Vec<TokenTree> = t.into_iter().collect();
    for i in 0..v.len() {
        if let (TokenTree::Ident(a), Some(TokenTree::Ident(b))) = (&v[i], v.get(i + 1)) {
            if a == "fn" && b == name {
                for x in &v[i..] {
                    if let TokenTree::Group(g) = x {
                        if g.delimiter() == Delimiter::Brace {
                            return Some(g.stream());
                        }
                    }
                }
            }
        }
        if let TokenTree::Group(g) = &v[i] {
            if let Some(x) = body_of(g.stream(), name) {
                return Some(x);
            }
        }
    }
    None
}

struct Quotes(Vec<TokenStream>, Vec<String>);
impl<'ast> visit::Visit<'ast> for Quotes {
    fn visit_macro(&mut self, m: &'ast Macro) {
        if m.path.segments.last().map_or(false, |s| s.ident == "quote") {
            self.0.push(m.tokens.clone());
        }
    }
    fn visit_expr_index(&mut self, x: &'ast ExprIndex) {
        self.1.push(ts(&x.expr));
        visit::visit_expr_index(self, x);
    }
}

impl Q {
    fn look(&self, n: &str) -> Option<String> {
        self.scopes.iter().rev().find_map(|s| s.get(n).cloned())
    }
    fn bind(&mut self, n: &str, t: String) {
        self.scopes.last_mut().unwrap().insert(n.into(), t);
    }
    fn fresh(&mut self, p: &str) -> String {
        self.n += 1;
        format!("{}_{}", p, self.n)
    }
    fn new_vec(&mut self, name: &str) -> String {
        // the list quote! repeats over, lists that are indexed, other lists
        let cls = if self.ups.as_deref() == Some(name) { "other" } else if self.indexed.iter().any(|x| x == name) { "tensor" } else { "vec" };
        let n = if cls == "vec" { self.nvec += 1; format!("vec{}", self.nvec - 1) } else if cls == "other" { "ups0".into() } else { format!("ixd{}", self.muts.len()) };
        self.muts.push(json!({"name": n, "class": cls, "base": ""}));
        self.out.push(format!("let mut {}: Vec<u64> = Vec::new();", n));
        n
    }
    fn pat(&mut self, p: &Pat) -> Res<String> {
        Ok(match p {
            Pat::Wild(_) => "_".into(),
            Pat::Ident(i) if i.subpat.is_none() => {
                let s = i.ident.to_string();
                if s == "None" {
                    return Ok(s);
                }
                self.bind(&s, s.clone() + "_");
                s + "_"
            }
            Pat::Path(p) => self.qpath(&p.path),
            Pat::TupleStruct(t) => {
                let h = self.qpath(&t.path);
                let mut v = vec![];
                for e in &t.elems {
                    v.push(self.pat(e)?);
                }
                format!("{}({})", h, v.join(", "))
            }
            Pat::Or(o) => {
                let mut v = vec![];
                for e in &o.cases {
                    v.push(self.pat(e)?);
                }
                v.join(" | ")
            }
            Pat::Paren(p) => self.pat(&p.pat)?,
            Pat::Reference(r) => self.pat(&r.pat)?,
            _ => return Err(format!("pattern {}", ts(p))),
        })
    }
    fn qpath(&self, p: &Path) -> String {
        let s: Vec<String> = p.segments.iter().map(|s| s.ident.to_string()).filter(|s| s != "syn").collect();
        match s.len() {
            1 => s[0].clone(),
            k => format!("Q{}::{}", s[k - 2], s[k - 1]),
        }
    }
    /// a place, as text
    fn place(&mut self, e: &Expr) -> Option<String> {
        match e {
            Expr::Path(p) => p.path.get_ident().and_then(|i| self.look(&i.to_string())),
            Expr::Field(f) => {
                let b = self.place(&f.base)?;
                Some(format!("{}.{}", b, ts(&f.member)))
            }
            Expr::Reference(r) if r.mutability.is_none() => self.place(&r.expr),
            Expr::Paren(p) => self.place(&p.expr),
            Expr::Unary(ExprUnary { op: UnOp::Deref(_), expr, .. }) => self.place(expr),
            Expr::MethodCall(m) if m.args.is_empty() && (m.method == "iter" || m.method == "as_ref" || m.method == "clone" || m.method == "into") => self.place(&m.receiver),
            Expr::MethodCall(m) if m.args.is_empty() && m.method == "unwrap" && ts(&m.receiver).starts_with("syn::parse(") => Some("(*input)".into()),
            Expr::Macro(m) if m.mac.path.segments.last().map_or(false, |s| s.ident == "parse_macro_input") => Some("(*input)".into()),
            _ => None,
        }
    }
    fn listing(&mut self, field: &Expr, how: &str) -> Res<String> {
        // `self.#f`
        let mut e = field;
        while let Expr::Reference(r) = e {
            e = &r.expr;
        }
        if let Expr::Field(f) = e {
            if ts(&f.base) == "self" {
                let x = self.look(&ts(&f.member)).ok_or("field")?;
                let n = if how == "parameters" { "obj_parameters" } else if how == "parameters_mut" && self.mu { "obj_parameters_mut" } else { return Err("listing".into()) };
                self.calls.push(n.into());
                return Ok(format!("{}(s, {})", n, x));
            }
        }
        Err(format!("not a field: {}", ts(e)))
    }
    fn ex(&mut self, e: &Expr) -> Res<String> {
        if let Some(p) = self.place(e) {
            return Ok(p);
        }
        Ok(match e {
            Expr::Paren(p) => format!("({})", self.ex(&p.expr)?),
            Expr::Reference(r) if r.mutability.is_none() => self.ex(&r.expr)?,
            Expr::Lit(l) => match &l.lit {
                Lit::Bool(b) => b.value.to_string(),
                Lit::Int(i) => i.to_string(),
                _ => return Err("literal".into()),
            },
            Expr::Unary(ExprUnary { op: UnOp::Not(_), expr, .. }) => format!("!({})", self.ex(expr)?),
            Expr::Binary(b) => {
                let op = match &b.op {
                    BinOp::And(_) => "&&",
                    BinOp::Or(_) => "||",
                    BinOp::Eq(_) => "==",
                    BinOp::Ne(_) => "!=",
                    _ => return Err("operator".into()),
                };
                // what the right side does happens only sometimes
                let a = self.ex(&b.left)?;
                let k = self.out.len();
                let c = self.ex(&b.right)?;
                if self.out.len() != k {
                    return Err("effect in a condition".into());
                }
                format!("({}) {} ({})", a, op, c)
            }
            Expr::Index(i) => {
                let a = self.ex(&i.expr)?;
                let b = self.ex(&i.index)?;
                format!("{}[{}]", a, b)
            }
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                if n == "is_ident" && m.args.len() == 1 {
                    if let Expr::Lit(ExprLit { lit: Lit::Str(s), .. }) = &m.args[0] {
                        return Ok(format!("{}.is_ident({})", self.ex(&m.receiver)?, crate::gen::str_id(&s.value())));
                    }
                }
                if (n == "parse_meta" || n == "unwrap" || n == "is_some" || n == "is_none" || n == "is_empty" || n == "path") && m.args.is_empty() {
                    return Ok(format!("{}.{}()", self.ex(&m.receiver)?, n));
                }
                if m.args.is_empty() && self.template.is_some() {
                    let x = self.listing(&m.receiver, &n)?;
                    return Ok(x);
                }
                if n == "into" || n == "as_ref" || n == "clone" {
                    return self.ex(&m.receiver);
                }
                return Err(format!("method {}", n));
            }
            Expr::Call(c) => {
                let p = ts(&c.func);
                let n = p.rsplit("::").next().unwrap_or("").to_string();
                if c.args.len() == 1 && self.template.is_some() && (n == "parameters" || n == "parameters_mut") {
                    return self.listing(&c.args[0], &n);
                }
                if c.args.len() == 1 && p.ends_with("TokenStream::from") {
                    return self.ex(&c.args[0]);
                }
                return Err(format!("call {}", p));
            }
            Expr::Macro(m) => {
                let n = m.mac.path.segments.last().unwrap().ident.to_string();
                match n.as_str() {
                    "quote" => self.look(self.ups.as_ref().ok_or("quote")?).ok_or("quote")?,
                    "panic" | "unreachable" | "unimplemented" | "todo" => "q_panic()".into(),
                    _ => return Err(format!("macro {}", n)),
                }
            }
            _ => return Err(format!("expression {}", ts(e).chars().take(60).collect::<String>())),
        })
    }
    fn is_new(e: &Expr) -> bool {
        matches!(ts(e).as_str(), "vec![]" | "Vec::new()" | "::alloc::vec::Vec::new()" | "Vec::<_>::new()")
    }
    fn append(&mut self, v: &str, e: &Expr) -> Res<()> {
        if let Expr::Reference(r) = e {
            if r.mutability.is_some() {
                if let Some(p) = self.place(&r.expr) {
                    self.out.push(format!("{}.append(&mut {});", v, p));
                    return Ok(());
                }
            }
        }
        let mut e = e;
        while let Expr::Reference(r) = e {
            e = &r.expr;
        }
        let x = self.ex(e)?;
        let t = self.fresh("t");
        self.out.push(format!("let mut {} = {};\n{}.append(&mut {});", t, x, v, t));
        Ok(())
    }
    fn block(&mut self, b: &Block, tail: bool) -> Res<Option<String>> {
        self.scopes.push(HashMap::new());
        let r = self.stmts(&b.stmts, tail);
        self.scopes.pop();
        r
    }
    fn stmts(&mut self, ss: &[Stmt], tail: bool) -> Res<Option<String>> {
        let mut last = None;
        for (i, s) in ss.iter().enumerate() {
            let end = i + 1 == ss.len();
            match s {
                Stmt::Local(l) => {
                    let mut p = &l.pat;
                    if let Pat::Type(t) = p {
                        p = &t.pat;
                    }
                    let Pat::Ident(id) = p else { return Err("let".into()) };
                    let n = id.ident.to_string();
                    let init = &l.init.as_ref().ok_or("let")?;
                    if init.diverge.is_some() {
                        return Err("let else".into());
                    }
                    if Self::is_new(&init.expr) {
                        let x = self.new_vec(&n);
                        self.bind(&n, x);
                        continue;
                    }
                    if id.mutability.is_none() {
                        if let Some(pl) = self.place(&init.expr) {
                            self.bind(&n, pl);
                            continue;
                        }
                        if let Expr::Macro(m) = &*init.expr {
                            if m.mac.path.segments.last().unwrap().ident == "quote" {
                                let x = self.ex(&init.expr)?;
                                self.bind(&n, x);
                                continue;
                            }
                        }
                    }
                    let x = self.ex(&init.expr)?;
                    let v = self.fresh("v");
                    self.out.push(format!("let {}{} = {};", if id.mutability.is_some() { "mut " } else { "" }, v, x));
                    self.bind(&n, v);
                }
                Stmt::Expr(e, semi) => {
                    let r = self.stmt(e, tail && end && semi.is_none())?;
                    if end {
                        last = r;
                    }
                }
                Stmt::Macro(m) => {
                    let n = m.mac.path.segments.last().unwrap().ident.to_string();
                    if n == "panic" || n == "unreachable" {
                        self.out.push("return q_panic();".into());
                        return Ok(Some(String::new()));
                    }
                    if n == "quote" && end && tail {
                        last = Some(self.look(self.ups.as_ref().ok_or("quote")?).ok_or("quote")?);
                        continue;
                    }
                    return Err(format!("macro {}", n));
                }
                Stmt::Item(Item::Use(_)) => {}
                _ => return Err("statement".into()),
            }
        }
        Ok(last)
    }
    fn arm(&mut self, b: &Expr, tail: bool) -> Res<String> {
        let k = self.out.len();
        let r = match b {
            Expr::Block(b) => self.block(&b.block, tail)?,
            e => self.stmt(e, tail)?,
        };
        let body = self.out.split_off(k).join("\n");
        Ok(match r {
            Some(x) if tail && !x.is_empty() => format!("{{ {}\nreturn {}; }}", body, x),
            _ => format!("{{ {} }}", body),
        })
    }
    fn scrut(&mut self, e: &Expr) -> Res<String> {
        if let Some(p) = self.place(e) {
            return Ok(if p.ends_with(".ident") { p } else { format!("&{}", p) });
        }
        self.ex(e)
    }
    fn stmt(&mut self, e: &Expr, tail: bool) -> Res<Option<String>> {
        match e {
            Expr::ForLoop(f) => {
                let list = if ts(&f.expr) == "q__list" { "ups".to_string() } else { self.place(&f.expr).ok_or("loop")? };
                let k = self.loops.len();
                let Pat::Ident(id) = &*f.pat else { return Err("loop pattern".into()) };
                self.loops.push(json!({"kind": "for"}));
                self.skel.push("for{".into());
                let lab = f.label.as_ref().map(|l| l.name.ident.to_string());
                self.labels.push(lab.clone());
                self.scopes.push(HashMap::new());
                let x = format!("x{}", k);
                self.bind(&id.ident.to_string(), x.clone());
                let keep = std::mem::take(&mut self.out);
                self.block(&f.body, false)?;
                let body = std::mem::replace(&mut self.out, keep).join("\n");
                self.scopes.pop();
                self.labels.pop();
                self.skel.push("}".into());
                let by = if list == "ups" { "" } else { "&" };
                self.out.push(format!(
                    "let ghost sq{k} = {list}@;\nlet en{k}: usize = {list}.len();\nlet mut it{k}: usize = 0;\n/*@PRE {k}@*/\n{}while it{k} < en{k} invariant 0 <= it{k} <= en{k}, en{k} == sq{k}.len(), sq{k} == {list}@, /*@INV {k}@*/ decreases en{k} - it{k} {{\n/*@HEAD {k}@*/\nlet {x} = {by}{list}[it{k}];\nit{k} = it{k} + 1;\n/*@BODY {k}@*/\n{body}\n/*@BODYEND {k}@*/\n}}\n/*@POST {k}@*/",
                    lab.map(|l| format!("'{}: ", l)).unwrap_or_default()
                ));
                Ok(None)
            }
            Expr::If(i) => {
                let els = |q: &mut Q| -> Res<String> {
                    match &i.else_branch {
                        Some((_, e)) => q.arm(e, tail),
                        None => Ok("{}".into()),
                    }
                };
                if let Expr::Let(l) = &*i.cond {
                    let s = self.scrut(&l.expr)?;
                    self.scopes.push(HashMap::new());
                    let p = self.pat(&l.pat)?;
                    let a = self.arm(&Expr::Block(ExprBlock { attrs: vec![], label: None, block: i.then_branch.clone() }), tail)?;
                    self.scopes.pop();
                    let b = els(self)?;
                    self.out.push(format!("match {} {{ {} => {},\n _ => {} }}", s, p, a, b));
                } else {
                    if ts(&i.cond).contains("let") && matches!(&*i.cond, Expr::Binary(_)) && ts(&i.cond).contains("&&let") {
                        return Err("let chain".into());
                    }
                    let c = self.ex(&i.cond)?;
                    let a = self.arm(&Expr::Block(ExprBlock { attrs: vec![], label: None, block: i.then_branch.clone() }), tail)?;
                    let b = els(self)?;
                    self.out.push(format!("if {} {} else {}", c, a, b));
                }
                Ok(if tail { Some(String::new()) } else { None })
            }
            Expr::Match(m) => {
                let s = self.scrut(&m.expr)?;
                let mut t = format!("match {} {{", s);
                for a in &m.arms {
                    if a.guard.is_some() {
                        return Err("guard".into());
                    }
                    self.scopes.push(HashMap::new());
                    let p = self.pat(&a.pat)?;
                    let b = self.arm(&a.body, tail)?;
                    self.scopes.pop();
                    t.push_str(&format!("\n{} => {}", p, b));
                }
                t.push_str("\n}");
                self.out.push(t);
                Ok(if tail { Some(String::new()) } else { None })
            }
            Expr::Block(b) => self.block(&b.block, tail),
            Expr::Continue(c) => {
                self.out.push(match &c.label {
                    Some(l) => format!("continue '{};", l.ident),
                    None => "continue;".into(),
                });
                Ok(None)
            }
            Expr::Break(c) if c.expr.is_none() => Err("break".into()),
            Expr::Return(r) => {
                let x = self.ex(r.expr.as_ref().ok_or("return")?)?;
                self.out.push(format!("return {};", x));
                Ok(Some(String::new()))
            }
            Expr::Assign(a) => {
                let l = self.place(&a.left).ok_or("assignment")?;
                let r = self.ex(&a.right)?;
                self.out.push(format!("{} = {};", l, r));
                Ok(None)
            }
            Expr::MethodCall(m) if m.args.len() == 1 && (m.method == "push" || m.method == "append" || m.method == "extend") => {
                let v = self.place(&m.receiver).ok_or("list")?;
                if m.method == "push" {
                    let x = self.ex(&m.args[0])?;
                    self.out.push(format!("{}.push({});", v, x));
                } else {
                    self.append(&v, &m.args[0])?;
                }
                Ok(None)
            }
            e if tail => Ok(Some(self.ex(e)?)),
            e => Err(format!("statement {}", ts(e).chars().take(60).collect::<String>())),
        }
    }
}

pub fn gen_fn(_w: &World, f: &FnItem, o: &Value) -> Res<Value> {
    let mode: Vec<&str> = o["self_kind"].as_str().unwrap_or("").split(' ').collect();
    let name = mode.get(2).copied().ok_or("mode")?;
    let b = f.block.as_ref().ok_or("no body")?;
    let mut qs = Quotes(vec![], vec![]);
    visit::Visit::visit_block(&mut qs, b);
    if qs.0.len() != 1 {
        return Err("one quote! is read".into());
    }
    let body = body_of(qs.0[0].clone(), name).ok_or("function in quote!")?;
    let mut vars = vec![];
    let body = unquote(body, &mut vars)?;
    vars.sort();
    vars.dedup();
    if vars.len() != 1 {
        return Err("repetition over several lists".into());
    }
    let list = vars[0].trim_start_matches("q__").to_string();
    let template = mode[1] == "template";
    let mu = name.ends_with("_mut");
    let mut q = Q {
        scopes: vec![HashMap::new()], out: vec![], loops: vec![], skel: vec![], muts: vec![], nvec: 0, n: 0,
        ups: if template { None } else { Some(list) },
        indexed: qs.1, template: if template { Some(name.into()) } else { None }, calls: vec![], labels: vec![], mu,
    };
    let (params, ret, tail) = if template {
        let blk: Block = parse2(quote!({ #body })).map_err(|e| e.to_string())?;
        let t = q.stmts(&blk.stmts, true)?;
        (json!([{"name": "s", "type": if mu { "&mut QObj" } else { "&QObj" }}, {"name": "ups", "type": "&Vec<u64>"}]), "Vec<usize>", t)
    } else {
        let t = q.stmts(&b.stmts, true)?;
        (json!([{"name": "input", "type": "&QDeriveInput"}]), "Vec<u64>", t)
    };
    let mut text = String::from("/*@START@*/\n");
    let out = q.out.join("\n");
    text.push_str(&if template { out.replace("Vec<u64> = Vec::new()", "Vec<usize> = Vec::new()") } else { out });
    match tail {
        Some(x) if !x.is_empty() => text.push_str(&format!("\nlet ret_ : {} = {};\n/*@END@*/\nret_", ret, x)),
        Some(_) => {} // every branch returns
        None => return Err("no value".into()),
    }
    Ok(json!({"status": "ok", "params": params, "ret": ret, "body": text, "loops": q.loops, "muts": q.muts, "skeleton": q.skel.join(" "),
        "calls": q.calls, "has_return": true, "has_self_mut": false}))
}
