//! vx: mechanically rewrites functions of the macro-expanded source of /repo into Verus text.
//!
//! usage: vx EXPANDED.rs CONFIG.json > OUT.json
//!
//! The input is what rustc itself expands (`-Zunpretty=expanded`), so what is
//! rewritten is the code that runs.  Nothing is guessed: a construct the
//! rewriter does not know makes the function "unsupported".  The rewriting
//! rules, i.e. everything the extraction changes or drops, are listed in
//! /verif/DESIGN.md ("What the extraction does").
mod derive;
mod gen;
mod graph;
mod mem;
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashMap};
use syn::*;

#[derive(Clone)]
pub struct FnItem {
    pub key: String,
    pub key2: String,
    pub module: String,
    pub self_ty: Option<Type>,
    pub trait_name: Option<String>,
    pub sig: Signature,
    pub block: Option<Block>,
}

#[derive(Default)]
pub struct World {
    pub fns: Vec<FnItem>,
    pub structs: HashMap<String, Vec<(String, Type)>>, // by type name
    pub consts: HashMap<String, Expr>,
    pub registrations: BTreeMap<String, (String, String)>, // "kind:name" -> (module, Type)
}

fn tstr<T: quote::ToTokens>(t: &T) -> String {
    t.to_token_stream().to_string().replace(' ', "")
}

fn tsp<T: quote::ToTokens>(t: &T) -> String {
    // a lifetime is kept apart from what follows it
    let mut o = String::new();
    for w in t.to_token_stream().to_string().split(' ') {
        o.push_str(w);
        if w.starts_with('\'') && !w.ends_with(',') && !w.ends_with('>') {
            o.push(' ');
        }
    }
    o.replace(" >", ">").replace(" ,", ",").replace(' ', "\u{1}")
}

pub fn strip_lt(s: &str) -> String {
    // drop lifetimes and their generics from a type string
    let mut out = String::new();
    let b: Vec<char> = s.chars().collect();
    let mut i = 0;
    while i < b.len() {
        if b[i] == '\'' {
            i += 1;
            while i < b.len() && (b[i].is_alphanumeric() || b[i] == '_') {
                i += 1;
            }
            if i < b.len() && b[i] == ',' {
                i += 1;
            }
        } else {
            out.push(b[i]);
            i += 1;
        }
    }
    out.replace("<>", "").replace("crate::", "")
}

fn has_test_cfg(attrs: &[Attribute]) -> bool {
    attrs.iter().any(|a| tstr(a).contains("cfg(test)"))
}

fn collect(w: &mut World, module: &str, items: &[Item]) {
    for it in items {
        match it {
            Item::Mod(m) => {
                if has_test_cfg(&m.attrs) {
                    continue;
                }
                if let Some((_, its)) = &m.content {
                    let p = if module.is_empty() {
                        m.ident.to_string()
                    } else {
                        format!("{}::{}", module, m.ident)
                    };
                    collect(w, &p, its);
                }
            }
            Item::Fn(f) => w.fns.push(FnItem {
                key2: String::new(),
                key: format!("{}::{}", module, f.sig.ident),
                module: module.into(),
                self_ty: None,
                trait_name: None,
                sig: f.sig.clone(),
                block: Some((*f.block).clone()),
            }),
            Item::Const(c) => {
                // derived implementations of serde's traits
                if c.ident == "_" {
                    if let Expr::Block(b) = &*c.expr {
                        let its: Vec<Item> = b.block.stmts.iter().filter_map(|s| if let Stmt::Item(i) = s { Some(i.clone()) } else { None }).collect();
                        collect(w, module, &its);
                    }
                    continue;
                }
                w.consts.insert(format!("{}::{}", module, c.ident), (*c.expr).clone());
            }
            Item::Struct(s) => {
                let fs = s
                    .fields
                    .iter()
                    .filter_map(|f| f.ident.as_ref().map(|i| (i.to_string(), f.ty.clone())))
                    .collect::<Vec<_>>();
                w.structs.insert(format!("{}::{}", module, s.ident), fs.clone());
                if module.starts_with("operators::") {
                    w.structs.insert(format!("O_{}", s.ident), fs);
                } else {
                    w.structs.insert(s.ident.to_string(), fs);
                }
            }
            Item::Trait(t) => {
                for ti in &t.items {
                    if let TraitItem::Fn(f) = ti {
                        if let Some(b) = &f.default {
                            w.fns.push(FnItem {
                                key2: String::new(),
                                key: format!("{}::trait {}::{}", module, t.ident, f.sig.ident),
                                module: module.into(),
                                self_ty: None,
                                trait_name: Some(t.ident.to_string()),
                                sig: f.sig.clone(),
                                block: Some(b.clone()),
                            });
                        }
                    }
                }
            }
            Item::Impl(im) => {
                let st = strip_lt(&tstr(&im.self_ty));
                let tr = im.trait_.as_ref().map(|(_, p, _)| strip_lt(&tstr(p)));
                for ii in &im.items {
                    if let ImplItem::Fn(f) = ii {
                        let key = match &tr {
                            Some(t) => {
                                let short = t.rsplit("::").next().unwrap_or(t).to_string();
                                let short = if t.contains('<') { t.clone() } else { short };
                                format!("{}::<{} as {}>::{}", module, st, short, f.sig.ident)
                            }
                            None => format!("{}::{}::{}", module, st, f.sig.ident),
                        };
                        // the same with types behind `&'a T` written out
                        let key2 = match &im.trait_ {
                            Some((_, p, _)) => format!("{}::<{} as {}>::{}", module, strip_lt(&tsp(&im.self_ty)), strip_lt(&tsp(p)), f.sig.ident),
                            None => key.clone(),
                        };
                        w.fns.push(FnItem {
                            key2,
                            key,
                            module: module.into(),
                            self_ty: Some((*im.self_ty).clone()),
                            trait_name: tr.clone(),
                            sig: f.sig.clone(),
                            block: Some(f.block.clone()),
                        });
                    }
                }
            }
            _ => {}
        }
    }
}

/// `dev.register_XX_impl("name", path::Type::new())` calls, wherever they are.
struct RegVisitor<'a> {
    w: &'a mut BTreeMap<String, (String, String)>,
}
impl<'ast, 'a> visit::Visit<'ast> for RegVisitor<'a> {
    fn visit_expr_method_call(&mut self, m: &'ast ExprMethodCall) {
        let n = m.method.to_string();
        if n.starts_with("register_") && n.ends_with("_impl") && m.args.len() == 2 {
            if let (Expr::Lit(ExprLit { lit: Lit::Str(s), .. }), Expr::Call(c)) =
                (&m.args[0], &m.args[1])
            {
                if let Expr::Path(p) = &*c.func {
                    let segs: Vec<String> =
                        p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                    if segs.len() >= 3 {
                        let kind = n.trim_start_matches("register_").to_string();
                        self.w.insert(
                            format!("{}:{}", kind, s.value()),
                            (segs[segs.len() - 3].clone(), segs[segs.len() - 2].clone()),
                        );
                    }
                }
            }
        }
        visit::visit_expr_method_call(self, m);
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let cfg: Value = serde_json::from_str(&std::fs::read_to_string(&args[1]).unwrap()).unwrap();
    let mut w = World::default();
    for f in &args[2..] {
        let src = std::fs::read_to_string(f).unwrap();
        // the expanded text of `#[automatically_derived]` items etc. is plain Rust
        let file = match syn::parse_file(&src) {
            Ok(f) => f,
            Err(e) => {
                eprintln!("cannot parse {}: {}", f, e);
                std::process::exit(3);
            }
        };
        collect(&mut w, "", &file.items);
        let mut regs = BTreeMap::new();
        visit::Visit::visit_file(&mut RegVisitor { w: &mut regs }, &file);
        w.registrations.extend(regs);
    }
    if cfg.get("list").is_some() {
        for f in &w.fns {
            println!("{}  {}", f.key, f.key2.replace('\u{1}', ""));
        }
        return;
    }
    let mut out = serde_json::Map::new();
    let wanted = cfg["functions"].as_object().unwrap();
    for (key, opts) in wanted {
        let real = key.strip_prefix("mem|").unwrap_or(key);
        // one function may be read in more than one way
        let real = real.split('#').next().unwrap();
        let found: Vec<&FnItem> = w.fns.iter().filter(|f| f.key == real || f.key2.replace('\u{1}', "") == real).collect();
        let r = if found.len() != 1 {
            json!({"status": "missing", "reason": format!("{} functions with this key", found.len())})
        } else {
            let heap = opts["self_kind"].as_str().map_or(false, |k| k.starts_with("heap"));
            let quoted = opts["self_kind"].as_str().map_or(false, |k| k.starts_with("quote "));
            match if quoted { derive::gen_fn(&w, found[0], opts) } else if key.starts_with("mem|") && opts["self_kind"] == "mem derive" { mem::gen_derive(&w, found[0], opts, &cfg) } else if key.starts_with("mem|") { mem::gen_fn(&w, found[0], opts, &cfg) } else if heap { graph::gen_fn(&w, found[0], opts, &cfg) } else { gen::gen_fn(&w, found[0], opts, &cfg) } {
                Ok(v) => v,
                Err(e) => json!({"status": "unsupported", "reason": e}),
            }
        };
        out.insert(key.clone(), r);
    }
    let structs: serde_json::Map<String, Value> = w
        .structs
        .iter()
        .map(|(k, v)| (k.clone(), json!(v.iter().map(|(n, t)| json!([n, tstr(t)])).collect::<Vec<_>>())))
        .collect();
    let regs: serde_json::Map<String, Value> =
        w.registrations.iter().map(|(k, v)| (k.clone(), json!([v.0, v.1]))).collect();
    let keys: Vec<Value> = w.fns.iter().map(|f| json!(f.key)).collect();
    println!("{}", json!({"functions": out, "registrations": regs, "all_keys": keys, "structs": structs}));
}
