//! rs2v: mechanical extraction of real functions from /repo/src into text a Verus unit can contain.
//! Input (stdin): JSON {root, items:[{id, file, path, kind, types, strip_args, drop_variants, methods, wrap_tail}]}
//! Output: JSON {id: {ok, text.., meta..}}.  Every rewrite below is syntax directed; nothing is looked
//! up by content, and nothing is added except marker macros `__vm!("...")`, which the driver replaces
//! by ghost text (invariants, assertions) or deletes.
use proc_macro2::{Span, TokenStream};
use quote::{format_ident, quote, ToTokens};
use serde_json::{json, Map, Value};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::io::Read;
use syn::visit_mut::{self, VisitMut};
use syn::*;

#[derive(Default, Clone)]
struct Cfg {
    types: HashMap<String, String>,   // T -> R, f64 -> R
    strip_args: BTreeSet<String>,     // paths whose type arguments are removed
    drop_variants: BTreeSet<String>,  // enum variants (and their match arms) that are dropped
    methods: HashMap<String, String>, // method name -> free function name
    calls: HashMap<String, String>,   // fn path text -> fn path text
    wrap_tail: bool,
    ref_iter: BTreeSet<String>,       // slices: by-value iteration hands out references
    opts: BTreeSet<String>,           // columns: by-value iteration hands out options
    own_iter: bool,                   // by-value iteration hands out owned elements: vx_own(&v[i])
    int_range_ty: String,
}

struct Tr {
    cfg: Cfg,
    loops: usize,
    closures: usize,
    lits: BTreeMap<String, String>, // fn name -> literal text
    callees: BTreeSet<String>,
    lets: Vec<String>,
    let_n: HashMap<String, usize>,
    set_n: HashMap<String, usize>,
    call_n: HashMap<String, usize>,
    drops: BTreeSet<String>,
    tmp: usize,
    in_chain: Vec<BTreeSet<String>>,
}

fn marker(s: &str) -> Stmt {
    parse_quote!(__vm!(#s);)
}
fn is_marker(s: &Stmt, pre: &str) -> bool {
    if let Stmt::Macro(m) = s {
        if m.mac.path.is_ident("__vm") {
            return m.mac.tokens.to_string().trim_matches('"').starts_with(pre);
        }
    }
    false
}

/// An indexable source of items, `len` many, the i-th obtained by `elem(i)`, then piped through ops.
#[derive(Clone)]
struct Stream {
    pre: Vec<Stmt>,
    len: Expr,
    elem: Elem,
    ops: Vec<Op>,
}
#[derive(Clone)]
enum Elem {
    Idx(Expr),                 // base[i]
    RefIdx(Expr),              // &base[i]
    Add(Expr),                 // a + i
    Id,                        // i
    Window(Expr, Expr),        // subslice(base, i, i+k)
    Chunk(Expr, Expr),         // subslice(base, i*k, i*k+k)
    Shift(Box<Elem>, Expr),    // elem(i + n)
    Step(Box<Elem>, Expr),     // elem(i * n)
    Rev(Box<Elem>, Expr),      // elem(len - 1 - i)
    Enum(Box<Elem>),           // (i, elem(i))
    Zip(Box<Elem>, Box<Elem>), // (a(i), b(i))
    Copied(Box<Elem>),
    Once(Expr),                // the one item
    Chain(Box<Elem>, Expr, Box<Elem>), // i < n1 ? a(i) : b(i-n1)
}
#[derive(Clone)]
enum Op {
    Map(Pat, Expr),
    Filter(Pat, Expr),
}

fn strip_paren(e: &Expr) -> &Expr {
    match e {
        Expr::Paren(p) => strip_paren(&p.expr),
        Expr::Group(g) => strip_paren(&g.expr),
        _ => e,
    }
}
fn is_place(e: &Expr) -> bool {
    match strip_paren(e) {
        Expr::Path(_) => true,
        Expr::Field(f) => is_place(&f.base),
        _ => false,
    }
}
fn lit_is(e: &Expr, v: &str) -> bool {
    if let Expr::Lit(ExprLit { lit: Lit::Int(i), .. }) = strip_paren(e) {
        return i.base10_digits() == v;
    }
    false
}

impl Tr {
    fn fresh(&mut self, p: &str) -> Ident {
        self.tmp += 1;
        format_ident!("__{}{}", p, self.tmp)
    }
    fn bind(&mut self, pre: &mut Vec<Stmt>, e: Expr, p: &str) -> Expr {
        if is_place(&e) || matches!(strip_paren(&e), Expr::Lit(_)) {
            e
        } else {
            let id = self.fresh(p);
            pre.push(parse_quote!(let #id = #e;));
            parse_quote!(#id)
        }
    }
    fn elem_at(&self, el: &Elem, i: &Expr) -> Expr {
        match el {
            Elem::Idx(b) if self.cfg.own_iter => parse_quote!(vx_own(&#b[#i])),
            Elem::Idx(b) => parse_quote!(#b[#i]),
            Elem::RefIdx(b) => parse_quote!(&#b[#i]),
            Elem::Add(a) => parse_quote!((#a + #i)),
            Elem::Id => i.clone(),
            Elem::Window(b, k) => parse_quote!(vx_subslice(&#b, #i, #i + #k)),
            Elem::Chunk(b, k) => parse_quote!(vx_subslice(&#b, #i * #k, #i * #k + #k)),
            Elem::Shift(e, n) => self.elem_at(e, &parse_quote!((#i + #n))),
            Elem::Step(e, n) => self.elem_at(e, &parse_quote!((#i * #n))),
            Elem::Rev(e, n) => self.elem_at(e, &parse_quote!((#n - 1 - #i))),
            Elem::Enum(e) => {
                let x = self.elem_at(e, i);
                parse_quote!((#i, #x))
            }
            Elem::Once(e) => e.clone(),
            Elem::Zip(a, b) => {
                let x = self.elem_at(a, i);
                let y = self.elem_at(b, i);
                parse_quote!((#x, #y))
            }
            Elem::Copied(e) => match self.elem_at(e, i) {
                Expr::Reference(r) => *r.expr,
                o => parse_quote!(*#o),
            },
            Elem::Chain(a, n, b) => {
                let x = self.elem_at(a, i);
                let y = self.elem_at(b, &parse_quote!((#i - #n)));
                parse_quote!(if #i < #n { #x } else { #y })
            }
        }
    }
    /// `implicit`: expr is used directly as IntoIterator
    fn stream(&mut self, e: &Expr, implicit: bool) -> Option<Stream> {
        match strip_paren(e) {
            Expr::Range(r) => {
                let a = r.start.as_deref()?.clone();
                let b = r.end.as_deref()?.clone();
                let incl = matches!(r.limits, RangeLimits::Closed(_));
                let mut pre = vec![];
                let b = self.bind(&mut pre, b, "b");
                let b: Expr = if incl { parse_quote!((#b + 1)) } else { b };
                if lit_is(&a, "0") {
                    return Some(Stream { pre, len: b, elem: Elem::Id, ops: vec![] });
                }
                let a = self.bind(&mut pre, a, "a");
                Some(Stream {
                    pre,
                    len: parse_quote!((if #a < #b { #b - #a } else { 0 })),
                    elem: Elem::Add(a),
                    ops: vec![],
                })
            }
            Expr::MethodCall(m) if !m.method.to_string().starts_with("vx_") => {
                let name = m.method.to_string();
                let arg = |i: usize| m.args.iter().nth(i).cloned();
                match name.as_str() {
                    "iter" if m.args.is_empty() => {
                        let mut pre = vec![];
                        let b = if is_place(&m.receiver) {
                            (*m.receiver).clone()
                        } else {
                            let r = &m.receiver;
                            let id = self.fresh("s");
                            let ranged = matches!(strip_paren(r), Expr::Index(ix) if matches!(strip_paren(&ix.index), Expr::Range(_)));
                            if ranged {
                                pre.push(parse_quote!(let #id = &#r;));
                            } else {
                                pre.push(parse_quote!(let #id = #r;));
                            }
                            parse_quote!(#id)
                        };
                        let len = parse_quote!(#b.len());
                        Some(Stream { pre, len, elem: Elem::RefIdx(b), ops: vec![] })
                    }
                    "into_iter" | "into_no_null_iter" => self.stream(&m.receiver, true),
                    // every choice of k items of a column, in order
                    "combinations" if m.args.len() == 1 => {
                        let src = match strip_paren(&m.receiver) {
                            Expr::MethodCall(c) if matches!(c.method.to_string().as_str(), "into_no_null_iter" | "into_iter" | "iter") => (*c.receiver).clone(),
                            _ => return None,
                        };
                        let k = arg(0)?;
                        let id = self.fresh("s");
                        let b: Expr = parse_quote!(#id);
                        Some(Stream { pre: vec![parse_quote!(let #id = vx_combs(#src, #k);)], len: parse_quote!(#b.len()), elem: Elem::Idx(b), ops: vec![] })
                    }
                    "copied" | "cloned" if m.args.is_empty() => {
                        let mut s = self.stream(&m.receiver, false)?;
                        if !s.ops.is_empty() {
                            return None;
                        }
                        s.elem = Elem::Copied(Box::new(s.elem));
                        Some(s)
                    }
                    "windows" | "chunks_exact" => {
                        let mut pre = vec![];
                        let b = self.bind(&mut pre, (*m.receiver).clone(), "s");
                        let k = self.bind(&mut pre, arg(0)?, "k");
                        let (len, elem): (Expr, Elem) = if name == "windows" {
                            (
                                parse_quote!((if #b.len() >= #k { #b.len() - #k + 1 } else { 0 })),
                                Elem::Window(b, k),
                            )
                        } else {
                            (parse_quote!((#b.len() / #k)), Elem::Chunk(b, k))
                        };
                        Some(Stream { pre, len, elem, ops: vec![] })
                    }
                    "enumerate" | "rev" | "skip" | "take" | "step_by" => {
                        let mut s = self.stream(&m.receiver, false)?;
                        if s.ops.iter().any(|o| matches!(o, Op::Filter(..))) || !s.ops.is_empty() {
                            return None;
                        }
                        match name.as_str() {
                            "enumerate" => s.elem = Elem::Enum(Box::new(s.elem)),
                            "rev" => {
                                let l = s.len.clone();
                                let l = {
                                    let id = self.fresh("n");
                                    s.pre.push(parse_quote!(let #id = #l;));
                                    let e: Expr = parse_quote!(#id);
                                    e
                                };
                                s.len = l.clone();
                                s.elem = Elem::Rev(Box::new(s.elem), l);
                            }
                            "skip" => {
                                let n = self.bind(&mut s.pre, arg(0)?, "k");
                                let l = s.len.clone();
                                s.len = parse_quote!((if #l > #n { #l - #n } else { 0 }));
                                s.elem = Elem::Shift(Box::new(s.elem), n);
                            }
                            "step_by" => {
                                let n = self.bind(&mut s.pre, arg(0)?, "k");
                                let l = s.len.clone();
                                s.len = parse_quote!((if #l == 0 { 0 } else { (#l - 1) / #n + 1 }));
                                s.elem = Elem::Step(Box::new(s.elem), n);
                            }
                            _ => {
                                let n = self.bind(&mut s.pre, arg(0)?, "k");
                                let l = s.len.clone();
                                s.len = parse_quote!((if #l < #n { #l } else { #n }));
                            }
                        }
                        Some(s)
                    }
                    "zip" | "chain" => {
                        let a = self.stream(&m.receiver, false)?;
                        let b = self.stream(&arg(0)?, true)?;
                        if !a.ops.is_empty() || !b.ops.is_empty() {
                            return None;
                        }
                        let mut pre = a.pre;
                        pre.extend(b.pre);
                        let (la, lb) = (a.len, b.len);
                        if name == "zip" {
                            Some(Stream {
                                pre,
                                len: parse_quote!((if #la < #lb { #la } else { #lb })),
                                elem: Elem::Zip(Box::new(a.elem), Box::new(b.elem)),
                                ops: vec![],
                            })
                        } else {
                            let n = self.fresh("n");
                            pre.push(parse_quote!(let #n = #la;));
                            Some(Stream {
                                pre,
                                len: parse_quote!((#n + #lb)),
                                elem: Elem::Chain(Box::new(a.elem), parse_quote!(#n), Box::new(b.elem)),
                                ops: vec![],
                            })
                        }
                    }
                    "map" | "filter" => {
                        let mut s = self.stream(&m.receiver, false)?;
                        if let Some(Expr::Closure(c)) = arg(0) {
                            if c.inputs.len() != 1 {
                                return None;
                            }
                            let p = c.inputs[0].clone();
                            let b = (*c.body).clone();
                            if early_exit(&b) {
                                self.drops.insert("unsupported: a closure with an early return".into());
                                return None;
                            }
                            s.ops.push(if name == "map" { Op::Map(p, b) } else { Op::Filter(p, b) });
                            Some(s)
                        } else {
                            None
                        }
                    }
                    _ => None,
                }
            }
            Expr::Call(c) if c.args.len() == 1 && c.func.to_token_stream().to_string().replace(' ', "").ends_with("iter::once") => {
                let mut pre = vec![];
                let a = c.args.first().unwrap().clone();
                let id = self.fresh("o");
                pre.push(parse_quote!(let #id = #a;));
                Some(Stream { pre, len: parse_quote!(1), elem: Elem::Once(parse_quote!(#id)), ops: vec![] })
            }
            Expr::Reference(r) if implicit => {
                let mut pre = vec![];
                let b = self.bind(&mut pre, (*r.expr).clone(), "s");
                let len = parse_quote!(#b.len());
                Some(Stream { pre, len, elem: Elem::RefIdx(b), ops: vec![] })
            }
            Expr::MethodCall(c) if implicit && (c.method == "vx_opts" || c.method == "vx_present" || c.method == "vx_arrays" || c.method == "vx_bools") => {
                let id = self.fresh("s");
                let x: Expr = Expr::MethodCall(c.clone());
                if c.method == "vx_arrays" {
                    return Some(Stream { pre: vec![parse_quote!(let #id = #x;)], len: parse_quote!(#id.len()), elem: Elem::RefIdx(parse_quote!(#id)), ops: vec![] });
                }
                Some(Stream { pre: vec![parse_quote!(let #id = #x;)], len: parse_quote!(#id.len()), elem: Elem::Idx(parse_quote!(#id)), ops: vec![] })
            }
            x if implicit && is_place(x) => {
                let b = x.clone();
                let len = parse_quote!(#b.len());
                if base_ident(&b).map(|n| self.cfg.ref_iter.contains(&n)).unwrap_or(false) {
                    return Some(Stream { pre: vec![], len, elem: Elem::RefIdx(b), ops: vec![] });
                }
                Some(Stream { pre: vec![], len, elem: Elem::Idx(b), ops: vec![] })
            }
            _ => None,
        }
    }
    /// binds the parts of an item one by one, or all at once where one of the names hides what another part reads
    fn bind_pat(&mut self, pat: &Pat, e: Expr, out: &mut Vec<Stmt>) {
        let mut ss: Vec<Stmt> = vec![];
        self.bind_parts(pat, e, &mut ss);
        let mut clash = false;
        for i in 0..ss.len() {
            if let Stmt::Local(l) = &ss[i] {
                let mut ids = vec![];
                collect_pat(&l.pat, &mut ids);
                for later in &ss[i + 1..] {
                    if let Stmt::Local(Local { init: Some(x), .. }) = later {
                        let t = format!(" {} ", norm(&toks(&x.expr)));
                        clash |= ids.iter().any(|n| t.contains(&format!(" {} ", n)));
                    }
                }
            }
        }
        if clash {
            let (mut ps, mut es): (Vec<Pat>, Vec<Expr>) = (vec![], vec![]);
            for st in ss {
                if let Stmt::Local(Local { pat, init: Some(x), .. }) = st {
                    ps.push(pat);
                    es.push(*x.expr);
                }
            }
            out.push(parse_quote!(let (#(#ps),*) = (#(#es),*);));
        } else {
            out.extend(ss);
        }
    }
    fn bind_parts(&mut self, pat: &Pat, e: Expr, out: &mut Vec<Stmt>) {
        match pat {
            Pat::Type(t) => self.bind_parts(&t.pat, e, out),
            Pat::Paren(t) => self.bind_parts(&t.pat, e, out),
            Pat::Wild(_) => {}
            Pat::Reference(r) => match strip_paren(&e) {
                Expr::Reference(x) => self.bind_parts(&r.pat, (*x.expr).clone(), out),
                o => {
                    let o = o.clone();
                    self.bind_parts(&r.pat, parse_quote!(*#o), out)
                }
            },
            Pat::Tuple(t) => match strip_paren(&e) {
                Expr::Tuple(x) if x.elems.len() == t.elems.len() => {
                    for (p, y) in t.elems.iter().zip(x.elems.iter()) {
                        self.bind_parts(p, y.clone(), out);
                    }
                }
                _ => out.push(parse_quote!(let #pat = #e;)),
            },
            _ => out.push(parse_quote!(let #pat = #e;)),
        }
    }
    /// statements that bind the item of `s` at index `i` to `pat`; guard conditions wrap `body`
    fn item(&mut self, s: &Stream, i: &Expr, pat: Option<&Pat>, tail: Vec<Stmt>, item_id: &Ident) -> Vec<Stmt> {
        let mut out: Vec<Stmt> = vec![];
        let mut cur = self.elem_at(&s.elem, i);
        let mut k = 0;
        for op in s.ops.clone() {
            match op {
                Op::Map(p, b) => {
                    let mut ss = vec![];
                    self.bind_pat(&p, cur, &mut ss);
                    out.extend(ss);
                    let id = format_ident!("{}_{}", item_id, k);
                    k += 1;
                    out.push(parse_quote!(let #id = #b;));
                    cur = parse_quote!(#id);
                }
                Op::Filter(p, b) => {
                    let id = format_ident!("{}_{}", item_id, k);
                    k += 1;
                    out.push(parse_quote!(let #id = #cur;));
                    // filter closures take a reference to the item
                    let mut ss = vec![];
                    self.bind_pat(&p, parse_quote!(&#id), &mut ss);
                    let rest_ops = s.ops[k..].to_vec();
                    let rs = Stream { pre: vec![], len: s.len.clone(), elem: Elem::Idx(parse_quote!(x)), ops: rest_ops };
                    let inner = self.item_from(&rs, parse_quote!(#id), pat, tail.clone(), item_id, k);
                    out.push(parse_quote!({ #(#ss)* if #b { #(#inner)* } }));
                    return out;
                }
            }
        }
        if let Some(p) = pat {
            self.bind_pat(p, cur, &mut out);
        }
        out.extend(tail);
        out
    }
    fn item_from(&mut self, s: &Stream, cur0: Expr, pat: Option<&Pat>, tail: Vec<Stmt>, item_id: &Ident, k0: usize) -> Vec<Stmt> {
        let mut out: Vec<Stmt> = vec![];
        let mut cur = cur0;
        let mut k = k0;
        for (n, op) in s.ops.clone().into_iter().enumerate() {
            match op {
                Op::Map(p, b) => {
                    self.bind_pat(&p, cur, &mut out);
                    let id = format_ident!("{}_{}", item_id, k);
                    k += 1;
                    out.push(parse_quote!(let #id = #b;));
                    cur = parse_quote!(#id);
                }
                Op::Filter(p, b) => {
                    let id = format_ident!("{}_{}", item_id, k);
                    k += 1;
                    out.push(parse_quote!(let #id = #cur;));
                    let mut ss = vec![];
                    self.bind_pat(&p, parse_quote!(&#id), &mut ss);
                    let rs = Stream { pre: vec![], len: s.len.clone(), elem: Elem::Id, ops: s.ops[n + 1..].to_vec() };
                    let inner = self.item_from(&rs, parse_quote!(#id), pat, tail.clone(), item_id, k);
                    out.push(parse_quote!({ #(#ss)* if #b { #(#inner)* } }));
                    return out;
                }
            }
        }
        if let Some(p) = pat {
            self.bind_pat(p, cur, &mut out);
        }
        out.extend(tail);
        out
    }
    /// while-loop over a stream. returns statements (pre, loop) using the loop ordinal for its names
    fn stream_loop(&mut self, s: &Stream, pat: Option<&Pat>, body: Vec<Stmt>, label: Option<Label>) -> Vec<Stmt> {
        let k = self.loops;
        self.loops += 1;
        let i = format_ident!("__i{}", k);
        let ip = format_ident!("__p{}", k);
        let n = format_ident!("__n{}", k);
        let it = format_ident!("__x{}", k);
        let (mi, mpre, mpost, mb, me) = (
            marker(&format!("loop{}.inv", k)),
            marker(&format!("loop{}.pre", k)),
            marker(&format!("loop{}.post", k)),
            marker(&format!("loop{}.start", k)),
            marker(&format!("loop{}.end", k)),
        );
        let len = &s.len;
        let mut tail = body;
        tail.push(me);
        let ie: Expr = parse_quote!(#ip);
        let inner = self.item(s, &ie, pat, tail, &it);
        let pre = &s.pre;
        let ity: Type = if self.cfg.int_range_ty.is_empty() { parse_quote!(usize) } else { parse_str(&self.cfg.int_range_ty).unwrap() };
        let stmts: Block = parse_quote!({
            #(#pre)*
            let #n: #ity = #len;
            let mut #i: #ity = 0;
            #mpre
            #label while #i < #n {
                #mi
                #mb
                let #ip = #i;
                #i = #i + 1;
                #(#inner)*
            }
            #mpost
        });
        stmts.stmts
    }
    fn terminal(&mut self, m: &ExprMethodCall) -> Option<Expr> {
        let name = m.method.to_string();
        if !["fold", "sum", "count", "collect", "collect_vec", "all", "any", "for_each", "unzip", "collect_into_vec"].contains(&name.as_str()) {
            return None;
        }
        let save = (self.tmp, self.loops);
        let s = match self.stream(&m.receiver, false) {
            Some(s) => s,
            None => {
                self.tmp = save.0;
                self.loops = save.1;
                return None;
            }
        };
        let k = self.loops;
        let acc = format_ident!("__acc{}", k);
        let v = format_ident!("__v{}", k);
        let vpat: Pat = parse_quote!(#v);
        match name.as_str() {
            "fold" => {
                let init = m.args.iter().next()?.clone();
                if let Some(Expr::Closure(c)) = m.args.iter().nth(1) {
                    if c.inputs.len() != 2 || early_exit(&c.body) {
                        return None;
                    }
                    let ap = c.inputs[0].clone();
                    let xp = c.inputs[1].clone();
                    let mut b: Vec<Stmt> = vec![];
                    let e = &c.body;
                    let mut ab: Vec<Stmt> = vec![];
                    // accumulator pattern: mutable accumulators keep `mut`
                    ab.push(parse_quote!(let #ap = #acc;));
                    b.push(parse_quote!(#acc = { #(#ab)* #e };));
                    let l = self.stream_loop(&s, Some(&xp), b, None);
                    return Some(parse_quote!({ let mut #acc = #init; #(#l)* #acc }));
                }
                None
            }
            "sum" => {
                let ty: Option<Type> = m.turbofish.as_ref().and_then(|t| t.args.first()).and_then(|a| if let GenericArgument::Type(t) = a { Some(t.clone()) } else { None });
                let init: Expr = match ty {
                    Some(t) => {
                        let ts = t.to_token_stream().to_string();
                        if self.cfg.types.get(&ts).map(|x| x == "R").unwrap_or(false) {
                            parse_quote!(R::zero())
                        } else {
                            parse_str(&format!("0{}", ts)).ok()?
                        }
                    }
                    None => parse_quote!(vx_zero()),
                };
                let l = self.stream_loop(&s, Some(&vpat), vec![parse_quote!(#acc = #acc + #v;)], None);
                Some(parse_quote!({ let mut #acc = #init; #(#l)* #acc }))
            }
            "count" => {
                let l = self.stream_loop(&s, Some(&vpat), vec![parse_quote!(#acc = #acc + 1;)], None);
                Some(parse_quote!({ let mut #acc: usize = 0; #(#l)* #acc }))
            }
            "collect" | "collect_vec" => {
                let l = self.stream_loop(&s, Some(&vpat), vec![parse_quote!(#acc.push(#v);)], None);
                Some(parse_quote!({ let mut #acc = Vec::new(); #(#l)* #acc }))
            }
            "collect_into_vec" => {
                let tgt = match m.args.first().map(strip_paren) {
                    Some(Expr::Reference(r)) => (*r.expr).clone(),
                    _ => return None,
                };
                let l = self.stream_loop(&s, Some(&vpat), vec![parse_quote!(#acc.push(#v);)], None);
                Some(parse_quote!(#tgt = { let mut #acc = Vec::new(); #(#l)* #acc }))
            }
            "for_each" => {
                if let Some(Expr::Closure(c)) = m.args.iter().next() {
                    if early_exit(&c.body) {
                        return None;
                    }
                    let xp = c.inputs[0].clone();
                    let e = &c.body;
                    let l = self.stream_loop(&s, Some(&xp), vec![parse_quote!(#e;)], None);
                    return Some(parse_quote!({ #(#l)* }));
                }
                None
            }
            "all" | "any" => {
                if let Some(Expr::Closure(c)) = m.args.iter().next() {
                    if early_exit(&c.body) {
                        return None;
                    }
                    let xp = c.inputs[0].clone();
                    let e = &c.body;
                    let (init, upd): (Expr, Stmt) = if name == "all" {
                        (parse_quote!(true), parse_quote!(if !(#e) { #acc = false; }))
                    } else {
                        (parse_quote!(false), parse_quote!(if #e { #acc = true; }))
                    };
                    let l = self.stream_loop(&s, Some(&xp), vec![upd], None);
                    return Some(parse_quote!({ let mut #acc = #init; #(#l)* #acc }));
                }
                None
            }
            _ => None,
        }
    }
    fn lit_fn(&mut self, txt: &str) -> Expr {
        let t = txt.replace('_', "");
        let name = format!(
            "__rl_{}",
            t.replace('.', "p").replace('-', "m").replace('+', "").replace('e', "e").replace('E', "e")
        );
        self.lits.insert(name.clone(), t);
        let id = format_ident!("{}", name);
        parse_quote!(#id())
    }
    fn is_float_ty(&self, t: &Type) -> bool {
        let s = t.to_token_stream().to_string();
        self.cfg.types.get(&s).map(|x| x == "R").unwrap_or(false)
    }
}

/// `return` or `?` that would leave the closure `e` is the body of
fn early_exit(e: &Expr) -> bool {
    struct F(bool);
    impl<'a> syn::visit::Visit<'a> for F {
        fn visit_expr(&mut self, e: &'a Expr) {
            match e {
                Expr::Closure(_) => {}
                Expr::Return(_) | Expr::Try(_) => self.0 = true,
                _ => syn::visit::visit_expr(self, e),
            }
        }
    }
    let mut f = F(false);
    syn::visit::Visit::visit_expr(&mut f, e);
    f.0
}

fn base_ident(e: &Expr) -> Option<String> {
    match strip_paren(e) {
        Expr::Path(p) => p.path.get_ident().map(|i| i.to_string()),
        Expr::Field(f) => match &f.member {
            Member::Named(n) => Some(n.to_string()),
            _ => base_ident(&f.base),
        },
        Expr::Index(i) => base_ident(&i.expr),
        Expr::Unary(u) => base_ident(&u.expr),
        _ => None,
    }
}

impl VisitMut for Tr {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let old = std::mem::take(&mut b.stmts);
        for mut st in old {
            // drop attributes on statements, nested items (`use`), and debug macros
            if let Stmt::Item(Item::Use(_)) = &st {
                continue;
            }
            if let Stmt::Macro(m) = &st {
                let p = m.mac.path.to_token_stream().to_string();
                if p == "println" || p == "eprintln" || p == "debug_assert" || p == "print" {
                    self.drops.insert(format!("statement macro {}!", p));
                    continue;
                }
            }
            self.visit_stmt_mut(&mut st);
            let mut after: Vec<Stmt> = vec![];
            match &st {
                Stmt::Local(l) => {
                    let mut ids = vec![];
                    collect_pat(&l.pat, &mut ids);
                    for id in ids {
                        self.lets.push(id.clone());
                        let n = self.let_n.entry(id.clone()).or_insert(0);
                        after.push(marker(&format!("let.{}.{}", id, n)));
                        *n += 1;
                    }
                }
                Stmt::Expr(e, Some(_)) => match strip_paren(e) {
                    Expr::Assign(a) => {
                        if let Some(id) = base_ident(&a.left) {
                            let n = self.set_n.entry(id.clone()).or_insert(0);
                            after.push(marker(&format!("set.{}.{}", id, n)));
                            *n += 1;
                        }
                    }
                    Expr::MethodCall(m) => {
                        let id = m.method.to_string();
                        let n = self.call_n.entry(id.clone()).or_insert(0);
                        b.stmts.push(marker(&format!("before.{}.{}", id, n)));
                        after.push(marker(&format!("call.{}.{}", id, n)));
                        *n += 1;
                    }
                    Expr::Call(m) => {
                        let id = m.func.to_token_stream().to_string().replace(' ', "");
                        let n = self.call_n.entry(id.clone()).or_insert(0);
                        b.stmts.push(marker(&format!("before.{}.{}", id, n)));
                        after.push(marker(&format!("call.{}.{}", id, n)));
                        *n += 1;
                    }
                    Expr::Return(_) => {
                        let n = self.call_n.entry("return".into()).or_insert(0);
                        b.stmts.push(marker(&format!("before.return.{}", n)));
                        *n += 1;
                    }
                    _ => {}
                },
                _ => {}
            }
            b.stmts.push(st);
            b.stmts.extend(after);
        }
    }
    fn visit_local_mut(&mut self, l: &mut Local) {
        l.attrs.clear();
        visit_mut::visit_local_mut(self, l);
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        // loops and iterator chains first (they restructure their children)
        match e {
            Expr::ForLoop(f) => {
                let save = (self.tmp, self.loops);
                if let Some(s) = self.stream(&f.expr.clone(), true) {
                    let body = f.body.stmts.clone();
                    let pat = (*f.pat).clone();
                    let ss = self.stream_loop(&s, Some(&pat), body, f.label.clone());
                    *e = parse_quote!({ #(#ss)* });
                } else {
                    self.tmp = save.0;
                    self.loops = save.1;
                    self.drops.insert(format!("unsupported for-loop source: {}", f.expr.to_token_stream()));
                }
            }
            Expr::While(w) => {
                let numbered = w.body.stmts.first().map(|s| is_marker(s, "loop")).unwrap_or(false);
                if !numbered {
                    let k = self.loops;
                    self.loops += 1;
                    let (mi, mpre, mpost, mb, me) = (
                        marker(&format!("loop{}.inv", k)),
                        marker(&format!("loop{}.pre", k)),
                        marker(&format!("loop{}.post", k)),
                        marker(&format!("loop{}.start", k)),
                        marker(&format!("loop{}.end", k)),
                    );
                    let body = &w.body.stmts;
                    let label = &w.label;
                    if let Expr::Let(l) = &*w.cond {
                        let (p, x) = (&l.pat, &l.expr);
                        *e = parse_quote!({ #mpre #label loop { #mi #mb if let #p = #x { #(#body)* #me } else { break; } } #mpost });
                    } else {
                        let c = &w.cond;
                        *e = parse_quote!({ #mpre #label while #c { #mi #mb #(#body)* #me } #mpost });
                    }
                }
            }
            Expr::Loop(w) => {
                let numbered = w.body.stmts.first().map(|s| is_marker(s, "loop")).unwrap_or(false);
                if !numbered {
                    let k = self.loops;
                    self.loops += 1;
                    w.body.stmts.insert(0, marker(&format!("loop{}.inv", k)));
                    w.body.stmts.insert(1, marker(&format!("loop{}.start", k)));
                }
            }
            Expr::MethodCall(m) => {
                if let Some(x) = self.terminal(&m.clone()) {
                    *e = x;
                }
            }
            _ => {}
        }
        visit_mut::visit_expr_mut(self, e);
        // local rewrites, bottom up
        match e {
            Expr::Lit(ExprLit { lit, .. }) => {
                let t = match lit {
                    Lit::Float(f) => Some(f.base10_digits().to_string()),
                    Lit::Int(i) if i.suffix() == "f64" || i.suffix() == "f32" => Some(i.base10_digits().to_string()),
                    _ => None,
                };
                if let Some(t) = t {
                    if self.cfg.types.contains_key("f64") {
                        *e = self.lit_fn(&t);
                    }
                }
            }
            Expr::Cast(c) => {
                let t0 = c.ty.to_token_stream().to_string();
                if t0 == "R" || self.is_float_ty(&c.ty) {
                    let x = &c.expr;
                    *e = parse_quote!(vx_to_r(#x));
                }
            }
            Expr::Binary(b) => {
                let op: Option<BinOp> = match b.op {
                    BinOp::AddAssign(_) => Some(parse_quote!(+)),
                    BinOp::SubAssign(_) => Some(parse_quote!(-)),
                    BinOp::MulAssign(_) => Some(parse_quote!(*)),
                    BinOp::DivAssign(_) => Some(parse_quote!(/)),
                    BinOp::RemAssign(_) => Some(parse_quote!(%)),
                    BinOp::ShlAssign(_) => Some(parse_quote!(<<)),
                    BinOp::ShrAssign(_) => Some(parse_quote!(>>)),
                    BinOp::BitAndAssign(_) => Some(parse_quote!(&)),
                    BinOp::BitOrAssign(_) => Some(parse_quote!(|)),
                    _ => None,
                };
                if let Some(op) = op {
                    let (l, r) = (&b.left, &b.right);
                    let rr: Expr = match strip_paren(r) {
                        Expr::Path(_) | Expr::Lit(_) | Expr::Index(_) | Expr::Call(_) | Expr::MethodCall(_) | Expr::Field(_) => (**r).clone(),
                        _ => parse_quote!((#r)),
                    };
                    *e = Expr::Assign(ExprAssign { attrs: vec![], left: l.clone(), eq_token: Default::default(), right: Box::new(Expr::Binary(ExprBinary { attrs: vec![], left: l.clone(), op, right: Box::new(rr) })) });
                }
            }
            Expr::Reference(r) => {
                // &x[a..b]
                if let Expr::Index(ix) = strip_paren(&r.expr) {
                    if let Expr::Range(rg) = strip_paren(&ix.index) {
                        let x = &ix.expr;
                        let incl = matches!(rg.limits, RangeLimits::Closed(_));
                        let f = match (&rg.start, &rg.end) {
                            (Some(a), Some(b)) if !incl => Some(parse_quote!(vx_subslice(&#x, #a, #b))),
                            (None, Some(b)) if !incl => Some(parse_quote!(vx_subslice(&#x, 0, #b))),
                            (Some(a), None) => Some(parse_quote!(vx_subslice(&#x, #a, #x.len()))),
                            (None, None) => Some(parse_quote!(vx_subslice(&#x, 0, #x.len()))),
                            (Some(a), Some(b)) => Some(parse_quote!(vx_subslice(&#x, #a, #b + 1))),
                            (None, Some(b)) => Some(parse_quote!(vx_subslice(&#x, 0, #b + 1))),
                        };
                        if let Some(f) = f {
                            *e = f;
                        }
                    }
                }
            }
            Expr::MethodCall(m) => {
                let name = m.method.to_string();
                self.callees.insert(name.clone());
                if name == "len" {
                    // x[a..b].len()
                    if let Expr::Index(ix) = strip_paren(&m.receiver) {
                        if let Expr::Range(rg) = strip_paren(&ix.index) {
                            let x = &ix.expr;
                            match (&rg.start, &rg.end, &rg.limits) {
                                (Some(a), None, _) => m.receiver = parse_quote!(vx_subslice(&#x, #a, #x.len())),
                                (None, Some(b), RangeLimits::HalfOpen(_)) => m.receiver = parse_quote!(vx_subslice(&#x, 0, #b)),
                                (Some(a), Some(b), RangeLimits::HalfOpen(_)) => m.receiver = parse_quote!(vx_subslice(&#x, #a, #b)),
                                _ => {}
                            }
                        }
                    }
                }
                // base[range].copy_from_slice(s)
                if name == "copy_from_slice" && !self.cfg.methods.contains_key(&name) {
                    if let Expr::Index(ix) = strip_paren(&m.receiver) {
                        let (b, s) = (&ix.expr, &m.args[0]);
                        let rg: Option<Expr> = match strip_paren(&ix.index) {
                            Expr::Range(r) if matches!(r.limits, RangeLimits::HalfOpen(_)) => {
                                let a: Expr = r.start.as_deref().cloned().unwrap_or(parse_quote!(0));
                                let z: Expr = r.end.as_deref().cloned().unwrap_or(parse_quote!(#b.len()));
                                Some(parse_quote!(#a..#z))
                            }
                            Expr::Path(p) => Some(Expr::Path(p.clone())),
                            _ => None,
                        };
                        if let Some(rg) = rg {
                            *e = parse_quote!(vx_copy_range(&mut #b, #rg, #s));
                            return;
                        }
                    }
                }
                if let Some(f) = self.cfg.methods.get(&name).cloned() {
                    let r = &m.receiver;
                    let args = &m.args;
                    let (f, pre) = if let Some(x) = f.strip_prefix("&mut ") {
                        (x.to_string(), Some(quote!(&mut)))
                    } else if let Some(x) = f.strip_prefix("&") {
                        (x.to_string(), Some(quote!(&)))
                    } else {
                        (f, None)
                    };
                    let fp: Path = parse_str(&f).unwrap();
                    *e = parse_quote!(#fp(#pre #r, #args));
                }
            }
            Expr::Call(c) => {
                let f = c.func.to_token_stream().to_string().replace(' ', "");
                if let Some(t) = self.cfg.calls.get(&f) {
                    let p: Expr = parse_str(t).unwrap();
                    *c.func = p;
                }
                self.callees.insert(f);
            }
            Expr::Closure(c) => {
                let k = self.closures;
                self.closures += 1;
                let mi = marker(&format!("closure{}", k));
                let b = &c.body;
                c.body = Box::new(parse_quote!({ #mi #b }));
                let rt: Type = parse_str(&format!("__ClosRet{}", k)).unwrap();
                c.output = parse_quote!(-> #rt);
                c.attrs.clear();
            }
            Expr::Match(m) => {
                let dv = self.cfg.drop_variants.clone();
                let n0 = m.arms.len();
                m.arms.retain(|a| {
                    let t = a.pat.to_token_stream().to_string().replace(' ', "");
                    !dv.iter().any(|v| t.starts_with(v.as_str()))
                });
                if m.arms.len() != n0 {
                    self.drops.insert(format!("match arms of {:?}", dv));
                }
            }
            Expr::If(_) => {}
            Expr::Path(p) => {
                // T::NAN style constants
                if p.path.segments.len() >= 2 {
                    let last = p.path.segments.last().unwrap().ident.to_string();
                    let first = p.path.segments.first().unwrap().ident.to_string();
                    let full = p.path.to_token_stream().to_string().replace(' ', "");
                    if full.contains("f64::consts::") || full.contains("f32::consts::") {
                        let id = format_ident!("c_{}", last);
                        *e = parse_quote!(R::#id());
                    } else if (first == "R" || full.starts_with("f64::") || full.starts_with("core::f64::") || full.starts_with("std::f64::")) && last.chars().all(|c| c.is_uppercase() || c == '_') {
                        let id = format_ident!("c_{}", last);
                        *e = parse_quote!(R::#id());
                    }
                }
            }
            _ => {}
        }
    }
    fn visit_path_mut(&mut self, p: &mut Path) {
        if let Some(s) = p.segments.first_mut() {
            let n = s.ident.to_string();
            if p.segments.len() <= 2 || n != "std" {
                if let Some(s) = p.segments.first_mut() {
                    if let Some(t) = self.cfg.types.get(&n) {
                        s.ident = Ident::new(t, Span::call_site());
                    }
                }
            }
        }
        for s in p.segments.iter_mut() {
            if self.cfg.strip_args.contains(&s.ident.to_string()) {
                if let PathArguments::AngleBracketed(a) = &mut s.arguments {
                    let keep: Vec<GenericArgument> = a.args.iter().filter(|x| matches!(x, GenericArgument::Lifetime(_))).cloned().collect();
                    if keep.is_empty() {
                        s.arguments = PathArguments::None;
                    } else {
                        a.args = keep.into_iter().collect();
                    }
                }
            }
        }
        visit_mut::visit_path_mut(self, p);
    }
    fn visit_macro_mut(&mut self, m: &mut Macro) {
        // vec![x; n] and vec![a, b]: rewrite inner expressions
        if m.path.is_ident("vec") {
            let toks = m.tokens.clone();
            if let Ok(rep) = syn::parse2::<RepVec>(toks.clone()) {
                let (mut a, mut n) = (rep.0, rep.1);
                self.visit_expr_mut(&mut a);
                self.visit_expr_mut(&mut n);
                m.tokens = quote!(#a; #n);
            } else if let Ok(list) = syn::parse::Parser::parse2(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated, toks) {
                let v: Vec<Expr> = list.into_iter().map(|mut x| { self.visit_expr_mut(&mut x); x }).collect();
                m.tokens = quote!(#(#v),*);
            }
        }
    }
}
struct RepVec(Expr, Expr);
impl syn::parse::Parse for RepVec {
    fn parse(i: syn::parse::ParseStream) -> Result<Self> {
        let a: Expr = i.parse()?;
        i.parse::<Token![;]>()?;
        Ok(RepVec(a, i.parse()?))
    }
}
fn collect_pat(p: &Pat, out: &mut Vec<String>) {
    match p {
        Pat::Ident(i) => out.push(i.ident.to_string()),
        Pat::Tuple(t) => t.elems.iter().for_each(|x| collect_pat(x, out)),
        Pat::Type(t) => collect_pat(&t.pat, out),
        Pat::Reference(r) => collect_pat(&r.pat, out),
        _ => {}
    }
}

fn self_ty_name(t: &Type) -> String {
    if let Type::Path(p) = t {
        return p.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default();
    }
    t.to_token_stream().to_string()
}

struct Found {
    sig: Signature,
    block: Block,
}
fn find_fn(items: &[Item], ty: Option<&str>, name: &str, tr: Option<&str>) -> Option<Found> {
    for it in items {
        match it {
            Item::Fn(f) if ty.is_none() && f.sig.ident == name => {
                return Some(Found { sig: f.sig.clone(), block: (*f.block).clone() })
            }
            Item::Impl(im) => {
                if let Some(t) = ty {
                    if self_ty_name(&im.self_ty) != t {
                        continue;
                    }
                    if let Some(trn) = tr {
                        let ok = im.trait_.as_ref().map(|x| {
                            let g = x.1.segments.last().unwrap();
                            g.ident == trn || toks(g).replace(' ', "") == trn
                        }).unwrap_or(false);
                        if !ok {
                            continue;
                        }
                    }
                    for x in &im.items {
                        if let ImplItem::Fn(f) = x {
                            if f.sig.ident == name {
                                return Some(Found { sig: f.sig.clone(), block: f.block.clone() });
                            }
                        }
                    }
                }
            }
            Item::Trait(t) => {
                if ty == Some(t.ident.to_string().as_str()) {
                    for x in &t.items {
                        if let TraitItem::Fn(f) = x {
                            if f.sig.ident == name {
                                if let Some(b) = &f.default {
                                    return Some(Found { sig: f.sig.clone(), block: b.clone() });
                                }
                            }
                        }
                    }
                }
            }
            Item::Macro(m) => {
                // NAME!::f: the function f of the only impl in macro NAME's body, its metavariables read as names
                let want = m.ident.as_ref().map(|i| format!("{}!", i));
                if want.is_some() && want.as_deref() == ty {
                    let body = m.mac.tokens.clone().into_iter().filter_map(|t| if let proc_macro2::TokenTree::Group(g) = t { Some(g) } else { None }).last();
                    if let Some(g) = body {
                        if let Ok(f) = syn::parse2::<File>(undollar(g.stream())) {
                            for it in &f.items {
                                if let Item::Impl(im) = it {
                                    let t = self_ty_name(&im.self_ty);
                                    if let Some(x) = find_fn(&f.items, Some(&t), name, tr) {
                                        return Some(x);
                                    }
                                }
                            }
                        }
                    }
                }
            }
            Item::Mod(m) => {
                if let Some((_, its)) = &m.content {
                    if let Some(f) = find_fn(its, ty, name, tr) {
                        return Some(f);
                    }
                }
            }
            _ => {}
        }
    }
    None
}

fn undollar(t: TokenStream) -> TokenStream {
    t.into_iter()
        .filter_map(|x| match x {
            proc_macro2::TokenTree::Punct(p) if p.as_char() == '$' => None,
            proc_macro2::TokenTree::Group(g) => Some(proc_macro2::TokenTree::Group(proc_macro2::Group::new(g.delimiter(), undollar(g.stream())))),
            o => Some(o),
        })
        .collect()
}

fn cfg_from(v: &Value) -> Cfg {
    let mut c = Cfg::default();
    let m = |k: &str| -> HashMap<String, String> {
        v.get(k).and_then(|x| x.as_object()).map(|o| o.iter().map(|(a, b)| (a.clone(), b.as_str().unwrap_or("").to_string())).collect()).unwrap_or_default()
    };
    let l = |k: &str| -> BTreeSet<String> {
        v.get(k).and_then(|x| x.as_array()).map(|o| o.iter().filter_map(|a| a.as_str().map(|s| s.to_string())).collect()).unwrap_or_default()
    };
    c.types = m("types");
    c.methods = m("methods");
    c.calls = m("calls");
    c.strip_args = l("strip_args");
    c.drop_variants = l("drop_variants");
    c.ref_iter = l("ref_iter");
    c.opts = l("opts");
    c.own_iter = v.get("own_iter").and_then(|x| x.as_bool()).unwrap_or(false);
    c.wrap_tail = v.get("wrap_tail").and_then(|x| x.as_bool()).unwrap_or(false);
    c.int_range_ty = v.get("index_ty").and_then(|x| x.as_str()).unwrap_or("").to_string();
    c
}

fn toks(t: impl ToTokens) -> String {
    let s: TokenStream = t.to_token_stream();
    s.to_string()
}

fn norm(t: &str) -> String {
    t.split_whitespace().collect::<Vec<_>>().join(" ")
}

fn do_item(root: &str, v: &Value) -> std::result::Result<Value, String> {
    let file = v["file"].as_str().ok_or("no file")?;
    let path = v["path"].as_str().ok_or("no path")?;
    let kind = v.get("kind").and_then(|x| x.as_str()).unwrap_or("fn");
    let cfg = cfg_from(v);
    // look in the named file first, then everywhere (a moved function is still found)
    let mut files = vec![format!("{}/{}", root, file)];
    fn walk(d: &std::path::Path, out: &mut Vec<String>) {
        if let Ok(rd) = std::fs::read_dir(d) {
            let mut es: Vec<_> = rd.flatten().map(|e| e.path()).collect();
            es.sort();
            for p in es {
                if p.is_dir() {
                    walk(&p, out)
                } else if p.extension().map(|x| x == "rs").unwrap_or(false) {
                    out.push(p.to_string_lossy().into_owned())
                }
            }
        }
    }
    walk(std::path::Path::new(root), &mut files);
    let (ty, name) = match path.rsplit_once("::") {
        Some((a, b)) => (Some(a), b),
        None => (None, path),
    };
    let (tr, ty) = match ty {
        Some(t) if t.contains('@') => {
            let (a, b) = t.split_once('@').unwrap();
            (Some(b), Some(a))
        }
        _ => (None, ty),
    };
    for f in files {
        let Ok(src) = std::fs::read_to_string(&f) else { continue };
        if kind == "fn" && !src.contains(name) {
            continue;
        }
        let ast = syn::parse_file(&src).map_err(|e| format!("{}: {}", f, e))?;
        let mut t = Tr { cfg: cfg.clone(), loops: 0, closures: 0, lits: BTreeMap::new(), callees: BTreeSet::new(), lets: vec![], let_n: HashMap::new(), set_n: HashMap::new(), call_n: HashMap::new(), drops: BTreeSet::new(), tmp: 0, in_chain: vec![] };
        match kind {
            "fn" => {
                if let Some(fd) = find_fn(&ast.items, ty, name, tr) {
                    return fn_out(&mut t, fd, v, &f);
                }
            }
            "struct" | "enum" => {
                for it in &ast.items {
                    match it {
                        Item::Struct(s) if s.ident == path => {
                            let mut s = s.clone();
                            s.attrs.clear();
                            for fl in s.fields.iter_mut() {
                                fl.attrs.clear();
                                fl.vis = parse_quote!(pub);
                            }
                            s.vis = parse_quote!(pub);
                            strip_generics(&mut s.generics, &cfg);
                            t.visit_item_struct_mut(&mut s);
                            return Ok(json!({"ok": true, "text": toks(&s), "file": f, "name": path}));
                        }
                        Item::Enum(s) if s.ident == path => {
                            let mut s = s.clone();
                            s.attrs.clear();
                            s.vis = parse_quote!(pub);
                            let nv = s.variants.len();
                            s.variants = s.variants.into_iter().filter(|x| !cfg.drop_variants.contains(&format!("{}::{}", path, x.ident))).map(|mut x| { x.attrs.clear(); x }).collect();
                            let dropped = nv - s.variants.len();
                            strip_generics(&mut s.generics, &cfg);
                            t.visit_item_enum_mut(&mut s);
                            return Ok(json!({"ok": true, "text": toks(&s), "file": f, "name": path, "drops": if dropped > 0 { vec![format!("enum variants {:?}", cfg.drop_variants)] } else { vec![] }}));
                        }
                        _ => {}
                    }
                }
            }
            "const" => {
                for it in &ast.items {
                    if let Item::Const(c) = it {
                        if c.ident == path {
                            return Ok(json!({"ok": true, "text": toks(c), "file": f, "name": path}));
                        }
                    }
                }
            }
            _ => return Err("kind?".into()),
        }
    }
    Err(format!("anchor lost: {} {}", kind, path))
}

fn strip_generics(g: &mut Generics, cfg: &Cfg) {
    g.where_clause = None;
    g.params = g.params.clone().into_iter().filter(|p| match p {
        GenericParam::Type(t) => !cfg.types.contains_key(&t.ident.to_string()),
        _ => true,
    }).collect();
    if g.params.is_empty() {
        g.lt_token = None;
        g.gt_token = None;
    }
}

fn fn_out(t: &mut Tr, mut fd: Found, v: &Value, file: &str) -> std::result::Result<Value, String> {
    let line = fd.sig.ident.span().start().line;
    let src_norm = norm(&toks(&fd.block));
    strip_generics(&mut fd.sig.generics, &t.cfg);
    let mut block = fd.block;
    // statement range selection (fragment of the body)
    let find = |pat: &str, from: usize, st: &[Stmt]| -> Option<usize> {
        (from..st.len()).find(|&i| norm(&toks(&st[i])).contains(pat))
    };
    if let Some(inner) = v.get("enter").and_then(|x| x.as_array()) {
        // descend into the block of the first statement containing each given text
        for p in inner {
            let p = p.as_str().unwrap_or("");
            let i = find(p, 0, &block.stmts).ok_or(format!("anchor lost: enter {}", p))?;
            block = first_block(&block.stmts[i]).ok_or("anchor lost: no block")?;
        }
    }
    if let Some(p) = v.get("after").and_then(|x| x.as_str()) {
        let i = find(p, 0, &block.stmts).ok_or(format!("anchor lost: after {}", p))?;
        block.stmts.drain(..=i);
    }
    if let Some(p) = v.get("from").and_then(|x| x.as_str()) {
        let i = find(p, 0, &block.stmts).ok_or(format!("anchor lost: from {}", p))?;
        block.stmts.drain(..i);
    }
    if let Some(p) = v.get("until").and_then(|x| x.as_str()) {
        let i = find(p, 0, &block.stmts).ok_or(format!("anchor lost: until {}", p))?;
        block.stmts.truncate(i);
    }
    if let Some(p) = v.get("through").and_then(|x| x.as_str()) {
        let i = find(p, 0, &block.stmts).ok_or(format!("anchor lost: through {}", p))?;
        block.stmts.truncate(i + 1);
    }
    if let Some(ps) = v.get("drop_stmts").and_then(|x| x.as_array()) {
        for p in ps {
            let p = p.as_str().unwrap_or("");
            let n0 = block.stmts.len();
            block.stmts.retain(|s| !norm(&toks(s)).contains(p));
            if block.stmts.len() == n0 {
                return Err(format!("anchor lost: drop_stmts {}", p));
            }
        }
    }
    let mut sig = fd.sig;
    for i in sig.inputs.iter_mut() {
        if let FnArg::Typed(p) = i {
            p.attrs.clear();
        }
    }
    t.visit_signature_mut(&mut sig);
    let mut par = Par(false);
    par.visit_block_mut(&mut block);
    if par.0 {
        t.drops.insert("rayon parallel iterators are read as the sequential ones".into());
    }
    if v.get("hset").and_then(|x| x.as_bool()).unwrap_or(false) {
        Hset.visit_block_mut(&mut block);
        t.drops.insert("a hash set collected from a column is the set of its values; OrderedFloat::from is read as the number".into());
    }
    if v.get("mats").and_then(|x| x.as_bool()).unwrap_or(false) {
        let mut n = MatNorm { opts: t.cfg.opts.clone() };
        n.visit_block_mut(&mut block);
        t.drops.insert("matrices: views (as_ref, as_mut, to_owned) are read as the matrix, get(i, j) and get_unchecked(i, j) as the entry with its bounds checked, ranges as blocks, concat! as the columns of one after those of the other; unsafe blocks are read as plain ones".into());
    }
    if v.get("parcols").and_then(|x| x.as_bool()).unwrap_or(false) {
        let mut n = Norm { opts: t.cfg.opts.clone() };
        n.visit_block_mut(&mut block);
        t.drops.insert("POOL.install(f) is read as f(); a lazy parallel iterator bound to a name is read where it is used; chunks of a column are read as one sequence".into());
    }
    let stages: BTreeSet<String> = v.get("stages").and_then(|x| x.as_array()).map(|o| o.iter().filter_map(|a| a.as_str().map(|s| s.to_string())).collect()).unwrap_or_default();
    if !stages.is_empty() {
        let mut k = 0;
        let mut out = vec![];
        for mut s in std::mem::take(&mut block.stmts) {
            let mut pre = vec![];
            match &mut s {
                Stmt::Local(l) => {
                    if let Some(i) = &mut l.init {
                        stage(&mut i.expr, &stages, &mut pre, &mut k);
                    }
                }
                Stmt::Expr(e, _) => stage(e, &stages, &mut pre, &mut k),
                _ => {}
            }
            out.extend(pre);
            out.push(s);
        }
        block.stmts = out;
        t.drops.insert(format!("a chain of method calls is read with a name for what each of {} gives", stages.iter().cloned().collect::<Vec<_>>().join(", ")));
    }
    t.visit_block_mut(&mut block);
    if t.cfg.wrap_tail {
        if let Some(Stmt::Expr(e, None)) = block.stmts.last().cloned() {
            block.stmts.pop();
            block.stmts.push(parse_quote!(let __ret = #e;));
            block.stmts.push(marker("fn.end"));
            block.stmts.push(Stmt::Expr(parse_quote!(__ret), None));
        } else {
            block.stmts.push(marker("fn.end"));
        }
    }
    let body: Vec<String> = block.stmts.iter().map(|s| toks(s)).collect();
    let ret = match &sig.output {
        ReturnType::Default => String::new(),
        ReturnType::Type(_, t) => toks(t),
    };
    let inputs = toks(&sig.inputs);
    let mut lits = Map::new();
    for (k, x) in &t.lits {
        lits.insert(k.clone(), json!(x));
    }
    Ok(json!({
        "ok": true, "name": sig.ident.to_string(), "generics": toks(&sig.generics), "inputs": inputs, "ret": ret,
        "body": body.join("\n"), "loops": t.loops, "closures": t.closures, "lits": lits,
        "callees": t.callees.iter().cloned().collect::<Vec<_>>(), "lets": t.lets, "drops": t.drops.iter().cloned().collect::<Vec<_>>(),
        "file": file, "line": line, "src": src_norm,
    }))
}

/// names the results of the listed methods along a chain of receivers, innermost first
fn stage(e: &mut Expr, names: &BTreeSet<String>, pre: &mut Vec<Stmt>, k: &mut usize) {
    match e {
        Expr::Try(t) => stage(&mut t.expr, names, pre, k),
        Expr::Call(c) if c.args.len() == 1 && toks(&c.func) == "Ok" => stage(&mut c.args[0], names, pre, k),
        Expr::MethodCall(m) => {
            stage(&mut m.receiver, names, pre, k);
            if names.contains(&m.method.to_string()) {
                let id = Ident::new(&format!("__c{}", *k), proc_macro2::Span::call_site());
                *k += 1;
                let c = m.clone();
                pre.push(parse_quote!(let #id = #c;));
                *e = parse_quote!(#id);
            }
        }
        _ => {}
    }
}

/// x.into_iter().collect::<PlHashSet<_>>()  ==>  vx_hset(x)
struct Hset;
impl VisitMut for Hset {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        syn::visit_mut::visit_expr_mut(self, e);
        if let Expr::MethodCall(m) = strip_paren(e) {
            let set = m.turbofish.as_ref().map(|g| toks(g).contains("HashSet")).unwrap_or(false);
            if m.method == "collect" && set {
                let mut r = (*m.receiver).clone();
                if let Expr::MethodCall(c) = &r {
                    if c.method == "map" && toks(&c.args).replace(' ', "") == "|x|OrderedFloat::from(x)" {
                        r = (*c.receiver).clone();
                    }
                }
                if let Expr::MethodCall(c) = &r {
                    if matches!(c.method.to_string().as_str(), "into_iter" | "into_no_null_iter") && c.args.is_empty() {
                        let x = &c.receiver;
                        *e = parse_quote!(vx_hset(#x));
                    }
                }
            }
        }
    }
}

/// rayon's iterator constructors, read as the sequential ones
struct Par(bool);
impl VisitMut for Par {
    fn visit_expr_method_call_mut(&mut self, m: &mut ExprMethodCall) {
        let n = m.method.to_string();
        let t = match n.as_str() {
            "par_windows" => "windows",
            "into_par_iter" => "into_iter",
            "par_iter" => "iter",
            "par_chunks_exact" => "chunks_exact",
            _ => "",
        };
        if !t.is_empty() {
            m.method = Ident::new(t, m.method.span());
            self.0 = true;
        }
        visit_mut::visit_expr_method_call_mut(self, m);
    }
}

/// columns and lazy parallel iterators (option parcols)
struct Norm {
    opts: BTreeSet<String>,
}
struct Subst(HashMap<String, Expr>);
impl VisitMut for Subst {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Path(p) = e {
            if let Some(x) = p.path.get_ident().and_then(|i| self.0.get(&i.to_string())) {
                *e = x.clone();
                return;
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
}
fn chain_has(e: &Expr, name: &str) -> bool {
    match strip_paren(e) {
        Expr::MethodCall(m) => m.method == name || chain_has(&m.receiver, name),
        _ => false,
    }
}
impl Norm {
    fn tail_collect(&self, e: &mut Expr, f: &str) {
        match e {
            Expr::If(i) => {
                self.tail_block(&mut i.then_branch, f);
                if let Some((_, x)) = &mut i.else_branch {
                    self.tail_collect(x, f);
                }
            }
            Expr::Block(b) => self.tail_block(&mut b.block, f),
            Expr::MethodCall(m) if m.method == "collect" && m.turbofish.is_none() => {
                let g = format_ident!("{}", f);
                let x = e.clone();
                *e = parse_quote!(#g(#x));
            }
            _ => {}
        }
    }
    fn tail_block(&self, b: &mut Block, f: &str) {
        if let Some(Stmt::Expr(e, None)) = b.stmts.last_mut() {
            self.tail_collect(e, f);
        }
    }
}
impl VisitMut for Norm {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let mut sub = Subst(HashMap::new());
        let mut out = vec![];
        for mut st in std::mem::take(&mut b.stmts) {
            if !sub.0.is_empty() {
                sub.visit_stmt_mut(&mut st);
            }
            if let Stmt::Local(Local { pat: Pat::Ident(id), init: Some(i), .. }) = &st {
                if let Expr::MethodCall(m) = strip_paren(&i.expr) {
                    let over_range = matches!(strip_paren(&m.receiver), Expr::Range(_));
                    if m.method == "map" && (over_range || chain_has(&i.expr, "into_iter")) {
                        sub.0.insert(id.ident.to_string(), (*i.expr).clone());
                        continue;
                    }
                }
            }
            out.push(st);
        }
        b.stmts = out;
        visit_mut::visit_block_mut(self, b);
    }
    fn visit_local_mut(&mut self, l: &mut Local) {
        if let (Pat::Type(t), Some(i)) = (&l.pat, &mut l.init) {
            let s = toks(&t.ty);
            if s.ends_with("Chunked") {
                self.tail_collect(&mut i.expr, "vx_ca");
            } else if let Type::Tuple(_) = &*t.ty {
                self.tail_collect(&mut i.expr, "vx_unzip");
            }
        }
        visit_mut::visit_local_mut(self, l);
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::ForLoop(f) = e {
            if let Expr::MethodCall(m) = strip_paren(&f.expr) {
                if m.method == "downcast_iter" {
                    let x = &m.receiver;
                    f.expr = parse_quote!(#x.vx_arrays());
                }
            }
        }
        visit_mut::visit_expr_mut(self, e);
        match e {
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                if n == "install" && toks(&m.receiver) == "POOL" {
                    if let Some(Expr::Closure(c)) = m.args.first() {
                        if c.inputs.is_empty() && !early_exit(&c.body) {
                            *e = (*c.body).clone();
                            return;
                        }
                    }
                }
                if n == "into" && matches!(strip_paren(&m.receiver), Expr::Lit(_)) {
                    *e = parse_quote!(vx_name());
                    return;
                }
                if (n == "into_iter" || n == "iter") && self.opts.contains(&toks(&m.receiver)) {
                    let r = &m.receiver;
                    *e = parse_quote!(#r.vx_opts().into_iter());
                    return;
                }
                if n == "collect" {
                    if let Expr::MethodCall(c) = strip_paren(&m.receiver) {
                        if c.method == "cloned" {
                            if let Expr::MethodCall(d) = strip_paren(&c.receiver) {
                                if d.method == "downcast_iter" {
                                    let x = &d.receiver;
                                    *e = parse_quote!(vx_chunks(&#x));
                                    return;
                                }
                            }
                        }
                    }
                }
                // a closure with a state of its own, over the present values in order
                if n == "apply_nonnull_values_generic" && m.args.len() == 2 {
                    if let Some(Expr::Closure(c)) = m.args.last() {
                        if toks(&c.body).replace(' ', "").contains("rng") && c.inputs.len() == 1 && !early_exit(&c.body) {
                            let (x, p, b) = (&m.receiver, &c.inputs[0], &c.body);
                            *e = parse_quote!(vx_ca(#x.vx_opts().into_iter().map(|__o| match __o { Some(#p) => Some(#b), None => None }).collect::<Vec<_>>()));
                            return;
                        }
                    }
                }
                if n == "append_values_iter" {
                    if let Some(a) = m.args.first_mut() {
                        if chain_has(a, "map") {
                            *a = parse_quote!(#a.collect::<Vec<_>>());
                        }
                    }
                }
                if n == "flatten" {
                    if let Expr::MethodCall(c) = strip_paren(&m.receiver) {
                        let x = &c.receiver;
                        if c.method == "into_iter" {
                            *e = parse_quote!(vx_flatten(#x));
                        } else if c.method == "iter" {
                            *e = parse_quote!(#x.vx_present());
                        }
                    }
                }
            }
            // df!("a" => x, ..)  ==>  vx_df([("a", vx_col(x)), ..])
            Expr::Macro(m) if toks(&m.mac.path) == "df" => {
                struct Pair(Expr, Expr);
                impl syn::parse::Parse for Pair {
                    fn parse(i: syn::parse::ParseStream) -> syn::Result<Self> {
                        let a = i.parse::<Expr>()?;
                        i.parse::<Token![=>]>()?;
                        Ok(Pair(a, i.parse::<Expr>()?))
                    }
                }
                if let Ok(ps) = m.mac.parse_body_with(syn::punctuated::Punctuated::<Pair, Token![,]>::parse_terminated) {
                    let items: Vec<Expr> = ps.iter().map(|p| { let (a, b) = (&p.0, &p.1); parse_quote!((#a, vx_col(#b))) }).collect();
                    *e = parse_quote!(vx_df([#(#items),*]));
                }
            }
            Expr::Call(c) => {
                if toks(&c.func).replace(' ', "").ends_with("StructChunked::from_series") {
                    if let Some(Expr::MethodCall(m)) = c.args.last() {
                        if m.method == "into_iter" && matches!(*m.receiver, Expr::Array(_)) {
                            let x = (*m.receiver).clone();
                            *c.args.last_mut().unwrap() = x;
                        }
                    }
                }
                if toks(&c.func).replace(' ', "").ends_with("Chunked::from_iter_options") || toks(&c.func).replace(' ', "").ends_with("Chunked::from_iter_values") {
                    if let Some(a) = c.args.last_mut() {
                        if chain_has(a, "map") {
                            *a = parse_quote!(#a.collect::<Vec<_>>());
                        }
                    }
                }
            }
            Expr::Closure(c) => {
                // |x| { let p = x?; rest }  ==>  |x| match x { Some(p) => { rest } None => None }
                if let Expr::Block(b) = &*c.body {
                    if let Some(Stmt::Local(Local { pat, init: Some(i), .. })) = b.block.stmts.first() {
                        if let Expr::Try(t) = strip_paren(&i.expr) {
                            let (x, rest) = (&t.expr, &b.block.stmts[1..]);
                            let nb: Expr = parse_quote!(match #x { Some(#pat) => { #(#rest)* } None => None });
                            c.body = Box::new(nb);
                        }
                    }
                }
            }
            _ => {}
        }
    }
}

/// matrices (option mats)
struct MatNorm {
    opts: BTreeSet<String>,
}
impl MatNorm {
    fn range(&self, e: &Expr, r: &Expr, dim: &str) -> (Expr, Expr) {
        let d = format_ident!("{}", dim);
        match strip_paren(e) {
            Expr::Range(x) => {
                let a: Expr = x.start.as_ref().map(|s| (**s).clone()).unwrap_or_else(|| parse_quote!(0));
                let b: Expr = x.end.as_ref().map(|s| (**s).clone()).unwrap_or_else(|| parse_quote!(#r.#d()));
                if matches!(x.limits, RangeLimits::Closed(_)) {
                    return (a, parse_quote!((#b) + 1));
                }
                (a, b)
            }
            x => (x.clone(), parse_quote!((#x) + 1)),
        }
    }
}
impl VisitMut for MatNorm {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        match e {
            // a function's name where a closure is expected
            Expr::MethodCall(m) if m.method == "map" && m.args.len() == 1 && matches!(m.args[0], Expr::Path(_)) => {
                let f = m.args[0].clone();
                m.args[0] = parse_quote!(|__e| #f(__e));
            }
            Expr::MethodCall(m) if m.method == "fold" && m.args.len() == 2 && matches!(m.args[1], Expr::Path(_)) => {
                let f = m.args[1].clone();
                m.args[1] = parse_quote!(|__a, __e| #f(__a, __e));
            }
            Expr::Closure(c) => {
                for (k, p) in c.inputs.iter_mut().enumerate() {
                    if matches!(p, Pat::Wild(_)) {
                        let n = format_ident!("__u{}", k);
                        *p = parse_quote!(#n);
                    }
                }
            }
            Expr::Unsafe(u) => {
                if let [Stmt::Expr(x, None)] = &u.block.stmts[..] {
                    *e = x.clone();
                } else {
                    let b = &u.block;
                    *e = parse_quote!(#b);
                }
            }
            // a name put into a text with one hole
            Expr::Macro(m) if toks(&m.mac.path) == "format" => {
                let args: Option<syn::punctuated::Punctuated<Expr, syn::Token![,]>> = m.mac.parse_body_with(syn::punctuated::Punctuated::parse_terminated).ok();
                if let Some(a) = args {
                    if a.len() == 2 && matches!(&a[0], Expr::Lit(_)) {
                        let (s, x) = (&a[0], &a[1]);
                        *e = parse_quote!(vx_fmt(#s, #x));
                    }
                }
            }
            Expr::Macro(m) if toks(&m.mac.path).replace(' ', "").ends_with("concat") => {
                if let Ok(Expr::Array(r)) = syn::parse2::<Expr>(m.mac.tokens.clone()) {
                    if r.elems.len() == 2 {
                        let (mut x, mut y) = (r.elems[0].clone(), r.elems[1].clone());
                        self.visit_expr_mut(&mut x);
                        self.visit_expr_mut(&mut y);
                        *e = parse_quote!(vx_hcat(&#x, &#y));
                    }
                }
            }
            Expr::Unary(ExprUnary { op: UnOp::Deref(_), expr, .. }) => {
                if matches!(strip_paren(expr), Expr::MethodCall(m) if m.method == "vx_at") {
                    *e = strip_paren(expr).clone();
                    return;
                }
                if let Expr::MethodCall(m) = strip_paren(expr) {
                    if matches!(m.method.to_string().as_str(), "get" | "get_mut" | "get_unchecked" | "get_mut_unchecked") && m.args.len() == 2 {
                        let (r, i, j) = (&m.receiver, &m.args[0], &m.args[1]);
                        *e = parse_quote!(#r.vx_at(#i, #j));
                    }
                }
            }
            Expr::Unary(ExprUnary { op: UnOp::Not(_), expr, .. }) if matches!(strip_paren(expr), Expr::Reference(_)) => {
                let x = expr.clone();
                *e = parse_quote!(vx_not(#x));
            }
            Expr::Assign(a) if matches!(&*a.left, Expr::Tuple(_)) => {
                if let Expr::Tuple(t) = &*a.left {
                    let r = &a.right;
                    let asg: Vec<Stmt> = t.elems.iter().enumerate().map(|(k, x)| {
                        let k = syn::Index::from(k);
                        parse_quote!(#x = __t.#k;)
                    }).collect();
                    *e = parse_quote!({ let __t = #r; #(#asg)* });
                }
            }
            Expr::Assign(a) => {
                if let Expr::MethodCall(m) = strip_paren(&a.left) {
                    if m.method == "vx_at" {
                        let (r, i, j, x) = (&m.receiver, &m.args[0], &m.args[1], &a.right);
                        *e = parse_quote!(#r.vx_set(#i, #j, #x));
                    }
                }
            }
            Expr::Binary(b) if matches!(b.op, BinOp::Eq(_)) => {
                if let (Expr::MethodCall(m), Expr::Tuple(t)) = (strip_paren(&b.left), strip_paren(&b.right)) {
                    if m.method == "shape" && t.elems.len() == 2 {
                        let (l, x, y) = (&m.receiver, &t.elems[0], &t.elems[1]);
                        *e = parse_quote!((#l.nrows() == #x && #l.ncols() == #y));
                    }
                }
            }
            Expr::Binary(b) if matches!(b.op, BinOp::BitOr(_) | BinOp::BitAnd(_)) => {
                let f = format_ident!("{}", if matches!(b.op, BinOp::BitOr(_)) { "vx_or" } else { "vx_and" });
                let (x, y) = (&b.left, &b.right);
                *e = parse_quote!(#f(#x, #y));
            }
            Expr::Binary(b) => {
                if let Expr::MethodCall(m) = strip_paren(&b.left) {
                    if m.method == "vx_at" {
                        let (r, i, j, l, x) = (&m.receiver, &m.args[0], &m.args[1], &b.left, &b.right);
                        match b.op {
                            BinOp::AddAssign(_) => *e = parse_quote!(#r.vx_set(#i, #j, #l + #x)),
                            BinOp::SubAssign(_) => *e = parse_quote!(#r.vx_set(#i, #j, #l - #x)),
                            _ => {}
                        }
                    }
                }
            }
            Expr::Reference(r) if r.mutability.is_none() => {
                if let Expr::Path(p) = &*r.expr {
                    if self.opts.contains(&format!("*{}", toks(p))) {
                        let x = &r.expr;
                        *e = parse_quote!(&*#x);
                    }
                }
            }
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                let r = (*m.receiver).clone();
                match (n.as_str(), m.args.len()) {
                    ("get" | "get_unchecked", 2) if m.args.iter().any(|a| matches!(strip_paren(a), Expr::Range(_))) => {
                        let (a, b) = self.range(&m.args[0], &r, "nrows");
                        let (c, d) = self.range(&m.args[1], &r, "ncols");
                        *e = parse_quote!(#r.vx_block(#a, #b, #c, #d));
                    }
                    ("get" | "get_unchecked", 2) => {
                        let (i, j) = (&m.args[0], &m.args[1]);
                        *e = parse_quote!(#r.vx_at(#i, #j));
                    }
                    ("slice", 1) => {
                        if let Expr::Macro(x) = strip_paren(&m.args[0]) {
                            let t = &x.mac.tokens;
                            if let Ok(Expr::Array(a)) = syn::parse2::<Expr>(quote::quote!([#t])) {
                                if x.mac.path.is_ident("s") && a.elems.len() == 2 {
                                    let (a1, b1) = self.range(&a.elems[0], &r, "nrows");
                                    let (c1, d1) = self.range(&a.elems[1], &r, "ncols");
                                    *e = parse_quote!(#r.vx_block(#a1, #b1, #c1, #d1));
                                }
                            }
                        }
                    }
                    ("into_faer", 0) => *e = r,
                    ("into_no_null_iter", 0) => *e = parse_quote!(#r.vx_bools().into_iter()),
                    ("as_mut", 0) => *e = parse_quote!(&mut #r),
                    ("as_ref" | "to_owned" | "as_mat", 0) => *e = r,
                    ("col_iter", 0) => *e = parse_quote!(#r.vx_cols().iter()),
                    ("iter", 0) => {
                        let is = match strip_paren(&r) {
                            Expr::MethodCall(q) => matches!(q.method.to_string().as_str(), "vx_block" | "col"),
                            x => self.opts.contains(&toks(x)),
                        };
                        if is {
                            *e = parse_quote!(#r.vx_vec().iter());
                        }
                    }
                    ("extend", 1) => {
                        if let Expr::MethodCall(q) = strip_paren(&m.args[0]) {
                            if q.method == "iter" {
                                let y = &q.receiver;
                                *e = parse_quote!(vx_extend(&mut #r, #y));
                            }
                        }
                    }
                    _ => {}
                }
            }
            _ => {}
        }
    }
}

fn first_block(s: &Stmt) -> Option<Block> {
    struct F(Option<Block>);
    impl<'a> syn::visit::Visit<'a> for F {
        fn visit_block(&mut self, b: &'a Block) {
            if self.0.is_none() {
                self.0 = Some(b.clone());
            }
        }
    }
    let mut f = F(None);
    syn::visit::Visit::visit_stmt(&mut f, s);
    f.0
}

fn main() {
    let mut s = String::new();
    std::io::stdin().read_to_string(&mut s).unwrap();
    let v: Value = serde_json::from_str(&s).unwrap();
    let root = v["root"].as_str().unwrap_or("/repo/src").to_string();
    let mut out = Map::new();
    for it in v["items"].as_array().unwrap() {
        let id = it["id"].as_str().unwrap().to_string();
        let r = match do_item(&root, it) {
            Ok(x) => x,
            Err(e) => json!({"ok": false, "error": e}),
        };
        out.insert(id, r);
    }
    println!("{}", serde_json::to_string(&Value::Object(out)).unwrap());
}
