//! vx: mechanical extraction of /repo's (macro-expanded) source into Verus units.
//!
//! vx unit <expanded.rs> <template> <renames> <out.rs> <out.json> [--canary]
//! vx inventory <expanded.rs>
//!
//! A template is a Verus source file in which `//@` directives pull in items of the crate.
//! The text of an extracted item is the text of the expanded source, with the edits listed in
//! DESIGN.md ("What the extraction changes"); every edit made is recorded in out.json.
use proc_macro2::Span;
use quote::ToTokens;
use std::collections::{BTreeMap, BTreeSet};
use syn::spanned::Spanned;
use syn::visit::Visit;

fn rng(s: Span) -> (usize, usize) {
    let r = s.byte_range();
    (r.start, r.end)
}
fn strip(s: &str) -> String {
    s.chars().filter(|c| !c.is_whitespace()).collect()
}
fn toks<T: ToTokens>(t: &T) -> String {
    strip(&t.to_token_stream().to_string())
}

struct FnRef<'a> {
    attrs: &'a [syn::Attribute],
    sig: &'a syn::Signature,
    block: Option<&'a syn::Block>,
    full: (usize, usize),
    uses: Vec<(usize, usize)>,
}

struct ImplRef<'a> {
    module: String,
    item: &'a syn::ItemImpl,
}

#[derive(Default)]
struct Index<'a> {
    items: BTreeMap<String, &'a syn::Item>,
    impls: Vec<ImplRef<'a>>,
    traits: BTreeMap<String, &'a syn::ItemTrait>,
    uses: BTreeMap<String, Vec<&'a syn::ItemUse>>,
    /// nested functions: the `use` declarations of the blocks around them
    nested: BTreeMap<String, Vec<(usize, usize)>>,
}

fn index_nested<'a>(block: &'a syn::Block, path: &str, outer: &[(usize, usize)], ix: &mut Index<'a>) {
    let mut uses = outer.to_vec();
    for s in &block.stmts {
        if let syn::Stmt::Item(syn::Item::Use(u)) = s {
            uses.push(rng(u.span()));
        }
    }
    for s in &block.stmts {
        if let syn::Stmt::Item(it @ syn::Item::Fn(f)) = s {
            let p = format!("{}::{}", path, f.sig.ident);
            ix.items.insert(p.clone(), it);
            ix.nested.insert(p.clone(), uses.clone());
            index_nested(&f.block, &p, &uses, ix);
        }
    }
}

fn is_derived_noise(name: &str) -> bool {
    matches!(name, "Debug" | "StructuralPartialEq" | "TrivialClone")
}

fn index<'a>(items: &'a [syn::Item], module: &str, ix: &mut Index<'a>) {
    for it in items {
        match it {
            syn::Item::Mod(m) => {
                if let Some((_, content)) = &m.content {
                    let p = format!("{}::{}", module, m.ident);
                    index(content, &p, ix);
                }
            }
            syn::Item::Use(u) => ix.uses.entry(module.to_string()).or_default().push(u),
            syn::Item::Impl(i) => ix.impls.push(ImplRef { module: module.to_string(), item: i }),
            syn::Item::Fn(f) => {
                let p = format!("{}::{}", module, f.sig.ident);
                ix.items.insert(p.clone(), it);
                index_nested(&f.block, &p, &[], ix);
            }
            syn::Item::Struct(s) => {
                ix.items.insert(format!("{}::{}", module, s.ident), it);
            }
            syn::Item::Enum(s) => {
                ix.items.insert(format!("{}::{}", module, s.ident), it);
            }
            syn::Item::Type(s) => {
                ix.items.insert(format!("{}::{}", module, s.ident), it);
            }
            syn::Item::Const(s) => {
                ix.items.insert(format!("{}::{}", module, s.ident), it);
            }
            syn::Item::Static(s) => {
                ix.items.insert(format!("{}::{}", module, s.ident), it);
            }
            syn::Item::Trait(t) => {
                ix.traits.insert(format!("{}::{}", module, t.ident), t);
                ix.items.insert(format!("{}::{}", module, t.ident), it);
            }
            _ => {}
        }
    }
}

fn impl_header(i: &syn::ItemImpl) -> String {
    let ty = toks(&i.self_ty);
    match &i.trait_ {
        Some((_, p, _)) => {
            let s = p.segments.last().unwrap();
            format!("{} for {}", toks(s), ty)
        }
        None => ty,
    }
}

// ---------------------------------------------------------------- edits

#[derive(Clone)]
struct Edit {
    start: usize,
    end: usize,
    text: String,
    seq: usize,
}

struct Ctx<'a> {
    src: &'a str,
    renames: &'a BTreeMap<String, String>,
    prefixes: &'a BTreeMap<String, String>,
    edits: Vec<Edit>,
    notes: BTreeSet<String>,
    loops: Vec<(usize, usize, usize, bool, bool)>, // body '{' pos, expr start(pat/iter), kind: for?
    for_iters: Vec<Option<usize>>,
    closures: Vec<ClosureInfo>,
    stmts: Vec<(usize, usize)>,
    lits: BTreeSet<String>,
    assoc: BTreeMap<String, String>,
    locals: BTreeSet<String>,
}

#[derive(Clone)]
struct ClosureInfo {
    full: (usize, usize),
    bar1: usize,
    bar2_end: usize,
    body: (usize, usize),
    is_move: bool,
    body_is_block: bool,
    params: Vec<String>,
    has_ret: bool,
}

impl<'a> Ctx<'a> {
    fn edit(&mut self, start: usize, end: usize, text: impl Into<String>) {
        let seq = self.edits.len();
        self.edits.push(Edit { start, end, text: text.into(), seq });
    }
    fn map_first(&mut self, leading: Option<Span>, id: &proc_macro2::Ident, more: bool) {
        if !more {
            return;
        }
        let name = id.to_string();
        if let Some(t) = self.prefixes.get(&name).cloned() {
            let (mut s, e) = rng(id.span());
            if let Some(l) = leading {
                s = rng(l).0;
            }
            self.notes.insert(format!("path prefix {name}:: -> {t}::"));
            self.edit(s, e, t);
        }
    }
}

impl<'a> Ctx<'a> {
    /// a tuple variant used as a function value becomes a closure
    fn eta(&mut self, a: &syn::Expr) {
        if let syn::Expr::Path(p) = a {
            let last = p.path.segments.last().unwrap().ident.to_string();
            if last.chars().next().is_some_and(char::is_uppercase) && p.path.segments.len() >= 1 {
                let (s, e) = rng(p.span());
                let c = self.src[s..e].to_string();
                self.notes.insert("a constructor used as a function value is written as a closure".into());
                self.edit(s, e, format!("|vx_x| -> (vx_r: _) ensures crate::xstd::same(vx_r, {c}(vx_x)) {{ {c}(vx_x) }}"));
            }
        }
    }
}

impl<'a, 'ast> Visit<'ast> for Ctx<'a> {
    fn visit_attribute(&mut self, a: &'ast syn::Attribute) {
        let (s, e) = rng(a.span());
        self.edit(s, e, "");
    }
    fn visit_path(&mut self, p: &'ast syn::Path) {
        // Self::Err and the like for de-traited impls
        if p.segments.len() == 2 && p.segments[0].ident == "Self" {
            if let Some(t) = self.assoc.get(&p.segments[1].ident.to_string()).cloned() {
                let (s, e) = rng(p.span());
                self.edit(s, e, t);
                return;
            }
        }
        if p.segments.len() == 2 && p.leading_colon.is_none() {
            let k = format!("{}::{}", p.segments[0].ident, p.segments[1].ident);
            if let Some(t) = self.prefixes.get(&k).cloned() {
                let (s, _) = rng(p.span());
                let e = rng(p.segments[1].ident.span()).1;
                self.notes.insert(format!("path {k} -> {t}"));
                self.edit(s, e, t);
                return;
            }
        }
        if let Some(f) = p.segments.first() {
            self.map_first(p.leading_colon.map(|x| x.span()), &f.ident, p.segments.len() > 1);
        }
        syn::visit::visit_path(self, p);
    }
    fn visit_item_use(&mut self, u: &'ast syn::ItemUse) {
        if let syn::UseTree::Path(p) = &u.tree {
            self.map_first(u.leading_colon.map(|x| x.span()), &p.ident, true);
        }
    }
    fn visit_expr_method_call(&mut self, m: &'ast syn::ExprMethodCall) {
        let name = m.method.to_string();
        // f.write_fmt(format_args!(...))
        if name == "write_fmt" {
            if let Some(syn::Expr::Macro(mac)) = m.args.first() {
                if mac.mac.path.is_ident("format_args") {
                    let recv = rng(m.receiver.span());
                    let whole = rng(m.span());
                    let recv_txt = self.src[recv.0..recv.1].to_string();
                    if self.format_args(
                        whole,
                        &mac.mac,
                        "{ let mut f_ = crate::xstd::fmt::Formatter::vx_new(); ",
                        &format!("{recv_txt}.write_str(f_.vx_finish().as_str()) }}"),
                    ) {
                        self.notes.insert("write! desugared into Display calls on a buffer".into());
                        return;
                    }
                }
            }
        }
        if ["map", "map_err", "and_then", "or_else", "map_or"].contains(&name.as_str()) {
            for a in &m.args {
                self.eta(a);
            }
        }
        let arity = format!("{name}/{}", m.args.len());
        if let Some(n) = self.renames.get(&name).or_else(|| self.renames.get(&arity)).cloned() {
            let (s, e) = rng(m.method.span());
            self.notes.insert(format!("method {name} -> {n}"));
            self.edit(s, e, n);
        }
        syn::visit::visit_expr_method_call(self, m);
    }
    fn visit_expr_call(&mut self, c: &'ast syn::ExprCall) {
        let f = toks(&c.func);
        if matches!(f.rsplit("::").next().unwrap_or(""), "map" | "map_res" | "map_opt") && c.args.len() == 2 {
            self.eta(&c.args[1]);
        }
        if f.ends_with("must_use") && c.args.len() == 1 {
            let a = toks(&c.args[0]);
            if a.contains("format(format_args!") {
                struct F<'x>(Option<&'x syn::Macro>);
                impl<'x> Visit<'x> for F<'x> {
                    fn visit_macro(&mut self, m: &'x syn::Macro) {
                        if self.0.is_none() && m.path.is_ident("format_args") {
                            self.0 = Some(m);
                        }
                    }
                }
                let mut ff = F(None);
                ff.visit_expr(&c.args[0]);
                if let Some(mac) = ff.0 {
                    let whole = rng(c.span());
                    if self.format_args(
                        whole,
                        mac,
                        "{ let mut f_ = crate::xstd::fmt::Formatter::vx_new(); ",
                        "f_.vx_finish() }",
                    ) {
                        self.notes.insert("format! desugared into Display calls on a buffer".into());
                        return;
                    }
                }
            }
        }
        syn::visit::visit_expr_call(self, c);
    }
    fn visit_expr_closure(&mut self, c: &'ast syn::ExprClosure) {
        let body = rng(c.body.span());
        self.closures.push(ClosureInfo {
            full: rng(c.span()),
            bar1: rng(c.or1_token.span()).0,
            bar2_end: rng(c.or2_token.span()).1,
            body,
            is_move: c.capture.is_some(),
            body_is_block: matches!(&*c.body, syn::Expr::Block(_)),
            params: c
                .inputs
                .iter()
                .map(|p| {
                    let (s, e) = rng(p.span());
                    self.src[s..e].to_string()
                })
                .collect(),
            has_ret: !matches!(c.output, syn::ReturnType::Default),
        });
        syn::visit::visit_expr_closure(self, c);
    }
    fn visit_expr_match(&mut self, m: &'ast syn::ExprMatch) {
        if let Some(conds) = slice_conds(m) {
            let e = rng(m.expr.span());
            let whole = rng(m.span());
            self.edit(whole.0, e.0, "{ let s_ = ");
            self.visit_expr(&m.expr);
            let mut pos = e.1;
            let mut lead = "; ".to_string();
            for (a, c) in m.arms.iter().zip(&conds) {
                let b = rng(a.body.span());
                match c {
                    Some(c) => self.edit(pos, b.0, format!("{lead}if {c} {{ ")),
                    None => self.edit(pos, b.0, format!("{lead}{{ ")),
                }
                self.visit_expr(&a.body);
                pos = b.1;
                lead = " } else ".into();
            }
            self.edit(pos, whole.1, " } }");
            self.notes.insert("match on slice patterns desugared into if/else on length and elements".into());
            return;
        }
        syn::visit::visit_expr_match(self, m);
    }
    fn visit_expr_for_loop(&mut self, l: &'ast syn::ExprForLoop) {
        let b = rng(l.body.span()).0;
        let it = rng(l.expr.span()).0;
        self.loops.push((b, it, 0, true, false));
        // `for x in self.a.iter()` walks what `for x in &self.a` walks
        if let syn::Expr::MethodCall(m) = &*l.expr {
            if m.method == "iter" && m.args.is_empty() && matches!(&*m.receiver, syn::Expr::Field(_)) {
                self.edits.push(Edit { start: it, end: it, text: "&".into(), seq: usize::MAX });
                self.edit(rng(m.receiver.span()).1, rng(m.span()).1, "");
                self.notes.insert("`for x in a.b.iter()` written as `for x in &a.b`".into());
                self.visit_pat(&l.pat);
                self.visit_expr(&m.receiver);
                self.visit_block(&l.body);
                return;
            }
        }
        syn::visit::visit_expr_for_loop(self, l);
    }
    fn visit_expr_while(&mut self, l: &'ast syn::ExprWhile) {
        let b = rng(l.body.span()).0;
        self.loops.push((b, 0, 0, false, false));
        syn::visit::visit_expr_while(self, l);
    }
    fn visit_expr_loop(&mut self, l: &'ast syn::ExprLoop) {
        let b = rng(l.body.span()).0;
        self.loops.push((b, 0, 0, false, true));
        syn::visit::visit_expr_loop(self, l);
    }
    fn visit_stmt(&mut self, s: &'ast syn::Stmt) {
        if let syn::Stmt::Item(syn::Item::Fn(f)) = s {
            // nested functions are emitted on their own, next to the enclosing one
            let (a, b) = rng(f.span());
            self.edit(a, b, "");
            return;
        }
        self.stmts.push(rng(s.span()));
        syn::visit::visit_stmt(self, s);
    }
    fn visit_lit_str(&mut self, l: &'ast syn::LitStr) {
        let (s, e) = rng(l.span());
        self.lits.insert(self.src[s..e].to_string());
    }
}

/// Conditions for a match whose arms are slices of literals followed by one `_`.
fn slice_conds(m: &syn::ExprMatch) -> Option<Vec<Option<String>>> {
    let mut out = vec![];
    let n = m.arms.len();
    let mut slices = 0;
    for (i, a) in m.arms.iter().enumerate() {
        if a.guard.is_some() {
            return None;
        }
        match &a.pat {
            syn::Pat::Slice(s) => {
                let mut c = format!("s_.len() == {}", s.elems.len());
                for (k, e) in s.elems.iter().enumerate() {
                    match e {
                        syn::Pat::Lit(l) => c.push_str(&format!(" && s_[{k}] == {}", l.to_token_stream())),
                        _ => return None,
                    }
                }
                slices += 1;
                out.push(Some(c));
            }
            syn::Pat::Wild(_) if i == n - 1 => out.push(None),
            _ => return None,
        }
    }
    if slices > 0 && out.last() == Some(&None) { Some(out) } else { None }
}

fn split_args(ts: proc_macro2::TokenStream) -> Option<(syn::LitStr, Vec<syn::Expr>)> {
    use syn::parse::Parser;
    let p = syn::punctuated::Punctuated::<syn::Expr, syn::Token![,]>::parse_terminated;
    let xs = p.parse2(ts).ok()?;
    let mut it = xs.into_iter();
    let f = it.next()?;
    let lit = match f {
        syn::Expr::Lit(syn::ExprLit { lit: syn::Lit::Str(s), .. }) => s,
        _ => return None,
    };
    Some((lit, it.collect()))
}

impl<'a> Ctx<'a> {
    /// Rewrites format_args!("..{0}..{1:02}..", a, b) into a sequence of calls, leaving the text
    /// of the arguments in place so that edits inside them still apply.
    fn format_args(&mut self, whole: (usize, usize), mac: &syn::Macro, pre: &str, post: &str) -> bool {
        let Some((lit, args)) = split_args(mac.tokens.clone()) else { return false };
        let fmt = lit.value();
        // pieces
        let mut pieces: Vec<(String, Option<(usize, String)>)> = Vec::new();
        let mut cur = String::new();
        let cs: Vec<char> = fmt.chars().collect();
        let mut i = 0;
        let mut next = 0usize;
        while i < cs.len() {
            match cs[i] {
                '{' if i + 1 < cs.len() && cs[i + 1] == '{' => {
                    cur.push('{');
                    i += 2;
                }
                '}' if i + 1 < cs.len() && cs[i + 1] == '}' => {
                    cur.push('}');
                    i += 2;
                }
                '{' => {
                    let mut j = i + 1;
                    while j < cs.len() && cs[j] != '}' {
                        j += 1;
                    }
                    let inner: String = cs[i + 1..j].iter().collect();
                    let (pos, spec) = match inner.split_once(':') {
                        Some((a, b)) => (a.to_string(), b.to_string()),
                        None => (inner.clone(), String::new()),
                    };
                    let idx = if pos.is_empty() {
                        next += 1;
                        next - 1
                    } else {
                        match pos.parse::<usize>() {
                            Ok(n) => n,
                            Err(_) => return false,
                        }
                    };
                    pieces.push((std::mem::take(&mut cur), Some((idx, spec))));
                    i = j + 1;
                }
                c => {
                    cur.push(c);
                    i += 1;
                }
            }
        }
        if !cur.is_empty() {
            pieces.push((cur, None));
        }
        // arguments must be used in order, once each
        let order: Vec<usize> = pieces.iter().filter_map(|p| p.1.as_ref().map(|x| x.0)).collect();
        if order != (0..args.len()).collect::<Vec<_>>() {
            return false;
        }
        let mut pos = whole.0;
        let mut text = pre.to_string();
        let mut k = 0;
        for (l, arg) in &pieces {
            if !l.is_empty() {
                let q = format!("{:?}", l);
                self.lits.insert(q.clone());
                text.push_str(&format!("f_.vx_lit({q}); "));
            }
            if let Some((_, spec)) = arg {
                let m = match spec.as_str() {
                    "" => "vx_arg",
                    "02" => "vx_arg02",
                    ".1" => "vx_argp1",
                    "?" | "#?" => "vx_argdebug",
                    _ => return false,
                };
                let r = rng(args[k].span());
                text.push_str(&format!("crate::xstd::fmt::{m}(&mut f_, &("));
                self.edit(pos, r.0, std::mem::take(&mut text));
                self.visit_expr_in_place(&args[k]);
                pos = r.1;
                text = ")); ".to_string();
                k += 1;
            }
        }
        text.push_str(post);
        self.edit(pos, whole.1, text);
        true
    }
    fn visit_expr_in_place(&mut self, e: &syn::Expr) {
        // Safe: the visitor only records spans and strings.
        let mut sub = Ctx {
            src: self.src,
            renames: self.renames,
            prefixes: self.prefixes,
            edits: vec![],
            notes: BTreeSet::new(),
            loops: vec![],
            for_iters: vec![],
            closures: vec![],
            stmts: vec![],
            lits: BTreeSet::new(),
            assoc: self.assoc.clone(),
            locals: BTreeSet::new(),
        };
        sub.visit_expr(e);
        for ed in sub.edits {
            self.edit(ed.start, ed.end, ed.text);
        }
        self.notes.extend(sub.notes);
        self.lits.extend(sub.lits);
        self.closures.extend(sub.closures);
        self.loops.extend(sub.loops);
    }
}

fn apply(src: &str, range: (usize, usize), edits: &[Edit]) -> Result<String, String> {
    let mut es: Vec<Edit> = edits.iter().filter(|e| e.start >= range.0 && e.end <= range.1).cloned().collect();
    es.sort_by_key(|e| (e.start, e.end, e.seq));
    let mut out = String::new();
    let mut pos = range.0;
    for e in es {
        if e.start < pos {
            return Err(format!("overlapping edits at {} ({:?})", e.start, &src[e.start..e.end]));
        }
        out.push_str(&src[pos..e.start]);
        out.push_str(&e.text);
        pos = e.end;
    }
    out.push_str(&src[pos..range.1]);
    Ok(out)
}

// ---------------------------------------------------------------- template

#[derive(Default, Debug, Clone)]
struct Spec {
    ret: Option<String>,
    clauses: String,
    loops: BTreeMap<usize, (String, String)>,
    loopheads: BTreeMap<usize, String>,
    closures: BTreeMap<usize, (String, String)>,
    head: String,
    before: Vec<(String, String)>,
    subs: Vec<(String, String)>,
    attrs: String,
    nobody: bool,
    by: Option<String>,
    noreveal: bool,
    keepbody: bool,
    asname: Option<String>,
    nloops: Option<usize>,
    tail: String,
    decl: bool,
}

fn parse_spec(lines: &[String]) -> Spec {
    let mut sp = Spec::default();
    enum T {
        Cl,
        Loop(usize),
        LoopHead(usize),
        Clo(usize),
        Head,
        Tail,
        Before(usize),
    }
    let mut t = T::Cl;
    for l in lines {
        if let Some(d) = l.trim_start().strip_prefix("//@") {
            let d = d.trim();
            let (k, rest) = d.split_once(' ').unwrap_or((d, ""));
            let rest = rest.trim();
            match k {
                "ret" => sp.ret = Some(rest.to_string()),
                "as" => sp.asname = Some(rest.to_string()),
                "loop" => {
                    let (n, it) = rest.split_once(' ').unwrap_or((rest, ""));
                    let n: usize = n.parse().unwrap();
                    sp.loops.insert(n, (it.trim().to_string(), String::new()));
                    t = T::Loop(n);
                }
                "loophead" => {
                    let n: usize = rest.parse().unwrap();
                    sp.loopheads.insert(n, String::new());
                    t = T::LoopHead(n);
                }
                "closure" => {
                    let (n, hd) = rest.split_once(' ').unwrap_or((rest, ""));
                    let n: usize = n.parse().unwrap();
                    sp.closures.insert(n, (hd.trim().to_string(), String::new()));
                    t = T::Clo(n);
                }
                "head" => t = T::Head,
                "tail" => t = T::Tail,
                "before" => {
                    sp.before.push((rest.to_string(), String::new()));
                    t = T::Before(sp.before.len() - 1);
                }
                "sub" => {
                    let (a, b) = rest.split_once("=>").expect("sub a => b");
                    sp.subs.push((a.trim().to_string(), b.trim().to_string()));
                }
                "attr" => {
                    sp.attrs.push_str(rest);
                    sp.attrs.push('\n');
                }
                "nobody" => sp.nobody = true,
                // proved in another unit
                "by" => sp.by = Some(rest.to_string()),
                "decl" => sp.decl = true,
                "noreveal" => sp.noreveal = true,
                "keep" => sp.keepbody = true,
                _ => panic!("unknown sub-directive {l}"),
            }
            continue;
        }
        let tgt = match &t {
            T::Cl => &mut sp.clauses,
            T::Loop(n) => &mut sp.loops.get_mut(n).unwrap().1,
            T::LoopHead(n) => sp.loopheads.get_mut(n).unwrap(),
            T::Clo(n) => &mut sp.closures.get_mut(n).unwrap().1,
            T::Head => &mut sp.head,
            T::Tail => &mut sp.tail,
            T::Before(i) => &mut sp.before[*i].1,
        };
        tgt.push_str(l);
        tgt.push('\n');
    }
    sp
}

struct Gen<'a> {
    src: &'a str,
    ix: Index<'a>,
    renames: BTreeMap<String, String>,
    prefixes: BTreeMap<String, String>,
    out: String,
    fns: Vec<serde_json::Value>,
    problems: Vec<String>,
    notes: BTreeSet<String>,
    canary: bool,
    wanted: BTreeSet<String>,
    emitted: BTreeSet<String>,
    props: String,
    ranges: Vec<serde_json::Value>,
    range0: usize,
    trust: BTreeSet<String>,
    elsewhere: Option<String>,
}

impl<'a> Gen<'a> {
    fn end_range(&mut self) {
        let l = self.line();
        if !self.props.is_empty() {
            self.ranges.push(serde_json::json!({"line0": self.range0, "line1": l, "props": self.props}));
        }
        self.range0 = l;
    }
    fn ctx(&self) -> Ctx<'a> {
        // renames / prefixes are leaked once: tiny, and keeps lifetimes simple
        Ctx {
            src: self.src,
            renames: Box::leak(Box::new(self.renames.clone())),
            prefixes: Box::leak(Box::new(self.prefixes.clone())),
            edits: vec![],
            notes: BTreeSet::new(),
            loops: vec![],
            for_iters: vec![],
            closures: vec![],
            stmts: vec![],
            lits: BTreeSet::new(),
            assoc: BTreeMap::new(),
            locals: BTreeSet::new(),
        }
    }
    fn line(&self) -> usize {
        self.out.matches('\n').count() + 1
    }
    fn emit_fn(&mut self, label: &str, f: FnRef<'a>, sp: Option<&Spec>, assoc: &BTreeMap<String, String>) {
        let dflt = Spec::default();
        let mut forced = sp.unwrap_or(&dflt).clone();
        if self.trust.contains(label) {
            forced.nobody = true;
        }
        let by = forced.by.clone().or(self.elsewhere.clone()).filter(|_| !forced.nobody);
        if by.is_some() {
            forced.nobody = true;
        }
        let spec = &forced;
        let mut cx = self.ctx();
        cx.assoc = assoc.clone();
        for a in f.attrs {
            cx.visit_attribute(a);
        }
        cx.visit_signature(f.sig);
        let lits_before = cx.lits.len();
        let _ = lits_before;
        let mut uncontracted = sp.is_none();
        if let Some(b) = f.block {
            if !spec.nobody {
                cx.visit_block(b);
                for s in &b.stmts {
                    if let syn::Stmt::Item(syn::Item::Fn(n)) = s {
                        self.wanted.insert(format!("{label}::{}", n.sig.ident));
                    }
                }
            }
            self.emitted.insert(label.to_string());
        }
        let mut probs: Vec<String> = vec![];
        // return name
        if let Some(r) = &spec.ret {
            match &f.sig.output {
                syn::ReturnType::Type(_, t) => {
                    let (s, e) = rng(t.span());
                    cx.edit(s, s, format!("({r}: "));
                    cx.edit(e, e, ")");
                }
                syn::ReturnType::Default => {
                    let e = rng(f.sig.paren_token.span.close()).1;
                    cx.edit(e, e, format!(" -> ({r}: ())"));
                }
            }
        }
        if let Some(n) = &spec.asname {
            let (s, e) = rng(f.sig.ident.span());
            cx.edit(s, e, n.clone());
        }
        // clauses go right before the body's brace (or the semicolon)
        let head_end = match f.block {
            Some(b) => rng(b.brace_token.span.open()).0,
            None => f.full.1 - 1,
        };
        let clauses = spec.clauses.clone();
        if !clauses.trim().is_empty() {
            cx.edit(head_end, head_end, format!("\n{clauses}"));
        }
        if let Some(b) = f.block {
            if spec.nobody {
                let (s, e) = (rng(b.brace_token.span.open()).0, rng(b.brace_token.span.close()).1);
                cx.edits.retain(|x| x.end <= s && !(x.start == head_end && x.end == head_end));
                if !clauses.trim().is_empty() {
                    cx.edit(head_end, head_end, format!("\n{clauses}"));
                }
                cx.edit(s, e, "{ unimplemented!() }");
            } else {
                let open = rng(b.brace_token.span.open()).1;
                let mut head = String::new();
                for u in &f.uses {
                    let mut c2 = self.ctx();
                    if let Ok(syn::Item::Use(_)) = syn::parse_str::<syn::Item>(&self.src[u.0..u.1]) {
                        let mut t = self.src[u.0..u.1].to_string();
                        let first = t[4..].trim_start().trim_start_matches("::");
                        let seg: String = first.chars().take_while(|c| c.is_alphanumeric() || *c == '_').collect();
                        if let Some(to) = c2.prefixes.get(&seg) {
                            t = format!("use {}{}", to, &first[seg.len()..]);
                        }
                        head.push_str(&t);
                        head.push('\n');
                    }
                    c2.edits.clear();
                }
                if !spec.noreveal && !cx.lits.is_empty() {
                    head.push_str("\nproof {");
                    for l in &cx.lits {
                        head.push_str(&format!(" reveal_strlit({l});"));
                    }
                    head.push_str(" }\n");
                }
                // `hide(..)` statements have to come first
                let (hides, rest): (Vec<&str>, Vec<&str>) = spec.head.lines().partition(|l| l.trim_start().starts_with("hide("));
                if !hides.is_empty() {
                    head = format!("\n{}\n{head}", hides.join("\n"));
                }
                head.push_str(&rest.join("\n"));
                head.push('\n');
                if self.canary && sp.is_some() {
                    head.push_str(" proof { assert(false); } ");
                }
                if !head.is_empty() {
                    cx.edit(open, open, head);
                }
                if !spec.tail.is_empty() {
                    let close = rng(b.brace_token.span.close()).0;
                    let value = !matches!(&f.sig.output, syn::ReturnType::Default);
                    match b.stmts.last() {
                        Some(syn::Stmt::Expr(e, None)) if value => {
                            // the result gets a name, so that the proof can speak of it
                            let (s, t) = rng(e.span());
                            cx.edit(s, s, "let vx_r = ");
                            cx.edit(t, t, format!(";\n{}\nvx_r", spec.tail));
                        }
                        _ => cx.edit(close, close, spec.tail.clone()),
                    }
                }
                // loops
                let loops = cx.loops.clone();
                for (n, l) in loops.iter().enumerate() {
                    match spec.loops.get(&n) {
                        Some((it, inv)) => {
                            if l.3 && !it.is_empty() {
                                cx.edit(l.1, l.1, format!("{it}: "));
                            }
                            cx.edit(l.0, l.0, format!("\n{inv}"));
                        }
                        None => {
                            probs.push(format!("{label}: loop {n} has no annotation"));
                        }
                    }
                }
                for (n, h) in &spec.loopheads {
                    if let Some(l) = loops.get(*n) {
                        cx.edit(l.0 + 1, l.0 + 1, format!("\n{h}"));
                    }
                }
                for n in spec.loops.keys() {
                    if *n >= loops.len() {
                        probs.push(format!("{label}: annotated loop {n} is gone"));
                    }
                }
                // closures, in source order
                let mut cl = cx.closures.clone();
                cl.sort_by_key(|c| c.full.0);
                for (n, c) in cl.iter().enumerate() {
                    match spec.closures.get(&n) {
                        Some((hd, text)) => {
                            // hd: |x: T, y: U| -> (r: R)   or   "" (left alone)
                            if hd.is_empty() {
                                continue;
                            }
                            // a test that was turned round: `is_none` for `is_some`, or the reverse
                            let body = self.src[c.body.0..c.body.1].trim();
                            let text = if text.contains(" is None") && body.ends_with(".is_some()") {
                                text.replace(" is None", " is Some")
                            } else if text.contains(" is Some") && body.ends_with(".is_none()") {
                                text.replace(" is Some", " is None")
                            } else {
                                text.clone()
                            };
                            cx.edit(c.bar1, c.body.0, format!("{hd}\n{text} {{ {}", {
                                // patterns in parameters are bound inside the body
                                let mut s = String::new();
                                let names = param_names(hd);
                                if names.len() != c.params.len() {
                                    probs.push(format!("{label}: closure {n} takes {} parameters", c.params.len()));
                                } else {
                                    for (nm, p) in names.iter().zip(&c.params) {
                                        let pat = p.split(": ").next().unwrap().trim().to_string();
                                        if &pat != nm && pat != "_" {
                                            s.push_str(&format!("let {pat} = {nm}; "));
                                        }
                                    }
                                }
                                s
                            }));
                            cx.edit(c.body.1, c.body.1, " }");
                            let _ = (c.is_move, c.body_is_block, c.has_ret);
                        }
                        None => {
                            probs.push(format!("{label}: closure {n} has no annotation"));
                        }
                    }
                }
                for n in spec.closures.keys() {
                    if *n >= cl.len() {
                        probs.push(format!("{label}: annotated closure {n} is gone"));
                    }
                }
                for (snip, text) in &spec.before {
                    let want = strip(snip);
                    let mut best: Option<(usize, usize)> = None;
                    for s in &cx.stmts {
                        if strip(&self.src[s.0..s.1]).starts_with(&want) {
                            let better = match best {
                                None => true,
                                Some(b) => s.1 - s.0 < b.1 - b.0,
                            };
                            if better {
                                best = Some(*s);
                            }
                        }
                    }
                    match best {
                        Some(s) => cx.edit(s.0, s.0, text.clone()),
                        None => probs.push(format!("{label}: no statement starts with `{snip}`")),
                    }
                }
            }
        }
        // closures/loops annotated by edits that may overlap with edits inside closure params: drop
        // those inside a replaced closure header
        let hdrs: Vec<(usize, usize)> = cx
            .closures
            .iter()
            .map(|c| (c.bar1, c.body.0))
            .collect();
        let keep: Vec<Edit> = cx
            .edits
            .iter()
            .filter(|e| {
                !hdrs.iter().any(|h| {
                    e.start >= h.0 && e.end <= h.1 && !(e.start == h.0 && e.end == h.1) && h.0 != h.1
                        && (e.end < h.1 || (e.start < h.1 && e.end == h.1))
                        && cx.edits.iter().any(|x| x.start == h.0 && x.end == h.1)
                })
            })
            .cloned()
            .collect();
        let txt = match apply(self.src, f.full, &keep) {
            Ok(t) => t,
            Err(e) => {
                probs.push(format!("{label}: {e}"));
                self.src[f.full.0..f.full.1].to_string()
            }
        };
        let mut txt = txt;
        for (a, b) in &spec.subs {
            let n = txt.matches(a.as_str()).count();
            if n == 0 {
                if !spec.nobody { probs.push(format!("{label}: substitution `{a}` found nothing")); }
            }
            txt = txt.replace(a.as_str(), b);
            self.notes.insert(format!("{label}: text `{a}` -> `{b}`"));
        }
        let l0 = self.line();
        if !spec.attrs.is_empty() {
            self.out.push_str(&spec.attrs);
        }
        if spec.nobody {
            self.out.push_str("#[verifier::external_body]\n");
        }
        self.out.push_str(txt.trim_start());
        self.out.push('\n');
        let l1 = self.line();
        if spec.nobody {
            uncontracted = false;
        }
        self.notes.extend(cx.notes.iter().cloned());
        let orig0 = self.src[..f.full.0].matches('\n').count() + 1;
        self.fns.push(serde_json::json!({
            "fn": label, "line0": l0, "line1": l1, "contract": sp.is_some() && !spec.nobody && (!clauses.trim().is_empty() || spec.keepbody),
            "trusted": spec.nobody, "proved_by": by, "uncontracted": uncontracted, "expanded_line": orig0, "props": self.props,
        }));
        self.problems.extend(probs);
    }
    /// A trait method's signature and contract, without the default body.
    fn emit_decl(&mut self, label: &str, f: FnRef<'a>, sp: &Spec) {
        let n0 = self.fns.len();
        let at = self.out.len();
        let mut s2 = sp.clone();
        s2.decl = false;
        self.emit_fn(label, f, Some(&s2), &BTreeMap::new());
        // the text ends with the body's opening brace
        let t = self.out[at..].trim_end().trim_end_matches('{').to_string();
        self.out.truncate(at);
        self.out.push_str(&t);
        self.out.push_str(";\n");
        self.fns.truncate(n0);
    }
    fn emit_item(&mut self, path: &str) {
        let Some(it) = self.ix.items.get(path).copied() else {
            self.problems.push(format!("item {path} not found"));
            return;
        };
        let mut cx = self.ctx();
        cx.visit_item(it);
        // contracts speak about fields: private ones become public (visibility only)
        if let syn::Item::Enum(syn::ItemEnum { vis: syn::Visibility::Restricted(v), .. }) | syn::Item::Struct(syn::ItemStruct { vis: syn::Visibility::Restricted(v), .. }) = it {
            use syn::spanned::Spanned;
            let r = v.span().byte_range();
            cx.edit(r.start, r.end, "pub");
        }
        if let syn::Item::Struct(st) = it {
            for f in &st.fields {
                if matches!(f.vis, syn::Visibility::Inherited) {
                    let at = match &f.ident { Some(id) => rng(id.span()).0, None => rng(f.ty.span()).0 };
                    cx.edit(at, at, "pub ");
                    cx.notes.insert(format!("fields of {path} made public"));
                }
            }
        }
        let full = rng(it.span());
        match apply(self.src, full, &cx.edits) {
            Ok(t) => {
                self.out.push_str(t.trim_start());
                self.out.push('\n');
            }
            Err(e) => self.problems.push(format!("{path}: {e}")),
        }
        self.notes.extend(cx.notes);
    }
}

fn param_names(hd: &str) -> Vec<String> {
    // "move |a: T, b: U| -> (r: R)" -> [a, b]; nesting of <> () [] respected
    let Some(a) = hd.find('|') else { return vec![] };
    let Some(b) = hd[a + 1..].find('|') else { return vec![] };
    let inner = &hd[a + 1..a + 1 + b];
    let mut depth = 0;
    let mut cur = String::new();
    let mut out = vec![];
    for c in inner.chars() {
        match c {
            '<' | '(' | '[' => depth += 1,
            '>' | ')' | ']' => depth -= 1,
            ',' if depth == 0 => {
                out.push(std::mem::take(&mut cur));
                continue;
            }
            _ => {}
        }
        cur.push(c);
    }
    if !cur.trim().is_empty() {
        out.push(cur);
    }
    out.iter().map(|s| s.split(':').next().unwrap().trim().to_string()).collect()
}

fn fn_of<'a>(it: &'a syn::Item) -> Option<FnRef<'a>> {
    match it {
        syn::Item::Fn(f) => Some(FnRef { attrs: &f.attrs, sig: &f.sig, block: Some(&f.block), full: rng(f.span()), uses: vec![] }),
        _ => None,
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let src = std::fs::read_to_string(&args[2]).expect("expanded source");
    let file = match syn::parse_file(&src) {
        Ok(f) => f,
        Err(e) => {
            eprintln!("vx: cannot parse {}: {e}", args[2]);
            std::process::exit(3);
        }
    };
    let mut ix = Index::default();
    index(&file.items, "crate", &mut ix);
    if args[1] == "inventory" {
        for (p, it) in &ix.items {
            if matches!(it, syn::Item::Fn(_)) {
                println!("fn {p}");
            }
        }
        for i in &ix.impls {
            let h = impl_header(i.item);
            if is_derived_noise(h.split(" for ").next().unwrap()) {
                continue;
            }
            for x in &i.item.items {
                if let syn::ImplItem::Fn(m) = x {
                    println!("method {} | {} | {}", i.module, h, m.sig.ident);
                }
            }
        }
        return;
    }
    let template = std::fs::read_to_string(&args[3]).expect("template");
    let ren = std::fs::read_to_string(&args[4]).expect("renames");
    let canary = args.iter().any(|a| a == "--canary");
    let mut renames = BTreeMap::new();
    let mut prefixes = BTreeMap::new();
    let mut fields = vec![];
    for l in ren.lines() {
        let w: Vec<&str> = l.split_whitespace().collect();
        match w.as_slice() {
            ["method", a, b] => {
                renames.insert(a.to_string(), b.to_string());
            }
            ["path", a, b] => {
                prefixes.insert(a.to_string(), b.to_string());
            }
            ["known", rest @ ..] => fields.push(rest.join(" ")),
            _ => {}
        }
    }
    let mut g = Gen {
        src: &src,
        ix,
        renames,
        prefixes,
        out: String::new(),
        fns: vec![],
        problems: vec![],
        notes: BTreeSet::new(),
        canary,
        wanted: BTreeSet::new(),
        emitted: BTreeSet::new(),
        props: String::new(),
        ranges: vec![],
        range0: 1,
        elsewhere: None,
        trust: args.iter().zip(args.iter().skip(1)).filter(|(a, _)| *a == "--nobody").map(|(_, b)| b.clone()).collect(),
    };
    // include directives first
    let tdir = std::path::Path::new(&args[3]).parent().unwrap().to_path_buf();
    let mut lines: Vec<String> = vec![];
    fn expand(dir: &std::path::Path, text: &str, lines: &mut Vec<String>) {
        for l in text.lines() {
            if let Some(p) = l.trim_start().strip_prefix("//@ include ") {
                let f = dir.join(p.trim());
                let t = std::fs::read_to_string(&f).unwrap_or_else(|e| panic!("{}: {e}", f.display()));
                expand(dir, &t, lines);
            } else {
                lines.push(l.to_string());
            }
        }
    }
    expand(&tdir, &template, &mut lines);
    let mut i = 0;
    // current impl: (index of impl, methods emitted, detrait, assoc)
    let mut cur: Option<(usize, BTreeSet<String>, BTreeMap<String, String>)> = None;
    let mut cur_trait: Option<String> = None;
    let mut inherit: Option<String> = None;
    while i < lines.len() {
        let l = lines[i].clone();
        let Some(d) = l.trim_start().strip_prefix("//@") else {
            g.out.push_str(&l);
            g.out.push('\n');
            i += 1;
            continue;
        };
        let d = d.trim();
        let (k, rest) = d.split_once(' ').unwrap_or((d, ""));
        let rest = rest.trim().to_string();
        let take_block = |i: &mut usize| -> Vec<String> {
            let mut v = vec![];
            *i += 1;
            while *i < lines.len() {
                let t = lines[*i].trim();
                if t == "//@ end" {
                    break;
                }
                v.push(lines[*i].clone());
                *i += 1;
            }
            v
        };
        match k {
            "item" => g.emit_item(&rest),
            "props" => {
                g.end_range();
                g.props = rest.clone();
            }
            "rename" => {
                let (a, b) = rest.split_once(' ').unwrap();
                g.renames.insert(a.trim().into(), b.trim().into());
            }
            "elsewhere" => g.elsewhere = Some(rest.clone()),
            "here" => g.elsewhere = None,
            "norename" => {
                g.renames.remove(&rest);
            }
            "fn" => {
                let b = take_block(&mut i);
                let sp = parse_spec(&b);
                match g.ix.items.get(&rest).copied().and_then(fn_of) {
                    Some(mut f) => {
                        f.uses = g.ix.nested.get(&rest).cloned().unwrap_or_default();
                        g.emit_fn(&rest, f, Some(&sp), &BTreeMap::new())
                    }
                    None => g.problems.push(format!("function {rest} not found")),
                }
            }
            "impl" => {
                // MOD | HDR [| inherent | header text]
                let p: Vec<&str> = rest.split(" | ").map(|x| x.trim()).collect();
                let want = {
                    let h = p[1];
                    match h.split_once(" for ") {
                        Some((a, b)) => format!("{} for {}", strip(a), strip(b)),
                        None => strip(h),
                    }
                };
                let n = g.ix.impls.iter().position(|x| x.module == p[0] && impl_header(x.item) == want);
                match n {
                    None => {
                        g.problems.push(format!("impl {rest} not found"));
                        cur = None;
                        // skip to endimpl
                        while i < lines.len() && lines[i].trim() != "//@ endimpl" {
                            i += 1;
                        }
                    }
                    Some(n) => {
                        let it = g.ix.impls[n].item;
                        let mut assoc = BTreeMap::new();
                        let inherent = p.get(2) == Some(&"inherent");
                        let mut cx = g.ctx();
                        if inherent {
                            for x in &it.items {
                                if let syn::ImplItem::Type(t) = x {
                                    let (s, e) = rng(t.ty.span());
                                    let mut c2 = g.ctx();
                                    c2.visit_type(&t.ty);
                                    let tx = apply(&src, (s, e), &c2.edits).unwrap();
                                    assoc.insert(t.ident.to_string(), tx);
                                }
                            }
                            let (s, e) = rng(it.self_ty.span());
                            cx.visit_type(&it.self_ty);
                            cx.visit_generics(&it.generics);
                            let gen = if it.generics.params.is_empty() {
                                String::new()
                            } else {
                                let a = rng(it.generics.lt_token.unwrap().span()).0;
                                let b = rng(it.generics.gt_token.unwrap().span()).1;
                                apply(&src, (a, b), &cx.edits).unwrap()
                            };
                            let ty = apply(&src, (s, e), &cx.edits).unwrap();
                            g.out.push_str(&format!("impl{gen} {ty} {{\n"));
                            g.notes.insert(format!("`{}` emitted as inherent methods", want));
                        } else {
                            let open = rng(it.brace_token.span.open()).0;
                            for a in &it.attrs {
                                cx.visit_attribute(a);
                            }
                            cx.visit_generics(&it.generics);
                            if let Some((_, p, _)) = &it.trait_ {
                                cx.visit_path(p);
                            }
                            cx.visit_type(&it.self_ty);
                            let start = rng(it.span()).0;
                            let t = apply(&src, (start, open), &cx.edits).unwrap();
                            g.out.push_str(t.trim());
                            g.out.push_str(" {\n");
                            for x in &it.items {
                                if let syn::ImplItem::Type(t) = x {
                                    let mut c2 = g.ctx();
                                    c2.visit_impl_item_type(t);
                                    let tx = apply(&src, rng(t.span()), &c2.edits).unwrap();
                                    g.out.push_str(&tx);
                                    g.out.push('\n');
                                }
                            }
                        }
                        g.notes.extend(cx.notes);
                        cur = Some((n, BTreeSet::new(), assoc));
                    }
                }
            }
            "method" => {
                let b = take_block(&mut i);
                let sp = parse_spec(&b);
                if let Some(tn) = &cur_trait {
                    let t = g.ix.traits[tn];
                    let m = t.items.iter().find_map(|x| match x {
                        syn::TraitItem::Fn(m) if m.sig.ident == rest => Some(m),
                        _ => None,
                    });
                    match m {
                        Some(m) => {
                            let mut f = FnRef { attrs: &m.attrs, sig: &m.sig, block: m.default.as_ref(), full: rng(m.span()), uses: vec![] };
                            if let (true, Some(b)) = (sp.decl, &m.default) {
                                // the default body is checked where it is inherited
                                f.block = None;
                                f.full.1 = rng(b.span()).0 + 1;
                                g.notes.insert(format!("default body of {tn}::{rest} moved into the impls that inherit it"));
                                g.emit_decl(&format!("{tn}::{rest}"), f, &sp);
                            } else {
                                g.emit_fn(&format!("{tn}::{rest}"), f, Some(&sp), &BTreeMap::new());
                            }
                        }
                        None => g.problems.push(format!("trait method {tn}::{rest} not found")),
                    }
                } else if let Some((n, done, assoc)) = &mut cur {
                    let it = g.ix.impls[*n].item;
                    let label = format!("{} | {} | {}", g.ix.impls[*n].module, impl_header(it), rest);
                    let m = it.items.iter().find_map(|x| match x {
                        syn::ImplItem::Fn(m) if m.sig.ident == rest => Some(m),
                        _ => None,
                    });
                    done.insert(rest.clone());
                    let assoc = assoc.clone();
                    match m {
                        Some(m) => {
                            let f = FnRef { attrs: &m.attrs, sig: &m.sig, block: Some(&m.block), full: rng(m.span()), uses: vec![] };
                            // visibility is kept as written
                            g.emit_fn(&label, f, Some(&sp), &assoc);
                        }
                        None => {
                            let d = inherit.as_ref().and_then(|t| g.ix.traits.get(t).copied()).and_then(|t| {
                                t.items.iter().find_map(|x| match x {
                                    syn::TraitItem::Fn(m) if m.sig.ident == rest && m.default.is_some() => Some(m),
                                    _ => None,
                                })
                            });
                            match d {
                                Some(m) => {
                                    let f = FnRef { attrs: &m.attrs, sig: &m.sig, block: m.default.as_ref(), full: rng(m.span()), uses: vec![] };
                                    g.emit_fn(&format!("{label} (default)"), f, Some(&sp), &assoc);
                                }
                                None => g.problems.push(format!("method {label} not found")),
                            }
                        }
                    }
                } else {
                    g.problems.push(format!("method {rest} outside an impl"));
                }
            }
            "skipmethod" => {
                if let Some((_, done, _)) = &mut cur {
                    for w in rest.split_whitespace() {
                        done.insert(w.to_string());
                    }
                }
            }
            "inherit" => inherit = Some(rest.clone()),
            "endimpl" => {
                inherit = None;
                if let Some((n, done, assoc)) = cur.take() {
                    let it = g.ix.impls[n].item;
                    for x in &it.items {
                        if let syn::ImplItem::Fn(m) = x {
                            if !done.contains(&m.sig.ident.to_string()) {
                                let label = format!("{} | {} | {}", g.ix.impls[n].module, impl_header(it), m.sig.ident);
                                g.problems.push(format!("method {label} has no contract"));
                                let f = FnRef { attrs: &m.attrs, sig: &m.sig, block: Some(&m.block), full: rng(m.span()), uses: vec![] };
                                g.emit_fn(&label, f, None, &assoc);
                            }
                        }
                    }
                    g.out.push_str("}\n");
                }
            }
            "trait" => {
                match g.ix.traits.get(&rest).copied() {
                    Some(t) => {
                        let mut cx = g.ctx();
                        for a in &t.attrs {
                            cx.visit_attribute(a);
                        }
                        cx.visit_generics(&t.generics);
                        let open = rng(t.brace_token.span.open()).0;
                        for b in &t.supertraits {
                            cx.visit_type_param_bound(b);
                        }
                        let tx = apply(&src, (rng(t.span()).0, open), &cx.edits).unwrap();
                        g.out.push_str(tx.trim());
                        g.out.push_str(" {\n");
                        cur_trait = Some(rest.clone());
                    }
                    None => g.problems.push(format!("trait {rest} not found")),
                }
            }
            "endtrait" => {
                cur_trait = None;
                g.out.push_str("}\n");
            }
            "uses" => {
                // the module's own `use` declarations
                for u in g.ix.uses.get(&rest).cloned().unwrap_or_default() {
                    let ext = match &u.tree {
                        syn::UseTree::Path(p) => g.prefixes.contains_key(&p.ident.to_string()),
                        _ => false,
                    };
                    if !ext {
                        continue;
                    }
                    let mut cx = g.ctx();
                    for a in &u.attrs {
                        cx.visit_attribute(a);
                    }
                    cx.visit_item_use(u);
                    match apply(&src, rng(u.span()), &cx.edits) {
                        Ok(t) => {
                            g.out.push_str(t.trim_start());
                            g.out.push('\n');
                        }
                        Err(e) => g.problems.push(e),
                    }
                }
            }
            "newfns" => {
                // new free functions of a module that are not in the inventory of the unchanged tree
                let known: BTreeSet<String> = fields.iter().cloned().collect();
                let names: Vec<String> = g
                    .ix
                    .items
                    .iter()
                    .filter(|(p, it)| {
                        matches!(it, syn::Item::Fn(_))
                            && p.rsplit_once("::").map(|x| x.0) == Some(rest.as_str())
                            && !g.ix.nested.contains_key(*p)
                            && !known.contains(&format!("fn {p}"))
                    })
                    .map(|(p, _)| p.clone())
                    .collect();
                for p in names {
                    let f = fn_of(g.ix.items[&p]).unwrap();
                    g.problems.push(format!("new function {p} has no contract"));
                    g.emit_fn(&p, f, None, &BTreeMap::new());
                }
            }
            "derived" => {
                // PATH | Trait: the contract stated next to this line assumes the compiler's derive
                // PATH | Trait | A B C: and the variants are declared in this order
                let mut parts = rest.split(" | ").map(str::trim);
                let (path, tr) = (parts.next().unwrap(), parts.next().unwrap());
                if let Some(order) = parts.next() {
                    let got = match g.ix.items.get(path) {
                        Some(syn::Item::Enum(e)) => e.variants.iter().map(|v| v.ident.to_string()).collect::<Vec<_>>().join(" "),
                        _ => String::new(),
                    };
                    if got != order {
                        g.problems.push(format!("the variants of {path} are not in the order {order}"));
                    }
                }
                let (m, ty) = path.rsplit_once("::").unwrap();
                let ok = g.ix.impls.iter().any(|x| {
                    x.module == m
                        && impl_header(x.item) == format!("{} for {}", tr.trim(), ty)
                        && x.item.attrs.iter().any(|a| a.path().is_ident("automatically_derived"))
                });
                if !ok {
                    g.problems.push(format!("{tr} of {path} is not derived"));
                }
            }
            "end" => panic!("stray end"),
            _ => panic!("unknown directive {l}"),
        }
        i += 1;
    }
    for w in g.wanted.difference(&g.emitted).cloned().collect::<Vec<_>>() {
        g.problems.push(format!("nested function {w} has no contract"));
    }
    g.end_range();
    std::fs::write(&args[5], &g.out).unwrap();
    let j = serde_json::json!({
        "ranges": g.ranges,
        "functions": g.fns, "problems": g.problems, "rewrites": g.notes,
    });
    std::fs::write(&args[6], serde_json::to_string_pretty(&j).unwrap()).unwrap();
}
