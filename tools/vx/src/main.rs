//! vx: mechanical extractor.  Reads a unit template (Verus text with `/*@ ... @*/` directives),
//! pulls the named items out of the repository's *current* source with `syn`, splices contracts,
//! loop invariants, closure contracts and proof hints into the source text (by byte span - the
//! executable text itself is copied), applies the rewrite rules the template declares, and writes
//! the Verus file plus a JSON map (item -> generated lines, source hash, loop skeleton, rules used).
//!
//! usage: vx TEMPLATE SRC_ROOT OUT.rs OUT.json [--vacuity]
use proc_macro2::Span;
use quote::ToTokens;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use syn::spanned::Spanned;
use syn::visit::{self, Visit};

#[derive(Clone, Debug)]
struct Edit { start: usize, end: usize, text: String, prio: i32, seq: usize }

#[derive(Default, Clone, Debug)]
struct Rules {
    methods: Vec<(String, String, String)>, // name, helper, mode
    calls: Vec<(String, String)>,           // path text -> replacement path
    strip_methods: BTreeSet<String>,
    for_ref: bool,
    index_fields: Vec<(String, String)>,
    str_add: bool,
    rename_methods: Vec<(String, String)>,
    turbofish: Vec<(String, String)>,
    mods: BTreeSet<String>,
    macros: Vec<(String, String)>,
    types: Vec<(String, String)>,
    slicepat: bool,
    segs: Vec<(String, String)>,            // path segment -> replacement
    inline: HashMap<String, String>,        // constant path text -> literal
    range_incl: bool,
    for_continue: bool,
}

#[derive(Default, Clone, Debug)]
struct FnSpec {
    file: String,
    item: String,
    ret: String,
    contract: String,
    opts: BTreeSet<String>,
    loops: BTreeMap<usize, String>,
    loop_iter: BTreeMap<usize, String>,
    closures: BTreeMap<usize, String>,
    at: Vec<(String, String)>,
    deref: BTreeSet<String>,
    rename: Option<String>,
    self_ty: Option<String>,
    sig: Option<String>,
    arms: Vec<(String, String)>,            // slice-pattern key -> call that stands for the arm's body
    byref: BTreeSet<String>,                // locals of the enclosing function that are reference parameters here
    arm: Option<String>,                    // this item is one arm of the function
}

struct Ctx<'a> {
    src: &'a str,
    spec: &'a FnSpec,
    rules: &'a Rules,
    edits: Vec<Edit>,
    seq: usize,
    nloop: usize,
    nclos: usize,
    loop_depth: usize,
    skeleton: Vec<String>,
    used: BTreeMap<String, usize>,
    notes: Vec<String>,
    stmt_stack: Vec<(usize, usize)>,
    call_count: HashMap<String, usize>,
    ret_count: usize,
    hints_done: BTreeSet<String>,
    hash: String,
}

fn br(s: Span) -> (usize, usize) { let r = s.byte_range(); (r.start, r.end) }

impl<'a> Ctx<'a> {
    fn edit(&mut self, start: usize, end: usize, text: impl Into<String>, prio: i32) {
        self.seq += 1;
        let seq = self.seq;
        self.edits.push(Edit { start, end, text: text.into(), prio, seq });
    }
    /// An explicit type argument is part of what a method means: under a rule that replaces the method
    /// only the listed ones are taken over, any other leaves the function outside the verifier's reach.
    fn other_turbofish(&self, m: &syn::ExprMethodCall) -> bool {
        let name = m.method.to_string();
        match &m.turbofish {
            None => false,
            Some(t) => { let a = norm(&t.args.to_token_stream().to_string()); !self.rules.turbofish.iter().any(|(n, ty)| *n == name && *ty == a) }
        }
    }
    fn use_rule(&mut self, r: &str) { *self.used.entry(r.to_string()).or_insert(0) += 1; }
    fn hint(&mut self, key: &str) -> Option<String> {
        let mut out = String::new();
        let mut found = false;
        for (k, v) in &self.spec.at {
            if k == key { out.push_str(v); found = true; }
        }
        if found { self.hints_done.insert(key.to_string()); Some(out) } else { None }
    }
    fn do_loop(&mut self, whole: (usize, usize), body: &syn::Block, for_expr: Option<(usize, usize)>, kind: &str) {
        let n = self.nloop;
        self.nloop += 1;
        let (bs, be) = br(body.span());
        // what the loop runs over or while: its invariants are written for this header
        let head: String = self.src[whole.0..bs].chars().filter(|c| !c.is_whitespace()).collect();
        self.skeleton.push(format!("{}{}#{:04x}", ">".repeat(self.loop_depth), kind, head.bytes().fold(5381u32, |h, b| h.wrapping_mul(33) ^ b as u32) & 0xFFFF));
        if let (Some(it), Some((es, _))) = (self.spec.loop_iter.get(&n), for_expr) {
            let t = format!("{}: ", it);
            self.edit(es, es, t, -40);
        }
        if let Some(inv) = self.spec.loops.get(&n) {
            let t = format!("\n{}\n", inv);
            self.edit(bs, bs, t, 0);
        }
        if let Some(h) = self.hint(&format!("loop {} start", n)) { self.edit(bs + 1, bs + 1, format!("\n{}\n", h), 0); }
        if let Some(h) = self.hint(&format!("loop {} end", n)) { self.edit(be - 1, be - 1, format!("\n{}\n", h), 0); }
        if let Some(h) = self.hint(&format!("loop {} before", n)) { self.edit(whole.0, whole.0, format!("\n{}\n", h), -20); }
        if let Some(h) = self.hint(&format!("loop {} after", n)) { self.edit(whole.1, whole.1, format!("\n{}\n", h), 20); }
    }
    fn call_hint(&mut self, name: &str) {
        let k = *self.call_count.get(name).unwrap_or(&0);
        self.call_count.insert(name.to_string(), k + 1);
        if let Some(&(s, e)) = self.stmt_stack.last() {
            if let Some(h) = self.hint(&format!("call {} {} before", name, k)) { self.edit(s, s, format!("\n{}\n", h), -20); }
            if let Some(h) = self.hint(&format!("call {} {} after", name, k)) { self.edit(e, e, format!("\n{}\n", h), 20); }
        }
    }
    /// a match over the texts of a path with slice patterns, as a chain of conditions
    fn do_slice_match(&mut self, m: &syn::ExprMatch) -> bool {
        let Some(base) = slice_match_base(self.src, m) else { return false };
        let mut keys = vec![];
        for a in &m.arms {
            match arm_key(&a.pat) { Some(k) if a.guard.is_none() => keys.push(k), _ => return false }
        }
        self.skeleton.push(format!("{}match({})", ">".repeat(self.loop_depth), keys.iter().map(|k| k.0.clone()).collect::<Vec<_>>().join(";")));
        self.use_rule("match on a path's texts with slice patterns -> if chain over its elements");
        let (ms, me) = br(m.span());
        let mut prev = ms;
        let mut lead = String::from("{ ");
        for (a, (key, elems)) in m.arms.iter().zip(keys.iter()) {
            let (bs, be) = br(a.body.span());
            let mut head = lead.clone();
            let mut binders = vec![];
            if key == "_" { head.push_str("{ "); } else {
                let open = elems.last().map_or(false, |e| e == "..");
                let fixed: Vec<&String> = elems.iter().filter(|e| *e != "..").collect();
                head.push_str(&format!("if {}.len() {} {}", base, if open { ">=" } else { "==" }, fixed.len()));
                let mut lets = String::new();
                for (i, e) in fixed.iter().enumerate() {
                    if e.starts_with('"') { head.push_str(&format!(" && (match {}[{}].as_str() {{ {} => true, _ => false }})", base, i, e)); }
                    else if *e != "_" { lets.push_str(&format!("let {} = {}[{}].as_str(); ", e, base, i)); binders.push(e.to_string()); }
                }
                head.push_str(&format!(" {{ {}", lets));
            }
            self.edit(prev, bs, head, 0);
            if let Some((_, call)) = self.spec.arms.iter().find(|(k, _)| k == key) {
                let mut c = call.clone();
                for (i, b) in binders.iter().enumerate() { c = c.replace(&format!("${}", i), b); }
                self.use_rule("match arm outlined into a function of its own");
                self.edit(bs, be, c, 0);
            } else { self.visit_expr(&a.body); }
            prev = be;
            lead = String::from(" } else ");
        }
        self.edit(prev, me, " } }", 0);
        for (k, _) in &self.spec.arms { if !keys.iter().any(|x| x.0 == *k) { self.notes.push(format!("arm {} not found", k)); } }
        true
    }
    /// a match of `x[..]` against slices of integer literals, as a chain of conditions
    fn do_number_match(&mut self, m: &syn::ExprMatch) -> bool {
        let t = norm(&m.expr.to_token_stream().to_string());
        let t = t.strip_prefix('&').unwrap_or(&t);
        let Some(base) = t.strip_suffix("[..]") else { return false };
        if base.is_empty() || !base.chars().all(|c| c.is_alphanumeric() || c == '_') { return false }
        let mut conds = vec![];
        for (i, a) in m.arms.iter().enumerate() {
            if a.guard.is_some() { return false }
            match &a.pat {
                syn::Pat::Wild(_) if i + 1 == m.arms.len() => conds.push(String::new()),
                syn::Pat::Slice(p) => {
                    let mut c = format!("{}.len() == {}", base, p.elems.len());
                    for (k, e) in p.elems.iter().enumerate() {
                        match e {
                            syn::Pat::Lit(l) => match &l.lit { syn::Lit::Int(_) => c.push_str(&format!(" && {}{}[{}] == {}", if self.spec.opts.contains("ref-elems") { "*" } else { "" }, base, k, src_of(self.src, l.span()))), _ => return false },
                            syn::Pat::Wild(_) => {}
                            _ => return false,
                        }
                    }
                    conds.push(c);
                }
                _ => return false,
            }
        }
        if conds.last().map_or(true, |c| !c.is_empty()) { return false }
        self.skeleton.push(format!("{}match({})", ">".repeat(self.loop_depth), conds.len()));
        self.use_rule("match on slice patterns of numbers -> if chain over the elements");
        let (ms, me) = br(m.span());
        let mut prev = ms;
        let mut lead = String::new();
        for (a, c) in m.arms.iter().zip(conds.iter()) {
            let (bs, be) = br(a.body.span());
            let head = if c.is_empty() { format!("{}{{ ", lead) } else { format!("{}if {} {{ ", lead, c) };
            self.edit(prev, bs, head, 0);
            self.visit_expr(&a.body);
            prev = be;
            lead = String::from(" } else ");
        }
        self.edit(prev, me, " }", 0);
        true
    }
    fn do_macro(&mut self, m: &syn::Macro) {
        let name = m.path.segments.last().unwrap().ident.to_string();
        let prints = ["println", "eprintln", "print", "eprint", "cprintln", "ceprintln", "cprint"];
        let (ms, me) = br(m.span());
        if prints.contains(&name.as_str()) {
            if self.spec.opts.contains("drop-print") {
                self.use_rule("print macro dropped with its arguments");
                self.edit(ms, me, "{}", 0);
                return;
            }
            let parsed = m.parse_body_with(syn::punctuated::Punctuated::<syn::Expr, syn::Token![,]>::parse_terminated);
            match parsed {
                Ok(args) => {
                    self.use_rule("print macro replaced by evaluation of its arguments");
                    let args: Vec<&syn::Expr> = args.iter().skip(1).collect();
                    if args.is_empty() { self.edit(ms, me, "{}", 0); return; }
                    let mut prev = ms;
                    for (i, a) in args.iter().enumerate() {
                        let (s, e) = br(a.span());
                        self.edit(prev, s, if i == 0 { "{ let _ = &(" } else { "); let _ = &(" }, 0);
                        prev = e;
                        self.visit_expr(a);
                    }
                    self.edit(prev, me, "); }", 0);
                }
                Err(_) => { self.use_rule("print macro dropped"); self.edit(ms, me, "{}", 0); }
            }
            return;
        }
        let mac: Vec<(String, String)> = self.rules.macros.clone();
        for (n, repl) in mac {
            if n == name {
                self.use_rule(&format!("macro {}! -> {}", n, repl));
                self.edit(ms, me, repl, 0);
                return;
            }
        }
        if name == "vec" || name == "assert" || name == "format" || name == "panic" {
            if let Ok(args) = m.parse_body_with(syn::punctuated::Punctuated::<syn::Expr, syn::Token![,]>::parse_terminated) {
                for a in args.iter() { self.visit_expr(a); }
            }
        }
    }
}

impl<'a, 'ast> Visit<'ast> for Ctx<'a> {
    fn visit_stmt(&mut self, s: &'ast syn::Stmt) {
        let r = br(s.span());
        self.stmt_stack.push(r);
        visit::visit_stmt(self, s);
        self.stmt_stack.pop();
    }
    fn visit_attribute(&mut self, a: &'ast syn::Attribute) {
        let (s, e) = br(a.span());
        self.edit(s, e, "", 0);
        self.use_rule("attribute dropped");
    }
    fn visit_expr_for_loop(&mut self, l: &'ast syn::ExprForLoop) {
        let (s, _) = br(l.for_token.span());
        let (_, e) = br(l.body.span());
        if self.rules.for_ref {
            if let syn::Expr::Reference(r) = &*l.expr {
                let (es, ee) = br(l.expr.span());
                self.edit(es, es, "(", -1);
                self.edit(ee, ee, if r.mutability.is_some() { ").iter_mut()" } else { ").iter()" }, 0);
                self.use_rule("for x in &c -> for x in (&c).iter()");
            }
        }
        self.do_loop((s, e), &l.body, Some(br(l.expr.span())), "for");
        if self.rules.for_continue {
            // `if c { continue; } rest` -> `if c { } else { rest }`
            for st in &l.body.stmts {
                if let syn::Stmt::Expr(syn::Expr::If(i), _) = st {
                    if let (None, [syn::Stmt::Expr(syn::Expr::Continue(c), _)]) = (&i.else_branch, &i.then_branch.stmts[..]) {
                        if c.label.is_none() {
                            let (ts, te) = br(i.then_branch.span());
                            self.edit(ts + 1, te - 1, "", 0);
                            let (_, se) = br(st.span());
                            self.edit(te, se, " else {", -30);
                            let (_, be) = br(l.body.span());
                            self.edit(be - 1, be - 1, " }", -30);
                            self.use_rule("if c { continue; } rest -> if c { } else { rest }");
                        }
                    }
                }
            }
        }
        self.visit_pat(&l.pat);
        self.visit_expr(&l.expr);
        self.loop_depth += 1;
        self.visit_block(&l.body);
        self.loop_depth -= 1;
    }
    fn visit_expr_while(&mut self, l: &'ast syn::ExprWhile) {
        let (s, _) = br(l.while_token.span());
        let (_, e) = br(l.body.span());
        self.do_loop((s, e), &l.body, None, "while");
        self.visit_expr(&l.cond);
        self.loop_depth += 1;
        self.visit_block(&l.body);
        self.loop_depth -= 1;
    }
    fn visit_expr_loop(&mut self, l: &'ast syn::ExprLoop) {
        let (s, _) = br(l.loop_token.span());
        let (_, e) = br(l.body.span());
        self.do_loop((s, e), &l.body, None, "loop");
        self.loop_depth += 1;
        self.visit_block(&l.body);
        self.loop_depth -= 1;
    }
    fn visit_expr_match(&mut self, m: &'ast syn::ExprMatch) {
        if slice_match_base(self.src, m).is_some() {
            if let Some((_, call)) = self.spec.arms.iter().find(|(k, _)| k == "*") {
                let (ms, me) = br(m.span());
                self.skeleton.push(format!("{}match(*)", ">".repeat(self.loop_depth)));
                self.use_rule("match on a path's texts outlined into a function of its own");
                self.edit(ms, me, call.clone(), 0);
                return;
            }
        }
        if self.do_slice_match(m) || self.do_number_match(m) { return; }
        visit::visit_expr_match(self, m);
    }
    fn visit_expr_continue(&mut self, c: &'ast syn::ExprContinue) {
        if self.spec.arm.is_some() && self.loop_depth == 0 {
            let (s, e) = br(c.span());
            self.edit(s, e, "return", 0);
            self.use_rule("continue of the enclosing loop -> return of the outlined arm");
        }
    }
    fn visit_expr_path(&mut self, p: &'ast syn::ExprPath) {
        if let Some(id) = p.path.get_ident() {
            if self.spec.byref.contains(&id.to_string()) {
                let (s, e) = br(p.span());
                self.edit(s, e, format!("(*{})", id), 0);
                self.use_rule("local of the enclosing function written through the reference it is passed by");
                return;
            }
        }
        visit::visit_expr_path(self, p);
    }
    fn visit_expr_return(&mut self, r: &'ast syn::ExprReturn) {
        let k = self.ret_count;
        self.ret_count += 1;
        if let Some(h) = self.hint(&format!("return {}", k)) {
            let (s, _) = br(r.span());
            self.edit(s, s, format!("{{ {}\n", h), -20);
            let (_, e) = br(r.span());
            self.edit(e, e, " }", 20);
        }
        visit::visit_expr_return(self, r);
    }
    fn visit_macro(&mut self, m: &'ast syn::Macro) { self.do_macro(m); }
    fn visit_stmt_macro(&mut self, m: &'ast syn::StmtMacro) {
        self.do_macro(&m.mac);
    }
    fn visit_expr_closure(&mut self, c: &'ast syn::ExprClosure) {
        let n = self.nclos;
        self.nclos += 1;
        self.skeleton.push(format!("{}closure", ">".repeat(self.loop_depth)));
        if let Some(h) = self.spec.closures.get(&n) {
            let h = h.clone();
            // header:  (T0, T1) -> (r: T) [requires..] ensures ...   with $0,$1 for the parameters
            let close = match_paren(&h);
            let tys = split_top(&h[1..close]);
            let mut rest = h[close + 1..].to_string();
            let mut params = vec![];
            let mut lets = String::new();
            for (i, p) in c.inputs.iter().enumerate() {
                let (mut pat, _ty) = match p { syn::Pat::Type(t) => ((*t.pat).clone(), Some(())), o => (o.clone(), None) };
                let ty = tys.get(i).cloned().unwrap_or("_".into());
                let name = match &pat {
                    syn::Pat::Ident(id) if id.by_ref.is_none() && id.subpat.is_none() => id.ident.to_string(),
                    _ => {
                        let nm = format!("vx_p{}_{}", n, i);
                        let mut derefs = String::new();
                        while let syn::Pat::Reference(r) = &pat { derefs.push('*'); pat = (*r.pat).clone(); }
                        while let syn::Pat::Paren(r) = &pat { pat = (*r.pat).clone(); }
                        let ptxt = src_of(self.src, pat.span());
                        lets.push_str(&format!("let {} = {}{}; ", ptxt, derefs, nm));
                        self.use_rule("closure pattern parameter bound by a let");
                        nm
                    }
                };
                rest = rest.replace(&format!("${}", i), &name);
                params.push(format!("{}: {}", name, ty));
            }
            let (cs, _) = br(c.or1_token.span());
            let (bs, be) = br(c.body.span());
            self.edit(cs, bs, format!("|{}| {} {{ {}", params.join(", "), rest, lets), -3);
            self.edit(be, be, " }", 3);
            self.visit_expr(&c.body);
        } else {
            visit::visit_expr_closure(self, c);
        }
    }
    fn visit_expr_method_call(&mut self, m: &'ast syn::ExprMethodCall) {
        let name = m.method.to_string();
        self.call_hint(&name);
        let (rs, re) = br(m.receiver.span());
        let (_, me) = br(m.span());
        if self.rules.strip_methods.contains(&name) && !self.spec.opts.contains(&format!("keep-{}", name)) {
            self.use_rule(&format!(".{}() dropped (identity)", name));
            self.edit(re, me, "", 1);
            self.visit_expr(&m.receiver);
            return;
        }
        let mut ren = self.rules.rename_methods.clone();
        // opt rename=FROM:TO: inside this function only
        for o in &self.spec.opts { if let Some((f, t)) = o.strip_prefix("rename=").and_then(|x| x.split_once(':')) { ren.push((f.into(), t.into())); } }
        for (n, to) in ren {
            let (nm, argc) = match n.split_once('/') { Some((a, b)) => (a.to_string(), b.parse::<usize>().ok()), None => (n.clone(), None) };
            if nm == name && argc.map_or(true, |k| k == m.args.len()) {
                if self.spec.opts.contains(&format!("keep-{}", name)) { continue; }
                let (s, e) = br(m.method.span());
                let to = if self.other_turbofish(m) { format!("vp_other_type_{}", name) } else { to };
                self.edit(s, e, to.clone(), 0);
                self.use_rule(&format!(".{}() -> .{}()", n, to));
            }
        }
        let methods = self.rules.methods.clone();
        for (n, helper, mode) in methods {
            // NAME or NAME/argc
            let (nm, argc) = match n.split_once('/') { Some((a, b)) => (a.to_string(), b.parse::<usize>().ok()), None => (n.clone(), None) };
            if nm == name && argc.map_or(true, |k| k == m.args.len()) {
                if self.spec.opts.contains(&format!("keep-{}", name)) { continue; }
                let helper = if self.other_turbofish(m) { format!("vp_other_type_{}", name) } else { helper };
                self.use_rule(&format!(".{}(..) -> {}(..)", n, helper));
                let pre = match mode.as_str() { "mut" => "&mut ", "ref" => "&", _ => "" };
                self.edit(rs, rs, format!("{}({}", helper, pre), -10);
                if m.args.is_empty() {
                    self.edit(re, me, ")", 1);
                } else {
                    let (as_, _) = br(m.args.first().unwrap().span());
                    self.edit(re, as_, ", ", 1);
                }
                self.visit_expr(&m.receiver);
                for a in &m.args { self.visit_expr(a); }
                return;
            }
        }
        visit::visit_expr_method_call(self, m);
    }
    fn visit_expr_call(&mut self, c: &'ast syn::ExprCall) {
        if let syn::Expr::Path(p) = &*c.func {
            let txt = norm(&p.to_token_stream().to_string());
            let last = p.path.segments.last().unwrap().ident.to_string();
            self.call_hint(&last);
            let calls = self.rules.calls.clone();
            for (from, to) in calls {
                if norm(&from) == txt {
                    self.use_rule(&format!("{} -> {}", from, to));
                    let (s, e) = br(p.span());
                    self.edit(s, e, to, 0);
                    for a in &c.args { self.visit_expr(a); }
                    return;
                }
            }
        }
        visit::visit_expr_call(self, c);
    }
    fn visit_path(&mut self, p: &'ast syn::Path) {
        if let Some(l) = self.rules.inline.get(&norm(&p.to_token_stream().to_string())) {
            let (s, e) = br(p.span());
            self.edit(s, e, l.clone(), 0);
            self.use_rule("constant written as its value");
            return;
        }
        let segs: Vec<String> = p.segments.iter().map(|s| s.ident.to_string()).collect();
        let mut k = 0;
        while k + 1 < segs.len() && (self.rules.mods.contains(&segs[k]) || ((segs[k] == "crate" || segs[k] == "super") )) { k += 1; }
        if k > 0 {
            let (s, _) = br(p.span());
            let (e, _) = br(p.segments[k].span());
            self.edit(s, e, "", 0);
            self.use_rule("module path prefix dropped");
        }
        let txt = norm(&p.to_token_stream().to_string());
        let types = self.rules.types.clone();
        for (from, to) in types {
            if norm(&from) == txt {
                let (s, e) = br(p.span());
                self.edit(s, e, to.clone(), 0);
                self.use_rule(&format!("type {} -> {}", from, to));
                return;
            }
        }
        for (from, to) in self.rules.segs.clone() {
            for sg in &p.segments {
                if sg.ident == from.as_str() {
                    let (s, e) = br(sg.ident.span());
                    self.edit(s, e, to.clone(), 0);
                    self.use_rule(&format!("{} -> {}", from, to));
                }
            }
        }
        visit::visit_path(self, p);
    }
    fn visit_expr_index(&mut self, x: &'ast syn::ExprIndex) {
        if let (true, syn::Expr::Range(r)) = (self.rules.range_incl, &*x.index) {
            if let (syn::RangeLimits::Closed(t), Some(e)) = (&r.limits, &r.end) {
                let (s, en) = br(t.span());
                self.edit(s, en, "..", 0);
                let (_, ee) = br(e.span());
                self.edit(ee, ee, " + 1", 10);
                self.use_rule("[a..=b] -> [a..b + 1]");
            }
        }
        if let syn::Expr::Field(f) = &*x.expr {
            if let syn::Member::Named(id) = &f.member {
                let fields = self.rules.index_fields.clone();
                for (name, helper) in fields {
                    if *id == name.as_str() {
                        let (s, e) = br(x.span());
                        let (_, ee) = br(x.expr.span());
                        let (is, ie) = br(x.index.span());
                        self.edit(s, s, format!("(*{}(&", helper), -10);
                        self.edit(ee, is, ", ", 1);
                        self.edit(ie, e, "))", 1);
                        self.use_rule(&format!(".{}[..] -> *{}(..)", name, helper));
                        self.visit_expr(&x.expr);
                        self.visit_expr(&x.index);
                        return;
                    }
                }
            }
        }
        visit::visit_expr_index(self, x);
    }
    fn visit_expr_binary(&mut self, b: &'ast syn::ExprBinary) {
        for side in [&b.left, &b.right] {
            if let syn::Expr::Path(p) = &**side {
                if let Some(id) = p.path.get_ident() {
                    if self.spec.deref.contains(&id.to_string()) {
                        let (s, e) = br(p.span());
                        self.edit(s, e, format!("(*{})", id), 0);
                        self.use_rule("operator on a reference written on the referent");
                    }
                }
            }
        }
        if self.rules.str_add {
            if let (syn::BinOp::Add(op), syn::Expr::Lit(syn::ExprLit { lit: syn::Lit::Str(_), .. })) = (&b.op, &*b.right) {
                let (ls, le) = br(b.left.span());
                let (_, re) = br(b.right.span());
                let _ = op;
                let (rs, _) = br(b.right.span());
                self.edit(ls, ls, "vp_str_add(", -10);
                self.edit(le, rs, ", ", 1);
                self.edit(re, re, ")", 10);
                self.use_rule("string + literal -> vp_str_add(..)");
            }
        }
        visit::visit_expr_binary(self, b);
    }
}

/// `&P.iter().map(|s| s.as_str()).collect::<Vec<_>>().as_slice()` -> P
fn slice_match_base(_src: &str, m: &syn::ExprMatch) -> Option<String> {
    let t = norm(&m.expr.to_token_stream().to_string());
    let t = t.strip_prefix('&').unwrap_or(&t);
    let t = t.strip_suffix(".iter().map(|s|s.as_str()).collect::<Vec<_>>().as_slice()")?;
    if !t.is_empty() && t.chars().all(|c| c.is_alphanumeric() || c == '_' || c == '.') { Some(t.to_string()) } else { None }
}
/// key of a slice pattern: literals as they are, bindings as `_`; and its elements
fn arm_key(p: &syn::Pat) -> Option<(String, Vec<String>)> {
    match p {
        syn::Pat::Wild(_) => Some(("_".into(), vec![])),
        syn::Pat::Slice(s) => {
            let mut el = vec![];
            for (i, e) in s.elems.iter().enumerate() {
                match e {
                    syn::Pat::Lit(l) => match &l.lit { syn::Lit::Str(x) => el.push(format!("{:?}", x.value())), _ => return None },
                    syn::Pat::Ident(i) if i.by_ref.is_none() && i.subpat.is_none() => el.push(i.ident.to_string()),
                    syn::Pat::Wild(_) => el.push("_".into()),
                    syn::Pat::Rest(_) if i + 1 == s.elems.len() => el.push("..".into()),
                    _ => return None,
                }
            }
            let key = el.iter().map(|e| if e == ".." { "..".to_string() } else if e.starts_with('"') { e.trim_matches('"').to_string() } else { "_".to_string() }).collect::<Vec<_>>().join(",");
            Some((key, el))
        }
        _ => None,
    }
}
struct ArmFind<'k, 'f> { key: &'k str, hit: Option<(&'f syn::Arm, Vec<String>)>, whole: Option<&'f syn::ExprMatch> }
impl<'k, 'f> Visit<'f> for ArmFind<'k, 'f> {
    fn visit_expr_match(&mut self, m: &'f syn::ExprMatch) {
        if slice_match_base("", m).is_some() {
            if self.whole.is_none() { self.whole = Some(m); }
            for a in &m.arms {
                if let Some((k, el)) = arm_key(&a.pat) {
                    if k == self.key && self.hit.is_none() { self.hit = Some((a, el.into_iter().filter(|e| !e.starts_with('"') && e != ".." && e != "_").collect())); }
                }
            }
        }
        visit::visit_expr_match(self, m);
    }
}

fn match_paren(h: &str) -> usize {
    let mut d = 0;
    for (i, c) in h.char_indices() {
        match c { '(' | '[' => d += 1, ')' | ']' => { d -= 1; if d == 0 { return i; } } _ => {} }
    }
    h.len() - 1
}
fn split_top(s: &str) -> Vec<String> {
    let mut out = vec![]; let mut d = 0; let mut cur = String::new();
    for c in s.chars() {
        match c { '(' | '[' | '<' => { d += 1; cur.push(c) } ')' | ']' | '>' => { d -= 1; cur.push(c) }
            ',' if d == 0 => { out.push(cur.trim().to_string()); cur.clear() } _ => cur.push(c) }
    }
    if !cur.trim().is_empty() { out.push(cur.trim().to_string()); }
    out
}
fn norm(s: &str) -> String { s.chars().filter(|c| !c.is_whitespace()).collect() }
/// the names a body calls, and "[&]" for an index that is a reference (a map's)
struct Calls(BTreeSet<String>);
impl<'f> Visit<'f> for Calls {
    fn visit_expr_method_call(&mut self, m: &'f syn::ExprMethodCall) { self.0.insert(m.method.to_string()); visit::visit_expr_method_call(self, m); }
    fn visit_expr_call(&mut self, c: &'f syn::ExprCall) {
        if let syn::Expr::Path(p) = &*c.func {
            let n: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
            self.0.insert(n[n.len().saturating_sub(2)..].join("::"));
        }
        visit::visit_expr_call(self, c);
    }
    fn visit_expr_index(&mut self, x: &'f syn::ExprIndex) {
        if matches!(&*x.index, syn::Expr::Reference(_)) { self.0.insert("[&]".into()); }
        visit::visit_expr_index(self, x);
    }
}
fn calls_of(f: impl FnOnce(&mut Calls)) -> BTreeSet<String> { let mut k = Calls(Default::default()); f(&mut k); k.0 }
fn src_of<'a>(src: &'a str, s: Span) -> &'a str { let r = s.byte_range(); &src[r] }

fn apply(src: &str, lo: usize, hi: usize, edits: &[Edit]) -> String {
    let mut es: Vec<&Edit> = edits.iter().filter(|e| e.start >= lo && e.end <= hi).collect();
    // zero-width edits before replacements at same start; by prio then seq
    es.sort_by(|a, b| (a.start, a.prio, (a.end > a.start) as u8, a.seq).cmp(&(b.start, b.prio, (b.end > b.start) as u8, b.seq)));
    let mut out = String::new();
    let mut pos = lo;
    for e in es {
        if e.start < pos { if e.end <= pos { if e.start == e.end && !e.text.is_empty() && e.start == pos {} else { continue; } } else { continue; } }
        out.push_str(&src[pos..e.start]);
        out.push_str(&e.text);
        pos = e.end;
    }
    out.push_str(&src[pos..hi]);
    out
}

enum Found<'f> { Static(&'f syn::ItemStatic), Fn(&'f syn::Signature, &'f syn::Block), Struct(&'f syn::ItemStruct), Enum(&'f syn::ItemEnum), Const(&'f syn::ItemConst) }

fn find<'f>(f: &'f syn::File, item: &str) -> Option<Found<'f>> {
    // inherent impls first, then trait impls
    find_in(f, item, false).or_else(|| find_in(f, item, true))
}
fn find_in<'f>(f: &'f syn::File, item: &str, traits: bool) -> Option<Found<'f>> {
    let (ty, name) = match item.rsplit_once("::") { Some((a, b)) => (Some(a), b), None => (None, item) };
    for it in &f.items {
        match it {
            syn::Item::Fn(x) if ty.is_none() && x.sig.ident == name => return Some(Found::Fn(&x.sig, &x.block)),
            syn::Item::Struct(x) if ty.is_none() && x.ident == name => return Some(Found::Struct(x)),
            syn::Item::Enum(x) if ty.is_none() && x.ident == name => return Some(Found::Enum(x)),
            syn::Item::Static(x) if ty.is_none() && x.ident == name => return Some(Found::Static(x)),
            syn::Item::Const(x) if ty.is_none() && x.ident == name => return Some(Found::Const(x)),
            syn::Item::Impl(im) if ty.is_some() && im.trait_.is_some() == traits => {
                let t = match &*im.self_ty { syn::Type::Path(p) => p.path.segments.last().unwrap().ident.to_string(), _ => continue };
                if Some(t.as_str()) != ty { continue; }
                for ii in &im.items {
                    if let syn::ImplItem::Fn(m) = ii { if m.sig.ident == name { return Some(Found::Fn(&m.sig, &m.block)); } }
                }
            }
            _ => {}
        }
    }
    None
}

fn sha(s: &str) -> String {
    // FNV-1a 64: an identity tag for the evidence, not a security measure
    let mut h: u64 = 0xcbf29ce484222325;
    for b in s.bytes() { h ^= b as u64; h = h.wrapping_mul(0x100000001b3); }
    format!("{:016x}", h)
}

fn parse_spec(head: &str, body: &str) -> FnSpec {
    let mut w = head.split_whitespace();
    let mut sp = FnSpec { file: w.next().unwrap_or("").into(), item: w.next().unwrap_or("").into(), ..Default::default() };
    sp.ret = "res".into();
    let mut cur: Option<String> = None;
    let mut buf = String::new();
    fn flush(sp: &mut FnSpec, cur: &Option<String>, buf: &mut String) {
        if let Some(k) = cur {
            let t = std::mem::take(buf);
            if k == "contract" { sp.contract = t; }
            else if k == "sig" { sp.sig = Some(t.trim().to_string()); }
            else if let Some(r) = k.strip_prefix("loop ") {
                let mut p = r.split_whitespace();
                let n: usize = p.next().unwrap().parse().unwrap();
                if let Some("iter") = p.next() { sp.loop_iter.insert(n, p.next().unwrap().to_string()); }
                sp.loops.insert(n, t);
            } else if let Some(r) = k.strip_prefix("at ") { sp.at.push((r.trim().to_string(), t)); }
            else if let Some(r) = k.strip_prefix("closure ") {
                let (n, rest) = r.split_once(' ').unwrap();
                sp.closures.insert(n.parse().unwrap(), format!("{} {}", rest.trim(), t).trim().to_string());
            }
        }
        buf.clear();
    }
    for line in body.lines() {
        let t = line.trim();
        let top = !line.starts_with(' ') && !line.starts_with('\t') && !t.is_empty();
        if top {
            flush(&mut sp, &cur, &mut buf);
            cur = None;
            if let Some(r) = t.strip_prefix("ret ") { sp.ret = r.trim().into(); }
            else if let Some(r) = t.strip_prefix("opt ") { for o in r.split_whitespace() { sp.opts.insert(o.into()); } }
            else if let Some(r) = t.strip_prefix("deref ") { for o in r.split_whitespace() { sp.deref.insert(o.into()); } }
            else if let Some(r) = t.strip_prefix("byref ") { for o in r.split_whitespace() { sp.byref.insert(o.into()); } }
            else if let Some(r) = t.strip_prefix("arm ") { let (k, c) = r.trim().split_once(' ').unwrap(); sp.arms.push((k.into(), c.trim().into())); }
            else if let Some(r) = t.strip_prefix("rename ") { sp.rename = Some(r.trim().into()); }
            else { cur = Some(t.to_string()); }
        } else { buf.push_str(line); buf.push('\n'); }
    }
    flush(&mut sp, &cur, &mut buf);
    sp
}

fn include(t: &str, dir: &std::path::Path, seen: &mut BTreeSet<String>, stem: &str) -> String {
    let mut out = String::new();
    for line in t.lines() {
        let line = match line.strip_prefix('?') {
            Some(r) => {
                let (units, text) = r.split_once(' ').unwrap_or((r, ""));
                if !units.split(',').any(|u| u == stem) { continue; }
                text
            }
            None => line,
        };
        if let Some(r) = line.trim().strip_prefix("//@ include ") {
            if seen.insert(r.trim().to_string()) {
                let s = std::fs::read_to_string(dir.join(r.trim())).unwrap();
                out.push_str(&include(&s, dir, seen, stem));
                out.push('\n');
            }
        } else { out.push_str(line); out.push('\n'); }
    }
    out
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let tpl = std::fs::read_to_string(&a[1]).unwrap();
    let root = &a[2];
    let vacuity = a.iter().any(|x| x == "--vacuity");
    let mut rules = Rules::default();
    let mut files: HashMap<String, (String, syn::File)> = HashMap::new();
    let mut out = String::new();
    let mut items: Vec<Value> = vec![];
    let mut lost: Vec<String> = vec![];
    let dir = std::path::Path::new(&a[1]).parent().unwrap().to_path_buf();
    let mut seen = BTreeSet::new();
    // lines `?c05,c06 text` are kept only in the units named
    let stem = std::path::Path::new(&a[1]).file_stem().unwrap().to_string_lossy().to_string();
    let text = include(&tpl, &dir, &mut seen, &stem);
    for line in text.lines() {
        if let Some(r) = line.trim().strip_prefix("//@ rule ") {
            let w: Vec<&str> = r.split_whitespace().collect();
            match w[0] {
                "method" => rules.methods.push((w[1].into(), w[2].into(), w.get(3).unwrap_or(&"val").to_string())),
                "call" => rules.calls.push((w[1].into(), w[2].into())),
                "turbofish" => rules.turbofish.push((w[1].into(), norm(&w[2..].join(" ")))),
                "rename-method" => rules.rename_methods.push((w[1].into(), w[2].into())),
                "seg" => rules.segs.push((w[1].into(), w[2].into())),
                "for-continue" => { rules.for_continue = true; }
                "range-incl" => { rules.range_incl = true; }
                "inline-consts" => {
                    // literals of a constants module, by its qualified names
                    if let Ok(f) = std::fs::read_to_string(format!("{}/{}", root, w[1])).map_err(|_| ()).and_then(|s| syn::parse_file(&s).map_err(|_| ())) {
                        let md = w[1].trim_end_matches(".rs").rsplit('/').next().unwrap().to_string();
                        for it in &f.items { if let syn::Item::Const(c) = it { if let syn::Expr::Lit(l) = &*c.expr { rules.inline.insert(format!("{}::{}", md, c.ident), l.to_token_stream().to_string()); rules.inline.insert(c.ident.to_string(), l.to_token_stream().to_string()); } } }
                    }
                }
                "str-add" => { rules.str_add = true; }
                "for-ref" => { rules.for_ref = true; }
                "index-field" => rules.index_fields.push((w[1].into(), w[2].into())),
                "strip-method" => { for x in &w[1..] { rules.strip_methods.insert(x.to_string()); } }
                "mods" => { for x in &w[1..] { rules.mods.insert(x.to_string()); } }
                "macro" => rules.macros.push((w[1].into(), w[2..].join(" "))),
                "type" => rules.types.push((w[1].into(), w[2..].join(" "))),
                _ => panic!("unknown rule {}", r),
            }
        }
    }
    let mut rest: &str = &text;
    loop {
        let Some(i) = rest.find("/*@ ") else { out.push_str(rest); break };
        out.push_str(&rest[..i]);
        let j = rest[i..].find("@*/").expect("unterminated directive") + i;
        let block = &rest[i + 4..j];
        rest = &rest[j + 3..];
        let (head, body) = block.split_once('\n').unwrap_or((block, ""));
        let (kind, head) = head.trim().split_once(' ').unwrap_or((head.trim(), ""));
        let sp = parse_spec(head, body);
        if !files.contains_key(&sp.file) {
            let p = format!("{}/{}", root, sp.file);
            match std::fs::read_to_string(&p) {
                Ok(s) => match syn::parse_file(&s) { Ok(f) => { files.insert(sp.file.clone(), (s, f)); } Err(e) => { lost.push(format!("{}: parse error {}", sp.file, e)); continue; } },
                Err(_) => { lost.push(format!("{}: file not found", sp.file)); continue; }
            }
        }
        let (src, file) = &files[&sp.file];
        let mut sp = sp;
        // F#KEY: one arm of F's match over path texts
        let whole = sp.item.clone();
        let mut armblk: Option<&syn::Block> = None;
        let mut wholematch: Option<&syn::ExprMatch> = None;
        if let Some((f, key)) = whole.split_once('#') {
            sp.arm = Some(key.to_string());
            let mut af = ArmFind { key, hit: None, whole: None };
            if let Some(Found::Fn(_, b)) = find(file, f) { af.visit_block(b); }
            if key == "*" {
                if af.whole.is_none() { lost.push(format!("{}::{}: match not found", sp.file, whole)); continue }
                wholematch = af.whole;
            } else { match af.hit {
                Some((a, binders)) => {
                    match &*a.body { syn::Expr::Block(b) => armblk = Some(&b.block), _ => { lost.push(format!("{}::{}: arm is not a block", sp.file, whole)); continue } }
                    let sub = |t: &str| { let mut t = t.to_string(); for (i, b) in binders.iter().enumerate() { t = t.replace(&format!("${}", i), b); } t };
                    sp.contract = sub(&sp.contract);
                    sp.sig = sp.sig.as_ref().map(|x| sub(x));
                    for (_, t) in sp.at.iter_mut() { *t = sub(t); }
                    for (_, t) in sp.loops.iter_mut() { *t = sub(t); }
                }
                None => { lost.push(format!("{}::{}: arm not found", sp.file, whole)); continue }
            } }
        }
        let found = find(file, whole.split_once('#').map_or(whole.as_str(), |x| x.0));
        let Some(found) = found else { lost.push(format!("{}::{}: item not found", sp.file, sp.item)); continue };
        let start_line = out.matches('\n').count() + 1;
        match (kind, found) {
            ("fn", Found::Fn(sig, block0)) => {
                let block: &syn::Block = armblk.unwrap_or(block0);
                let mut cx = Ctx { src, spec: &sp, rules: &rules, edits: vec![], seq: 0, nloop: 0, nclos: 0, loop_depth: 0, skeleton: vec![],
                    used: Default::default(), notes: vec![], stmt_stack: vec![], call_count: Default::default(), ret_count: 0, hints_done: Default::default(), hash: String::new() };
                cx.hash = sha(&norm(&(sig.to_token_stream().to_string() + &block.to_token_stream().to_string())));
                if let Some(m) = wholematch {
                    cx.use_rule("match cut out as a function");
                    cx.hash = sha(&norm(&m.to_token_stream().to_string()));
                    cx.visit_expr_match(m);
                    for (k, _) in &sp.at { if k != "start" && k != "end" && !cx.hints_done.contains(k) { cx.notes.push(format!("hint anchor '{}' not found", k)); } }
                    let (bs, be) = br(m.span());
                    let (st, en) = (if vacuity { "proof { assert(false); }".to_string() } else { String::new() } + &cx.hint("start").unwrap_or_default(), cx.hint("end").unwrap_or_default());
                    if sp.opts.contains("own-solver") { out.push_str("#[verifier::spinoff_prover]\n"); }
                out.push_str("pub "); out.push_str(sp.sig.as_deref().unwrap_or("").trim_end()); out.push('\n');
                    out.push_str(&sp.contract);
                    out.push_str(&format!("{{\n{}\n{}\n{}\n}}\n", st, apply(src, bs, be, &cx.edits), en));
                    let end_line = out.matches('\n').count() + 1;
                    items.push(json!({"kind":"fn","file":sp.file,"item":sp.item,"opts":sp.opts,"src_lines":[m.span().start().line,m.span().end().line],"hash":cx.hash,"gen_lines":[start_line,end_line],
                        "loops":cx.nloop,"closures":cx.nclos,"skeleton":cx.skeleton.join(","),"calls":calls_of(|k| k.visit_expr_match(m)),"rules":cx.used,"notes":cx.notes}));
                    continue;
                }
                if armblk.is_none() { cx.visit_signature(sig); }
                if armblk.is_some() { cx.use_rule("arm cut out as a function"); cx.hash = sha(&norm(&block.to_token_stream().to_string())); }
                // named return
                if armblk.is_some() {} else if let syn::ReturnType::Type(_, t) = &sig.output {
                    let (s, e) = br(t.span());
                    cx.edit(s, s, format!("({}: ", sp.ret), -30);
                    cx.edit(e, e, ")", 30);
                }
                if let Some(rn) = &sp.rename { let (s, e) = br(sig.ident.span()); cx.edit(s, e, rn.clone(), 0); }
                let (bs, be) = br(block.span());
                let mut startp = String::new();
                if vacuity { startp.push_str("proof { assert(false); }"); }
                if let Some(h) = cx.hint("start") { startp.push_str(&h); }
                if !startp.is_empty() { cx.edit(bs + 1, bs + 1, format!("\n{}\n", startp), -50); }
                if let Some(syn::Stmt::Expr(e, None)) = block.stmts.last() {
                    if let Some(h) = cx.hint("tail") { let (s, _) = br(e.span()); cx.edit(s, s, format!("\n{}\n", h), -40); }
                }
                if let Some(h) = cx.hint("end") { cx.edit(be - 1, be - 1, format!("\n{}\n", h), 40); }
                cx.visit_block(block);
                for (k, _) in &sp.at { if !cx.hints_done.contains(k) { cx.notes.push(format!("hint anchor '{}' not found", k)); } }
                for (k, _) in &sp.loops { if *k >= cx.nloop { cx.notes.push(format!("loop {} not found", k)); } }
                for (k, _) in &sp.closures { if *k >= cx.nclos { cx.notes.push(format!("closure {} not found", k)); } }
                let (ss, _) = br(sig.span());
                let (fs, _) = br(sig.fn_token.span());
                let _ = ss;
                let sigtxt = match &sp.sig { Some(s) => { cx.use_rule("signature replaced"); s.clone() } None => apply(src, fs, bs, &cx.edits) };
                let bodytxt = apply(src, bs, be, &cx.edits);
                if sp.opts.contains("own-solver") { out.push_str("#[verifier::spinoff_prover]\n"); }
                out.push_str("pub "); out.push_str(sigtxt.trim_end()); out.push('\n');
                out.push_str(&sp.contract);
                out.push_str(&bodytxt);
                out.push('\n');
                let end_line = out.matches('\n').count() + 1;
                let sl = if armblk.is_some() { block.span().start().line } else { sig.fn_token.span().start().line };
                let el = block.span().end().line;
                items.push(json!({"kind":"fn","file":sp.file,"item":sp.item,"opts":sp.opts,"src_lines":[sl,el],"hash":cx.hash,"gen_lines":[start_line,end_line],
                    "loops":cx.nloop,"closures":cx.nclos,"skeleton":cx.skeleton.join(","),"calls":calls_of(|k| k.visit_block(block)),"rules":cx.used,"notes":cx.notes}));
            }
            ("struct", f @ (Found::Struct(_) | Found::Enum(_))) => {
                let mut cx = Ctx { src, spec: &sp, rules: &rules, edits: vec![], seq: 0, nloop: 0, nclos: 0, loop_depth: 0, skeleton: vec![],
                    used: Default::default(), notes: vec![], stmt_stack: vec![], call_count: Default::default(), ret_count: 0, hints_done: Default::default(), hash: String::new() };
                let mut dropped: Vec<String> = vec![];
                let (lo, hi, sl, el) = match f {
                    Found::Struct(s) => {
                        let only: Option<BTreeSet<String>> = sp.opts.iter().find_map(|o| o.strip_prefix("only=")).map(|s| s.split(',').map(|x| x.to_string()).collect());
                        let empty = syn::punctuated::Punctuated::new();
                        let flds = match &s.fields { syn::Fields::Named(n) => &n.named, syn::Fields::Unnamed(n) => &n.unnamed, syn::Fields::Unit => &empty };
                        for pr in flds.pairs() {
                            let fl: &syn::Field = match &pr { syn::punctuated::Pair::Punctuated(f, _) => *f, syn::punctuated::Pair::End(f) => *f };
                            if let (Some(o), Some(id)) = (&only, &fl.ident) {
                                if !o.contains(&id.to_string()) {
                                    let (fs, mut fe) = br(fl.span());
                                    if let syn::punctuated::Pair::Punctuated(_, c) = &pr { fe = br(c.span()).1; }
                                    cx.edit(fs, fe, "", -50);
                                    dropped.push(id.to_string());
                                    continue;
                                }
                            }
                            cx.visit_field(fl);
                            if let Some(id) = &fl.ident {
                                let (is, _) = br(id.span());
                                let vs = match &fl.vis { syn::Visibility::Inherited => is, v => br(v.span()).0 };
                                cx.edit(vs, is, "pub ", 5);
                            }
                        }
                        (br(s.struct_token.span()).0, br(s.span()).1, s.span().start().line, s.span().end().line)
                    }
                    Found::Enum(s) => { for v in &s.variants { cx.visit_variant(v); } (br(s.enum_token.span()).0, br(s.span()).1, s.span().start().line, s.span().end().line) }
                    _ => unreachable!(),
                };
                let fieldless = matches!(&f, Found::Enum(e) if e.variants.iter().all(|v| v.fields.is_empty()));
                let derive: Vec<String> = sp.opts.iter().filter_map(|o| o.strip_prefix("derive=")).map(|s| s.to_string()).collect();
                if !derive.is_empty() { out.push_str(&format!("#[derive({})]\n", derive.join(", "))); }
                out.push_str("pub ");
                out.push_str(&apply(src, lo, hi, &cx.edits));
                out.push('\n');
                // opt structural: what derive(Structural) emits, for an enum without fields
                if sp.opts.iter().any(|o| o == "structural") {
                    if !fieldless { lost.push(format!("{}::{}: variants with fields", sp.file, sp.item)); }
                    else { out.push_str(&format!("unsafe impl Structural for {} {{}}\n", sp.item)); }
                }
                items.push(json!({"kind":"type","file":sp.file,"item":sp.item,"fields_dropped":dropped,"src_lines":[sl,el],"hash":sha(&norm(&src[lo..hi]))}));
            }
            ("table", f @ (Found::Const(_) | Found::Static(_))) => {
                // exec const array + spec sequence generated from the same initialiser text
                let n = sp.item.clone();
                let (cty, cex) = match f { Found::Const(c) => (&*c.ty, &*c.expr), Found::Static(c) => (&*c.ty, &*c.expr), _ => unreachable!() };
                let ty = src_of(src, cty.span());
                let ex = src_of(src, cex.span());
                let (elem, elems) = match (cty, cex) {
                    (syn::Type::Array(t), syn::Expr::Array(e)) => (src_of(src, t.elem.span()).to_string(), e.elems.iter().map(|x| src_of(src, x.span()).to_string()).collect::<Vec<_>>()),
                    _ => { lost.push(format!("{}::{}: not an array constant", sp.file, sp.item)); continue }
                };
                let low = n.to_lowercase();
                out.push_str(&format!("pub open spec fn {}_spec() -> Seq<{}> {{ seq![{}] }}\n", low, elem, elems.join(", ")));
                out.push_str(&format!("pub exec const {}: {} ensures {}@ == {}_spec() {{ let vx_a: {} = {}; assert(vx_a@ =~= {}_spec()); vx_a }}\n", n, ty, n, low, ty, ex, low));
                items.push(json!({"kind":"const","file":sp.file,"item":sp.item,"elements":elems.len(),"hash":sha(&norm(ex))}));
            }
            ("numbers", Found::Enum(e)) => {
                // the number (discriminant) of each variant, as a spec function generated from the declaration
                let n = sp.item.clone();
                let mut cur: i128 = -1;
                let mut arms = String::new();
                let mut bad = false;
                for v in &e.variants {
                    cur = match &v.discriminant {
                        Some((_, syn::Expr::Lit(syn::ExprLit { lit: syn::Lit::Int(k), .. }))) => match k.base10_parse::<i128>() { Ok(k) => k, _ => { bad = true; 0 } },
                        Some(_) => { bad = true; 0 }
                        None => cur + 1,
                    };
                    arms.push_str(&format!("        {}::{} {{ .. }} => {},\n", n, v.ident, cur));
                }
                if bad { lost.push(format!("{}::{}: a discriminant that is not a literal", sp.file, sp.item)); continue }
                out.push_str(&format!("pub open spec fn {}_number(x: {}) -> int {{\n    match x {{\n{}    }}\n}}\n", n.to_lowercase(), n, arms));
                items.push(json!({"kind":"numbers","file":sp.file,"item":sp.item,"elements":e.variants.len()}));
            }
            ("len", Found::Const(c)) => {
                // number of elements of a slice/array constant, as a spec constant
                let e = match &*c.expr { syn::Expr::Reference(r) => &*r.expr, e => e };
                let k = match e { syn::Expr::Array(e) => e.elems.len(), syn::Expr::Repeat(_) | _ => { lost.push(format!("{}::{}: not a list", sp.file, sp.item)); continue } };
                out.push_str(&format!("{}", k));
                items.push(json!({"kind":"const","file":sp.file,"item":sp.item,"elements":k}));
            }
            _ => { lost.push(format!("{}::{}: found, but not of the expected kind", sp.file, sp.item)); }
        }
    }
    std::fs::write(&a[3], &out).unwrap();
    std::fs::write(&a[4], serde_json::to_string_pretty(&json!({"items":items,"lost":lost})).unwrap()).unwrap();
    if !lost.is_empty() { for l in &lost { eprintln!("LOST {}", l); } std::process::exit(3); }
}
