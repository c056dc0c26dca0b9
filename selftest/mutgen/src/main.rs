// mutgen ROOT: one JSON line {file, op, line, start, end, text} per mutation of the non-test code under ROOT/src (byte ranges).
use proc_macro2::Span;
use std::path::Path;
use syn::{spanned::Spanned, visit::Visit, *};

struct M { src: String, lines: Vec<usize>, out: Vec<(String, usize, Vec<(usize, usize, String)>)>, create_start: Option<usize> }
impl M {
    fn off(&self, lc: proc_macro2::LineColumn) -> usize {
        let l = self.lines[lc.line - 1];
        let line = &self.src[l..];
        l + line.char_indices().nth(lc.column).map(|x| x.0).unwrap_or(line.len())
    }
    fn r(&self, s: Span) -> (usize, usize) { (self.off(s.start()), self.off(s.end())) }
    fn t(&self, s: Span) -> String { let (a, b) = self.r(s); self.src[a..b].to_string() }
    fn add(&mut self, op: &str, s: Span, new: String) { let (a, b) = self.r(s); self.out.push((op.into(), s.start().line, vec![(a, b, new)])) }
}
fn skip(attrs: &[Attribute]) -> bool {
    attrs.iter().any(|a| { let s = quote_str(a); s.contains("test") })
}
fn quote_str(a: &Attribute) -> String { match &a.meta { Meta::List(l) => format!("{}({})", l.path.segments.last().unwrap().ident, l.tokens), Meta::Path(p) => p.segments.last().unwrap().ident.to_string(), _ => String::new() } }
impl<'a> Visit<'a> for M {
    fn visit_item_mod(&mut self, i: &'a ItemMod) { if !skip(&i.attrs) { visit::visit_item_mod(self, i) } }
    fn visit_item_fn(&mut self, i: &'a ItemFn) { if !skip(&i.attrs) { visit::visit_item_fn(self, i) } }
    fn visit_item_use(&mut self, _: &'a ItemUse) {}
    fn visit_attribute(&mut self, _: &'a Attribute) {}
    fn visit_type(&mut self, _: &'a Type) {}
    fn visit_block(&mut self, b: &'a Block) {
        for (i, s) in b.stmts.iter().enumerate() {
            match s {
                Stmt::Expr(e, semi) => {
                    let blocky = matches!(e, Expr::If(_) | Expr::While(_) | Expr::ForLoop(_) | Expr::Loop(_) | Expr::Block(_) | Expr::Match(_) | Expr::Unsafe(_));
                    if semi.is_some() || blocky { self.add("del", s.span(), if semi.is_none() && i + 1 == b.stmts.len() { "()".into() } else { String::new() }) }
                }
                _ => {}
            }
            if i + 1 < b.stmts.len() {
                let n = &b.stmts[i + 1];
                let moved = |s: &Stmt| matches!(s, Stmt::Expr(_, Some(_)) | Stmt::Local(_)) || matches!(s, Stmt::Expr(Expr::If(_) | Expr::While(_) | Expr::ForLoop(_) | Expr::Block(_), _));
                if moved(s) && moved(n) && !(matches!(s, Stmt::Local(_)) && matches!(n, Stmt::Local(_))) {
                    let (a, _) = self.r(s.span()); let (_, d) = self.r(n.span());
                    let mut x = self.t(n.span()); if matches!(n, Stmt::Expr(_, None)) && !x.ends_with('}') { x.push(';') }
                    let new = format!("{} {}", x, self.t(s.span()));
                    self.out.push(("swap".into(), s.span().start().line, vec![(a, d, new)]));
                }
            }
            // keep the guard of a lock taken by this statement's temporaries until the end of the block
            if i + 1 < b.stmts.len() {
                let t = self.t(s.span());
                if !t.starts_with("if") || true {
                    for w in [".read()", ".write()", ".lock()"] {
                        if let Some(p) = t.find(w) {
                            let recv: String = t[..p].chars().rev().take_while(|c| c.is_alphanumeric() || *c == '_' || *c == '.' || c.is_whitespace()).collect::<Vec<_>>().into_iter().rev().collect::<String>().trim().to_string();
                            if !recv.is_empty() && !recv.starts_with('.') {
                                let (_, e) = self.r(s.span());
                                self.out.push(("hold".into(), s.span().start().line, vec![(e, e, format!(" let __g = {recv}{w}.unwrap();"))]));
                                break;
                            }
                        }
                    }
                }
            }
        }
        visit::visit_block(self, b)
    }
    fn visit_expr_if(&mut self, e: &'a ExprIf) {
        if !matches!(*e.cond, Expr::Let(_)) {
            let c = self.t(e.cond.span());
            self.add("neg", e.cond.span(), format!("!({c})"));
            self.add("iftrue", e.cond.span(), format!("true || ({c})"));
            self.add("iffalse", e.cond.span(), format!("false && ({c})"));
        }
        if let Some((_, x)) = &e.else_branch { if matches!(**x, Expr::Block(_)) { self.add("delelse", x.span(), "{}".into()) } }
        visit::visit_expr_if(self, e)
    }
    fn visit_expr_while(&mut self, e: &'a ExprWhile) {
        if !matches!(*e.cond, Expr::Let(_)) { let c = self.t(e.cond.span()); self.add("wneg", e.cond.span(), format!("!({c})")); self.add("wfalse", e.cond.span(), format!("false && ({c})")); }
        else { let (a, b) = (self.r(e.while_token.span()), 0); let _ = b; self.out.push(("while2if".into(), e.span().start().line, vec![(a.0, a.1, "if".into())])) }
        visit::visit_expr_while(self, e)
    }
    fn visit_expr_binary(&mut self, e: &'a ExprBinary) {
        let ops: &[&str] = match e.op { BinOp::Eq(_) => &["!="], BinOp::Ne(_) => &["=="], BinOp::Lt(_) => &["<=", ">"], BinOp::Le(_) => &["<"], BinOp::Gt(_) => &[">=", "<"], BinOp::Ge(_) => &[">"], BinOp::Add(_) => &["-"], BinOp::Sub(_) => &["+"], BinOp::And(_) => &["||"], BinOp::Or(_) => &["&&"], BinOp::AddAssign(_) => &["-=", "="], BinOp::SubAssign(_) => &["+="], _ => &[] };
        for o in ops { self.add("op", e.op.span(), o.to_string()) }
        visit::visit_expr_binary(self, e)
    }
    fn visit_expr_lit(&mut self, e: &'a ExprLit) {
        match &e.lit {
            Lit::Int(i) => { let v: u64 = i.base10_parse().unwrap_or(0); self.add("lit", e.span(), format!("{}{}", v + 1, i.suffix())); if v > 0 { self.add("lit", e.span(), format!("{}{}", v - 1, i.suffix())) } }
            Lit::Bool(b) => self.add("bool", e.span(), (!b.value).to_string()),
            _ => {}
        }
    }
    fn visit_expr_break(&mut self, e: &'a ExprBreak) { self.add("break", e.span(), "continue".into()); self.add("break", e.span(), "()".into()) }
    fn visit_expr_return(&mut self, e: &'a ExprReturn) { if e.expr.is_none() { self.add("return", e.span(), "()".into()) } else { visit::visit_expr_return(self, e) } }
    fn visit_expr_unary(&mut self, e: &'a ExprUnary) { if let UnOp::Not(_) = e.op { let t = self.t(e.expr.span()); self.add("not", e.span(), format!("({t})")) } visit::visit_expr_unary(self, e) }
    fn visit_expr_method_call(&mut self, e: &'a ExprMethodCall) {
        let m = e.method.to_string();
        let alts: &[&str] = match m.as_str() {
            "pop_front" => &["pop_back"], "pop_back" => &["pop_front"], "push_back" => &["push_front"], "push_front" => &["push_back"],
            "notify_one" => &["notify_all"], "notify_all" => &["notify_one"], "is_some" => &["is_none"], "is_none" => &["is_some"],
            "all" => &["any"], "any" => &["all"], "first" => &["last"], "last" => &["first"], "pop" => &["first().cloned"], "min" => &["max"], "max" => &["min"],
            "take" => &["clone"], "read" => &["write"], "wrapping_add" => &["wrapping_sub"], "append" => &["extend"], "swap" => &["load"], "fetch_add" => &["fetch_sub"], "fetch_sub" => &["fetch_add"],
            "upstream_abort_observe" => &["sink_complete"], "inner_subscribe" => &[], _ => &[],
        };
        for a in alts { self.add("meth", e.method.span(), a.to_string()) }
        let recv = self.t(e.receiver.span());
        let tail = if let Some(a) = e.args.first() { self.t(a.span()) } else { String::new() };
        match m.as_str() {
            "sink_complete" => { self.add("sink", e.span(), format!("{recv}.sink_complete_force()")); self.add("sink", e.span(), format!("{recv}.upstream_abort_observe({tail})")) }
            "sink_complete_force" => self.add("sink", e.span(), format!("{recv}.finalize()")),
            "sink_error" => { self.add("sink", e.span(), format!("{recv}.sink_complete_force()")) }
            "sink_next" => { self.add("sink", e.span(), format!("{{ {recv}.sink_next({tail}); {recv}.sink_complete_force() }}")) }
            "complete" if e.args.is_empty() => { self.add("sink", e.span(), format!("{recv}.unsubscribe()")) }
            "error" if e.args.len() == 1 => { self.add("sink", e.span(), format!("{recv}.complete()")) }
            "unsubscribe" | "finalize" | "abort" | "clear" | "set_on_unsubscribe" | "set_on_finalize" => {}
            _ => {}
        }
        // Option-ish chain cut: x.clone() kept
        if e.args.len() == 2 { let (a, b) = (self.t(e.args[0].span()), self.t(e.args[1].span())); let s = e.args[0].span(); let s2 = e.args[1].span(); let (x, y) = (self.r(s), self.r(s2)); self.out.push(("args".into(), e.span().start().line, vec![(x.0, x.1, b), (y.0, y.1, a)])) }
        visit::visit_expr_method_call(self, e)
    }
    fn visit_expr_call(&mut self, e: &'a ExprCall) {
        // state hoisted out of the closure handed to Observable::create: shared by all subscriptions
        let f = self.t(e.func.span());
        if f.starts_with("Observable") && f.ends_with("create") && e.args.len() == 1 {
            if let Expr::Closure(c) = &e.args[0] { if let Expr::Block(b) = &*c.body {
                for s in &b.block.stmts { if let Stmt::Local(l) = s { if let (Pat::Ident(p), Some(init)) = (&l.pat, &l.init) {
                    let it = self.t(init.expr.span());
                    if (it.starts_with("Arc::new(") || it.starts_with("subjects::")) && !it.contains("clone()") {
                        let (a, b2) = self.r(s.span()); let (x, _) = self.r(e.span()); let id = &p.ident;
                        let decl = self.t(s.span());
                        self.out.push(("hoist".into(), s.span().start().line, vec![(x, x, format!("{decl} ")), (a, b2, format!("let {id} = {id}.clone();"))]));
                    }
                } } }
            } }
        }
        if e.args.len() == 2 { let (a, b) = (self.t(e.args[0].span()), self.t(e.args[1].span())); let (x, y) = (self.r(e.args[0].span()), self.r(e.args[1].span())); self.out.push(("args".into(), e.span().start().line, vec![(x.0, x.1, b), (y.0, y.1, a)])) }
        if e.args.len() == 3 { let (a, b) = (self.t(e.args[0].span()), self.t(e.args[2].span())); let (x, y) = (self.r(e.args[0].span()), self.r(e.args[2].span())); self.out.push(("args".into(), e.span().start().line, vec![(x.0, x.1, b), (y.0, y.1, a)])) }
        visit::visit_expr_call(self, e)
    }
    fn visit_expr_match(&mut self, e: &'a ExprMatch) {
        for a in &e.arms { if matches!(*a.body, Expr::Block(_)) && a.guard.is_none() { self.add("arm", a.body.span(), "{}".into()) } if let Some((_, g)) = &a.guard { let t = self.t(g.span()); self.add("guard", g.span(), format!("!({t})")) } }
        visit::visit_expr_match(self, e)
    }
    fn visit_expr_closure(&mut self, c: &'a ExprClosure) {
        if let Expr::Block(b) = &*c.body { if !b.block.stmts.is_empty() { self.add("closure", b.span(), "{}".into()) } }
        visit::visit_expr_closure(self, c)
    }
}
fn walk(p: &Path, v: &mut Vec<std::path::PathBuf>) { for e in std::fs::read_dir(p).unwrap() { let e = e.unwrap().path(); if e.is_dir() { if !e.ends_with("tests") && !e.ends_with("web") { walk(&e, v) } } else if e.extension().map_or(false, |x| x == "rs") && !e.ends_with("tests.rs") && !e.ends_with("web.rs") { v.push(e) } } }
fn main() {
    let root = std::env::args().nth(1).unwrap();
    let mut fs = vec![]; walk(&Path::new(&root).join("src"), &mut fs); fs.sort();
    for f in fs {
        let src = std::fs::read_to_string(&f).unwrap();
        let file = match syn::parse_file(&src) { Ok(x) => x, Err(e) => { eprintln!("{f:?} {e}"); continue } };
        let mut lines = vec![0]; for (i, c) in src.char_indices() { if c == '\n' { lines.push(i + 1) } }
        let mut m = M { src, lines, out: vec![], create_start: None }; let _ = &m.create_start;
        m.visit_file(&file);
        let rel = f.strip_prefix(&root).unwrap().display().to_string();
        for (op, line, edits) in m.out { println!("{}", serde_json::json!({"file": rel, "op": op, "line": line, "edits": edits})) }
    }
}
