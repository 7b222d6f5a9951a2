//! morph list FILE | morph apply FILE KIND FN_INDEX
//! Rewrites one function of a file without changing what it does: every site of one KIND.
//! `apply` prints the new text of the file; what does not compile is no edit.
use proc_macro2::{Span, TokenStream};
use quote::{format_ident, quote, ToTokens};
use syn::visit::Visit;
use syn::visit_mut::VisitMut;
use syn::*;

const KINDS: &[&str] = &[
    "swap-if", "iflet-match", "try-match", "for-while", "bool-if", "tail-let", "tail-return", "args-let", "split-or",
    "assign-op", "while-loop", "match-iflet", "reverse-cmp", "arms", "fields", "early", "late", "option", "result",
    "collect", "loops", "chain-let", "helper", "negate", "write", "macro-match", "closure-let", "lets-down",
];

struct M<'a> {
    kind: &'a str,
    n: usize,
    tmp: usize,
}

fn has_jump(e: &Expr) -> bool {
    struct V(bool);
    impl<'a> Visit<'a> for V {
        fn visit_expr_return(&mut self, _: &'a ExprReturn) { self.0 = true }
        fn visit_expr_try(&mut self, _: &'a ExprTry) { self.0 = true }
        fn visit_expr_break(&mut self, _: &'a ExprBreak) { self.0 = true }
        fn visit_expr_continue(&mut self, _: &'a ExprContinue) { self.0 = true }
        fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
    }
    let mut v = V(false);
    v.visit_expr(e);
    v.0
}

fn binds(p: &Pat) -> bool {
    struct V(bool);
    impl<'a> Visit<'a> for V {
        fn visit_pat_ident(&mut self, i: &'a PatIdent) {
            if i.subpat.is_some() || i.ident.to_string().chars().next().map_or(false, |c| c.is_lowercase() || c == '_') {
                self.0 = true
            }
        }
    }
    let mut v = V(false);
    v.visit_pat(p);
    v.0
}

fn head(p: &Pat) -> Option<String> {
    match p {
        Pat::TupleStruct(p) => p.path.segments.last().map(|s| s.ident.to_string()),
        Pat::Struct(p) => p.path.segments.last().map(|s| s.ident.to_string()),
        Pat::Path(p) => p.path.segments.last().map(|s| s.ident.to_string()),
        Pat::Ident(p) if p.subpat.is_none() && p.ident.to_string().starts_with(char::is_uppercase) => Some(p.ident.to_string()),
        Pat::Lit(l) => Some(l.to_token_stream().to_string()),
        _ => None,
    }
}

fn idents(t: TokenStream, out: &mut Vec<String>) {
    for x in t {
        match x {
            proc_macro2::TokenTree::Ident(i) => out.push(i.to_string()),
            proc_macro2::TokenTree::Group(g) => idents(g.stream(), out),
            _ => {}
        }
    }
}

fn simple(e: &Expr) -> bool {
    match e {
        Expr::Path(_) | Expr::Lit(_) => true,
        Expr::Field(f) => simple(&f.base),
        Expr::Reference(r) => r.mutability.is_none() && simple(&r.expr),
        Expr::Unary(u) => simple(&u.expr),
        Expr::Paren(p) => simple(&p.expr),
        _ => false,
    }
}

/// a closure or a path applied to a name: (pattern, body)
fn applied(f: &Expr, n: usize) -> Option<(Vec<TokenStream>, TokenStream)> {
    match f {
        Expr::Closure(c) if c.inputs.len() == n => {
            if has_jump(&c.body) {
                return None;
            }
            let b = &c.body;
            Some((c.inputs.iter().map(|p| match p { Pat::Type(t) => { let p = &t.pat; quote!(#p) } p => quote!(#p) }).collect(), quote!(#b)))
        }
        Expr::Path(p) => {
            let xs: Vec<_> = (0..n).map(|i| format_ident!("arg_{}", i)).collect();
            Some((xs.iter().map(|x| quote!(#x)).collect(), quote!(#p(#(#xs),*))))
        }
        _ => None,
    }
}

impl<'a> M<'a> {
    fn fresh(&mut self) -> Ident {
        self.tmp += 1;
        format_ident!("tmp_{}", self.tmp)
    }

    fn rewrite(&mut self, e: &Expr) -> Option<TokenStream> {
        match (self.kind, e) {
            ("swap-if", Expr::If(i)) if i.else_branch.is_some() && !contains_let(&i.cond) => {
                let (c, a, b) = (&i.cond, &i.then_branch, &i.else_branch.as_ref().unwrap().1);
                let b = match &**b { Expr::Block(b) => quote!(#b), b => quote!({ #b }) };
                Some(quote!(if !(#c) #b else #a))
            }
            ("negate", Expr::If(i)) if i.else_branch.is_some() && !contains_let(&i.cond) => {
                let (c, a, b) = (&i.cond, &i.then_branch, &i.else_branch.as_ref().unwrap().1);
                Some(quote!(match #c { true => #a, false => #b }))
            }
            ("iflet-match", Expr::If(i)) => {
                if let Expr::Let(l) = &*i.cond {
                    let (p, x, a) = (&l.pat, &l.expr, &i.then_branch);
                    let b = match &i.else_branch { Some((_, b)) => quote!(#b), None => quote!({}) };
                    return Some(quote!(match #x { #p => #a, _ => #b }));
                }
                None
            }
            ("try-match", Expr::Try(t)) => {
                let x = &t.expr;
                Some(quote!(match #x { Ok(okay) => okay, Err(bad) => return Err(From::from(bad)) }))
            }
            ("option", Expr::Try(t)) => {
                let x = &t.expr;
                Some(quote!(match #x { Some(okay) => okay, None => return None }))
            }
            ("for-while", Expr::ForLoop(f)) => {
                let (l, p, x, b) = (&f.label, &f.pat, &f.expr, &f.body);
                let it = self.fresh();
                Some(quote!({ let mut #it = IntoIterator::into_iter(#x); #l while let Some(#p) = #it.next() #b }))
            }
            ("bool-if", Expr::Binary(b)) if !contains_let(&b.left) && !contains_let(&b.right) => {
                let (l, r) = (&b.left, &b.right);
                match b.op {
                    BinOp::And(_) => Some(quote!((if #l { #r } else { false }))),
                    BinOp::Or(_) => Some(quote!((if #l { true } else { #r }))),
                    _ => None,
                }
            }
            ("reverse-cmp", Expr::Binary(b)) => {
                let (l, r) = (&b.left, &b.right);
                match b.op {
                    BinOp::Eq(_) => Some(quote!((#r == #l))),
                    BinOp::Ne(_) => Some(quote!((!(#l == #r)))),
                    BinOp::Lt(_) => Some(quote!((#r > #l))),
                    BinOp::Gt(_) => Some(quote!((#r < #l))),
                    BinOp::Le(_) => Some(quote!((!(#l > #r)))),
                    BinOp::Ge(_) => Some(quote!((!(#l < #r)))),
                    BinOp::Add(_) if simple(l) && simple(r) => Some(quote!((#r + #l))),
                    _ => None,
                }
            }
            ("assign-op", Expr::Binary(b)) => {
                let (l, r) = (&b.left, &b.right);
                match b.op {
                    BinOp::AddAssign(_) => Some(quote!(#l = #l + (#r))),
                    BinOp::SubAssign(_) => Some(quote!(#l = #l - (#r))),
                    BinOp::BitAndAssign(_) => Some(quote!(#l = #l & (#r))),
                    BinOp::BitOrAssign(_) => Some(quote!(#l = #l | (#r))),
                    _ => None,
                }
            }
            ("while-loop", Expr::While(w)) => {
                let (l, c, b) = (&w.label, &w.cond, &w.body);
                Some(quote!(#l loop { if #c #b else { break; } }))
            }
            ("args-let", Expr::Call(c)) if !c.args.is_empty() && c.args.iter().any(|a| !simple(a)) => {
                let f = &c.func;
                let xs: Vec<_> = c.args.iter().map(|_| self.fresh()).collect();
                let vs = c.args.iter();
                Some(quote!({ #(let #xs = #vs;)* #f(#(#xs),*) }))
            }
            ("args-let", Expr::MethodCall(c)) if simple(&c.receiver) && c.args.iter().any(|a| !simple(a) && !matches!(a, Expr::Closure(_))) => {
                let (r, f, t) = (&c.receiver, &c.method, &c.turbofish);
                let xs: Vec<_> = c.args.iter().map(|_| self.fresh()).collect();
                let vs = c.args.iter();
                Some(quote!({ #(let #xs = #vs;)* #r.#f #t(#(#xs),*) }))
            }
            ("closure-let", Expr::MethodCall(c)) if c.args.iter().any(|a| matches!(a, Expr::Closure(_))) => {
                let (r, f, t) = (&c.receiver, &c.method, &c.turbofish);
                let xs: Vec<_> = c.args.iter().map(|_| self.fresh()).collect();
                let vs = c.args.iter();
                Some(quote!({ #(let #xs = #vs;)* #r.#f #t(#(#xs),*) }))
            }
            ("chain-let", Expr::MethodCall(c)) if matches!(&*c.receiver, Expr::MethodCall(_)) => {
                let (r, f, t, a) = (&c.receiver, &c.method, &c.turbofish, &c.args);
                let x = self.fresh();
                Some(quote!({ let mut #x = #r; #x.#f #t(#a) }))
            }
            ("split-or", Expr::Match(m)) if m.arms.iter().any(|a| matches!(&a.pat, Pat::Or(_))) => {
                let mut arms = vec![];
                for a in &m.arms {
                    let (g, b) = (a.guard.as_ref().map(|(i, g)| quote!(#i #g)), &a.body);
                    match &a.pat {
                        Pat::Or(o) => arms.extend(o.cases.iter().map(|p| quote!(#p #g => { #b }))),
                        p => arms.push(quote!(#p #g => { #b })),
                    }
                }
                let x = &m.expr;
                Some(quote!(match #x { #(#arms)* }))
            }
            ("match-iflet", Expr::Match(m)) if m.arms.len() == 2 && m.arms.iter().all(|a| a.guard.is_none()) && !binds(&m.arms[1].pat) => {
                let (x, p, a, b) = (&m.expr, &m.arms[0].pat, &m.arms[0].body, &m.arms[1].body);
                Some(quote!(if let #p = #x { #a } else { #b }))
            }
            ("arms", Expr::Match(m)) => {
                let k = m.arms.iter().take_while(|a| a.guard.is_none() && head(&a.pat).is_some()).count();
                let mut hs: Vec<_> = m.arms[..k].iter().map(|a| head(&a.pat).unwrap()).collect();
                hs.sort();
                hs.dedup();
                if k < 2 || hs.len() != k {
                    return None;
                }
                let arms = m.arms[..k].iter().rev().chain(&m.arms[k..]).map(|a| { let (p, g, b) = (&a.pat, a.guard.as_ref().map(|(i, g)| quote!(#i #g)), &a.body); quote!(#p #g => { #b }) });
                let x = &m.expr;
                Some(quote!(match #x { #(#arms)* }))
            }
            ("fields", Expr::Struct(s)) if s.fields.len() > 1 && s.rest.is_none() && s.fields.iter().filter(|f| !simple(&f.expr)).count() <= 1 => {
                let (p, fs) = (&s.path, s.fields.iter().rev());
                Some(quote!(#p { #(#fs),* }))
            }
            ("option", Expr::MethodCall(c)) | ("result", Expr::MethodCall(c)) => self.combinator(c),
            ("collect", Expr::MethodCall(c)) if c.method == "collect" => {
                if let Expr::MethodCall(m) = &*c.receiver {
                    if m.method == "map" {
                        let (ps, b) = applied(&m.args[0], 1)?;
                        let (r, p) = (&m.receiver, &ps[0]);
                        return Some(quote!({ let mut collected = Vec::new(); for #p in #r { collected.push(#b); } collected }));
                    }
                    if m.method == "filter_map" {
                        let (ps, b) = applied(&m.args[0], 1)?;
                        let (r, p) = (&m.receiver, &ps[0]);
                        return Some(quote!({ let mut collected = Vec::new(); for #p in #r { if let Some(one) = #b { collected.push(one); } } collected }));
                    }
                }
                let r = &c.receiver;
                Some(quote!({ let mut collected = Vec::new(); for one in #r { collected.push(one); } collected }))
            }
            ("loops", Expr::MethodCall(c)) => {
                let r = &c.receiver;
                match &*c.method.to_string() {
                    "for_each" => { let (p, b) = applied(c.args.first()?, 1)?; let p = &p[0]; Some(quote!({ for #p in #r { #b; } })) }
                    "any" => { let (p, b) = applied(c.args.first()?, 1)?; let p = &p[0]; Some(quote!({ let mut found = false; for #p in #r { if #b { found = true; break; } } found })) }
                    "all" => { let (p, b) = applied(c.args.first()?, 1)?; let p = &p[0]; Some(quote!({ let mut every = true; for #p in #r { if !(#b) { every = false; break; } } every })) }
                    "fold" => { let (p, b) = applied(c.args.get(1)?, 2)?; let (i, a, x) = (&c.args[0], &p[0], &p[1]); Some(quote!({ let mut folded = #i; for #x in #r { let #a = folded; folded = #b; } folded })) }
                    "try_fold" => { let (p, b) = applied(c.args.get(1)?, 2)?; let (i, a, x) = (&c.args[0], &p[0], &p[1]); Some(quote!({ let mut folded = Ok(#i); for #x in #r { match folded { Ok(#a) => { folded = #b; } Err(_) => break } } folded })) }
                    "find_map" => { let (p, b) = applied(c.args.first()?, 1)?; let p = &p[0]; Some(quote!({ let mut found = None; for #p in #r { let one = #b; if one.is_some() { found = one; break; } } found })) }
                    "position" => { let (p, b) = applied(c.args.first()?, 1)?; let p = &p[0]; Some(quote!({ let mut found = None; for (at, #p) in #r.enumerate() { if #b { found = Some(at); break; } } found })) }
                    "extend" => { let a = &c.args[0]; Some(quote!({ for one in #a { #r.push(one); } })) }
                    _ => None,
                }
            }
            ("macro-match", Expr::Macro(m)) if m.mac.path.is_ident("matches") => {
                let t: Vec<_> = m.mac.tokens.clone().into_iter().collect();
                let i = t.iter().position(|x| matches!(x, proc_macro2::TokenTree::Punct(p) if p.as_char() == ','))?;
                let (a, b): (TokenStream, TokenStream) = (t[..i].iter().cloned().collect(), t[i + 1..].iter().cloned().collect());
                Some(quote!((match #a { #b => true, _ => false })))
            }
            ("write", Expr::Macro(m)) if m.mac.path.is_ident("write") => {
                let args = m.mac.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated).ok()?;
                let w = &args[0];
                let fmt = match &args[1] { Expr::Lit(ExprLit { lit: Lit::Str(s), .. }) => s.value(), _ => return None };
                let mut rest = args.iter().skip(2);
                let (mut out, mut text, mut cs) = (vec![], String::new(), fmt.chars().peekable());
                while let Some(ch) = cs.next() {
                    match ch {
                        '{' | '}' if cs.peek() == Some(&ch) => { cs.next(); text.push(ch) }
                        '{' => {
                            let spec: String = cs.by_ref().take_while(|c| *c != '}').collect();
                            if !spec.is_empty() && !spec.starts_with(':') { return None }
                            if spec.contains('$') || spec.contains('*') { return None }
                            if !text.is_empty() { out.push(quote!(#w.write_str(#text))); text.clear() }
                            let (a, f) = (rest.next()?, format!("{{{}}}", spec));
                            out.push(quote!(write!(#w, #f, #a)));
                        }
                        c => text.push(c),
                    }
                }
                if !text.is_empty() { out.push(quote!(#w.write_str(#text))) }
                if out.len() < 2 { return None }
                let (last, init) = out.split_last().unwrap();
                Some(init.iter().rev().fold(quote!(#last), |acc, x| quote!(#x.and_then(|_| #acc))))
            }
            _ => None,
        }
    }

    fn combinator(&mut self, c: &ExprMethodCall) -> Option<TokenStream> {
        let r = &c.receiver;
        let opt = self.kind == "option";
        let a0 = c.args.first();
        Some(match (&*c.method.to_string(), c.args.len()) {
            ("map", 1) => {
                let (p, b) = applied(a0?, 1)?;
                let p = &p[0];
                if opt { quote!(match #r { Some(#p) => Some(#b), None => None }) } else { quote!(match #r { Ok(#p) => Ok(#b), Err(bad) => Err(bad) }) }
            }
            ("and_then", 1) => {
                let (p, b) = applied(a0?, 1)?;
                let p = &p[0];
                if opt { quote!(match #r { Some(#p) => #b, None => None }) } else { quote!(match #r { Ok(#p) => #b, Err(bad) => Err(bad) }) }
            }
            ("map_err", 1) if !opt => {
                let (p, b) = applied(a0?, 1)?;
                let p = &p[0];
                quote!(match #r { Ok(good) => Ok(good), Err(#p) => Err(#b) })
            }
            ("ok_or_else", 1) if opt => {
                let (_, b) = applied(a0?, 0)?;
                quote!(match #r { Some(one) => Ok(one), None => Err(#b) })
            }
            ("unwrap_or_else", 1) => {
                if opt { let (_, b) = applied(a0?, 0)?; quote!(match #r { Some(one) => one, None => #b }) }
                else { let (p, b) = applied(a0?, 1)?; let p = &p[0]; quote!(match #r { Ok(one) => one, Err(#p) => #b }) }
            }
            ("unwrap_or_default", 0) if opt => quote!(match #r { Some(one) => one, None => Default::default() }),
            ("map_or", 2) if opt => {
                let (p, b) = applied(&c.args[1], 1)?;
                let p = &p[0];
                let d = a0?;
                if !simple(d) { return None }
                quote!(match #r { Some(#p) => #b, None => #d })
            }
            ("map_or_else", 2) if opt => {
                let (p, b) = applied(&c.args[1], 1)?;
                let p = &p[0];
                let (_, d) = applied(a0?, 0)?;
                quote!(match #r { Some(#p) => #b, None => #d })
            }
            ("is_some", 0) if opt => quote!((match #r { Some(_) => true, None => false })),
            ("is_none", 0) if opt => quote!((match #r { Some(_) => false, None => true })),
            ("is_empty", 0) if opt => quote!((#r.len() == 0)),
            ("ok", 0) if !opt => quote!(match #r { Ok(good) => Some(good), Err(_) => None }),
            ("unwrap", 0) if opt => quote!(match #r { Some(one) => one, None => panic!("nothing") }),
            ("is_ok", 0) if !opt => quote!((match #r { Ok(_) => true, Err(_) => false })),
            ("is_err", 0) if !opt => quote!((match #r { Ok(_) => false, Err(_) => true })),
            _ => return None,
        })
    }
}

fn contains_let(e: &Expr) -> bool {
    struct V(bool);
    impl<'a> Visit<'a> for V {
        fn visit_expr_let(&mut self, _: &'a ExprLet) { self.0 = true }
        fn visit_block(&mut self, _: &'a Block) {}
    }
    let mut v = V(false);
    v.visit_expr(e);
    v.0
}

fn reparse(t: TokenStream) -> Expr {
    parse2(t.clone()).unwrap_or_else(|e| panic!("{}: {}", e, t))
}

impl<'a> VisitMut for M<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let Some(t) = self.rewrite(e) {
            self.n += 1;
            *e = reparse(t);
        }
    }
    fn visit_stmt_mut(&mut self, s: &mut Stmt) {
        visit_mut::visit_stmt_mut(self, s);
        if let Stmt::Macro(m) = s {
            let e = Expr::Macro(ExprMacro { attrs: vec![], mac: m.mac.clone() });
            if let Some(t) = self.rewrite(&e) {
                self.n += 1;
                *s = Stmt::Expr(reparse(t), m.semi_token);
            }
        }
    }
    fn visit_item_mut(&mut self, _: &mut Item) {}
    fn visit_pat_mut(&mut self, _: &mut Pat) {}
    fn visit_block_mut(&mut self, b: &mut Block) {
        visit_mut::visit_block_mut(self, b);
        if self.kind == "lets-down" {
            // a `let` of something plain moves below the statement after it
            let mut i = 0;
            while i + 2 < b.stmts.len() {
                let ok = match (&b.stmts[i], &b.stmts[i + 1]) {
                    (Stmt::Local(a), Stmt::Local(c)) => match (&a.init, &c.init) {
                        (Some(x), Some(y)) if x.diverge.is_none() && y.diverge.is_none() && !has_jump(&x.expr) && !has_jump(&y.expr) => {
                            let (mut p, mut q) = (vec![], vec![]);
                            idents(a.to_token_stream(), &mut p);
                            idents(c.to_token_stream(), &mut q);
                            p.retain(|w| w != "let" && w != "mut" && w.starts_with(|c: char| c.is_lowercase()) && !["self", "new", "clone", "iter", "map"].contains(&&**w));
                            !p.iter().any(|w| q.contains(w)) && !a.to_token_stream().to_string().contains("& mut")
                        }
                        _ => false,
                    },
                    _ => false,
                };
                if ok {
                    b.stmts.swap(i, i + 1);
                    self.n += 1;
                    i += 1;
                }
                i += 1;
            }
        }
    }
}

/// the whole body
fn body(kind: &str, b: &mut Block) -> usize {
    let tail = match b.stmts.last() { Some(Stmt::Expr(e, None)) => Some(e.clone()), _ => None };
    match (kind, tail) {
        ("tail-let", Some(e)) => {
            b.stmts.pop();
            b.stmts.extend(parse2::<Block>(quote!({ let result = #e; result })).unwrap().stmts);
            1
        }
        ("tail-return", Some(e)) => {
            b.stmts.pop();
            b.stmts.extend(parse2::<Block>(quote!({ return #e; })).unwrap().stmts);
            1
        }
        ("early", Some(Expr::If(i))) if i.else_branch.is_some() => {
            let (c, a, e) = (&i.cond, &i.then_branch.stmts, &i.else_branch.as_ref().unwrap().1);
            b.stmts.pop();
            b.stmts.extend(parse2::<Block>(quote!({ if #c { return { #(#a)* }; } #e })).unwrap().stmts);
            1
        }
        ("early", Some(Expr::Match(m))) => {
            let (x, arms) = (&m.expr, m.arms.iter().map(|a| { let (p, g, e) = (&a.pat, a.guard.as_ref().map(|(i, g)| quote!(#i #g)), &a.body); quote!(#p #g => return #e,) }));
            let t = quote!({ match #x { #(#arms)* } });
            b.stmts.pop();
            b.stmts.extend(parse2::<Block>(t).unwrap().stmts);
            1
        }
        ("late", Some(_)) => {
            for k in 0..b.stmts.len() - 1 {
                let (c, a) = match &b.stmts[k] {
                    Stmt::Expr(Expr::If(i), _) if i.else_branch.is_none() => match i.then_branch.stmts.last() {
                        Some(Stmt::Expr(Expr::Return(r), _)) => {
                            let (init, e) = (&i.then_branch.stmts[..i.then_branch.stmts.len() - 1], &r.expr);
                            (i.cond.clone(), quote!({ #(#init)* #e }))
                        }
                        _ => continue,
                    },
                    _ => continue,
                };
                let rest = &b.stmts[k + 1..];
                let s = parse2::<Block>(quote!({ if #c #a else { #(#rest)* } })).unwrap().stmts;
                b.stmts.truncate(k);
                b.stmts.extend(s);
                return 1;
            }
            0
        }
        _ => 0,
    }
}

struct Fns<'a> {
    kind: Option<&'a str>,
    want: usize,
    at: usize,
    owner: Vec<(Generics, Type)>,
    seen: Vec<(String, Vec<(String, usize)>)>,
    done: Option<(Span, String)>,
}

fn outer(sig: &Signature) -> (TokenStream, Vec<TokenStream>, bool) {
    let (mut args, mut names, mut me) = (vec![], vec![], false);
    for (i, a) in sig.inputs.iter().enumerate() {
        match a {
            FnArg::Receiver(r) => { args.push(quote!(#r)); me = true }
            FnArg::Typed(t) => {
                let (n, ty) = (format_ident!("given_{}", i), &t.ty);
                args.push(quote!(#n: #ty));
                names.push(quote!(#n));
            }
        }
    }
    (quote!(#(#args),*), names, me)
}

impl<'a> Fns<'a> {
    fn one(&mut self, sig: &Signature, block: &Block, method: bool, whole: Span, head: TokenStream) {
        let k = self.at;
        self.at += 1;
        match self.kind {
            None => {
                let mut ks = vec![];
                for kind in KINDS {
                    let mut b = block.clone();
                    let mut m = M { kind, n: 0, tmp: 0 };
                    m.visit_block_mut(&mut b);
                    let mut n = m.n + body(kind, &mut b);
                    if *kind == "helper" && block.stmts.len() + block.to_token_stream().to_string().len() / 80 > 1 { n = 1 }
                    if n > 0 { ks.push((kind.to_string(), n)) }
                }
                self.seen.push((sig.ident.to_string(), ks));
            }
            Some(kind) if k == self.want => {
                if kind == "helper" {
                    let (args, names, me) = outer(sig);
                    let mut inner = sig.clone();
                    inner.ident = format_ident!("{}_part", sig.ident);
                    let (f, g, r, w, id) = (&inner.ident, &sig.generics, &sig.output, &sig.generics.where_clause, &sig.ident);
                    let call = if me { quote!(self.#f(#(#names),*)) } else if method { quote!(Self::#f(#(#names),*)) } else { quote!(#f(#(#names),*)) };
                    let outer_ = quote!(#head fn #id #g(#args) #r #w { #call });
                    let text = match self.owner.last() {
                        Some((g, t)) if method => {
                            let (i, _, w) = g.split_for_impl();
                            format!("{}\u{0}impl {} {} {} {{ {} {} }}", outer_, i.to_token_stream(), t.to_token_stream(), w.to_token_stream(), inner.to_token_stream(), block.to_token_stream())
                        }
                        _ => format!("{} {} {}", outer_, inner.to_token_stream(), block.to_token_stream()),
                    };
                    self.done = Some((whole, text));
                } else {
                    let mut b = block.clone();
                    let mut m = M { kind, n: 0, tmp: 0 };
                    m.visit_block_mut(&mut b);
                    body(kind, &mut b);
                    self.done = Some((syn::spanned::Spanned::span(block), b.to_token_stream().to_string()));
                }
            }
            _ => {}
        }
    }
}

impl<'a, 'b> Visit<'b> for Fns<'a> {
    fn visit_item_fn(&mut self, f: &'b ItemFn) {
        let v = &f.vis;
        self.one(&f.sig, &f.block, false, syn::spanned::Spanned::span(f), quote!(#v));
    }
    fn visit_item_impl(&mut self, i: &'b ItemImpl) {
        self.owner.push((i.generics.clone(), (*i.self_ty).clone()));
        visit::visit_item_impl(self, i);
        self.owner.pop();
    }
    fn visit_impl_item_fn(&mut self, f: &'b ImplItemFn) {
        let v = &f.vis;
        self.one(&f.sig, &f.block, true, syn::spanned::Spanned::span(f), quote!(#v));
    }
    fn visit_trait_item_fn(&mut self, f: &'b TraitItemFn) {
        if let Some(b) = &f.default {
            self.one(&f.sig, b, true, syn::spanned::Spanned::span(f), quote!());
        }
    }
    fn visit_item_mod(&mut self, m: &'b ItemMod) {
        if m.attrs.iter().any(|a| a.to_token_stream().to_string().contains("test")) {
            return;
        }
        visit::visit_item_mod(self, m);
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let text = std::fs::read_to_string(&a[2]).unwrap();
    let file = parse_file(&text).unwrap();
    let mut f = Fns { kind: None, want: 0, at: 0, owner: vec![], seen: vec![], done: None };
    if a[1] == "apply" {
        f.kind = Some(&a[3]);
        f.want = a[4].parse().unwrap();
    }
    f.visit_file(&file);
    if a[1] == "list" {
        for (i, (n, ks)) in f.seen.iter().enumerate() {
            for (k, c) in ks {
                println!("{} {} {} {}", i, n, k, c);
            }
        }
        return;
    }
    let (s, new) = f.done.expect("no such function");
    let lines: Vec<usize> = std::iter::once(0).chain(text.match_indices('\n').map(|(i, _)| i + 1)).collect();
    let byte = |c: proc_macro2::LineColumn| {
        let l = lines[c.line - 1];
        l + text[l..].chars().take(c.column).map(char::len_utf8).sum::<usize>()
    };
    let (i, j) = (byte(s.start()), byte(s.end()));
    match new.split_once('\u{0}') {
        Some((a, b)) => print!("{}{}{}\n{}\n", &text[..i], a, &text[j..], b),
        None => print!("{}{}{}", &text[..i], new, &text[j..]),
    }
}
