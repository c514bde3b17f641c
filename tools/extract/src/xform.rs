//! The fixed set of mechanical transformations applied to extracted bodies

use std::collections::{HashMap, HashSet};

use proc_macro2::{Span, TokenStream, TokenTree};
use quote::{format_ident, quote, ToTokens};
use syn::{visit_mut::VisitMut, *};

use crate::{
    print,
    spec::FnSpec,
    ty_name, SrcFn,
};

/// `fn() -> X` in phantom data becomes `X`
struct NoFnPtr;

impl VisitMut for NoFnPtr {
    fn visit_type_mut(&mut self, t: &mut Type) {
        if let Type::BareFn(f) = t {
            if let ReturnType::Type(_, r) = &f.output {
                *t = (**r).clone();
            }
        }
        visit_mut::visit_type_mut(self, t);
    }
}

/// Drops attributes and makes everything `pub`
pub fn clean_item(item: &mut Item) {
    NoFnPtr.visit_item_mut(item);
    fn fields(f: &mut Fields) {
        for f in f.iter_mut() {
            f.attrs.clear();
            f.vis = parse_quote!(pub);
        }
    }
    match item {
        Item::Struct(s) => {
            s.attrs.clear();
            s.vis = parse_quote!(pub);
            fields(&mut s.fields);
        }
        Item::Enum(e) => {
            e.attrs.clear();
            e.vis = parse_quote!(pub);
            for v in e.variants.iter_mut() {
                v.attrs.clear();
                for f in v.fields.iter_mut() {
                    f.attrs.clear();
                }
            }
        }
        _ => (),
    }
}

/// Adds a ghost field `NAME:TYPE`
pub fn ghost_field(s: &mut ItemStruct, g: &str) {
    let (name, ty) = g.split_once(':').expect("`ghost=FIELD:TYPE`");
    let name = format_ident!("{}", name);
    let ty: Type = parse_str(ty).expect("type of a ghost field");
    if let Fields::Named(f) = &mut s.fields {
        f.named.push(parse_quote!(pub #name: #ty));
    }
}

/// Raw memory operations of a type that has the ghost field `mem` get that
/// field as an additional ghost argument
struct Raw<'a> {
    notes: &'a mut Notes,
    /// the element type
    elem: Ident,
}

/// `E` of `&mut *E`
fn raw_reborrow(e: &Expr, mutable: bool) -> Option<Expr> {
    if let Expr::Reference(r) = strip(e) {
        if r.mutability.is_some() == mutable {
            if let Expr::Unary(ExprUnary {
                op: UnOp::Deref(_),
                expr,
                ..
            }) = strip(&r.expr)
            {
                return Some((**expr).clone())
            }
        }
    }
    None
}

impl VisitMut for Raw<'_> {
    fn visit_stmt_mut(&mut self, s: &mut Stmt) {
        if let Stmt::Macro(m) = s {
            if m.mac.path.is_ident("assert") {
                let args = m
                    .mac
                    .parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated);
                if let Some(c) = args.ok().and_then(|a| a.first().cloned()) {
                    self.notes.add("`assert!` of raw memory code panics, which does not return");
                    *s = parse_quote!(if !(#c) { vp_panic::<()>(); });
                }
            }
        }
        visit_mut::visit_stmt_mut(self, s);
    }

    fn visit_expr_mut(&mut self, e: &mut Expr) {
        // two at once
        let two = match strip(e) {
            Expr::Tuple(t) if t.elems.len() == 2 => {
                match (raw_reborrow(&t.elems[0], true), raw_reborrow(&t.elems[1], true)) {
                    (Some(a), Some(b)) => Some((a, b)),
                    _ => None,
                }
            }
            _ => None,
        };
        if let Some((mut a, mut b)) = two {
            self.visit_expr_mut(&mut a);
            self.visit_expr_mut(&mut b);
            self.notes.add("ghost memory passed to a raw memory operation");
            *e = parse_quote!(vp_mut2(#a, #b, Tracked(self.mem.borrow_mut())));
            return
        }
        visit_mut::visit_expr_mut(self, e);
        if let Some(p) = raw_reborrow(e, true) {
            self.notes.add("ghost memory passed to a raw memory operation");
            *e = parse_quote!(vp_mut(#p, Tracked(self.mem.borrow_mut())));
            return
        }
        if let Some(p) = raw_reborrow(e, false) {
            self.notes.add("ghost memory passed to a raw memory operation");
            *e = parse_quote!(vp_ref(#p, Tracked(self.mem.borrow())));
            return
        }
        match e {
            Expr::Struct(s) if s.path.is_ident("Self") || s.path.is_ident("NonZeroInxVec") => {
                s.fields.push(parse_quote!(mem: vp_no_mem()));
            }
            Expr::MethodCall(m) if m.method == "expect" => {
                let r = &m.receiver;
                self.notes.add("`expect` of raw memory code panics, which does not return");
                *e = parse_quote!(#r.vp_expect());
            }
            Expr::Call(c) => {
                let Expr::Path(p) = &*c.func else { return };
                let w: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                if w.len() < 2 {
                    return
                }
                let args = &c.args;
                let name = match (w[w.len() - 2].as_str(), w[w.len() - 1].as_str()) {
                    ("alloc", "alloc") => "vp_alloc",
                    ("alloc", "realloc") => "vp_realloc",
                    ("alloc", "dealloc") => "vp_dealloc",
                    ("ptr", "write") => "vp_write",
                    ("ptr", "read") => "vp_read",
                    ("ptr", "copy") => "vp_copy",
                    ("ptr", "copy_nonoverlapping") => "vp_copy",
                    ("alloc", "handle_alloc_error") => {
                        *e = parse_quote!(vp_alloc_failed(#args));
                        return
                    }
                    _ => return,
                };
                let name = format_ident!("{}", name);
                self.notes.add("ghost memory passed to a raw memory operation");
                let t = &self.elem;
                *e = parse_quote!(#name::<#t>(#args, Tracked(self.mem.borrow_mut())));
            }
            _ => (),
        }
    }
}

/// Paths of the crate are reduced to their last segment, the panic entry point
/// of the expanded `panic!` becomes a call that does not return
struct Paths;

fn short_path(p: &mut Path) -> usize {
    let first = p.segments.first().map(|s| s.ident.to_string()).unwrap_or_default();
    if p.segments.len() < 2 || (first != "triple_arena" && first != "crate") {
        return 0
    }
    let len = p.segments.len();
    let n = p
        .segments
        .iter()
        .take(len - 1)
        .take_while(|s| s.ident.to_string().starts_with(|c: char| c.is_lowercase()))
        .count();
    p.leading_colon = None;
    p.segments = p.segments.iter().skip(n).cloned().collect();
    n
}

impl VisitMut for Paths {
    fn visit_path_mut(&mut self, p: &mut Path) {
        short_path(p);
        visit_mut::visit_path_mut(self, p);
    }

    fn visit_expr_path_mut(&mut self, p: &mut ExprPath) {
        let n = short_path(&mut p.path);
        if let Some(q) = &mut p.qself {
            q.position = q.position.saturating_sub(n);
        }
        visit_mut::visit_expr_path_mut(self, p);
    }

    fn visit_type_path_mut(&mut self, p: &mut TypePath) {
        let n = short_path(&mut p.path);
        if let Some(q) = &mut p.qself {
            q.position = q.position.saturating_sub(n);
        }
        visit_mut::visit_type_path_mut(self, p);
    }

    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Call(c) = e {
            if let Expr::Path(p) = &*c.func {
                let n = p.path.segments.last().unwrap().ident.to_string();
                if n == "panic_fmt" {
                    *e = parse_quote!(return vp_panic());
                    return
                }
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

/// `Self` in an extracted free function
struct SelfTy(Type);

impl VisitMut for SelfTy {
    fn visit_path_mut(&mut self, p: &mut Path) {
        if p.segments.first().map(|s| s.ident == "Self").unwrap_or(false) {
            if let Type::Path(t) = &self.0 {
                let rest: Vec<PathSegment> = p.segments.iter().skip(1).cloned().collect();
                let mut q = t.path.clone();
                q.segments.extend(rest);
                *p = q;
            }
        }
        visit_mut::visit_path_mut(self, p);
    }
}

/// `impl<..> Trait for Type { type A = ..; ..`
pub fn impl_head(i: &crate::SrcImpl) -> String {
    let mut item = i.item.clone();
    NoAttrs.visit_item_impl_mut(&mut item);
    Paths.visit_item_impl_mut(&mut item);
    let (ig, _, iw) = item.generics.split_for_impl();
    let mut s = format!(
        "impl {} {} for {} {} {{\n",
        print::print(ig.to_token_stream()),
        print::print(item.trait_.as_ref().unwrap().1.to_token_stream()),
        print::print(item.self_ty.to_token_stream()),
        print::print(iw.to_token_stream())
    );
    for it in &item.items {
        if let ImplItem::Type(t) = it {
            s.push_str(&format!(
                "type {} = {};\n",
                t.ident,
                print::print(t.ty.to_token_stream())
            ));
        }
    }
    s
}

/// Instantiates a type parameter that is only bounded by `Borrow`
struct Mono {
    from: Ident,
    to: Ident,
}

impl VisitMut for Mono {
    fn visit_path_mut(&mut self, p: &mut Path) {
        if p.is_ident(&self.from) {
            p.segments[0].ident = self.to.clone();
        }
        visit_mut::visit_path_mut(self, p);
    }

    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let Expr::MethodCall(m) = e {
            if m.method == "borrow" && m.args.is_empty() {
                let r = &m.receiver;
                *e = parse_quote!((&#r));
            }
        }
    }
}

struct Notes(Vec<String>);

impl Notes {
    fn add(&mut self, s: &str) {
        if !self.0.iter().any(|x| x == s) {
            self.0.push(s.to_owned());
        }
    }
}

/// Replaces `Self::Item` and friends by the associated type of the impl
struct Assoc<'a>(&'a HashMap<String, Type>);

impl VisitMut for Assoc<'_> {
    fn visit_type_mut(&mut self, t: &mut Type) {
        if let Type::Path(p) = t {
            if p.qself.is_none()
                && p.path.segments.len() == 2
                && p.path.segments[0].ident == "Self"
            {
                if let Some(r) = self.0.get(&p.path.segments[1].ident.to_string()) {
                    *t = r.clone();
                    return
                }
            }
        }
        visit_mut::visit_type_mut(self, t);
    }
}

fn has_exit(b: &Block) -> bool {
    struct V(bool);
    impl<'a> visit::Visit<'a> for V {
        fn visit_expr_return(&mut self, _: &'a ExprReturn) {
            self.0 = true;
        }

        fn visit_expr_try(&mut self, _: &'a ExprTry) {
            self.0 = true;
        }

        fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
    }
    let mut v = V(false);
    visit::Visit::visit_block(&mut v, b);
    v.0
}

/// Rewrites `{ ..; if c { ..; return e } rest }` into `{ ..; if c { ..; e }
/// else { rest } }`, and `return e` in tail position into `e`
fn elim_returns(b: &mut Block) {
    // tail `return e;`
    if let Some(last) = b.stmts.last_mut() {
        let repl = match last {
            Stmt::Expr(Expr::Return(r), _) => r.expr.as_ref().map(|e| Stmt::Expr((**e).clone(), None)),
            _ => None,
        };
        if let Some(r) = repl {
            *last = r;
        }
    }
    let n = b.stmts.len();
    for i in 0..n {
        let is_guard = match &b.stmts[i] {
            Stmt::Expr(Expr::If(e), _) => {
                e.else_branch.is_none()
                    && matches!(
                        e.then_branch.stmts.last(),
                        Some(Stmt::Expr(Expr::Return(_), _))
                    )
            }
            _ => false,
        };
        if is_guard && i + 1 < n {
            let rest: Vec<Stmt> = b.stmts.drain(i + 1..).collect();
            let mut rest = Block {
                brace_token: Default::default(),
                stmts: rest,
            };
            elim_returns(&mut rest);
            if let Stmt::Expr(Expr::If(mut e), _) = b.stmts.pop().unwrap() {
                elim_returns(&mut e.then_branch);
                e.else_branch = Some((
                    Default::default(),
                    Box::new(Expr::Block(ExprBlock {
                        attrs: vec![],
                        label: None,
                        block: rest,
                    })),
                ));
                b.stmts.push(Stmt::Expr(Expr::If(e), None));
            }
            return
        }
    }
    // nested tail if/else and match
    if let Some(Stmt::Expr(e, None)) = b.stmts.last_mut() {
        elim_tail(e);
    }
}

fn elim_tail(e: &mut Expr) {
    match e {
        Expr::If(i) => {
            elim_returns(&mut i.then_branch);
            if let Some((_, x)) = &mut i.else_branch {
                elim_tail(x);
            }
        }
        Expr::Block(x) => elim_returns(&mut x.block),
        Expr::Match(m) => {
            for a in &mut m.arms {
                elim_tail(&mut a.body);
            }
        }
        Expr::Return(r) => {
            if let Some(x) = &r.expr {
                *e = (**x).clone();
            }
        }
        _ => (),
    }
}

struct SubstSelf(Expr);

impl VisitMut for SubstSelf {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Path(p) = e {
            if p.path.is_ident("self") {
                *e = self.0.clone();
                return
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

/// Contracts describe a passed function by the relation of its arguments and
/// results, hence `FnMut` bounds are read as `Fn` bounds, which allows closures
/// to capture the passed function
struct FnBounds(bool);

impl VisitMut for FnBounds {
    fn visit_path_segment_mut(&mut self, s: &mut PathSegment) {
        visit_mut::visit_path_segment_mut(self, s);
        if s.ident == "FnMut" && matches!(s.arguments, PathArguments::Parenthesized(_)) {
            s.ident = format_ident!("Fn");
            self.0 = true;
        }
    }
}

/// All functions and types of the source files under contract
pub struct World {
    pub fns: Vec<SrcFn>,
    pub types: HashMap<String, Item>,
}

/// Gives every variable bound in an inlined body its own name
struct Fresh<'a> {
    names: &'a HashSet<String>,
    n: usize,
}

impl Fresh<'_> {
    fn name(&self, i: &Ident) -> Option<Ident> {
        if self.names.contains(&i.to_string()) {
            Some(format_ident!("{}__b{}", i, self.n))
        } else {
            None
        }
    }
}

impl VisitMut for Fresh<'_> {
    fn visit_pat_ident_mut(&mut self, p: &mut PatIdent) {
        visit_mut::visit_pat_ident_mut(self, p);
        if let Some(i) = self.name(&p.ident) {
            p.ident = i;
        }
    }

    fn visit_field_pat_mut(&mut self, p: &mut FieldPat) {
        if p.colon_token.is_none() {
            p.colon_token = Some(Default::default());
        }
        visit_mut::visit_field_pat_mut(self, p);
    }

    fn visit_field_value_mut(&mut self, p: &mut FieldValue) {
        if p.colon_token.is_none() {
            p.colon_token = Some(Default::default());
        }
        visit_mut::visit_field_value_mut(self, p);
    }

    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Path(p) = e {
            if let Some(i) = p.path.get_ident() {
                if let Some(i) = self.name(i) {
                    *e = parse_quote!(#i);
                }
            }
            return
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

fn bound_names(b: &Block) -> HashSet<String> {
    struct V(HashSet<String>);
    impl<'a> visit::Visit<'a> for V {
        fn visit_pat_ident(&mut self, p: &'a PatIdent) {
            // (not a constant or unit variant)
            let s = p.ident.to_string();
            if s.starts_with(|c: char| c.is_lowercase() || c == '_') {
                self.0.insert(s);
            }
            visit::visit_pat_ident(self, p);
        }
    }
    let mut v = V(HashSet::new());
    visit::Visit::visit_block(&mut v, b);
    v.0
}

/// Instantiates type parameters
struct TypeArgs<'a>(&'a HashMap<String, Type>);

impl TypeArgs<'_> {
    fn get(&self, p: &Path) -> Option<Type> {
        if p.leading_colon.is_some() {
            return None
        }
        self.0.get(&p.segments[0].ident.to_string()).cloned()
    }
}

impl VisitMut for TypeArgs<'_> {
    fn visit_type_mut(&mut self, t: &mut Type) {
        if let Type::Path(p) = t {
            if p.qself.is_none() {
                if let Some(to) = self.get(&p.path) {
                    if p.path.segments.len() == 1 {
                        *t = to;
                        return
                    } else if p.path.segments.len() == 2 {
                        let s = &p.path.segments[1];
                        *t = parse_quote!(<#to as Ptr>::#s);
                        return
                    }
                }
            }
        }
        visit_mut::visit_type_mut(self, t);
    }

    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Path(p) = e {
            if p.qself.is_none() && p.path.segments.len() >= 2 {
                if let Some(to) = self.get(&p.path) {
                    let s: Vec<&PathSegment> = p.path.segments.iter().skip(1).collect();
                    if s.len() == 1 {
                        let s = s[0];
                        *e = parse_quote!(<#to as Ptr>::#s);
                    } else {
                        let (a, b) = (s[0], s[1]);
                        let tr = if a.ident == "Gen" { quote!(PtrGen) } else { quote!(PtrInx) };
                        *e = parse_quote!(<<#to as Ptr>::#a as #tr>::#b);
                    }
                    return
                }
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

/// The variables a lifted closure captures: parameter name, its type, the
/// captured place
pub struct Capture {
    name: Ident,
    ty: Type,
    place: Expr,
}

/// `NAME: TYPE = PLACE` per line
fn captures(txt: &str) -> Vec<Capture> {
    let mut v = vec![];
    for l in txt.lines() {
        let Some((n, r)) = l.split_once(':') else { continue };
        let Some((t, p)) = r.rsplit_once('=') else { continue };
        if let (Ok(ty), Ok(place)) = (parse_str(t), parse_str(p)) {
            v.push(Capture {
                name: format_ident!("{}", n.trim()),
                ty,
                place,
            });
        }
    }
    v
}

/// Writes captured places as the parameters of the lifted closure
struct Captured<'a> {
    c: &'a [Capture],
    shadowed: Vec<String>,
}

fn pat_names(p: &Pat) -> Vec<String> {
    struct V(Vec<String>);
    impl<'a> visit::Visit<'a> for V {
        fn visit_pat_ident(&mut self, p: &'a PatIdent) {
            self.0.push(p.ident.to_string());
            visit::visit_pat_ident(self, p);
        }
    }
    let mut v = V(vec![]);
    visit::Visit::visit_pat(&mut v, p);
    v.0
}

impl VisitMut for Captured<'_> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        for c in self.c {
            if c.place.to_token_stream().to_string() == e.to_token_stream().to_string() {
                let n = &c.name;
                if !self.shadowed.contains(&n.to_string()) {
                    *e = parse_quote!((*#n));
                }
                return
            }
        }
        let depth = self.shadowed.len();
        match e {
            Expr::If(i) => {
                self.visit_expr_mut(&mut i.cond);
                if let Expr::Let(l) = &*i.cond {
                    self.shadowed.extend(pat_names(&l.pat));
                }
                self.visit_block_mut(&mut i.then_branch);
                self.shadowed.truncate(depth);
                if let Some((_, x)) = &mut i.else_branch {
                    self.visit_expr_mut(x);
                }
            }
            _ => visit_mut::visit_expr_mut(self, e),
        }
    }

    fn visit_arm_mut(&mut self, a: &mut Arm) {
        let depth = self.shadowed.len();
        self.shadowed.extend(pat_names(&a.pat));
        visit_mut::visit_arm_mut(self, a);
        self.shadowed.truncate(depth);
    }

    fn visit_block_mut(&mut self, b: &mut Block) {
        let depth = self.shadowed.len();
        for s in &mut b.stmts {
            self.visit_stmt_mut(s);
            if let Stmt::Local(l) = s {
                self.shadowed.extend(pat_names(&l.pat));
            }
        }
        self.shadowed.truncate(depth);
    }

    fn visit_stmt_macro_mut(&mut self, m: &mut StmtMacro) {
        self.visit_macro_mut(&mut m.mac);
    }

    fn visit_macro_mut(&mut self, m: &mut Macro) {
        // `matches!(EXPR, PAT)`
        if m.path.is_ident("matches") {
            let t: Vec<TokenTree> = m.tokens.clone().into_iter().collect();
            if let Some(k) = t.iter().position(|x| matches!(x, TokenTree::Punct(p) if p.as_char() == ',')) {
                let head: TokenStream = t[..k].iter().cloned().collect();
                let tail: TokenStream = t[k..].iter().cloned().collect();
                if let Ok(mut e) = parse2::<Expr>(head) {
                    self.visit_expr_mut(&mut e);
                    m.tokens = quote!(#e #tail);
                }
            }
        }
    }
}

fn nth_closure(b: &Block, k: usize) -> Option<ExprClosure> {
    struct V(Vec<ExprClosure>);
    impl<'a> visit::Visit<'a> for V {
        fn visit_expr_closure(&mut self, c: &'a ExprClosure) {
            self.0.push(c.clone());
            visit::visit_expr_closure(self, c);
        }
    }
    let mut v = V(vec![]);
    visit::Visit::visit_block(&mut v, b);
    v.0.into_iter().nth(k)
}

/// The function a closure of `f` is without its captures
pub fn lifted(f: &SrcFn, spec: &FnSpec) -> Option<SrcFn> {
    let c = nth_closure(&f.block, spec.lift?)?;
    let caps = captures(spec.subs.get("captures")?);
    let types: Vec<Type> = spec
        .subs
        .get("params")?
        .lines()
        .filter_map(|l| parse_str(l).ok())
        .collect();
    if types.len() != c.inputs.len() {
        return None
    }
    let mut f = f.clone();
    let mut block: Block = match &*c.body {
        Expr::Block(b) => b.block.clone(),
        x => parse_quote!({ #x }),
    };
    Captured {
        c: &caps,
        shadowed: vec![],
    }
    .visit_block_mut(&mut block);
    let (n, t): (Vec<_>, Vec<_>) = caps.iter().map(|c| (&c.name, &c.ty)).unzip();
    let pats = c.inputs.iter();
    let g = f.sig.generics.clone();
    let name = format_ident!("{}", spec.rename.clone()?);
    let (ig, _, w) = g.split_for_impl();
    f.sig = parse_quote!(fn #name #ig (#(#n: #t,)* #(#pats: #types,)*) #w);
    f.block = block;
    Some(f)
}

/// Puts the body of a closure in the place of its application
struct Apply<'a> {
    param: &'a str,
    /// call of the lifted closure
    lifted: Option<(Ident, &'a [Capture])>,
    closure: &'a ExprClosure,
    n: usize,
    other: bool,
}

impl VisitMut for Apply<'_> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Call(c) = e {
            let hit = matches!(&*c.func, Expr::Path(p) if p.path.is_ident(self.param));
            if hit && c.args.len() == self.closure.inputs.len() {
                for a in c.args.iter_mut() {
                    self.visit_expr_mut(a);
                }
                let args: Vec<Expr> = c.args.iter().cloned().collect();
                if let Some((name, caps)) = &self.lifted {
                    let caps = caps.iter().map(|c| {
                        let p = &c.place;
                        match &c.ty {
                            Type::Reference(r) if r.mutability.is_some() => quote!(&mut #p),
                            _ => quote!(&#p),
                        }
                    });
                    *e = parse_quote!(Self::#name(#(#caps,)* #(#args),*));
                    self.n += 1;
                    return
                }
                // an unused argument is bound like a parameter, so that its borrow ends
                let pats: Vec<Pat> = self.closure.inputs.iter().cloned().enumerate().map(|(k, p)| match p {
                    Pat::Wild(_) => {
                        let u = format_ident!("__u{}", k);
                        parse_quote!(#u)
                    }
                    p => p,
                }).collect();
                let body = match &*self.closure.body {
                    Expr::Block(b) if b.label.is_none() => {
                        let s = &b.block.stmts;
                        quote!(#(#s)*)
                    }
                    x => quote!(#x),
                };
                *e = if args.len() == 1 {
                    let (p, a) = (&pats[0], &args[0]);
                    parse_quote!({ let #p = #a; #body })
                } else {
                    parse_quote!({ let (#(#pats),*) = (#(#args),*); #body })
                };
                self.n += 1;
                return
            }
        }
        if matches!(e, Expr::Path(p) if p.path.is_ident(self.param)) {
            self.other = true;
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

/// A method of the crate that is called on a field with a closure which
/// changes captured variables is replaced by its body, and the application
/// of the closure in it by the body of the closure
struct Beta<'a> {
    world: &'a World,
    self_ty: Type,
    lifted: Option<(Ident, &'a Vec<Capture>)>,
    n: usize,
    depth: usize,
    notes: &'a mut Notes,
}

impl Beta<'_> {
    fn type_args(generic: &Type, actual: &Type) -> Option<HashMap<String, Type>> {
        let (Type::Path(g), Type::Path(a)) = (generic, actual) else { return None };
        let (g, a) = (g.path.segments.last()?, a.path.segments.last()?);
        let (PathArguments::AngleBracketed(g), PathArguments::AngleBracketed(a)) =
            (&g.arguments, &a.arguments)
        else {
            return None
        };
        let mut res = HashMap::new();
        for (x, y) in g.args.iter().zip(&a.args) {
            if let (GenericArgument::Type(x), GenericArgument::Type(y)) = (x, y) {
                res.insert(ty_name(x), y.clone());
            }
        }
        Some(res)
    }

    fn type_of(&self, e: &Expr) -> Option<Type> {
        match e {
            Expr::Path(p) if p.path.is_ident("self") => Some(self.self_ty.clone()),
            Expr::Paren(p) => self.type_of(&p.expr),
            Expr::Field(f) => {
                let base = self.type_of(&f.base)?;
                let Item::Struct(s) = self.world.types.get(&ty_name(&base))? else { return None };
                let Member::Named(name) = &f.member else { return None };
                let field = s.fields.iter().find(|x| x.ident.as_ref() == Some(name))?;
                let (id, params) = (&s.ident, s.generics.type_params().map(|t| &t.ident));
                let generic: Type = parse_quote!(#id<#(#params),*>);
                let args = Self::type_args(&generic, &base)?;
                let mut t = field.ty.clone();
                TypeArgs(&args).visit_type_mut(&mut t);
                Some(t)
            }
            _ => None,
        }
    }

    fn inline(&mut self, m: &ExprMethodCall) -> Option<Expr> {
        let t = self.type_of(&m.receiver)?;
        let path = format!("{}::{}", ty_name(&t), m.method);
        let f = self.world.fns.iter().find(|f| f.path == path)?;
        let mut block = f.block.clone();
        NoAttrs.visit_block_mut(&mut block);
        Paths.visit_block_mut(&mut block);
        if has_exit(&block) {
            elim_returns(&mut block);
            if has_exit(&block) {
                return None
            }
        }
        self.n += 1;
        let mut names = bound_names(&block);
        let mut pats: Vec<Pat> = f
            .sig
            .inputs
            .iter()
            .filter_map(|a| match a {
                FnArg::Typed(t) => Some((*t.pat).clone()),
                _ => None,
            })
            .collect();
        if pats.len() != m.args.len() {
            return None
        }
        let mut lets: Vec<Stmt> = vec![];
        let mut closures: Vec<(String, ExprClosure)> = vec![];
        for p in &pats {
            let Pat::Ident(i) = p else { return None };
            names.insert(i.ident.to_string());
        }
        let mut fresh = Fresh { names: &names, n: self.n };
        fresh.visit_block_mut(&mut block);
        for (p, a) in pats.iter_mut().zip(&m.args) {
            fresh.visit_pat_mut(p);
            if let Expr::Closure(c) = a {
                let Pat::Ident(i) = p else { return None };
                closures.push((i.ident.to_string(), c.clone()));
            } else {
                lets.push(parse_quote!(let #p = #a;));
            }
        }
        let args = Self::type_args(f.self_ty.as_ref()?, &t)?;
        TypeArgs(&args).visit_block_mut(&mut block);
        SubstSelf((*m.receiver).clone()).visit_block_mut(&mut block);
        for (name, c) in &closures {
            let mut a = Apply {
                param: name,
                lifted: self.lifted.clone().map(|(n, c)| (n, &c[..])),
                closure: c,
                n: 0,
                other: false,
            };
            a.visit_block_mut(&mut block);
            if a.n == 0 || (a.n > 1 && a.lifted.is_none()) || a.other {
                return None
            }
        }
        let stmts = &block.stmts;
        Some(parse_quote!({ #(#lets)* #(#stmts)* }))
    }
}

impl VisitMut for Beta<'_> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let (true, Expr::MethodCall(m)) = (self.depth > 0, &*e) {
            if m.args.iter().any(|a| matches!(a, Expr::Closure(_))) {
                let m = m.clone();
                if let Some(x) = self.inline(&m) {
                    self.notes.add(
                        "method called with a closure that changes captured variables replaced by its body",
                    );
                    *e = x;
                    self.depth -= 1;
                    visit_mut::visit_expr_mut(self, e);
                    self.depth += 1;
                    return
                }
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

/// Inlines calls to functions of the crate that have no contract
struct Inline<'a> {
    fns: &'a [SrcFn],
    known: &'a HashSet<String>,
    depth: usize,
    self_name: String,
    notes: &'a mut Notes,
}

impl Inline<'_> {
    fn find(&self, name: &str, method: bool) -> Option<&SrcFn> {
        if self.known.contains(name) {
            return None
        }
        let c: Vec<&SrcFn> = self
            .fns
            .iter()
            .filter(|f| {
                f.sig.ident == name
                    && !f.path.contains(" as ")
                    && (f.self_ty.is_none()
                        || ty_name(f.self_ty.as_ref().unwrap()) == self.self_name)
                    && f.sig.receiver().is_some() == method
            })
            .collect();
        if c.len() == 1 {
            Some(c[0])
        } else {
            None
        }
    }

    fn body(&self, f: &SrcFn, args: Vec<Expr>, recv: Option<Expr>) -> Option<Expr> {
        let mut block = f.block.clone();
        if has_exit(&block) {
            elim_returns(&mut block);
            if has_exit(&block) {
                return None
            }
        }
        if let Some(r) = recv {
            let is_self = matches!(&r, Expr::Path(p) if p.path.is_ident("self"));
            if !is_self {
                return None
            }
            SubstSelf(r).visit_block_mut(&mut block);
        }
        let pats: Vec<Pat> = f
            .sig
            .inputs
            .iter()
            .filter_map(|a| match a {
                FnArg::Typed(t) => Some((*t.pat).clone()),
                _ => None,
            })
            .collect();
        if pats.len() != args.len() {
            return None
        }
        let stmts = &block.stmts;
        let lets: Vec<Stmt> = if pats.is_empty() {
            vec![]
        } else if pats.len() == 1 {
            let (p, a) = (&pats[0], &args[0]);
            vec![parse_quote!(let #p = #a;)]
        } else {
            let tmp: Vec<Ident> = (0..args.len())
                .map(|i| format_ident!("__arg{}_{}", self.depth, i))
                .collect();
            let mut v: Vec<Stmt> = vec![];
            for (t, a) in tmp.iter().zip(&args) {
                v.push(parse_quote!(let #t = #a;));
            }
            for (t, p) in tmp.iter().zip(&pats) {
                v.push(parse_quote!(let #p = #t;));
            }
            v
        };
        Some(parse_quote!({ #(#lets)* #(#stmts)* }))
    }
}

impl VisitMut for Inline<'_> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if self.depth == 0 {
            return
        }
        let repl = match e {
            Expr::MethodCall(m) => {
                let name = m.method.to_string();
                match self.find(&name, true) {
                    Some(f) => self
                        .body(f, m.args.iter().cloned().collect(), Some((*m.receiver).clone()))
                        .map(|b| (name, b)),
                    None => None,
                }
            }
            Expr::Call(c) => {
                if let Expr::Path(p) = &*c.func {
                    let segs = &p.path.segments;
                    let name = segs.last().unwrap().ident.to_string();
                    let ok = segs.len() == 1
                        || (segs.len() == 2
                            && (segs[0].ident == "Self" || segs[0].ident == self.self_name));
                    if ok {
                        match self.find(&name, false) {
                            Some(f) => self
                                .body(f, c.args.iter().cloned().collect(), None)
                                .map(|b| (name, b)),
                            None => None,
                        }
                    } else {
                        None
                    }
                } else {
                    None
                }
            }
            _ => None,
        };
        if let Some((name, mut b)) = repl {
            self.notes.add(&format!("inlined un-contracted helper `{name}`"));
            self.depth -= 1;
            self.visit_expr_mut(&mut b);
            self.depth += 1;
            *e = b;
        }
    }
}

/// Expression and statement rewrites
struct Rewrite<'a> {
    tmp: usize,
    opcall: bool,
    index: bool,
    /// `self` is a shared reference
    shared: bool,
    /// parameters that are turned into iterators
    iterable: Vec<Ident>,
    notes: &'a mut Notes,
}

/// the parameters of a generic type with the bound `IntoIterator`
fn iterable(sig: &Signature) -> Vec<Ident> {
    let names: Vec<&Ident> = sig
        .generics
        .type_params()
        .filter(|t| {
            t.bounds.iter().any(|b| {
                matches!(b, TypeParamBound::Trait(t) if t.path.segments.last().is_some_and(|s| s.ident == "IntoIterator"))
            })
        })
        .map(|t| &t.ident)
        .collect();
    sig.inputs
        .iter()
        .filter_map(|a| match a {
            FnArg::Typed(t) => match (&*t.pat, &*t.ty) {
                (Pat::Ident(p), Type::Path(y)) if names.iter().any(|n| y.path.is_ident(*n)) => Some(p.ident.clone()),
                _ => None,
            },
            _ => None,
        })
        .collect()
}

fn is_nziter(e: &Expr) -> bool {
    matches!(e, Expr::MethodCall(m) if m.method == "nziter" && m.args.is_empty())
        || matches!(e, Expr::Call(c) if matches!(&*c.func, Expr::Path(p) if p.path.segments.last().unwrap().ident == "nzusize_iter"))
}

impl VisitMut for Rewrite<'_> {
    fn visit_block_mut(&mut self, b: &mut Block) {
        visit_mut::visit_block_mut(self, b);
        b.stmts.retain(|s| {
            if let Stmt::Macro(m) = s {
                let n = m.mac.path.segments.last().unwrap().ident.to_string();
                return !n.starts_with("debug_assert")
            }
            true
        });
        // nested function items are not supported
        for s in b.stmts.iter_mut() {
            // `x += 1` style and bare expressions keep their form
            if let Stmt::Local(l) = s {
                l.attrs.clear();
            }
        }
    }

    fn visit_expr_assign_mut(&mut self, a: &mut ExprAssign) {
        if self.index {
            // the assigned place, through its fields
            let mut x = &mut *a.left;
            while let Expr::Field(f) = x {
                x = &mut *f.base;
            }
            if let Expr::Index(i) = x {
                self.notes.add("indexing of an arena written as a call of `index_mut`");
                let (b, p) = (&i.expr, &i.index);
                *x = parse_quote!((*#b.vp_index_mut(#p)));
            }
        }
        visit_mut::visit_expr_assign_mut(self, a);
    }

    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        let repl: Option<Expr> = match e {
            Expr::Index(i) if self.index => {
                self.notes.add("indexing of an arena written as a call of `index`");
                let (b, p) = (&i.expr, &i.index);
                Some(parse_quote!((*#b.vp_index(#p))))
            }
            Expr::Reference(r) if r.mutability.is_some() => {
                // `&mut *(x as *mut T)`
                let mut out = None;
                if let Expr::Unary(ExprUnary {
                    op: UnOp::Deref(_),
                    expr,
                    ..
                }) = &*r.expr
                {
                    if let Expr::Paren(p) = &**expr {
                        if let Expr::Cast(c) = &*p.expr {
                            if matches!(&*c.ty, Type::Ptr(_)) {
                                self.notes
                                    .add("reborrow through a raw pointer replaced by the reference");
                                out = Some((*c.expr).clone());
                            }
                        }
                    }
                }
                out
            }
            Expr::MethodCall(m)
                if m.method == "map"
                    && m.args.len() == 1
                    && matches!(&m.args[0], Expr::Closure(c) if c.inputs.len() == 1) =>
            {
                self.notes.add("`Option::map` closure expanded to a match");
                let Expr::Closure(c) = &m.args[0] else {
                    unreachable!()
                };
                // a type in the pattern is not possible in a match
                let pat = match &c.inputs[0] {
                    Pat::Type(t) => &*t.pat,
                    p => p,
                };
                let body = &c.body;
                let recv = &m.receiver;
                Some(parse_quote!(match #recv { Some(#pat) => Some(#body), None => None }))
            }
            Expr::ForLoop(f) => {
                let k = self.tmp;
                self.tmp += 1;
                let pat = &f.pat;
                let body = &f.body.stmts;
                let label = &f.label;
                if let Expr::Range(r) = strip(&f.expr) {
                    let i = format_ident!("__i{}", k);
                    let en = format_ident!("__e{}", k);
                    let start = r.start.as_ref().expect("range start");
                    match (&r.end, r.limits) {
                        (Some(end), RangeLimits::HalfOpen(_)) => {
                            self.notes.add("`for` over a range expanded to `while`");
                            Some(parse_quote!({
                                let mut #i = #start;
                                let #en = #end;
                                #label while #i < #en { let #pat = #i; #i = #i + 1; #(#body)* }
                            }))
                        }
                        (Some(end), RangeLimits::Closed(_)) => {
                            self.notes.add("`for` over a range expanded to `while`");
                            Some(parse_quote!({
                                let mut #i = #start;
                                let #en = #end;
                                let mut __more = #i <= #en;
                                #label while __more { let #pat = #i; if #i < #en { #i = #i + 1; } else { __more = false; } #(#body)* }
                            }))
                        }
                        (None, _) => {
                            self.notes.add("`for` over a range expanded to `while`");
                            Some(parse_quote!({
                                let mut #i: usize = #start;
                                #label loop { let #pat = #i; #i = #i + 1; #(#body)* }
                            }))
                        }
                    }
                } else {
                    self.notes
                        .add("`for` over an iterator expanded to `loop { match it.next() .. }`");
                    let it = format_ident!("__it{}", k);
                    let ex = &f.expr;
                    let init: Expr = if is_nziter(strip(&f.expr)) {
                        parse_quote!(#ex.into_iter())
                    } else if let Expr::Reference(ExprReference {
                        mutability: None,
                        expr,
                        ..
                    }) = strip(&f.expr)
                    {
                        self.notes
                            .add("`for` over a reference to an arena calls its `iter`");
                        parse_quote!(#expr.iter())
                    } else if self.shared && matches!(strip(&f.expr), Expr::Path(p) if p.path.is_ident("self")) {
                        self.notes
                            .add("`for` over a reference to an arena calls its `iter`");
                        parse_quote!(self.iter())
                    } else if matches!(strip(&f.expr), Expr::Path(p) if self.iterable.iter().any(|i| p.path.is_ident(i))) {
                        parse_quote!(#ex.into_iter())
                    } else {
                        ex.as_ref().clone()
                    };
                    Some(parse_quote!({
                        let mut #it = #init;
                        #label loop {
                            match #it.next() {
                                None => { break; }
                                Some(#pat) => { #(#body)* }
                            }
                        }
                    }))
                }
            }
            Expr::While(w) => {
                if let Expr::Let(l) = &*w.cond {
                    self.notes.add("`while let` expanded to `loop { match .. }`");
                    let pat = &l.pat;
                    let ex = &l.expr;
                    let body = &w.body.stmts;
                    let label = &w.label;
                    Some(parse_quote!(#label loop {
                        match #ex { #pat => { #(#body)* } _ => { break; } }
                    }))
                } else {
                    None
                }
            }
            Expr::Binary(b) if self.opcall => {
                let (l, r) = (&b.left, &b.right);
                match b.op {
                    BinOp::Eq(_) => {
                        self.notes.add("`==` on arenas written as a call of `eq`");
                        Some(parse_quote!(#l.eq(&#r)))
                    }
                    BinOp::Ne(_) => {
                        self.notes.add("`==` on arenas written as a call of `eq`");
                        Some(parse_quote!((!#l.eq(&#r))))
                    }
                    _ => None,
                }
            }
            _ => None,
        };
        if let Some(r) = repl {
            *e = r;
        }
    }
}

fn strip(e: &Expr) -> &Expr {
    match e {
        Expr::Paren(p) => strip(&p.expr),
        Expr::Group(p) => strip(&p.expr),
        _ => e,
    }
}

fn marker(name: &str) -> Stmt {
    let id = Ident::new(name, Span::call_site());
    parse_quote!(#id!();)
}

/// Numbers the loops in source order, and plants the markers
struct Loops<'a> {
    n: usize,
    spec: &'a FnSpec,
    its: Vec<Option<String>>,
    /// counter and end of the loops written as `while i < n`
    counted: Vec<(usize, String, String)>,
}

impl Loops<'_> {
    fn plant(&mut self, body: &mut Block, k: usize) {
        if self.spec.subs.contains_key(&format!("body {k}")) {
            body.stmts.insert(0, marker(&format!("__vp_g_body_{k}")));
        }
        if self.spec.subs.contains_key(&format!("tail {k}")) {
            body.stmts.push(marker(&format!("__vp_g_tail_{k}")));
        }
        for kind in ["break", "continue"] {
            if self.spec.subs.contains_key(&format!("{kind} {k}")) {
                let id = format!("__vp_g_{kind}_{k}");
                Exits { kind, id }.visit_block_mut(body);
            }
        }
        body.stmts.insert(0, marker(&format!("__vp_loop_{k}")));
    }
}

/// Plants a marker before every `break` or `continue` of one loop, or before
/// every `return` of a function
struct Exits {
    kind: &'static str,
    id: String,
}

impl Exits {
    fn is(&self, e: &Expr) -> bool {
        match e {
            Expr::Break(b) => self.kind == "break" && b.label.is_none(),
            Expr::Continue(b) => self.kind == "continue" && b.label.is_none(),
            Expr::Return(_) => self.kind == "ret",
            _ => false,
        }
    }
}

impl VisitMut for Exits {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let mut i = 0;
        while i < b.stmts.len() {
            if matches!(&b.stmts[i], Stmt::Expr(e, _) if self.is(e)) {
                if let Stmt::Expr(Expr::Return(r), _) = &mut b.stmts[i] {
                    if let Some(e) = r.expr.take() {
                        r.expr = Some(parse_quote!(__r));
                        b.stmts.insert(i, parse_quote!(let __r = #e;));
                        i += 1;
                    }
                }
                b.stmts.insert(i, marker(&self.id));
                i += 1;
            } else {
                self.visit_stmt_mut(&mut b.stmts[i]);
            }
            i += 1;
        }
    }

    fn visit_arm_mut(&mut self, a: &mut Arm) {
        if self.is(&a.body) {
            let e = &a.body;
            a.body = parse_quote!({ #e });
        }
        visit_mut::visit_arm_mut(self, a);
    }

    fn visit_expr_loop_mut(&mut self, l: &mut ExprLoop) {
        if self.kind == "ret" {
            visit_mut::visit_expr_loop_mut(self, l);
        }
    }

    fn visit_expr_while_mut(&mut self, l: &mut ExprWhile) {
        if self.kind == "ret" {
            visit_mut::visit_expr_while_mut(self, l);
        }
    }

    fn visit_expr_closure_mut(&mut self, _: &mut ExprClosure) {}
}

/// `break E` of one loop becomes `return E`
struct BreakRet(bool);

impl VisitMut for BreakRet {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let Expr::Break(ExprBreak {
            label: None,
            expr: Some(v),
            ..
        }) = e
        {
            *e = parse_quote!(return #v);
            self.0 = true;
        }
    }

    fn visit_expr_loop_mut(&mut self, _: &mut ExprLoop) {}

    fn visit_expr_while_mut(&mut self, _: &mut ExprWhile) {}

    fn visit_expr_closure_mut(&mut self, _: &mut ExprClosure) {}
}

/// Loops whose value is that of the function
fn tail_loops(b: &mut Block, notes: &mut Notes) {
    fn tail(e: &mut Expr, notes: &mut Notes) {
        match e {
            Expr::Loop(l) => {
                let mut r = BreakRet(false);
                r.visit_block_mut(&mut l.body);
                if r.0 {
                    notes.add("value of a loop at the end of a function returned by `return`");
                }
            }
            Expr::Block(b) => tail_loops(&mut b.block, notes),
            Expr::If(i) => {
                tail_loops(&mut i.then_branch, notes);
                if let Some((_, e)) = &mut i.else_branch {
                    tail(e, notes);
                }
            }
            Expr::Match(m) => m.arms.iter_mut().for_each(|a| tail(&mut a.body, notes)),
            _ => (),
        }
    }
    if let Some(Stmt::Expr(e, None)) = b.stmts.last_mut() {
        tail(e, notes);
    }
}

fn iter_of(body: &Block) -> Option<String> {
    // `match X.next() { .. }` as the only statement
    if body.stmts.len() == 1 {
        if let Stmt::Expr(Expr::Match(m), _) = &body.stmts[0] {
            if let Expr::MethodCall(c) = &*m.expr {
                if c.method == "next" || c.method == "advance" {
                    return Some(c.receiver.to_token_stream().to_string())
                }
            }
        }
    }
    None
}

impl VisitMut for Loops<'_> {
    fn visit_block_mut(&mut self, b: &mut Block) {
        // markers before and after loop statements
        let mut i = 0;
        while i < b.stmts.len() {
            let k = self.n;
            let is_loop = matches!(
                &b.stmts[i],
                Stmt::Expr(Expr::Loop(_), _) | Stmt::Expr(Expr::While(_), _)
            );
            self.visit_stmt_mut(&mut b.stmts[i]);
            if is_loop {
                if self.spec.subs.contains_key(&format!("before {k}")) {
                    b.stmts.insert(i, marker(&format!("__vp_g_before_{k}")));
                    i += 1;
                }
                if self.spec.subs.contains_key(&format!("after {k}")) {
                    // the loop must then be a statement
                    if let Stmt::Expr(_, semi) = &mut b.stmts[i] {
                        *semi = Some(Default::default());
                    }
                    b.stmts.insert(i + 1, marker(&format!("__vp_g_after_{k}")));
                    i += 1;
                }
            }
            i += 1;
        }
    }

    fn visit_expr_loop_mut(&mut self, l: &mut ExprLoop) {
        let k = self.n;
        self.n += 1;
        self.its.push(iter_of(&l.body));
        self.visit_block_mut(&mut l.body);
        self.plant(&mut l.body, k);
    }

    fn visit_expr_while_mut(&mut self, l: &mut ExprWhile) {
        let k = self.n;
        self.n += 1;
        self.its.push(None);
        if let Expr::Binary(ExprBinary {
            left,
            op: BinOp::Lt(_),
            right,
            ..
        }) = &*l.cond
        {
            if matches!(&**left, Expr::Path(_)) {
                let i = left.to_token_stream().to_string();
                if !i.starts_with("__i") {
                    self.counted.push((k, i, print::print(right.to_token_stream())));
                }
            }
        }
        self.visit_expr_mut(&mut l.cond);
        self.visit_block_mut(&mut l.body);
        self.plant(&mut l.body, k);
    }
}

/// Numbers the remaining closures in source order, and plants the markers of
/// those that have a specification
struct Closures<'a> {
    n: usize,
    spec: &'a FnSpec,
    params: Vec<Vec<String>>,
}

impl VisitMut for Closures<'_> {
    fn visit_expr_closure_mut(&mut self, c: &mut ExprClosure) {
        let k = self.n;
        self.n += 1;
        for (i, p) in c.inputs.iter_mut().enumerate() {
            if let Pat::Wild(_) = p {
                let id = format_ident!("__c{}", i);
                *p = parse_quote!(#id);
            }
        }
        self.params.push(
            c.inputs
                .iter()
                .map(|p| match p {
                    Pat::Type(t) => t.pat.to_token_stream().to_string(),
                    p => p.to_token_stream().to_string(),
                })
                .collect(),
        );
        visit_mut::visit_expr_closure_mut(self, c);
        if self.spec.subs.contains_key(&format!("closure {k}")) {
            let m = marker(&format!("__vp_closure_{k}"));
            let body: Block = match &*c.body {
                Expr::Block(b) => {
                    let stmts = &b.block.stmts;
                    parse_quote!({ #m #(#stmts)* })
                }
                e => parse_quote!({ #m #e }),
            };
            c.body = Box::new(Expr::Block(ExprBlock {
                attrs: vec![],
                label: None,
                block: body,
            }));
        }
    }
}

/// Binds closures that a contract needs to name to a variable before the
/// statement they are in, with the types of their parameters written out
struct Hoist<'a> {
    n: usize,
    spec: &'a FnSpec,
    pending: Vec<Stmt>,
    hit: bool,
}

impl VisitMut for Hoist<'_> {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let outer = std::mem::take(&mut self.pending);
        let mut stmts = vec![];
        for mut s in std::mem::take(&mut b.stmts) {
            self.visit_stmt_mut(&mut s);
            stmts.append(&mut self.pending);
            stmts.push(s);
        }
        b.stmts = stmts;
        self.pending = outer;
    }

    fn visit_expr_mut(&mut self, e: &mut Expr) {
        let Expr::Closure(c) = e else {
            return visit_mut::visit_expr_mut(self, e)
        };
        let k = self.n;
        self.n += 1;
        visit_mut::visit_expr_closure_mut(self, c);
        if let Some(v) = self.spec.subs.get(&format!("hoist {k}")) {
            let (name, tys) = v.trim().split_once(' ').unwrap_or((v.trim(), ""));
            let id = format_ident!("{}", name);
            for (p, t) in c.inputs.iter_mut().zip(tys.split(';')) {
                let t: Type = parse_str(t).expect("type of a closure parameter");
                if let Pat::Type(_) = p {
                    continue
                }
                let q = p.clone();
                *p = Pat::Type(parse_quote!(#q: #t));
            }
            let c = c.clone();
            self.pending.push(parse_quote!(let #id = #c;));
            self.hit = true;
            *e = parse_quote!(#id);
        }
    }
}

/// Counts the calls of `name` (method or function) in an expression or
/// statement without descending into nested blocks
struct CountCalls<'a> {
    name: &'a str,
    n: usize,
}

impl<'a> visit::Visit<'a> for CountCalls<'_> {
    fn visit_expr_method_call(&mut self, m: &'a ExprMethodCall) {
        visit::visit_expr_method_call(self, m);
        if m.method == self.name {
            self.n += 1;
        }
    }

    fn visit_expr_call(&mut self, c: &'a ExprCall) {
        visit::visit_expr_call(self, c);
        if let Expr::Path(p) = &*c.func {
            if p.path.segments.last().unwrap().ident == self.name {
                self.n += 1;
            }
        }
    }

    fn visit_block(&mut self, _: &'a Block) {}
}

/// Plants `@at CALL K` and `@pre CALL K` markers around the innermost
/// statement of the call
struct AtCalls {
    name: String,
    k: usize,
    seen: usize,
    before: bool,
    id: String,
    done: bool,
}

impl VisitMut for AtCalls {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let mut i = 0;
        while i < b.stmts.len() {
            if self.done {
                return
            }
            let mut c = CountCalls {
                name: &self.name,
                n: 0,
            };
            visit::Visit::visit_stmt(&mut c, &b.stmts[i]);
            let here = c.n;
            if self.seen + here > self.k {
                self.done = true;
                if self.before {
                    b.stmts.insert(i, marker(&self.id));
                } else if i + 1 == b.stmts.len() {
                    let old = b.stmts.pop().unwrap();
                    match old {
                        Stmt::Expr(e, None) => {
                            b.stmts.push(parse_quote!(let __tail = #e;));
                            b.stmts.push(marker(&self.id));
                            b.stmts.push(Stmt::Expr(parse_quote!(__tail), None));
                        }
                        s => {
                            b.stmts.push(s);
                            b.stmts.push(marker(&self.id));
                        }
                    }
                } else {
                    b.stmts.insert(i + 1, marker(&self.id));
                }
                return
            }
            self.seen += here;
            visit_mut::visit_stmt_mut(self, &mut b.stmts[i]);
            i += 1;
        }
    }
}

/// Strips attributes from every expression that could carry one
struct NoAttrs;

impl VisitMut for NoAttrs {
    fn visit_attributes_mut(&mut self, a: &mut Vec<Attribute>) {
        a.clear();
    }
}

pub fn emit(
    f: &SrcFn,
    spec: &FnSpec,
    fns: &[SrcFn],
    known: &HashSet<String>,
    world: &World,
    skipped: bool,
) -> (String, Vec<String>) {
    let mut notes = Notes(vec![]);
    let mut sig = f.sig.clone();
    let mut block = f.block.clone();
    let self_name = f.self_ty.as_ref().map(ty_name).unwrap_or_default();
    let trusted = spec.trusted || skipped;

    NoAttrs.visit_block_mut(&mut block);
    if spec.raw {
        let elem = f.generics.type_params().next().map(|t| t.ident.clone());
        Raw {
            notes: &mut notes,
            elem: elem.unwrap_or_else(|| format_ident!("T")),
        }
        .visit_block_mut(&mut block);
    }
    Paths.visit_block_mut(&mut block);
    Paths.visit_signature_mut(&mut sig);
    let mut b = FnBounds(false);
    b.visit_generics_mut(&mut sig.generics);
    if b.0 {
        notes.add("`FnMut` bound read as `Fn`");
    }
    let mut generics = f.generics.clone();
    if let Some((from, to)) = &spec.mono {
        let mut m = Mono {
            from: format_ident!("{}", from),
            to: format_ident!("{}", to),
        };
        generics.params = generics
            .params
            .into_iter()
            .filter(|g| !matches!(g, GenericParam::Type(t) if t.ident == from.as_str()))
            .collect();
        m.visit_signature_mut(&mut sig);
        m.visit_block_mut(&mut block);
        notes.add("index type instantiated with the pointer type itself");
    }
    if spec.free {
        let t = f.self_ty.clone().unwrap();
        SelfTy(t.clone()).visit_block_mut(&mut block);
        SelfTy(t).visit_signature_mut(&mut sig);
        notes.add("associated function of a foreign type extracted as a free function");
    }
    if let (true, Some(t)) = (spec.beta, &f.self_ty) {
        let caps = captures(spec.subs.get("captures").map(|s| s.as_str()).unwrap_or(""));
        let name = spec.subs.get("lifted").map(|s| s.trim().to_owned());
        if name.is_some() {
            notes.add("closure with mutable captures made a function with parameters for them");
        }
        Beta {
            world,
            lifted: name.map(|n| (format_ident!("{}", n), &caps)),
            self_ty: t.clone(),
            n: 0,
            depth: 4,
            notes: &mut notes,
        }
        .visit_block_mut(&mut block);
    }
    Inline {
        fns,
        known,
        depth: 4,
        self_name: self_name.trim_start_matches("&mut ").trim_start_matches('&').to_owned(),
        notes: &mut notes,
    }
    .visit_block_mut(&mut block);
    if f.path.contains(" as ") && !spec.in_impl && !spec.free {
        notes.add("trait method extracted as an inherent method");
    }
    Assoc(&f.assoc).visit_signature_mut(&mut sig);
    Assoc(&f.assoc).visit_block_mut(&mut block);
    Rewrite {
        tmp: 0,
        opcall: spec.opcall,
        index: spec.index,
        iterable: iterable(&f.sig),
        shared: matches!(f.sig.receiver(), Some(r) if r.reference.is_some() && r.mutability.is_none()),
        notes: &mut notes,
    }
    .visit_block_mut(&mut block);
    tail_loops(&mut block, &mut notes);
    // blocks introduced by the loop expansion are flattened only if they are
    // statements, which keeps loops as direct statements of their block
    let mut l = Loops {
        n: 0,
        spec,
        its: vec![],
        counted: vec![],
    };
    l.visit_block_mut(&mut block);
    let (its, counted) = (l.its, l.counted);
    let mut closures = Closures {
        n: 0,
        spec,
        params: vec![],
    };
    closures.visit_block_mut(&mut block);
    let mut hoist = Hoist {
        n: 0,
        spec,
        pending: vec![],
        hit: false,
    };
    hoist.visit_block_mut(&mut block);
    if hoist.hit {
        notes.add("closure bound to a variable before the statement it is in");
    }

    let mut ghost: Vec<(String, String)> = vec![];
    for (k, v) in &spec.subs {
        let w: Vec<&str> = k.split(' ').collect();
        match w[0] {
            "at" | "pre" => {
                let id = format!("__vp_g_{}_{}_{}", w[0], w[1], w[2]);
                let mut a = AtCalls {
                    name: w[1].to_owned(),
                    k: w[2].parse().unwrap(),
                    seen: 0,
                    before: w[0] == "pre",
                    id: id.clone(),
                    done: false,
                };
                a.visit_block_mut(&mut block);
                ghost.push((id, v.clone()));
            }
            "ret" => {
                let id = "__vp_g_ret".to_owned();
                Exits { kind: "ret", id: id.clone() }.visit_block_mut(&mut block);
                ghost.push((id, v.clone()));
            }
            "start" => {
                block.stmts.insert(0, marker("__vp_g_start"));
                ghost.push(("__vp_g_start".into(), v.clone()));
            }
            "end" => {
                let last = block.stmts.pop();
                match last {
                    Some(Stmt::Expr(e, None)) if !matches!(sig.output, ReturnType::Default) => {
                        block.stmts.push(parse_quote!(let __r = #e;));
                        block.stmts.push(marker("__vp_g_end"));
                        block.stmts.push(Stmt::Expr(parse_quote!(__r), None));
                    }
                    Some(Stmt::Expr(e, None)) => {
                        block.stmts.push(Stmt::Expr(e, Some(Default::default())));
                        block.stmts.push(marker("__vp_g_end"));
                    }
                    Some(s) => {
                        block.stmts.push(s);
                        block.stmts.push(marker("__vp_g_end"));
                    }
                    None => block.stmts.push(marker("__vp_g_end")),
                }
                ghost.push(("__vp_g_end".into(), v.clone()));
            }
            "body" | "tail" | "before" | "after" | "break" | "continue" => {
                ghost.push((format!("__vp_g_{}_{}", w[0], w[1]), v.clone()))
            }
            _ => (),
        }
    }

    let mut body = print::print(block.to_token_stream());
    // a contract written for a `for` loop over a range also describes the same
    // loop written as `while i < n`
    let named = |v: &mut String| {
        for (k, i, e) in &counted {
            *v = v
                .replace(&format!("__i{k}"), i)
                .replace(&format!("__e{k}"), &format!("({e})"));
        }
    };
    // the longest ids first so that `_1` does not match `_10`
    ghost.sort_by_key(|(id, _)| std::cmp::Reverse(id.len()));
    for (id, v) in &ghost {
        let mut v = v.clone();
        for (k, it) in its.iter().enumerate() {
            if let Some(it) = it {
                v = v.replace(&format!("$it{k}"), it.trim());
            }
        }
        named(&mut v);
        body = body.replace(&format!(" {id} !();\n"), &format!("{v}\n"));
    }
    for k in (0..its.len()).rev() {
        let mut v = spec
            .subs
            .get(&format!("loop {k}"))
            .cloned()
            .unwrap_or_default();
        if let Some(it) = &its[k] {
            v = v.replace("$it", it.trim());
        }
        named(&mut v);
        body = body.replace(
            &format!("{{\n __vp_loop_{k} !();\n"),
            &format!("\n{v}\n{{\n"),
        );
    }

    for (k, params) in closures.params.iter().enumerate() {
        if let Some(v) = spec.subs.get(&format!("closure {k}")) {
            let mut v = v.clone();
            for (i, p) in params.iter().enumerate() {
                v = v.replace(&format!("${i}"), p.trim());
            }
            body = body.replace(
                &format!("{{\n __vp_closure_{k} !();\n"),
                &format!("\n{v}\n{{\n"),
            );
        }
    }

    let mut s = String::new();
    let name = spec
        .rename
        .clone()
        .unwrap_or_else(|| sig.ident.to_string());
    let (ig, _, iw) = generics.split_for_impl();
    let wrap = f.self_ty.is_some() && !spec.in_impl && !spec.free;
    if let (true, Some(t)) = (wrap, &f.self_ty) {
        // `impl Trait for &Type` is emitted on the type itself with its
        // receiver type rewritten by the caller, which is not supported
        s.push_str(&format!(
            "impl {} {} {} {{\n",
            print::print(ig.to_token_stream()),
            print::print(t.to_token_stream()),
            print::print(iw.to_token_stream())
        ));
    }
    s.push_str(&spec.attrs);
    if trusted {
        s.push_str("#[verifier::external_body]\n");
    }
    if spec.nodecreases {
        s.push_str("#[verifier::exec_allows_no_decreases_clause]\n");
    }
    let (fg, _, fw) = sig.generics.split_for_impl();
    let fg = print::print(fg.to_token_stream());
    let fw = print::print(fw.to_token_stream());
    let inputs = print::print(sig.inputs.to_token_stream());
    let out = match &sig.output {
        ReturnType::Default => String::new(),
        ReturnType::Type(_, t) if spec.in_impl && spec.contract.is_empty() => {
            format!(" -> {}", print::print(t.to_token_stream()))
        }
        ReturnType::Type(_, t) => format!(" -> (r: {})", print::print(t.to_token_stream())),
    };
    let vis = if spec.in_impl { "" } else { "pub " };
    s.push_str(&format!("{vis}fn {name} {fg} ({inputs}){out} {fw}\n"));
    s.push_str(&spec.contract);
    if trusted {
        s.push_str("{ unimplemented!() }\n");
    } else {
        s.push_str(&body);
    }
    if wrap {
        s.push_str("}\n");
    }
    (s, notes.0)
}

#[allow(unused)]
fn _q() -> TokenStream {
    quote!()
}
