//! C12: operators bind by declared precedence and associativity
use eucalypt::common::sourcemap::{Smid, SourceMap};
use eucalypt::core::binding::Var;
use eucalypt::core::cook;
use eucalypt::core::expr::*;
use euh::pipe::{Lit, Opts, *};
use euh::*;

#[derive(Clone, Copy, PartialEq, Debug)]
enum K { Val, L, R, Pre, Post, Nul, Cat, Gap }
#[derive(Clone, Copy)]
struct Tok { k: K, p: u8, id: u32 }

/// a tree over token positions
enum T { Leaf(usize), Un(usize, Box<T>), Bin(usize, Box<T>, Box<T>) }

fn expr(t: &Tok, sm: &mut SourceMap) -> RcExpr {
    let s = sm.add_synthetic("t");
    let f = core::bif(s, format!("O{}", t.id));
    match t.k {
        K::Val => core::num(s, 1000 + t.id as i64),
        K::L => core::infixl(s, t.p as i32, f),
        K::R => core::infixr(s, t.p as i32, f),
        K::Pre => core::prefix(s, t.p as i32, f),
        K::Post => core::postfix(s, t.p as i32, f),
        _ => core::nullary(s, t.p as i32, f),
    }
}
/// the tree an expression is, over the tokens (values and operators by number, gaps by parameter)
fn tree(e: &RcExpr, toks: &[Tok]) -> Option<T> {
    let at = |id: u32| toks.iter().position(|t| t.id == id && t.k != K::Cat && t.k != K::Gap);
    match &*e.inner {
        Expr::Literal(_, Primitive::Num(n)) => Some(T::Leaf(at((n.as_i64()? - 1000) as u32)?)),
        Expr::Intrinsic(s, _) => Some(T::Leaf(at(s.get()? as u32)?)),
        // the k-th parameter stands for the k-th gap
        Expr::Var(_, Var::Bound(b)) => if b.scope == 0 { Some(T::Leaf(toks.iter().enumerate().filter(|(_, t)| t.k == K::Gap).nth(b.binder as usize)?.0)) } else { None },
        Expr::App(_, f, xs) => {
            // an operator applied, or a catenation
            let op = match &*f.inner { Expr::Intrinsic(s, _) | Expr::Var(s, Var::Free(_)) => s.get().and_then(|i| at(i as u32)), _ => None };
            match (op.map(|o| (o, toks[o].k)), &xs[..]) {
                (Some((o, K::Pre | K::Post)), [x]) => Some(T::Un(o, Box::new(tree(x, toks)?))),
                (Some((o, K::L | K::R)), [x, y]) => Some(T::Bin(o, Box::new(tree(x, toks)?), Box::new(tree(y, toks)?))),
                (_, [x]) => {
                    let (l, r) = (tree(x, toks)?, tree(f, toks)?);
                    // the catenation between the last token of l and the first of r
                    let c = last(&l, toks) + 1;
                    if c < toks.len() && toks[c].k == K::Cat { Some(T::Bin(c, Box::new(l), Box::new(r))) } else { None }
                }
                _ => None,
            }
        }
        _ => None,
    }
}
fn last(t: &T, k: &[Tok]) -> usize {
    match t { T::Leaf(i) => *i, T::Un(o, x) => if k[*o].k == K::Post { *o } else { last(x, k) }, T::Bin(_, _, y) => last(y, k) }
}
fn line(t: &T, k: &[Tok], out: &mut Vec<usize>) {
    match t {
        T::Leaf(i) => out.push(*i),
        T::Un(o, x) => if k[*o].k == K::Post { line(x, k, out); out.push(*o) } else { out.push(*o); line(x, k, out) },
        T::Bin(o, x, y) => { line(x, k, out); out.push(*o); line(y, k, out) }
    }
}
/// operators whose right operand ends where t ends
fn right_open(t: &T, k: &[Tok], out: &mut Vec<usize>) {
    match t { T::Un(o, x) if k[*o].k == K::Pre => { out.push(*o); right_open(x, k, out) } T::Bin(o, _, y) => { out.push(*o); right_open(y, k, out) } _ => {} }
}
/// operators whose left operand starts where t starts
fn left_open(t: &T, k: &[Tok], out: &mut Vec<usize>) {
    match t { T::Un(o, x) if k[*o].k == K::Post => { out.push(*o); left_open(x, k, out) } T::Bin(o, x, _) => { out.push(*o); left_open(x, k, out) } _ => {} }
}
/// every operator leaves to its left and right neighbours what binds looser
fn grouped(t: &T, k: &[Tok]) -> bool {
    let infix = |o: usize| matches!(k[o].k, K::L | K::R | K::Cat);
    // a, to the left of b, takes the operand between them (a inside b): a binds tighter, or equally and both associate left
    let left_ok = |a: usize, b: usize| { let tie = !infix(a) || !infix(b) || k[a].k != K::R || k[b].k != K::R; (k[a].p > k[b].p) | ((k[a].p == k[b].p) & tie) };
    let right_ok = |a: usize, b: usize| { let tie = !infix(a) || !infix(b) || k[a].k == K::R || k[b].k == K::R; (k[b].p > k[a].p) | ((k[a].p == k[b].p) & tie) };
    let mut ok = true;
    match t {
        T::Leaf(_) => {}
        T::Un(o, x) => {
            let mut m = vec![];
            if k[*o].k == K::Post { right_open(x, k, &mut m); for a in m { ok &= left_ok(a, *o) } } else { left_open(x, k, &mut m); for b in m { ok &= right_ok(*o, b) } }
            ok &= grouped(x, k);
        }
        T::Bin(o, x, y) => {
            let mut m = vec![];
            right_open(x, k, &mut m);
            for a in m { ok &= left_ok(a, *o) }
            let mut m = vec![];
            left_open(y, k, &mut m);
            for b in m { ok &= right_ok(*o, b) }
            ok &= grouped(x, k) & grouped(y, k);
        }
    }
    ok
}
fn shape(t: &T) -> String {
    match t { T::Leaf(i) => format!("{i}"), T::Un(o, x) => format!("{o}({})", shape(x)), T::Bin(o, x, y) => format!("({} {o} {})", shape(x), shape(y)) }
}
/// cook the soup and check how it grouped
fn soup(toks: &[Tok]) { soup_of(toks, |i, sm| expr(&toks[i], sm), cook::cook) }
fn soup_of(toks: &[Tok], atom: impl Fn(usize, &mut SourceMap) -> RcExpr, cook: impl Fn(RcExpr, &mut SourceMap) -> Result<RcExpr, eucalypt::core::error::CoreError>) {
    let mut sm = SourceMap::new();
    // the position of each token is its place in the source map
    let given: Vec<RcExpr> = toks.iter().enumerate().map(|(i, t)| if t.k == K::Val { expr(t, &mut sm) } else { atom(i, &mut sm) }).collect();
    // what is filled in: catenation between values, a missing operand beside an operator
    let mut full: Vec<Tok> = vec![];
    let op_right = |t: Option<&Tok>| t.map_or(true, |t| matches!(t.k, K::L | K::R | K::Pre));
    let op_left = |t: Option<&Tok>| t.map_or(true, |t| matches!(t.k, K::L | K::R | K::Post));
    for i in 0..=toks.len() {
        let (l, r) = (if i == 0 { None } else { toks.get(i - 1) }, toks.get(i));
        match (op_right(l), op_left(r)) {
            (false, false) => full.push(Tok { k: K::Cat, p: 20, id: 0 }),
            (true, true) => full.push(Tok { k: K::Gap, p: 0, id: 0 }),
            _ => {}
        }
        if let Some(t) = r { full.push(*t) }
    }
    let gaps = full.iter().filter(|t| t.k == K::Gap).count();
    cover(gaps as u64);
    if std::env::var("EV_DEBUG").is_ok() { println!("{:?}", full.iter().map(|t| (t.k, t.p)).collect::<Vec<_>>()); }
    let e = RcExpr::from(Expr::Soup(Smid::default(), given, false));
    let e = match cook(e, &mut sm) { Ok(e) => e, Err(m) => { if std::env::var("EV_DEBUG").is_ok() { println!("{m}"); } check(false, "accepted"); return } };
    let body = match &*e.inner {
        Expr::Lam(_, _, s) if gaps > 0 => { check(s.pattern.len() == gaps, "one parameter for each missing operand"); s.body.clone() }
        _ => e.clone(),
    };
    let Some(t) = tree(&body, &full) else { check(false, "every operator has its operands"); return };
    if std::env::var("EV_DEBUG").is_ok() { println!("{}", shape(&t)); }
    let mut seq = vec![];
    line(&t, &full, &mut seq);
    check(seq.len() == full.len() && seq.iter().enumerate().all(|(i, x)| i == *x), "operands-in-order");
    check(grouped(&t, &full), "grouping");
}
fn token(i: usize, kinds: &[K]) -> Tok {
    let k = kinds[pick(&format!("kind{i}"), kinds.len() as u8)];
    Tok { k, p: if matches!(k, K::Val | K::Nul) { 0 } else { u8v(&format!("precedence{i}")) }, id: i as u32 }
}
/// every sequence of tokens, whole or with gaps
#[no_mangle]
pub extern "C" fn h_soup() {
    let n = pick("length", if thorough() { 5 } else { 4 });
    const KINDS: [K; 6] = [K::Val, K::L, K::R, K::Pre, K::Post, K::Nul];
    soup(&(0..=n).map(|i| token(i, &KINDS)).collect::<Vec<_>>());
}
/// chains of infix operators
#[no_mangle]
pub extern "C" fn h_infix() {
    let n = if thorough() { 5 } else { 4 };
    soup(&(0..2 * n + 1).map(|i| if i % 2 == 0 { Tok { k: K::Val, p: 0, id: i as u32 } } else { token(i, &[K::L, K::R]) }).collect::<Vec<_>>());
}
/// ... with a prefix or postfix operator at every operand
#[no_mangle]
pub extern "C" fn h_mixed() {
    let n = if thorough() { 3 } else { 2 };
    let mut v = vec![];
    for i in 0..=n {
        let w = pick(&format!("around{i}"), if thorough() { 4 } else { 3 });
        let mut t = |k: K| { let id = v.len(); v.push(Tok { k, p: if k == K::Val { 0 } else { u8v(&format!("precedence{id}")) }, id: id as u32 }) };
        if w & 1 != 0 { t(K::Pre) }
        t(K::Val);
        if w & 2 != 0 { t(K::Post) }
        if i < n { let id = v.len(); v.push(token(id, &[K::L, K::R])) }
    }
    soup(&v);
}
/// the documented operators (reference/operators-and-identifiers.md), `.` and calls aside
const DOCS: [(&str, K, u8); 45] = [("↑", K::Pre, 95), ("~", K::L, 90), ("!", K::Pre, 88), ("¬", K::Pre, 88), ("✓", K::Post, 88), ("∘", K::R, 88), (";", K::L, 88), ("^", K::R, 85), ("!!", K::L, 85),
    ("*", K::L, 80), ("/", K::L, 80), ("÷", K::L, 80), ("%", K::L, 80), ("+", K::L, 75), ("-", K::L, 75), ("≪", K::L, 60), ("≫", K::L, 60), ("‖", K::R, 55), ("&", K::L, 55), ("|", K::L, 55), ("⊕", K::L, 55),
    ("<", K::L, 50), (">", K::L, 50), ("<=", K::L, 50), (">=", K::L, 50), ("≤", K::L, 50), ("≥", K::L, 50), ("++", K::L, 45), ("<<", K::L, 45), ("<$>", K::L, 42), ("=", K::L, 40), ("!=", K::L, 40), ("∈", K::L, 40),
    ("&&", K::L, 35), ("∧", K::L, 35), ("||", K::L, 30), ("∨", K::L, 30), ("=>", K::L, 15), ("⇒", K::L, 15), ("@", K::L, 10), ("//", K::L, 5), ("//<<", K::L, 5), ("//=", K::L, 5), ("//=>", K::L, 5), ("//!", K::Post, 5)];
/// the prelude's operators against each other
#[no_mangle]
pub extern "C" fn h_prelude() {
    let mut sm = SourceMap::new();
    let o = Opts { prelude: true, ..Default::default() };
    let whole = front("r: 1", &[], &o, &mut sm).expect("prelude");
    let mut ui = eucalypt::driver::unit_interface::UnitInterface::default();
    ui.extract_operators_from_expr(&whole);
    let (a, b) = (pick("first", DOCS.len() as u8), pick("second", DOCS.len() as u8));
    let mut v = vec![];
    let mut names = vec![];
    let mut t = |k: K, p: u8, n: &'static str| { let id = v.len() as u32; v.push(Tok { k, p, id }); names.push(n); };
    let mut need = true;
    for x in [a, b] {
        let (n, k, p) = DOCS[x];
        if k != K::Pre && need { t(K::Val, 0, "") }
        t(k, p, n);
        need = k != K::Post;
    }
    if need { t(K::Val, 0, "") }
    soup_of(&v, |i, sm| { let s = sm.add_synthetic("o"); core::var(s, names[i].to_string()) }, |e, sm| cook::cook_with_prelude(e, &ui.operators, sm));
}
/// operators declared at named and numbered levels
#[no_mangle]
pub extern "C" fn h_levels() {
    const LEVELS: [(&str, i32); 17] = [("lookup", 90), ("call", 90), ("bool-unary", 88), ("exp", 85), ("prod", 80), ("sum", 75), ("shift", 60), ("bitwise", 55), ("cmp", 50), ("append", 45), ("map", 42), ("eq", 40), ("bool-prod", 35), ("bool-sum", 30), ("cat", 20), ("apply", 10), ("meta", 5)];
    let (i, d, x, y, inner) = (pick("level", 18), pick("difference", 3) as i32 - 1, pick("first-associates", 3), pick("second-associates", if thorough() { 3 } else { 2 }), if thorough() { flag("inner") } else { false });
    let (y, inner) = if thorough() { (y, inner) } else { (2 * y, i % 2 == 1) };
    if !thorough() { assume(d == 0 || x == 0) }
    // no precedence declared: 50
    let (name, p) = if i < 17 { (format!("precedence: :{}", LEVELS[i].0), LEVELS[i].1) } else { (String::new(), 50) };
    let q = p + d;
    let assoc = |a: usize| ["", "associates: :left", "associates: :right"][a];
    let decls = format!("` {{ {} {name} }}\n(x <+> y): [x, y]\n` {{ precedence: {q} {} }}\n(x <-> y): [x, y]\n` {{ precedence: {} }}\n(-| x): [x]\n", assoc(x), assoc(y), p + 1);
    let exprs = "[1 <+> 2 <-> 3, 1 <-> 2 <+> 3, 1 <+> 2 <+> 3, -| 1 <+> 2]";
    // declarations of other precedences outside do not matter
    let src = if inner { format!("` {{ precedence: {} }}\n(x <+> y): 1\n(x <-> y): 2\n(-| x): 3\nr: {{ {decls} s: {exprs} }}.s\n", 99 - p) } else { format!("{decls}r: {exprs}\n") };
    let out = run(&src, &[], &Opts::default());
    use euh::docs::V;
    let (n, l) = (|k: i64| V::Num(k.into()), |v: Vec<V>| V::List(v));
    let left = || l(vec![l(vec![n(1), n(2)]), n(3)]);
    let right = || l(vec![n(1), l(vec![n(2), n(3)])]);
    let (rx, ry) = (x == 2, y == 2);
    cover(i as u64);
    let group = |p: i32, r: bool, q: i32, s: bool| if p > q || (p == q && !r && !s) { Some(left()) } else if p < q || (r && s) { Some(right()) } else { None };
    let Some(V::List(got)) = value(&out) else { check(false, "levels-evaluate"); return };
    check(got.len() == 4, "levels-evaluate");
    if let Some(w) = group(p, rx, q, ry) { check(got[0] == w, "declared-precedence") }
    if let Some(w) = group(q, ry, p, rx) { check(got[1] == w, "declared-precedence") }
    check(got[2] == if rx { right() } else { left() }, "declared-associativity");
    check(got[3] == l(vec![l(vec![n(1)]), n(2)]), "prefix-precedence");
}
entries!(h_soup, h_infix, h_mixed, h_prelude, h_levels);
