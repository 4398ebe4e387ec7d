//! Programs whose meaning the language reference gives, with what they mean.
//! "@0" and "@1" stand for the integers x and y.
use crate::docs::V;

pub enum W { V(V), E }
pub type Prog = (&'static str, fn(i64, i64) -> W);
fn n(i: i64) -> V { V::Num(i.into()) }
fn l(v: &[i64]) -> V { V::List(v.iter().map(|i| n(*i)).collect()) }
fn vn(i: i64) -> W { W::V(n(i)) }
fn vl(v: &[i64]) -> W { W::V(l(v)) }
fn blk(v: &[(&str, V)]) -> W { W::V(V::Block(v.iter().map(|(k, v)| (k.to_string(), v.clone())).collect())) }
fn when(c: bool, w: W) -> W { if c { w } else { W::E } }

/// nothing is evaluated unless its value is needed
pub const LAZY: &[Prog] = &[
    ("{ a: panic(\"no\") b: x + 1 }.b", |x, _| vn(x + 1)),
    ("[panic(\"no\"), x] second", |x, _| vn(x)),
    ("{ f(a, b): if(a > 99, b, a) }.f(x, panic(\"no\"))", |x, _| when(x <= 99, vn(x))),
    ("{ f(a, b): if(a > 99, a, 0) + b }.f(panic(\"no\"), y)", |_, _| W::E),
    ("cons(x, panic(\"no\")) head", |x, _| vn(x)),
    ("if(x = y, y, panic(\"no\"))", |x, y| when(x == y, vn(y))),
    ("[x > 99 || panic(\"no\"), y]", |x, y| when(x > 99, W::V(V::List(vec![V::Bool(true), n(y)])))),
    ("[x > 99 && panic(\"no\"), y]", |x, y| when(x <= 99, W::V(V::List(vec![V::Bool(false), n(y)])))),
    ("{ ones: cons(x, ones) r: ones take(3) }.r", |x, _| vl(&[x, x, x])),
    ("{ fibs: cons(x, cons(y, zip-with(+, fibs, fibs tail))) r: fibs nth(5) }.r", |x, y| vn(3 * x + 5 * y)),
    ("{ a: b + 1 b: c + y c: x }.a", |x, y| vn(x + y + 1)),
    ("({ a: panic(\"no\") c: y } { a: x }).[a, c]", |x, y| vl(&[x, y])),
    ("{ a: { b: panic(\"no\") c: x } }.a.c", |x, _| vn(x)),
    ("[1, 2, 3] map(panic(\"no\")) count", |_, _| vn(3)),
    ("[x, panic(\"no\")] map(+ y) head", |x, y| vn(x + y)),
    ("({ a: { b: x c: panic(\"no\") } } << { a: { b: y } }).a.b", |_, y| vn(y)),
    ("{ k(a, b): a go(m, b): if(m = 0, x, go(m - 1, b)) r: k(go(3, panic(\"no\")), panic(\"no\")) }.r", |x, _| vn(x)),
    ("iterate(+ x, y) nth(3)", |x, y| vn(y + 3 * x)),
    ("iterate(+ (x + 8), y) take-while(< 20) count", |x, y| vn(if y >= 20 { 0 } else { (20 - y + x + 7) / (x + 8) })),
    ("{ f(a, b): { t: b + 1 u: if(a > 9, t, a) }.u }.f(x, panic(\"no\"))", |x, _| when(x <= 9, vn(x))),
    ("{ f({p q}): p }.f({p: x q: panic(\"no\")})", |x, _| vn(x)),
    ("{ f([p, q]): p }.f([x, panic(\"no\")])", |x, _| vn(x)),
    ("{ f([p : q]): p }.f(cons(x, panic(\"no\")))", |x, _| vn(x)),
    ("{ loop: round round: loop r: if(x > y, y, x) }.r", |x, y| vn(x.min(y))),
    ("[x, y, panic(\"no\")] take(2) foldl(+, 0)", |x, y| vn(x + y)),
    ("[panic(\"a\"), panic(\"b\")] drop(1) map(const(x)) head", |x, _| vn(x)),
    ("fnil(inc, panic(\"no\"), x)", |x, _| vn(x + 1)),
    ("{ d: { a: x b: panic(\"no\") } r: d lookup-or(:a, panic(\"no\")) }.r", |x, _| vn(x)),
    ("{ s: 0 f(a, s): if(a = 0, s, f(a - 1, if(a > 100, panic(\"no\"), s + x))) r: f(4, y) }.r", |x, y| vn(4 * x + y)),
    // needed in one branch, in a list, in a block, in metadata, in a function not called, through a fallback
    ("{ o: panic(\"no\") r: { i: o + 1 j: if(x > 300, i, x) }.j }.r", |x, _| vn(x)),
    ("{ f(o): { i: o + 1 j: if(x > 300, i, x) }.j r: f(panic(\"no\")) }.r", |x, _| vn(x)),
    ("{ a: panic(\"no\") l: [a, x] r: l second }.r", |x, _| vn(x)),
    ("{ f(a): { t: [a, x] r: t second }.r s: f(panic(\"no\")) }.s", |x, _| vn(x)),
    ("{ f(a): [a, x] s: f(panic(\"no\")) second }.s", |x, _| vn(x)),
    ("{ f(a): { b: a c: x } s: f(panic(\"no\")).c }.s", |x, _| vn(x)),
    ("{ f(a): { b: a + 1 c: x } s: f(panic(\"no\")).c }.s", |x, _| vn(x)),
    ("{ f(a): x // { m: a } s: f(panic(\"no\")) }.s", |x, _| vn(x)),
    ("{ a: panic(\"no\") f(b): a + b r: [f, x] second }.r", |x, _| vn(x)),
    ("{ a: panic(\"no\") f(b, c): a + b g: f(1) r: [g, x] second }.r", |x, _| vn(x)),
    ("{ a: panic(\"no\") f(b): a + b id(g): g r: if(block?(id(f)), y, x) }.r", |x, _| vn(x)),
    ("{ f(a, b): a + b g: { f(a, b): a r: f(x, panic(\"no\")) }.r h: f(1, y) r: [g, h] }.r", |x, y| vl(&[x, y + 1])),
    ("{ h: { f(a): a + 1 r: f(y) }.r f(a): x g: f(panic(\"no\")) r: [g, h] }.r", |x, y| vl(&[x, y + 1])),
    ("{ f(a): a + 1 g(f): f(panic(\"no\")) r: [g(const(x)), f(y)] }.r", |x, y| vl(&[x, y + 1])),
    ("{ map(f, l): x r: map(panic(\"no\"), panic(\"no\")) }.r", |x, _| vn(x)),
    ("{ m(v): { a: v } f(a): m(x).(a) r: f(panic(\"no\")) }.r", |x, _| vn(x)),
    ("{ m(v): { a: v } a: panic(\"no\") r: m(x).(a + y) }.r", |x, y| vn(x + y)),
    ("{ f(a): { g(b): a + b r: [g, x] }.r second s: f(panic(\"no\")) }.s", |x, _| vn(x)),
    ("{ f(a, b): { g(c): if(c > 300, a, b) }.g(x) s: f(panic(\"no\"), y) }.s", |_, y| vn(y)),
    ("{ f(a, b): (a > 99) && (b > 0) r: f(x, panic(\"no\")) s: [r, y] }.s", |x, y| when(x <= 99, W::V(V::List(vec![V::Bool(false), n(y)])))),
    ("{ f(a, b): (a > 99) || (b > 0) r: f(x, panic(\"no\")) s: [r, y] }.s", |x, y| when(x > 99, W::V(V::List(vec![V::Bool(true), n(y)])))),
    ("{ f(a, b): if(a > 99, x, b + 1) r: f(y, panic(\"no\")) }.r", |x, y| when(y > 99, vn(x))),
    ("{ f(a, b): if(a > 99, b + 1, x) r: f(y, panic(\"no\")) }.r", |x, y| when(y <= 99, vn(x))),
    ("{ f(a, b): if(true, x, panic(\"{a}{b}\")) r: f(y, panic(\"no\")) }.r", |x, _| vn(x)),
    ("{ f(a): if(x > 300, a + 1, if(y > 300, a, x)) r: f(panic(\"no\")) }.r", |x, _| vn(x)),
    ("{ f(k, a): if(k = 0, x, f(k - 1, a + 1)) r: f(3, panic(\"no\")) }.r", |x, _| vn(x)),
    ("{ f(k, a): if(k = 0, x, g(k - 1, a)) g(k, a): if(k = 0, y, f(k - 1, a)) r: f(3, panic(\"no\")) }.r", |_, y| vn(y)),
    ("{ f(a): \"{a}\" g(a): [f(a), x] r: g(panic(\"no\")) second }.r", |x, _| vn(x)),
    ("{ f(a): { b: a }.{ c: b d: x } r: f(panic(\"no\")).d }.r", |x, _| vn(x)),
    ("{ f(a): lookup-or(:k, a) r: { k: x } f(panic(\"no\")) }.r", |x, _| vn(x)),
    ("{ f(a): if((const(true, a)), x, y) r: f(panic(\"no\")) }.r", |x, _| vn(x)),
    ("{ f(a): a g: { h: f(panic(\"no\")) i: x }.i }.g", |x, _| vn(x)),
    ("{ f(a): { b: a }.(if(x > 300, b, x)) r: f(panic(\"no\")) }.r", |x, _| vn(x)),
    ("{ f({a b}, c): if(c > 300, a, b) r: f({ a: panic(\"no\") b: y }, x) }.r", |_, y| vn(y)),
    ("{ f([a, b], c): if(c > 300, a, b) r: f([panic(\"no\"), y], x) }.r", |_, y| vn(y)),
    ("{ f(a, c): c when(> 300, const(a)) r: f(panic(\"no\"), x) }.r", |x, _| vn(x)),
    ("foldr(const, panic(\"no\"), [x, panic(\"no\")])", |x, _| vn(x)),
    ("{ g: (+ panic(\"no\")) r: [g, x] second }.r", |x, _| vn(x)),
    ("{ f(a, b): a + b g(a): f(a + 1) r: [g(panic(\"no\")), x] second }.r", |x, _| vn(x)),
    ("{ f(a, b): a + b r: const(x, f(panic(\"no\") + 1)) }.r", |x, _| vn(x)),
    ("{ f(a, b): a + b k(a): const(x, __ADD(a + 1)) r: k(panic(\"no\")) + f(y, x) }.r", |x, y| vn(2 * x + y)),
    ("{ f(a): { b: { c: a + 1 }.c d: if(x > 300, b, y) }.d r: f(panic(\"no\")) }.r", |_, y| vn(y)),
    ("{ r: { a: panic(\"no\") b: a + 1 c: b + 1 d: if(x > 300, c, y) }.d }.r", |_, y| vn(y)),
    ("{ f(a, k): if(k = 0, x, f(a, k - 1)) + 0 r: f(panic(\"no\") + 1, 2) }.r", |x, _| vn(x)),
    ("{ d: { k: panic(\"no\") } f(m): d lookup-or(:z, m + 1) r: f(x) }.r", |x, _| vn(x + 1)),
    ("{ f(m, d): d lookup-or(:k, m + 1) r: f(panic(\"no\"), { k: y }) }.r", |_, y| vn(y)),
    ("{ f(g, a): g(a) h(a): x r: f(h, panic(\"no\") + 1) }.r", |x, _| vn(x)),
];

/// a name is what the innermost declaration around it says
pub const SCOPE: &[Prog] = &[
    ("{ v: x f(w): v + w g(v): f(v) }.g(y)", |x, y| vn(x + y)),
    ("{ v: x inner: { v: y w: v } }.inner.w", |_, y| vn(y)),
    ("{ v: x inner: { w: v } i2: inner { v: y } r: [i2.w, i2.v, v] }.r", |x, y| vl(&[x, y, x])),
    ("{ v: x b: { v: y g(z): v + z } r: b.g(1) }.r", |_, y| vn(y + 1)),
    ("{ a: x }.(a + y)", |x, y| vn(x + y)),
    ("{ a: y b: { a: x }.(a) c: { c: x }.(a) }.[b, c]", |x, y| vl(&[x, y])),
    ("{ k: { a: x } a: y b: k.(a) }.b", |x, _| vn(x)),
    ("{ k: { c: x } a: y b: k.(a + c) }.b", |x, y| vn(x + y)),
    ("{ mk(m): { a: m b: 10 } a: y z: 12 r: mk(x).[a, b, z] }.r", |x, _| vl(&[x, 10, 12])),
    ("{ f(a): { b: a + 1 g(a): a + b }.g(10) }.f(x)", |x, _| vn(x + 11)),
    ("{ add(a): { r(b): a - b }.r f: add(x) g: add(y) h: [f(1), g(1)] }.h", |x, y| vl(&[x - 1, y - 1])),
    ("{ f(a, b, c): a + b * c g: f(x) h: g(y) }.h(3)", |x, y| vn(x + 3 * y)),
    ("{ go(k, acc): if(k = 0, acc, go(k - 1, acc + x)) }.go(5, y)", |x, y| vn(5 * x + y)),
    ("{ ev?(k): if(k = 0, x, od?(k - 1)) od?(k): if(k = 0, y, ev?(k - 1)) r: [ev?(4), ev?(3)] }.r", |x, y| vl(&[x, y])),
    ("{ inc(a): a + x r: [inc(1), [2] map(inc) head] }.r", |x, _| vl(&[1 + x, 2 + x])),
    ("{ ns: { f(a): a + x g(a): f(a) * 2 } use: ns.g(y) o: (ns { f(a): 0 }).g(y) h: ns.f r: [use, o, h(1)] }.r", |x, y| vl(&[2 * (x + y), 2 * (x + y), 1 + x])),
    ("{ str: { upper(s): x of(s): y } r: [str.upper(\"a\"), str.of(1)] }.r", |x, y| vl(&[x, y])),
    ("{ f(str): str.upper r: f({ upper: y }) }.r", |_, y| vn(y)),
    ("{ f(str, u): { upper: u }.(str.upper) r: f({ upper: y }, x) }.r", |_, y| vn(y)),
    ("{ f([a, b]): a - b }.f([x, y])", |x, y| vn(x - y)),
    ("{ f({a b}): a - b }.f({ b: y a: x c: 1 })", |x, y| vn(x - y)),
    ("{ f({a: q b: [h : t]}): [q, h, t count] }.f({ a: x b: [y, 1, 2] })", |x, y| vl(&[x, y, 2])),
    ("{ a: 1 f([a, [b, {c: d}]], e): [a, b, d, e] }.f([x, [y, { c: x }]], y)", |x, y| vl(&[x, y, x, y])),
    ("{ a: x f(b): { a: b c: a }.c r: [f(y), a] }.r", |x, y| vl(&[y, x])),
    ("{ f(a): g(a) + 1 g(a): if(a > 99, f(0), a) }.f(x)", |x, _| vn(if x > 99 { 2 } else { x + 1 })),
    ("[1, 2] map(_ * x + y)", |x, y| vl(&[x + y, 2 * x + y])),
    ("[[x, y]] map(uncurry(_1 - _0))", |x, y| vl(&[y - x])),
    ("{ bl: { a: •1 b: •0 } r: bl(x, y) }.r", |x, y| blk(&[("a", n(y)), ("b", n(x))])),
    ("{ w: y r: [x] map({ k: • }.(k - w)) }.r", |x, y| vl(&[x - y])),
    ("{ f: + g: (x -) h: (- x) r: [f(x, y), g(y), h(y)] }.r", |x, y| vl(&[x + y, x - y, y - x])),
    ("{ c: (+ 1) ; (* 2) d: (+ 1) ∘ (* 2) r: [c(x), d(x)] }.r", |x, _| vl(&[2 * (x + 1), 2 * x + 1])),
    ("{ (a <+> b): a * 2 + b r: x <+> y v: { (a <+> b): a - b r: x <+> y }.r w: [r, v] }.w", |x, y| vl(&[2 * x + y, x - y])),
    ("{ ⟦ v ⟧: v map(+ x) r: ⟦ 1 y ⟧ }.r", |x, y| vl(&[1 + x, y + x])),
    ("{ :let a: x b: a + y }.(a * 2 + b)", |x, y| vn(3 * x + y)),
    ("{ a: 1 r: { :let a: x b: a + y a: b + 1 }.(a + b) }.r", |x, y| vn(2 * (x + y) + 1)),
    ("{ :for a: [x, y] b: [1, a] }.(a + b)", |x, y| vl(&[x + 1, 2 * x, y + 1, 2 * y])),
    ("{ :for a: [x, y], _: [a] filter(> 99) }.(a)", |x, y| vl(&[x, y].iter().cloned().filter(|v| *v > 99).collect::<Vec<i64>>())),
    ("{ a: x }.{ c: a + y }.{ d: c }", |x, y| blk(&[("d", n(x + y))])),
    ("{ d: { a: x c(k): k + a } r: d.c(y) }.r", |x, y| vn(x + y)),
    ("{ f(a): a f2: f g(h, a): h(h(a)) r: g(f2 ; (+ x), y) }.r", |x, y| vn(2 * x + y)),
    ("{ id(a): a twice(f): f ; f r: twice(twice)((+ x), y) s: id(id)(y) t: [r, s] }.t", |x, y| vl(&[4 * x + y, y])),
    ("{ a: { b: { c: x } } b: { c: y } r: [a.b.c, b.c, a.(b.c)] }.r", |x, y| vl(&[x, y, x])),
    ("{ f(a, b): { a: b b: 2 r: [a, b] }.r }.f(x, y)", |_, _| vl(&[2, 2])),
    ("{ f(a, t): { b: a s: t.b r: [b, s] }.r }.f(x, { b: y })", |x, y| vl(&[x, y])),
    ("{ f(t): t.a + t.b b: 5 a: 6 r: f({ a: x b: y }) }.r", |x, y| vn(x + y)),
    ("{ f(v): v + a a: x }.({ g(v): v + a a: y }.([a, f(1), g(2)]))", |x, y| vl(&[y, x + 1, y + 2])),
    ("{ f(v): v a: x }.({ f(v): v + 1 a: y b: a }.([a, b, f(b)]))", |_, y| vl(&[y, y, y + 1])),
    ("{ f(v): v + a a: x }.({ g(v): v + b b: y }.([a, b, f(1), g(2)]))", |x, y| vl(&[x, y, x + 1, y + 2])),
    ("{ g(n): n * n f(n): g(n + n) h(n): f(n + n) r: h([x] head) }.r", |x, _| vn(16 * x * x)),
    ("{ inc(v): v + 10 r: [inc(x), [y] map(inc) head, [y] map(dec) head] }.r", |x, y| vl(&[x + 10, y + 10, y - 1])),
    ("{ if(c, t, f): t r: [if(false, x, y), [1, y + 9] filter(> 5) head] }.r", |x, y| vl(&[x, y + 9])),
    ("const(- 3, 1, y)", |_, y| vn(y - 3)),
    ("{ k(f, z): f r: [k(inc, 0, x), k(const(y), 1, 2)] }.r", |x, y| vl(&[x + 1, y])),
    ("{ add(a): { g(b): a + b }.g r: [add(x, y), add(1)(y)] }.r", |x, y| vl(&[x + y, y + 1])),
    ("flip(const, x, - 1, y)", |_, y| vn(y - 1)),
    ("{ f(g): g(x) h(a, b): a - b r: [f(h, y), f(h)(y), f(flip(h), y)] }.r", |x, y| vl(&[x - y, x - y, y - x])),
    ("{ f(a, b, c): a - b - c g: f(x) h: g(y) r: [h(1), g(1, y), f(x, y)(1)] }.r", |x, y| vl(&[x - y - 1; 3])),
    ("{ f(a): { a: y b: a }.b g(a): a + f(a) r: g(x) }.r", |x, y| vn(x + y)),
    ("{ f(a): { f(a): a + y r: f(a) }.r r: f(x) + f(1) }.r", |x, y| vn(x + 1 + 2 * y)),
    ("{ a: x f(b): a + b g(a): f(a) + a r: g(y) }.r", |x, y| vn(x + 2 * y)),
    ("{ a: x f(b): a + b k: { a: y g(c): f(c) + a }.g r: [k(1), k(2)] }.r", |x, y| vl(&[x + 1 + y, x + 2 + y])),
];

/// what is wrong is an error, whatever is evaluated before it
pub const WRONG: &[Prog] = &[
    ("{ a: x }.b", |_, _| W::E),
    ("[] head + x", |_, _| W::E),
    ("x(y)", |_, _| W::E),
    ("{ f([a, b, c]): c }.f([x, y])", |_, _| W::E),
    ("{ f({a b}): b }.f({ a: x })", |_, _| W::E),
    ("x + \"a\"", |_, _| W::E),
    ("{ a: a + x }.a", |_, _| W::E),
    ("{ a: b b: c c: a r: if(x > 99, y, a) }.r", |x, y| when(x > 99, vn(y))),
    ("[x, y] nth(2)", |_, _| W::E),
    ("x / (y - y)", |_, _| W::E),
    ("if(x, 1, 2)", |_, _| W::E),
    ("{ d: { a: x } r: d lookup(:b) }.r", |_, _| W::E),
    ("panic(\"{x}\")", |_, _| W::E),
    ("[x, y] foldl(-, {})", |_, _| W::E),
    ("cons(x, [y]) tail tail tail", |_, _| W::E),
];

/// programs over the prelude, for comparing settings (x and y as above)
pub const LIB: &[&str] = &[
    "[x, y, 7, 3] sort-nums",
    "[{ k: x v: 1 }, { k: y v: 2 }] group-by(.k > 9)",
    "[x, y, 5] qsort(<)",
    "{ a: x b: { c: y } } << { b: { d: x } e: y }",
    "{ a: x b: y } map-kv(pair) map(second)",
    "{ a: x b: y } map-values(+ 1) values",
    "{ a: x b: y } filter-items(by-value(> 9)) map(key)",
    "{ a: { b: x } } alter([:a, :b], y)",
    "{ a: { b: x } } update([:a, :b], + y)",
    "{ a: { b: [x, y] } c: { b: 1 } } deep-find(:b)",
    "[x, y] zip([1, 2]) map(uncurry(*)) foldl(+, 0)",
    "[1, x, 2, y] window(2, 1) map(foldl(+, 0))",
    "([1, x, 2, y, 3] filter(> 9)) ++ ([x, y] remove(> 9))",
    "[x, y, 3, 4, 5] split-at(2)",
    "[1, 2, 3] cross(x)",
    "[x, y, x, 9] discriminate(= 9)",
    "range(0, 4) map(* x) reverse",
    "[x, y] scanl(+, 1)",
    "concat([[x, 1], [y]]) ++ [2]",
    "[x, y] cycle take(5)",
    "cond([[x > 200, :big], [x > 99, :mid], :small])",
    "{ a: x b: y } elements map(value)",
    "[[:a, x], [:b, y]] map(pair uncurry) block",
    "x max(y) min(100)",
    "[x < y, x <= y, x = y, x != y, x >= y, x > y]",
    "x abs negate inc dec zero?",
    "[\"a\", \"b\"] str.join-on(\",\") str.split-on(\",\") map(const(x))",
    "[\"v{x}w\" str.to-upper, ([1, y] second) > x]",
    "{ f(n): if(n = 0, [], cons(x + n, f(n - 1))) r: f(4) }.r",
    "{ f(n, a): if(n = 0, a, f(n - 1, a << { k: x m: n })) r: f(3, { z: y }) }.r",
    "{ t: { l: { v: x } r: { v: y } } sum(b): b.l.v + b.r.v r: sum(t) }.r",
    "{ ack(m, n): if(m = 0, n + 1, if(n = 0, ack(m - 1, 1), ack(m - 1, ack(m, n - 1)))) r: ack(2, 2) + x }.r",
    "{ h(n, f, t, v): if(n = 0, [], h(n - 1, f, v, t) ++ [[f, t]] ++ h(n - 1, v, t, f)) r: h(3, x, y, 0) }.r",
    "{ s({m}): m p([a : b]): [a, b] r: [s({ m: x }), p([y, x, 1])] }.r",
    "{ a: x b: a + y c: { a: b d: a } e: c.d + b }",
    "{ b: { v: x w: v + 1 } c: b { v: y } d: (b << { v: 2 }).w }",
    "[[x, y] all(> 9), [x, y] any(> 99)]",
    "[x //=?> (< 300), x //=> y]",
    "{ g: { f(a): a + x k: { f(a): a * y } } r: [g.f(1), g.k.f(2), [3] map(g.f), [4] map(g.k.f)] }.r",
    "(x > y) then(1, 2)",
    "([1, x, y] nth(1)) + ([1, x, y] last)",
    "[x, y, panic(\"no\")] map(* 2) take(2)",
    "{ m: [x, y] map({ a: • b: a + 1 }) r: m map(.b) }.r",
    "{ io-like(v, w): [v, w] bind(m, f, w): f(m(w) head, m(w) second) r: bind(io-like(x), io-like, y) }.r",
    "{ w: io.return(x) r: 1 }.r + y",
    "random.run(random.int(6), 1) keys",
    "{ :for a: [x, y] b: [a, 1] _: [b] filter(> 0) }.[a, b]",
    "{ f(a): { r: a }.r ∘ (+ y) g: f(x)  r: 1 }.r",
    "if([x, y] nil?, panic(\"no\"), [x, y] head)",
    "[[1, x], [y, 2]] transpose",
    "([3, x, y] max-of) - ([3, x, y] min-of)",
    "zip-with(_0 * _1 - x, [1, 2], [y, 3])",
    "{ a: [x, { b: y }] } lookup(:a) second lookup(:b)",
    "[x, y] map({ v: • w: v - x }) map(.w)",
    "{ a: x } merge-at([:b, :c], { d: y })",
    "{ sq(n): n * n cube(n): n * sq(n) r: [x, 3] map(sq ∘ inc) }.r",
    "{ c(f, g, v): f(g(v)) r: c(+ x, * 2, y) }.r",
    "foldr(_0 - _1, x, [y, 2, 3])",
    "([x, y, 3] foldl(min, 100)) + ([x, y, 3] foldl(max, 0))",
    "{ flip-it(f, a, b): f(b, a) r: flip-it(-, x, y) }.r",
    "{ even(n): if(n = 0, true, odd(n - 1)) odd(n): if(n = 0, false, even(n - 1)) r: even(7) || (x > y) }.r",
    "{ p: { q: { r: x } } s: p.q t: { u: s.r + y }.u }",
    "[[:a, x], [:b, y]] map(uncurry(pair)) map(second)",
    "{ a: x b: { a: y c: a } d: b.c e: { c: a }.c }",
    "{ n: x f: { n: y g: { h: n }.h }.g r: [f, n] }.r",
    "{ m: { a: x } << { b: y } r: m.a + m.b }.r",
    "{ v: [x, y] ++ [x + y] w: v ++ v r: w drop(2) take(3) }.r",
    "{ s: \"{x}-{y}\" t: \"[{s}]\" }.t",
    "{ rec: { value: x next: { value: y next: null } } len(r): if(r = null, 0, 1 + len(r.next)) v: len(rec) }.v",
];
