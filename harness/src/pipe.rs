//! The evaluation pipeline of `wasm_pipeline::run_pipeline` (parse, desugar,
//! merge, cook, inline, fuse, prune, compile, encode, run), minus the YAML build
//! metadata, which this build cannot load, and with string literals of the
//! form "@k" in the program replaced by the k-th value given: the values (and
//! only they) are symbolic.
use eucalypt::common::sourcemap::{Smid, SourceMap};
use eucalypt::core::cook;
use eucalypt::core::desugar::desugarable::Desugarable;
use eucalypt::core::desugar::{Content, Desugarer};
use eucalypt::core::expr::{Expr, Primitive as CP, RcExpr};
use eucalypt::core::inline::{reduce, tag};
use eucalypt::core::simplify::{compress, prune};
use eucalypt::core::transform::fuse;
use eucalypt::core::unit::TranslationUnit;
use eucalypt::driver::io::{create_args_pseudoblock, create_io_pseudoblock_deterministic};
use eucalypt::driver::resources::Resources;
use eucalypt::driver::unit_interface::UnitInterface;
use eucalypt::eval::bytecode::{encode, BytecodeMachine};
use eucalypt::eval::emit::{CapturingEmitter, Event};
use eucalypt::eval::primitive::Primitive;
use eucalypt::eval::stg::runtime::Runtime;
use eucalypt::eval::stg::{self, make_standard_runtime, RenderType, StgSettings};
use eucalypt::syntax::input::{Input, Locator};
use eucalypt::syntax::rowan;
use serde_json::Number;
use std::collections::{HashMap, HashSet};

pub use eucalypt::core::expr::Primitive as Lit;

#[derive(Clone)]
pub struct Opts {
    /// the passes of the command (`driver::prepare` and `driver::eval`) instead of the web pipeline's
    pub driver: Option<Driver>,
    pub prelude: bool,
    pub passes: bool,
    pub suppress_updates: bool,
    pub suppress_inlining: bool,
    pub suppress_optimiser: bool,
    pub suppress_demand: bool,
    /// run the byte code itself, without decoding it first
    pub bytes: bool,
    pub heap_mib: usize,
    pub max_steps: usize,
}
impl Default for Opts {
    fn default() -> Self {
        Opts { driver: None, prelude: false, passes: true, suppress_updates: false, suppress_inlining: false, suppress_optimiser: false, suppress_demand: false, bytes: false, heap_mib: 64, max_steps: 200_000 }
    }
}

/// The optional passes of the command's pipeline
#[derive(Clone, Copy, PartialEq)]
pub struct Driver {
    pub split: bool,
    pub hoist: bool,
    pub dce: bool,
    pub inline: bool,
    pub fuse: bool,
    pub demand: bool,
    pub reflatten: bool,
}
pub const NONE: Driver = Driver { split: false, hoist: false, dce: false, inline: false, fuse: false, demand: false, reflatten: false };
pub const FULL: Driver = Driver { split: true, hoist: true, dce: true, inline: true, fuse: true, demand: true, reflatten: true };

/// What a program did: its render events, or the kind of error that ended it.
pub enum Out {
    Events(Vec<Event>),
    CompileError(String),
    RunError(String),
}

pub fn nint(v: i64) -> Lit { CP::Num(Number::from(v)) }
pub fn nuint(v: u64) -> Lit { CP::Num(Number::from(v)) }
pub fn nflt(v: f64) -> Lit { CP::Num(Number::from_f64(v).expect("finite")) }

fn subst(e: RcExpr, lits: &[Lit]) -> RcExpr {
    if let Expr::Literal(s, CP::Str(t)) = &*e.inner {
        if let Some(k) = t.strip_prefix('@').and_then(|r| r.parse::<usize>().ok()) {
            if k < lits.len() {
                return RcExpr::from(Expr::Literal(*s, lits[k].clone()));
            }
        }
        return e;
    }
    e.walk_safe::<(), _>(&mut |x| Ok(subst(x, lits))).unwrap()
}

fn unit(expr: RcExpr, name: &str) -> TranslationUnit {
    TranslationUnit {
        expr: expr.apply_name(Smid::default(), name),
        targets: HashSet::new(),
        own_targets: HashSet::new(),
        docs: Vec::new(),
        deprecations: HashMap::new(),
        blame: HashMap::new(),
    }
}

fn desugar(ast: &dyn Desugarable, input: Input, id: usize, sm: &mut SourceMap, known: &mut UnitInterface) -> Result<TranslationUnit, String> {
    let mut contents: HashMap<Input, Content> = HashMap::new();
    contents.insert(input.clone(), Content::new(id, ast));
    let mut d = Desugarer::new(&contents, sm);
    known.seed_desugarer_monad_registries(&mut d);
    let u = d.translate_unit(&input).map_err(|e| format!("{e:?}"));
    known.drain_desugarer_monad_registries(&mut d);
    u
}

/// Core expression of a program after merging
pub fn front(source: &str, lits: &[Lit], o: &Opts, sm: &mut SourceMap) -> Result<RcExpr, String> {
    let p = rowan::parse_unit(source);
    if !p.errors().is_empty() {
        return Err(format!("{:?}", p.errors()));
    }
    let src = p.tree();
    let mut known = UnitInterface::default();
    let mut units = vec![];
    if o.prelude {
        let text = Resources::default().get("prelude").expect("prelude").clone();
        sm.mark_resource_file(0);
        let ast = rowan::parse_unit(&text).tree();
        let pu = desugar(&ast, Input::new(Locator::Resource("prelude".into()), None, "eu"), 0, sm, &mut known)?;
        units.push(unit(create_args_pseudoblock(&[]), "__args"));
        units.push(unit(create_io_pseudoblock_deterministic(), "__io"));
        units.push(unit(create_args_pseudoblock(&[]), "__build"));
        units.push(pu);
    }
    let mut su = desugar(&src, Input::new(Locator::Literal("<input>".into()), None, "eu"), 1, sm, &mut known)?;
    if !lits.is_empty() {
        su.expr = subst(su.expr, lits);
    }
    units.push(su);
    Ok(TranslationUnit::merge(units.into_iter()).map_err(|e| format!("{e:?}"))?.expr)
}

/// the passes of the command after cooking
pub fn optimise(mut expr: RcExpr, d: &Driver) -> Result<RcExpr, String> {
    let e = |e: eucalypt::core::error::CoreError| format!("{e:?}");
    if d.split { expr = eucalypt::core::dependency::split_letrecs(&expr); }
    if d.hoist { expr = eucalypt::core::transform::hoist::hoist(&expr).map_err(e)?; }
    if d.dce { expr = compress::compress(&prune::prune(&expr)).map_err(e)?; }
    if d.inline { for _ in 0..2 { expr = reduce::inline_pass(&tag::tag_combinators(&expr).map_err(e)?).map_err(e)?; } }
    if d.fuse { expr = fuse::fuse(&expr).map_err(e)?; }
    if d.dce { expr = compress::compress(&prune::prune(&expr)).map_err(e)?; }
    let bad = eucalypt::core::verify::content::verify(expr.clone()).map_err(e)?;
    if !bad.is_empty() { return Err(format!("{bad:?}")) }
    Ok(expr)
}

pub fn middle(mut expr: RcExpr, o: &Opts, sm: &mut SourceMap) -> Result<RcExpr, String> {
    if let Some(d) = &o.driver {
        return optimise(cook::cook(expr, sm).map_err(|e| format!("{e:?}"))?, d);
    }
    expr = cook::cook(expr, sm).map_err(|e| format!("{e:?}"))?;
    if o.passes {
        for _ in 0..2 {
            expr = tag::tag_combinators(&expr).map_err(|e| format!("{e:?}"))?;
            expr = reduce::inline_pass(&expr).map_err(|e| format!("{e:?}"))?;
        }
        expr = fuse::fuse(&expr).map_err(|e| format!("{e:?}"))?;
    } else {
        expr = fuse::fuse(&expr).map_err(|e| format!("{e:?}"))?;
    }
    if o.passes || o.prelude {
        for _ in 0..2 {
            expr = prune::prune(&expr);
            expr = compress::compress(&expr).map_err(|e| format!("{e:?}"))?;
        }
    }
    Ok(expr)
}

pub fn back(expr: RcExpr, o: &Opts, sm: &mut SourceMap) -> Out {
    match load(expr, o, sm) { Ok(m) => go(m, o), Err(e) => e }
}
/// Compile for the machine
pub fn load(mut expr: RcExpr, o: &Opts, sm: &mut SourceMap) -> Result<BytecodeMachine<'static>, Out> {
    let mut sigs = Default::default();
    if let Some(d) = &o.driver {
        if d.demand {
            let (e, _, s) = eucalypt::core::analyse_demand::analyse_demands(&expr);
            expr = e;
            sigs = s;
        }
        if d.reflatten { expr = eucalypt::core::reflatten::reflatten(&expr); }
    }
    let settings = StgSettings {
        generate_annotations: true,
        user_demand_sigs: sigs,
        render_type: if o.driver.is_some() { RenderType::Headless } else { RenderType::RenderDoc },
        heap_limit_mib: Some(o.heap_mib),
        suppress_updates: o.suppress_updates,
        suppress_inlining: o.suppress_inlining,
        suppress_optimiser: o.suppress_optimiser,
        suppress_demand_analysis: o.suppress_demand,
        ..Default::default()
    };
    let rt: &'static eucalypt::eval::stg::runtime::StandardRuntime = Box::leak(make_standard_runtime(sm));
    let syn = match stg::compile(&settings, expr, rt) {
        Ok(s) => s,
        Err(e) => return Err(Out::CompileError(format!("{e:?}"))),
    };
    let (prog, root, gforms) = encode(&syn, &rt.globals());
    if o.bytes { std::env::set_var("EU_PREDECODE", "0") }
    let m = BytecodeMachine::new(prog, root, &gforms, rt.intrinsics(), Box::new(CapturingEmitter::default()), o.heap_mib, false);
    if o.bytes { std::env::remove_var("EU_PREDECODE") }
    m.map_err(|e| Out::RunError(errkind(&e)))
}
/// Run and render
pub fn go(mut m: BytecodeMachine<'static>, o: &Opts) -> Out {
    let mut r = m.run(Some(o.max_steps)).map(|_| ());
    if o.driver.is_some() && r.is_ok() {
        use eucalypt::driver::bytecode_io_run::{io_run_and_render, inject_world_and_run, render_headless_result};
        let io = |e| match e { eucalypt::driver::io_common::IoRunError::MachineError(b) => *b, _ => eucalypt::eval::error::ExecutionError::AllocationError };
        let yielded = if m.io_yielded() { Ok(true) } else { inject_world_and_run(&mut m).map_err(io) };
        r = match yielded {
            Ok(true) => io_run_and_render(&mut m, false).map_err(io).map(|_| ()),
            Ok(false) => render_headless_result(&mut m).map_err(io).map(|_| ()),
            Err(e) => Err(e),
        };
    }
    match r {
        Ok(_) => Out::Events(m.take_emitter().captures().to_vec()),
        Err(e) => Out::RunError(errkind(&e)),
    }
}

/// The kind of an error (its payload may hold symbolic values, so it is not formatted)
pub fn errkind(e: &eucalypt::eval::error::ExecutionError) -> String {
    use eucalypt::eval::error::ExecutionError as E;
    let mut e = e;
    while let E::Traced(inner, _) = e {
        e = inner;
    }
    match e {
        E::NumericRangeError(..) => "range",
        E::NumericDomainError(..) => "domain",
        E::DivisionByZero(..) => "zero",
        E::BitwiseIntegerRequired(..) => "bitint",
        E::BitshiftRangeError(..) => "shift",
        E::ComparisonTypeMismatch(..) => "cmptype",
        E::TypeMismatch(..) => "type",
        E::UserPanic(..) => "userpanic",
        E::Panic(..) => "panic",
        E::LookupFailure(..) => "lookup",
        E::DidntTerminate(..) => "fuel",
        E::BlackHole(..) => "blackhole",
        E::NoBranchForDataTag(..) | E::NoBranchForNative(..) => "nobranch",
        E::AssertionFailed(..) => "assert",
        E::HeadOfEmptyList(..) => "head",
        E::TailOfEmptyList(..) => "tail",
        E::BadNumberFormat(..) => "numfmt",
        E::BadFormatString(..) | E::FormatFailure(..) | E::FormatError(..) | E::BadNumericTypeForFormat(..) => "format",
        E::ParseError(..) => "parse",
        E::BadDateTimeComponents(..) | E::BadTimeZone(..) | E::BadTimestamp(..) | E::BadDateTimeString(..) => "datetime",
        E::ArrayBoundsError { .. } | E::ArrayNdIndexOutOfBounds(..) | E::ArrayNegativeIndex(..) | E::ListIndexOutOfBounds(..) => "bounds",
        E::ArrayShapeMismatch(..) => "shape",
        E::AllocationError => "alloc",
        E::NotCallable(..) => "notcallable",
        E::ContractViolation(..) => "contract",
        E::BadRegex(..) => "regex",
        E::ComplexResult(..) => "complex",
        E::NotScalar(..) => "notscalar",
        E::NoBranchForNative(..) => "nobranch",
        E::NotValue(..) => "notvalue",
        _ => {
            if std::env::var("EV_DEBUG").is_ok() {
                println!("{e:?}");
            }
            "other"
        }
    }
    .to_string()
}

/// Evaluate one of several expressions, chosen by a symbolic index when the
/// program runs (the whole program is compiled once).  "@n" in the expressions
/// stands for the n-th literal.
pub fn select(exprs: &[&str], lits: &[Lit], o: &Opts) -> (usize, Out) { select_with("", exprs, lits, o) }
pub fn select_with(decls: &str, exprs: &[&str], lits: &[Lit], o: &Opts) -> (usize, Out) {
    let k = crate::u8v("expression");
    crate::assume((k as usize) < exprs.len());
    let mut all = lits.to_vec();
    all.push(CP::Num(Number::from(k as u64)));
    let items: Vec<String> = exprs.iter().map(|e| format!("({e})")).collect();
    let src = format!("{decls}\nr: [{}] nth(\"@{}\")\n", items.join(",\n "), lits.len());
    let out = run(&src, &all, o);
    (crate::conc(k as u64) as usize, out)
}
/// ... within a block of local declarations
pub fn select_in(decls: &str, exprs: &[&str], lits: &[Lit], o: &Opts) -> (usize, Out) {
    let k = crate::u8v("expression");
    crate::assume((k as usize) < exprs.len());
    let mut all = lits.to_vec();
    all.push(CP::Num(Number::from(k as u64)));
    let items: Vec<String> = exprs.iter().map(|e| format!("({e})")).collect();
    let src = format!("r: {{ {decls} }}.([{}] nth(\"@{}\"))\n", items.join(",\n "), lits.len());
    let out = run(&src, &all, o);
    (crate::conc(k as u64) as usize, out)
}

/// The outcome as either its scalars or an error kind
pub fn outcome(o: &Out) -> Result<Vec<Primitive>, String> {
    match o {
        Out::Events(e) => Ok(scalars(e)),
        Out::RunError(k) => Err(k.clone()),
        Out::CompileError(m) => panic!("harness program does not compile: {m}"),
    }
}
/// ... of a single scalar, the value of the one key (whose name comes first)
pub fn scalar(o: &Out) -> Result<Primitive, String> {
    let r = outcome(o).and_then(|v| if v.len() == 2 { Ok(v[1].clone()) } else { Err(format!("{} scalars", v.len())) });
    if let Err(e) = &r {
        crate::note(e);
    }
    r
}

pub fn run(source: &str, lits: &[Lit], o: &Opts) -> Out {
    let mut sm = SourceMap::new();
    let e = match front(source, lits, o, &mut sm).and_then(|e| middle(e, o, &mut sm)) {
        Ok(e) => e,
        Err(m) => return Out::CompileError(m),
    };
    back(e, o, &mut sm)
}

/// scalars of a block document { k: v ... } in order, keys dropped
pub fn scalars(ev: &[Event]) -> Vec<Primitive> {
    ev.iter().filter_map(|e| if let Event::OutputScalar(_, p) = e { Some(p.clone()) } else { None }).collect()
}

/// whether the program's one key `r` has the value
pub fn is(out: &Out, v: crate::docs::V) -> bool {
    let Out::Events(got) = out else {
        match out { Out::RunError(k) => crate::note(k), Out::CompileError(k) => crate::note(k), _ => {} }
        return false
    };
    let real = |e: &&Event| !matches!(e, Event::OutputStreamStart | Event::OutputStreamEnd | Event::OutputDocumentStart | Event::OutputDocumentEnd);
    let want = crate::docs::V::Block(vec![("r".to_string(), v)]).events();
    let (a, b): (Vec<&Event>, Vec<&Event>) = (got.iter().filter(real).collect(), want.iter().filter(real).collect());
    if std::env::var("EV_DEBUG").is_ok() { println!("got {a:?}\nwant {b:?}"); }
    a == b
}
pub fn err<'a>(out: &'a Out) -> Option<&'a str> { if let Out::RunError(k) = out { Some(k) } else { None } }

/// the value of the program's one key
pub fn value(out: &Out) -> Option<crate::docs::V> {
    use crate::docs::V;
    fn go(ev: &[&Event], i: &mut usize) -> Option<V> {
        let e = ev.get(*i)?;
        *i += 1;
        Some(match e {
            Event::OutputScalar(_, p) => match p { Primitive::Null => V::Null, Primitive::Bool(b) => V::Bool(*b), Primitive::Num(n) => V::Num(n.clone()), Primitive::Str(s) => V::Str(s.to_string()), Primitive::Sym(s) => V::Sym(s.to_string()), _ => return None },
            Event::OutputSequenceStart(..) => {
                let mut v = vec![];
                while !matches!(ev.get(*i)?, Event::OutputSequenceEnd) { v.push(go(ev, i)?) }
                *i += 1;
                V::List(v)
            }
            Event::OutputBlockStart(..) => {
                let mut v = vec![];
                while !matches!(ev.get(*i)?, Event::OutputBlockEnd) {
                    let k = match go(ev, i)? { V::Sym(s) | V::Str(s) => s, _ => return None };
                    v.push((k, go(ev, i)?));
                }
                *i += 1;
                V::Block(v)
            }
            _ => return None,
        })
    }
    let Out::Events(ev) = out else { return None };
    let ev: Vec<&Event> = ev.iter().filter(|e| !matches!(e, Event::OutputStreamStart | Event::OutputStreamEnd | Event::OutputDocumentStart | Event::OutputDocumentEnd)).collect();
    match go(&ev, &mut 0)? { V::Block(mut b) if b.len() == 1 => Some(b.remove(0).1), _ => None }
}
