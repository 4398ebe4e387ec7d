// Evaluates eucalypt source (with the real prelude) and prints its render events or its error.
use eucalypt::eval::stg::runtime::Runtime;
use eucalypt::common::sourcemap::{Smid, SourceMap};
use eucalypt::core::cook;
use eucalypt::core::desugar::desugarable::Desugarable;
use eucalypt::core::desugar::{Content, Desugarer};
use eucalypt::core::expr::RcExpr;
use eucalypt::core::inline::{reduce, tag};
use eucalypt::core::simplify::{compress, prune};
use eucalypt::core::transform::fuse;
use eucalypt::core::unit::TranslationUnit;
use eucalypt::driver::io::{create_args_pseudoblock, create_io_pseudoblock_deterministic};
use eucalypt::driver::resources::Resources;
use eucalypt::eval::bytecode::{encode, BytecodeMachine};
use eucalypt::eval::emit::{CapturingEmitter, Event};
use eucalypt::eval::stg::{self, make_standard_runtime, RenderType, StgSettings};
use eucalypt::syntax::input::{Input, Locator};
use eucalypt::syntax::rowan;
use std::collections::{HashMap, HashSet};

fn unit(expr: RcExpr, name: &str) -> TranslationUnit {
    TranslationUnit { expr: expr.apply_name(Smid::default(), name), targets: HashSet::new(), own_targets: HashSet::new(), docs: Vec::new(), deprecations: HashMap::new(), blame: HashMap::new() }
}
fn desugar(ast: &dyn Desugarable, input: Input, id: usize, sm: &mut SourceMap) -> Result<TranslationUnit, String> {
    let mut contents: HashMap<Input, Content> = HashMap::new();
    contents.insert(input.clone(), Content::new(id, ast));
    Desugarer::new(&contents, sm).translate_unit(&input).map_err(|e| format!("error {e}"))
}
pub fn eval(source: &str) -> String {
    let prelude = std::env::var("DEMO_NO_PRELUDE").is_err();
    let mut sm = SourceMap::new();
    let p = rowan::parse_unit(source);
    if !p.errors().is_empty() { return format!("syntax error {:?}", p.errors()); }
    let su = match desugar(&p.tree(), Input::new(Locator::Literal("<input>".into()), None, "eu"), 1, &mut sm) { Ok(u) => u, Err(e) => return e };
    let mut units = vec![];
    if prelude {
        let text = Resources::default().get("prelude").expect("prelude").clone();
        sm.mark_resource_file(0);
        let pu = desugar(&rowan::parse_unit(&text).tree(), Input::new(Locator::Resource("prelude".into()), None, "eu"), 0, &mut sm).expect("prelude");
        units = vec![unit(create_args_pseudoblock(&[]), "__args"), unit(create_io_pseudoblock_deterministic(), "__io"), unit(create_args_pseudoblock(&[]), "__build"), pu];
    }
    units.push(su);
    let mut e = TranslationUnit::merge(units.into_iter()).expect("merge").expr;
    e = match cook::cook(e, &mut sm) { Ok(e) => e, Err(x) => return format!("cook error {x}") };
    // the order of the command's pipeline
    let full = std::env::var("DEMO_COMMAND").is_ok();
    if full {
        e = eucalypt::core::transform::hoist::hoist(&eucalypt::core::dependency::split_letrecs(&e)).unwrap();
        e = compress::compress(&prune::prune(&e)).unwrap();
    }
    for _ in 0..2 { e = tag::tag_combinators(&e).unwrap(); e = reduce::inline_pass(&e).unwrap(); }
    e = fuse::fuse(&e).unwrap();
    for _ in 0..2 { e = prune::prune(&e); e = compress::compress(&e).unwrap(); }
    let mut user_demand_sigs = Default::default();
    if full {
        let (x, _, s) = eucalypt::core::analyse_demand::analyse_demands(&e);
        user_demand_sigs = s;
        e = eucalypt::core::reflatten::reflatten(&x);
    }
    let settings = StgSettings { user_demand_sigs, generate_annotations: true, render_type: RenderType::RenderDoc, heap_limit_mib: Some(256), ..Default::default() };
    let rt = make_standard_runtime(&mut sm);
    let syn = match stg::compile(&settings, e, rt.as_ref()) { Ok(s) => s, Err(x) => return format!("compile error {x}") };
    let (prog, root, gforms) = encode(&syn, &rt.globals());
    let mut m = BytecodeMachine::new(prog, root, &gforms, rt.intrinsics(), Box::new(CapturingEmitter::default()), 256, false).expect("machine");
    match m.run(Some(20_000_000)) {
        Ok(_) => m.take_emitter().captures().iter().filter_map(|e| match e { Event::OutputScalar(_, p) => Some(format!("{p:?}")), Event::OutputSequenceStart(_) => Some("[".into()), Event::OutputSequenceEnd => Some("]".into()), Event::OutputBlockStart(_) => Some("{".into()), Event::OutputBlockEnd => Some("}".into()), _ => None }).collect::<Vec<_>>().join(" "),
        Err(x) => format!("error {x}"),
    }
}
/// each argument pair: a program and what it must give ("error" for any error)
fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    let mut bad = 0;
    for c in a.chunks(2) {
        let got = eval(&c[0]);
        let got = got.strip_prefix("{ Sym(\"r\") ").and_then(|s| s.strip_suffix(" }")).unwrap_or(&got).to_string();
        let ok = if c.len() < 2 { println!("{got}"); true } else if c[1] == "error" { got.starts_with("error") } else { got == c[1] };
        if !ok { println!("{}\n  gives    {got}\n  expected {}", c[0], c[1]); bad = 1; }
    }
    std::process::exit(bad)
}
