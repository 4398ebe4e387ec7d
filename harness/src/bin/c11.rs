//! Settings that should only make a program faster or slower
use euh::pipe::*;
use euh::progs::*;
use euh::*;
use eucalypt::common::sourcemap::SourceMap;

const D: &str = "x: \"@0\"\ny: \"@1\"\n";

/// every way of running the programs
fn ways() -> Vec<Opts> {
    let o = Opts { prelude: true, max_steps: 30_000, suppress_demand: true, ..Default::default() };
    let d = |driver| Opts { driver: Some(driver), suppress_demand: false, ..o.clone() };
    vec![
        d(FULL),
        Opts { suppress_demand: false, ..o.clone() },
        d(Driver { split: true, demand: true, reflatten: false, ..NONE }),
        d(Driver { inline: true, dce: true, ..NONE }),
        Opts { suppress_updates: true, ..d(FULL) },
        Opts { suppress_inlining: true, suppress_optimiser: true, ..d(FULL) },
        d(Driver { hoist: true, fuse: true, ..NONE }),
        Opts { bytes: true, ..d(FULL) },
        d(Driver { dce: false, ..FULL }),
        d(Driver { split: false, ..FULL }),
        d(Driver { hoist: false, reflatten: false, ..FULL }),
        d(Driver { demand: false, ..FULL }),
        d(Driver { inline: false, fuse: false, ..FULL }),
    ]
}

fn table(src: &[&str], quick: &[u8]) {
    let (x, y) = (u8v("x"), u8v("y"));
    let lits = [nint(x as i64), nint(y as i64)];
    let slow = Opts { driver: Some(NONE), prelude: true, suppress_updates: false, suppress_inlining: true, suppress_optimiser: true, suppress_demand: true, max_steps: 30_000, ..Default::default() };
    let k = u8v("expression");
    assume((k as usize) < src.len());
    let mut all = lits.to_vec();
    all.push(nint(k as i64));
    let items: Vec<String> = src.iter().map(|e| format!("({e})")).collect();
    let text = format!("r: {{ {D} }}.([{}] nth(\"@2\"))\n", items.join(",\n "));
    let mut sm = SourceMap::new();
    let core = match front(&text, &all, &slow, &mut sm) { Ok(e) => e, Err(m) => { note(&m); return check(false, "compiles") } };
    let ways = ways();
    let w = if thorough() { pick("way", ways.len() as u8) } else { quick[pick("quick way", quick.len() as u8)] as usize };
    // without updates a definition that needs itself is not found out, and work is repeated
    assume(!ways[w].suppress_updates || src[0] == LAZY[0].0 || src[0] == SCOPE[0].0);
    let mut sm2 = sm.clone();
    // (both are compiled before either runs)
    let compile = |o: &Opts, sm: &mut SourceMap| middle(core.clone(), o, sm).map_err(Out::CompileError).and_then(|e| load(e, o, sm));
    let a = compile(&slow, &mut sm);
    let b = compile(&ways[w], &mut sm2);
    let run = |m, o| match m { Ok(m) => go(m, o), Err(e) => e };
    let a = run(a, &slow);
    let b = run(b, &ways[w]);
    let k = conc(k as u64);
    cover(k);
    match (&a, &b) {
        (Out::Events(p), Out::Events(q)) => check(p == q, "same-result"),
        (Out::RunError(p), Out::RunError(q)) => check(p == q, "same-error"),
        _ => {
            for o in [&a, &b] { if let Out::CompileError(m) | Out::RunError(m) = o { note(m) } }
            check(false, "same-outcome")
        }
    }
}
fn sources(t: &[Prog]) -> Vec<&'static str> { t.iter().map(|p| p.0).collect() }
#[no_mangle]
pub extern "C" fn h_lazy() { table(&sources(LAZY), &[0, 1, 2]) }
#[no_mangle]
pub extern "C" fn h_scope() { table(&sources(SCOPE), &[0, 3, 4]) }
#[no_mangle]
pub extern "C" fn h_wrong() { table(&sources(WRONG), &[0, 7, 5]) }
#[no_mangle]
pub extern "C" fn h_lib() { table(LIB, &[0, 6, 1]) }
entries!(h_lazy, h_scope, h_wrong, h_lib);
