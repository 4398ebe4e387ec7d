#!/usr/bin/env python3
"""Derive a buildable copy of /repo's eucalypt package in <out>.

As /opt/vp/overlay.py does, what needs the missing yaml-rust git dependency is
left out (src/import/yaml.rs, src/import/jsonl.rs, src/export/yaml.rs).  In
addition item visibility is widened (`pub(crate)`, `pub(super)` and private
`mod`/free items of the modules listed in PUBLISH become `pub`) so that the
harness crates can call what is private: visibility does not change behaviour.
Files are rewritten only when their content changed, so cargo's mtimes hold."""
import glob, os, re, sys

REPO = os.environ.get("VERIF_REPO", "/repo")
OUT = ("src/import/yaml.rs", "src/import/jsonl.rs", "src/export/yaml.rs")
KEEP_TOP = {"src", "lib", "build-meta.yaml", "Cargo.toml", "Cargo.lock", "build.rs", "resources", "doc"}


def blank(text, mods):
    names = "|".join(mods)
    drop_line = re.compile(rf"^\s*(?:pub(?:\([^)]*\))?\s+)?(?:mod\s+(?:{names})\s*;|use\s+(?:self::|super::)?(?:{names})::.*;)\s*$")
    formats = "|".join(f'"{m}"' for m in mods)
    arm = re.compile(rf'^\s*(?:"\w+"\s*\|\s*)*(?:{formats})(?:\s*\|\s*"\w+")*\s*=>')
    out, depth = [], 0
    for line in text.split("\n"):
        if depth:
            depth += line.count("{") + line.count("(") - line.count("}") - line.count(")")
            out.append("")
        elif drop_line.match(line):
            out.append("")
        elif m := arm.match(line):
            rest = line[m.end():]
            depth = rest.count("{") + rest.count("(") - rest.count("}") - rest.count(")")
            out.append("")
        else:
            out.append(line)
    return "\n".join(out)


ITEM = re.compile(r"^(?:pub\((?:crate|super|in [^)]*)\) )?((?:async |const |unsafe |extern \"C\" )*fn |struct |enum |trait |type |const |static |mod |union )", re.M)


def widen(text):
    """Top-level items (column 0) and pub(crate)/pub(super) anything -> pub."""
    text = re.sub(r"\bpub\((?:crate|super|in [^)]*)\)", "pub", text)
    out, raw = [], False
    for line in text.split("\n"):
        if not raw and ITEM.match(line) and not line.startswith(("pub ", "const _")):
            line = "pub " + line
        # do not touch the inside of raw strings that start at column 0
        if line.count('r#"') > line.count('"#') or (raw and '"#' not in line):
            raw = True
        elif raw and '"#' in line:
            raw = False
        out.append(line)
    return "\n".join(out)


def widen_fields(text):
    """Fields of top-level structs, and the machine's step, -> pub."""
    def struct(m):
        return re.sub(r"(?m)^    ([a-z_]\w*): ", r"    pub \1: ", m.group(0))
    text = re.sub(r"(?ms)^pub struct [^;{]*?\{.*?^\}", struct, text)
    return re.sub(r"(?m)^    fn dispatch\(", "    pub fn dispatch(", text)


def put(path, data):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    try:
        with open(path, "rb") as f:
            if f.read() == data:
                return False
    except OSError:
        pass
    with open(path, "wb") as f:
        f.write(data)
    return True


def rowan(dst):
    """The (third-party) syntax tree library, with its interning cache switched
    off: interning hashes token text, which is what makes symbolic text blow
    up; the trees built are the same."""
    lock = open(os.path.join(REPO, "Cargo.lock")).read()
    ver = re.search(r'name = "rowan"\nversion = "([^"]+)"', lock).group(1)
    src = glob.glob(os.path.expanduser(f"~/.cargo/registry/src/*/rowan-{ver}"))[0]
    n = 0
    for d, _, fs in os.walk(src):
        for f in fs:
            rel = os.path.relpath(os.path.join(d, f), src)
            if not (rel.startswith("src/") or rel == "Cargo.toml"):
                continue
            data = open(os.path.join(d, f), "rb").read()
            if rel == "src/green/node_cache.rs":
                t = data.decode()
                t = t.replace("        let hash = {\n            let mut h = FxHasher::default();\n            kind.hash(&mut h);\n            text.hash", "        if true {\n            return (0, GreenToken::new(kind, text));\n        }\n        let hash = {\n            let mut h = FxHasher::default();\n            kind.hash(&mut h);\n            text.hash", 1)
                t = t.replace("if children_ref.len() > 3 {", "if true || children_ref.len() > 3 {", 1)
                assert t.count("if true") == 2
                data = t.encode()
            n += put(os.path.join(dst, rel), data)
    return n


def main(dst):
    want = set()
    changed = 0
    for top in sorted(os.listdir(REPO)):
        p = os.path.join(REPO, top)
        if top not in KEEP_TOP:
            continue
        files = [p] if os.path.isfile(p) else [os.path.join(d, f) for d, _, fs in os.walk(p) for f in fs]
        for f in files:
            rel = os.path.relpath(f, REPO)
            if rel in OUT or rel == "lib/prelude.blob" or "/target/" in rel:
                continue
            with open(f, "rb") as h:
                data = h.read()
            if rel == "src/import/mod.rs":
                data = blank(data.decode(), ["yaml", "jsonl"]).encode()
            elif rel == "src/export/mod.rs":
                data = blank(data.decode(), ["yaml"]).encode()
            elif rel == "Cargo.toml":
                t = re.sub(r"(?m)^yaml-rust\s*=.*\n", "", data.decode())
                # only the library is built here: drop benches/tests/bins and the workspace
                t = re.sub(r"(?ms)^\[\[(?:bench|test|example|bin)\]\]\n.*?(?=^\[|\Z)", "", t)
                t = re.sub(r"(?ms)^\[workspace\]\n.*?(?=^\[|\Z)", "", t)
                t = re.sub(r"(?m)^\[package\]\n", "[package]\nautobins = false\nautobenches = false\nautotests = false\nautoexamples = false\n", t, count=1)
                data = t.encode()
            elif rel == "Cargo.lock":
                head, *packages = data.decode().split("[[package]]\n")
                keep = [q for q in packages if not q.startswith('name = "yaml-rust"\n')]
                keep = [q.replace(' "yaml-rust",\n', "") for q in keep]
                if not any('\n "linked-hash-map"' in q for q in keep):
                    keep = [q for q in keep if not q.startswith('name = "linked-hash-map"\n')]
                data = "[[package]]\n".join([head] + keep).encode()
            if rel.endswith(".rs") and rel.startswith("src/"):
                text = widen(data.decode())
                if rel in ("src/eval/bytecode/machine.rs", "src/eval/memory/heap.rs"):
                    text = widen_fields(text)
                    # how often a nested evaluation looks whether to collect garbage (500 unless C10 asks for less)
                    text = re.sub(r"gc_check_freq: u32 = 500;", 'gc_check_freq: u32 = std::env::var("EUH_GC_POLL").ok().and_then(|s| s.parse().ok()).unwrap_or(500);', text)
                    text = re.sub(r"(fn policy_requires_collection\(&self\) -> bool \{\n)", r'\1        if std::env::var_os("EUH_GC_POLL").is_some() { return true; }\n', text)
                data = text.encode()
            want.add(rel)
            changed += put(os.path.join(dst, rel), data)
    # build.rs watches this file; while it is missing cargo rebuilds the crate
    # every time.  It is unparseable, hence "stale": the source prelude is used.
    want.add("lib/prelude.blob")
    changed += put(os.path.join(dst, "lib/prelude.blob"), b"none")
    for d, _, fs in os.walk(dst):
        for f in fs:
            rel = os.path.relpath(os.path.join(d, f), dst)
            if rel not in want:
                os.unlink(os.path.join(d, f))
                changed += 1
    changed += rowan(os.path.join(os.path.dirname(os.path.abspath(dst)), "rowan"))
    print(f"overlay: {len(want)} files, {changed} changed", file=sys.stderr)


main(sys.argv[1])
