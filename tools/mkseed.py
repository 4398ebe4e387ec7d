#!/usr/bin/env python3
"""Writes /verif/seeded/<id> from a spec in tools/seeds.py:
id -> (property, file, [(old, new)...], needs, what_it_breaks, demo) where demo is a list of
(program, expected) for seedkit/ev.rs, or the name of a Rust program in tools/seedkit."""
import json, os, shutil, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from seeds import SEEDS  # noqa: E402

DEMO = """#!/bin/bash
# exit 0 when the property holds on these inputs, nonzero when it does not
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d); trap 'rm -r "$t"' EXIT
d=/repo/target/debug/deps
RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu rustc --edition 2021 -A warnings -L dependency=$d --extern eucalypt=$d/libeucalypt.rlib "$here/%s" -o "$t/demo" || exit 3
cd "$t"
timeout 200 env%s "$t/demo"%s
"""


def q(s):
    return "'" + s.replace("'", "'\\''") + "'"


for sid in sys.argv[1:] or SEEDS:
    prop, path, edits, needs, breaks, demo, *env = SEEDS[sid]
    d = os.path.join(os.path.dirname(HERE), "seeded", sid)
    if os.path.exists(d) and not sys.argv[1:]:
        continue
    os.makedirs(d, exist_ok=True)
    groups = edits if isinstance(path, list) else [edits]
    saved = {}
    for f, es in zip(path if isinstance(path, list) else [path], groups):
        p = os.path.join("/repo", f)
        t = saved.setdefault(p, open(p).read())
        for old, new in es:
            assert t.count(old) == 1, (sid, t.count(old), old)
            t = t.replace(old, new)
        open(p, "w").write(t)
    diff = subprocess.run(["git", "-C", "/repo", "diff"], capture_output=True, text=True, check=True).stdout
    for p, t in saved.items():
        open(p, "w").write(t)
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    src, av = ("ev.rs", [x for ab in demo for x in ab]) if isinstance(demo, list) else demo
    shutil.copy(os.path.join(HERE, "seedkit", src), os.path.join(d, src))
    args = "".join(" \\\n  " + q(a) for a in av)
    open(os.path.join(d, "demo.sh"), "w").write(DEMO % (src, "".join(" " + e for e in env), args))
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    print("wrote", sid)
