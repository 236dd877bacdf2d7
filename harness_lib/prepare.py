#!/usr/local/bin/python3
"""Copies libmgen's sources and makes two programs of them: one lists what generated code refers to, one is the harness."""
import os, re, shutil

here = os.path.dirname(os.path.abspath(__file__))
src, dst = "/repo/libmgen/src", os.path.join(here, "lib")


def put(p, t):
    if not os.path.exists(p) or open(p, newline="").read() != t:
        open(p, "w", newline="").write(t)


os.makedirs(dst, exist_ok=True)
keep = set()
for d, _, fs in os.walk(src):
    for f in fs:
        rel = os.path.relpath(os.path.join(d, f), src)
        os.makedirs(os.path.dirname(os.path.join(dst, rel)), exist_ok=True)
        t = open(os.path.join(d, f), newline="").read()
        if rel == "main.rs":
            n = re.sub(r"(?m)^(pub\s+)?fn main\s*\(\s*\)", "fn lib_main()", t)
            put(os.path.join(dst, "main_harness.rs"), n + '\n#[path = "../src/harness.rs"]\nmod vharness;\nmod facts;\nfn main() {\n    vharness::main()\n}\n')
            put(os.path.join(dst, "main_refs.rs"), n + '\n#[path = "../src/refs.rs"]\nmod vrefs;\nfn main() {\n    vrefs::run(&std::env::args().nth(1).unwrap())\n}\n')
        else:
            put(os.path.join(dst, rel), t)
        keep.add(rel)
keep |= {"main_harness.rs", "main_refs.rs", "facts.rs"}
for d, _, fs in os.walk(dst):
    for f in fs:
        if os.path.relpath(os.path.join(d, f), dst) not in keep:
            os.remove(os.path.join(d, f))
