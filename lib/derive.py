"""Runs the derive macro's own code on the instruction enum of the current source."""
import os
import re
import shutil
import subprocess
import sys

sys.path.insert(0, os.path.dirname(__file__))
from rustx import Lost, Source  # noqa: E402


def generate(repo, work, env, src):
    d = os.path.join(work, "dd")
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(os.path.join(d, "src"))
    base = os.path.join(repo, "waterbear-instruction-derive")
    t = open(os.path.join(base, "src/lib.rs")).read()
    m = re.search(r"#\[proc_macro_derive", t)
    if not m:
        raise Lost("derive: entry point not found")
    # the entry point: one fn after the attribute
    k = t.index("{", m.end())
    dep = 0
    for e in range(k, len(t)):
        dep += {"{": 1, "}": -1}.get(t[e], 0)
        if dep == 0:
            break
    entry = t[m.start():e + 1]
    if "expand_instr" not in entry:
        raise Lost("derive: entry point does not call expand_instr")
    t = t[:m.start()] + t[e + 1:]
    t = re.sub(r"extern crate proc_macro;|use proc_macro::TokenStream;", "", t)
    t += """
fn main() {
    use std::io::Read;
    let mut s = String::new();
    std::io::stdin().read_to_string(&mut s).unwrap();
    let ast = syn::parse_derive_input(&s).unwrap();
    println!("{}", expand_instr(&ast));
}
"""
    open(os.path.join(d, "src/main.rs"), "w").write(t)
    c = open(os.path.join(base, "Cargo.toml")).read()
    c = re.sub(r"\[lib\][^\[]*", "", c).replace('name = "waterbear-instruction-derive"', 'name = "derive-driver"')
    open(os.path.join(d, "Cargo.toml"), "w").write(c + "\n[workspace]\n")
    lock = os.path.join(base, "Cargo.lock")
    if os.path.exists(lock):
        l = open(lock).read().replace('name = "waterbear-instruction-derive"', 'name = "derive-driver"')
        open(os.path.join(d, "Cargo.lock"), "w").write(l)
    it = src.find("enum Instr")
    attrs = [a for a in it.attrs if not re.match(r"#\[\s*(derive|allow)\b", a)]
    text = "\n".join(attrs) + "\n" + it.text
    p = subprocess.run(["cargo", "run", "-q", "--offline"], cwd=d, env=dict(env, CARGO_TARGET_DIR=os.path.join(work, "dd-target")),
                       input=text, text=True, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=300)
    if p.returncode != 0:
        raise Lost("derive: driver failed: " + p.stderr[-400:])
    return Source(p.stdout, "derive output")
