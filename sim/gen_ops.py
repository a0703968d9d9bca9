#!/usr/bin/env python3
"""Generates src/ops.rs, the table of public evaluation functions, from the source
signatures in /repo/qcd-sme/src.  The generated file is committed and is
what the checks compile; when it does not compile against the tree under test the
checks generate a table from that tree's signatures into /verif/target."""
import os, re, sys

SRC = sys.argv[1] if len(sys.argv) > 1 else "/repo/qcd-sme/src"
OUT = sys.argv[2] if len(sys.argv) > 2 else os.path.join(os.path.dirname(os.path.abspath(__file__)), "src", "ops.rs")

FILES = []
for d, _, fs in os.walk(SRC):
    for f in fs:
        if f.endswith(".rs"):
            FILES.append(os.path.join(d, f))
FILES.sort()
SKIPFILES = {"consts.rs", "types.rs", "utils.rs", "lib.rs", "ffi.rs"}


def strip_comments(s):
    s = re.sub(r"//[^\n]*", "", s)
    return re.sub(r"/\*.*?\*/", "", s, flags=re.S)


def modpath(f):
    r = os.path.relpath(f, SRC)[:-3].split(os.sep)
    if r[-1] == "mod":
        r = r[:-1]
    return r


TOK = re.compile(r'"(?:\\.|[^"\\])*"|[{}]|(?:pub(?:\(crate\))? )?mod (\w+) \{|pub (?:extern "C" )?fn (\w+)')
ops = []
unsupported = []
for f in FILES:
    if os.path.relpath(f, SRC) in SKIPFILES:
        continue
    s = strip_comments(open(f).read())
    base = modpath(f)
    stack = []
    i = 0
    while True:
        m = TOK.search(s, i)
        if not m:
            break
        t = m.group(0)
        i = m.end()
        if m.group(1):
            stack.append(m.group(1))
        elif m.group(2):
            mods = [x for x in stack if x is not None]
            if any(x in ("inlines", "tests") for x in mods):
                continue
            # signature up to '{'
            j = s.index("{", i)
            sig = " ".join(s[i:j].split())
            i = j
            isffi = "ffi" in mods
            name = m.group(2)
            path = ["ffi"] if isffi else base + [x for x in mods if x != "native"]
            g = {}
            mg = re.match(r"<(.*?)>\s*\(", sig)
            if mg:
                gl = re.sub(r" \+ std::ops::Sub<T2, Output = T1>", "", mg.group(1))
                for x in gl.split(","):
                    x = x.strip()
                    if x:
                        k, v = x.split(":", 1)
                        g[k.strip()] = v.strip()
                sig = sig[mg.end() - 1:]
            nosub = {k for k in g if "std::ops::Sub" in sig[:0] or "Sub<T2" in (mg.group(1) if mg else "")}
            ma = re.match(r"\((.*)\)(?: -> (.*?))?\s*$", sig)
            if not ma:
                unsupported.append((path, name, sig, g))
                continue
            args = [a.strip() for a in ma.group(1).split(",") if a.strip()]
            ret = (ma.group(2) or "").strip()
            if any(":" not in a for a in args):
                unsupported.append((path, name, sig, g))
                continue
            args = [(a.split(":")[0].strip(), a.split(":")[1].strip()) for a in args]
            if any(v not in ("Num", "Copy + Into<C>") for v in g.values()):
                unsupported.append((path, name, sig, g))
                continue
            kinds = []
            ok = True
            for an, at in args:
                if at in ("R", "f64"):
                    kinds.append("r")
                elif at == "C":
                    kinds.append("c")
                elif at in g:
                    kinds.append(at)
                elif at == "Integral":
                    kinds.append("i")
                elif at in ("&FieldConfig",):
                    kinds.append("f")
                elif at in ("NCTYPE", "NFTYPE", "u32"):
                    kinds.append("u")
                else:
                    ok = False
            if not ok or ret not in ["R", "C", "f64"] + list(g) + ["Option<R>"]:
                unsupported.append((path, name, sig, g))
                continue
            ops.append((path, name, [a for a, _ in args], kinds, ret, sorted(g), bool(nosub),
                        "Copy + Into<C>" in g.values()))
        elif t == "{":
            stack.append(None)
        elif t == "}":
            stack.pop()

def emit(path, name, anames, kinds, ret, inst, suffix, out):
    call = []
    ks = ""
    ri = 0
    for an, k in zip(anames, kinds):
        k = inst.get(k, k)
        ks += k
        if k in "ru":
            call.append(f"a.{k}({ri})"); ri += 1
        elif k == "p":
            call.append(f"a.p({ri})"); ri += 1
        elif k == "c":
            call.append(f"a.c({ri})"); ri += 2
        else:
            call.append(f"a.{k}()")
    rt = inst.get(ret, ret)
    rt = {"r": "R", "c": "C", "p": "P", "f64": "R"}.get(rt, rt)
    fn = "qcd_sme::" + "::".join(path + [name])
    e = f"{fn}({', '.join(call)})"
    conv = {"R": "V::R", "C": "V::C", "Option<R>": "V::O", "P": "V::P"}[rt]
    nm = "::".join(path + [name]) + suffix
    out.append(f'    Op {{ name: "{nm}", kinds: "{ks}", args: "{",".join(anames)}", ret: \'{rt[0]}\', '
               f'f: |a| {conv}({e}) }},')


out = []
seen = set()
for path, name, an, kinds, ret, g, nosub, into in ops:
    key = ("::".join(path), name)
    if key in seen:
        continue
    seen.add(key)
    if not g:
        insts = [""]
    elif len(g) == 1:
        insts = ["r", "c", "p"]
    elif len(g) == 2:
        insts = ["rr", "cc", "cr", "pp"] + ([] if nosub else ["rc"])
    else:
        insts = ["rrr", "ccc", "crc", "rrc"]
    for i in insts:
        emit(path, name, an, kinds, ret, dict(zip(g, i)), "#" + i if i else "", out)
with open(OUT, "w") as fh:
    fh.write("// Generated by gen_ops.py from the signatures in /repo/qcd-sme/src.\n")
    fh.write("use crate::{Op, V};\n\n#[rustfmt::skip]\npub static OPS: &[Op] = &[\n")
    fh.write("\n".join(out))
    fh.write("\n];\n")
print(len(ops), "functions", len(out), "entries")
for u in unsupported:
    print("unsupported", u)
