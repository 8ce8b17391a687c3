#!/usr/bin/env python3
"""Development-time only (no check runs this): freezes the RAW coefficient tables of the pinned
commit (as printed in AGA Report No. 8 / GERG-2008) into the reference model's own tables.
Only literal inputs are taken (never anything the implementation derives from them).
usage: freeze_tables.py <repo>/src  <outdir>"""
import re, sys
src, out = sys.argv[1], sys.argv[2]

def consts(text):
    env = {}
    for m in re.finditer(r"(?:pub\(crate\) )?const (\w+): ([^=]+?) =\s*(.*?);\s*\n", text, re.S):
        name, ty, body = m.groups()
        if name in ("RS","RSR","TOLR","D0"): continue
        body = re.sub(r"//[^\n]*", "", body)
        body = re.sub(r"(?<=\d)_(?=\d)", "", body).replace("_,", ",")
        body = re.sub(r"(?<=\d)_", "", body)
        env[name] = eval(body, {}, dict(env))
    return env

def num(s): return float(re.sub(r"_", "", s))
def arr(d, n, m, cast=float, off=0):
    return [[cast(d.get((i, j), 0)) for j in range(m)] for i in range(n)]
def emit(f, name, v, ty):
    def r(x):
        if isinstance(x, list): return "[" + ",".join(r(y) for y in x) + "]"
        return repr(x)
    f.write("pub static %s: %s = %s;\n" % (name, ty, r(v)))

# ---------------- DETAIL
t = open(src + "/detail.rs").read()
c = consts(t)
n0 = {}
for m in re.finditer(r"self\.n0i\[(\d+)\]\[(\d+)\] = (-?[\d_.eE+-]+);", t):
    n0[(int(m[1]), int(m[2]))] = num(m[3])
with open(out + "/tab_detail.rs", "w") as f:
    f.write("// Frozen raw AGA8 DETAIL parameters (tools/freeze_tables.py). Not derived from the tree under test.\n")
    f.write("pub const R: f64 = %r;\n" % c["RDETAIL"])
    emit(f, "MM", c["MMI"], "[f64; 21]")
    emit(f, "AN", c["AN"], "[f64; 58]"); emit(f, "UN", c["UN"], "[f64; 58]")
    for k in ("BN","KN","FN","GN","QN","SN","WN"): emit(f, k, [int(x) for x in c[k]], "[i32; 58]")
    for k in ("EI","KI","GI","QI","FI","SI","WI"): emit(f, k, c[k], "[f64; 21]")
    for k in ("EIJ","UIJ","KIJ","GIJ"):
        # only i<j is meaningful
        emit(f, k, [[c[k][i][j] if i < j else 1.0 for j in range(21)] for i in range(21)], "[[f64; 21]; 21]")
    emit(f, "TH0", c["TH0I"], "[[f64; 7]; 21]")
    emit(f, "N0", arr(n0, 21, 7), "[[f64; 7]; 21]")

# ---------------- GERG
t = open(src + "/gerg2008.rs").read()
c = consts(t.split("/// Implements the GERG2008")[0])
body = t.split("fn setup(&mut self) {")[1].split("pub fn set_composition")[0]
A = {}
i_loop = None
depth_loops = []
for line in body.split("\n"):
    s = re.sub(r"//.*", "", line).strip()
    if s.startswith("for i in 1..=MAXFLDS {"):
        i_loop = list(range(1, 22)); continue
    if s.startswith("for i in 1..=4 {"): i_loop = [1, 2, 3, 4]; continue
    if s.startswith("if i != 3 {"): i_loop = [i for i in i_loop if i != 3]; continue
    m = re.match(r"(?:self\.)?(\w+)\[(\w+)\]\[(\d+)\] = (-?[\d_.]+(?:[eE][+-]?\d+)?);$", s)
    if m:
        name, i, j, v = m[1], m[2], int(m[3]), num(m[4])
        if i == "i":
            if v == 1.0 and name in ("bvij","btij"): continue
            for k in i_loop: A.setdefault(name, {})[(k, j)] = v
        else:
            A.setdefault(name, {})[(int(i), j)] = v
print({k: len(v) for k, v in A.items()})
def m1(M): return [row[1:] for row in M[1:]]
with open(out + "/tab_gerg.rs", "w") as f:
    f.write("// Frozen raw GERG-2008 parameters (tools/freeze_tables.py). Not derived from the tree under test.\n")
    f.write("pub const R: f64 = %r;\n" % c["RGERG"])
    for k, n in (("MM","MMI_GERG"),("DC","DC"),("TC","TC")): emit(f, k, c[n][1:], "[f64; 21]")
    for k in ("KPOL","KEXP"): emit(f, k, c[k][1:], "[usize; 21]")
    for k in ("KPOLIJ","KEXPIJ"): emit(f, k, c[k], "[usize; 11]")
    emit(f, "NOIK", m1(c["NOIK"]), "[[f64; 24]; 21]")
    emit(f, "FIJ", [[c["FIJ"][i][j] if i < j else 0.0 for j in range(1,22)] for i in range(1,22)], "[[f64; 21]; 21]")
    emit(f, "MNUMB", [[c["MNUMB"][i][j] if i < j else 0 for j in range(1,22)] for i in range(1,22)], "[[usize; 21]; 21]")
    emit(f, "TH0", [r[1:] for r in c["TH0I"]][1:], "[[f64; 7]; 21]")
    emit(f, "N0", [r[1:] for r in arr(A["n0i"], 22, 8)][1:], "[[f64; 7]; 21]")
    for k, ty, cast in (("coik","i32",int),("doik","i32",int),("toik","f64",float)):
        emit(f, k.upper(), m1(arr(A[k], 22, 25, cast)), "[[%s; 24]; 21]" % ty)
    emit(f, "DIJK", [r[1:] for r in arr(A["dijk"], 11, 13, int)], "[[i32; 12]; 11]")
    for k in ("tijk","cijk","eijk","bijk","gijk","nijk"):
        emit(f, k.upper(), [r[1:] for r in arr(A[k], 11, 13)], "[[f64; 12]; 11]")
    for k in ("bvij","gvij","btij","gtij"):
        emit(f, k.upper(), m1(arr(A[k], 22, 22)), "[[f64; 21]; 21]")
