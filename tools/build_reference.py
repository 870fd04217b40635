"""Writes /verif/data/tables.json.xz, names.txt.xz, norm.json.xz, dictionaries.json.xz, constants.json.xz: the expected
answers of every per-code-point lookup.  Run once, on the repaired pinned tree; tools/crossvalidate.py then compares the
tables with sources that have nothing to do with this repository (Java 17 = Unicode 13.0, ICU 74, Perl).  The checks
only read the committed files."""
import json, lzma, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import repo, inventory
repo.install_data()

def dump(name, obj):
    with lzma.open(os.path.join(repo.DATA, name), "wt", preset=9) as f:
        f.write(obj if isinstance(obj, str) else json.dumps(obj, separators=(",", ":"), sort_keys=True))

tables = {}
for name, (module, fac, kind) in inventory.entries().items():
    fn = fac(repo.mod(module))
    runs, prev = [], None
    for c in range(0x110000):
        v = fn(c)
        if kind == "d": v = v - c
        elif kind == "s": v = "=" if v == chr(c) else v
        if isinstance(v, bool): v = int(v)
        if not runs or v != prev:
            runs.append([c, v]); prev = v
    tables[name] = runs
    print(name, len(runs))
dump("tables.json.xz", tables)

CN = repo.mod("CharNames").CharNames
out = []
for c in range(0x110000):
    n = CN.getCharName(c)
    if n: out.append(f"{c:X};{n};{CN.getCharName(c, 3)}")
dump("names.txt.xz", "\n".join(out) + "\n")

N = repo.mod("Normalizer2")
norm = {}
for nm in ("nfc", "nfkc", "nfkc_cf"):
    t = getattr(N, nm + "Trie"); d = {}
    for c in range(0x110000):
        if 0xAC00 <= c < 0xD7A4: continue   # Hangul syllables: the arithmetic of the standard is the reference
        f, r = t.getDecomposition(c), t.getRawDecomposition(c)
        if f is not None or r is not None: d["%X" % c] = [f, r]
    norm[nm] = d; print(nm, len(d))
dump("norm.json.xz", norm)

dicts = {}
for m in inventory.DICT_MODULES:
    for k, v in vars(repo.mod(m)).items():
        if isinstance(v, dict) and not k.startswith("__"):
            dicts[m + "." + k] = sorted(v.items())
dump("dictionaries.json.xz", dicts)

dump("constants.json.xz", {m: {k: v for k, v in vars(repo.mod(m)).items() if isinstance(v, int) and not k.startswith("__")}
                           for m in inventory.CONST_MODULES})
