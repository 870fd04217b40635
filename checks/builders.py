"""C27-C30: the module builder: headers against the C compiler, data sources, property value names, and the whole way from
ICU's sources to an installed package that is imported and asked."""
import contextlib
import csv
import importlib
import io
import json
import os
import re
import shutil
import subprocess
import sys
import tarfile
import tempfile
import types
from pathlib import Path

import csource
import gendata
import inventory
import names
import norm
import props
import repo
import tries
import vh
from vh import Check, fail

TOP = 0x110000


class Scratch(Check):
    def run(self, case, obs):
        d = tempfile.mkdtemp(prefix="verif-build-")
        cwd = os.getcwd()
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                self.work(case, obs, Path(d))
        finally:
            os.chdir(cwd)
            shutil.rmtree(d, ignore_errors=True)


def integers(ns):
    return {k: v for k, v in ns.items() if isinstance(v, int) and not k.startswith("__")}


class C27(Scratch):
    id = "C27"
    chunk = 2
    needs = ("constants", "headers_compiled", "real_headers", "hidden_left_out")
    assumptions = ["headers in the style of ICU's: one enumerator or directive a line, conditionals not nested, integer values "
                   "within 32 bits, enumerator expressions use enumerators of the same enum",
                   "gcc is the judge of what a header's names are worth"]
    rule = ("random headers (comments of all kinds, continued lines, guards, conditionals, function-like macros, declarations, "
            "anonymous, named and typedef'd enums with explicit, implicit, negative and computed values) translated and "
            "executed, several translated in turn, and compiled with gcc, which prints the value of each name; 37 of ICU 74's "
            "own headers against values recorded from gcc; a state is a distinct (name, value)")

    def setup(self):
        self.HeaderFile = repo.builder("HeaderToPtyhon").HeaderFile
        self.real = json.loads(repo.read_data("headers.json.xz"))
        self.files = {}
        with tarfile.open(fileobj=io.BytesIO(Path(repo.DATA, "headers.tar.xz").read_bytes())) as tf:
            for m in tf.getmembers():
                self.files[m.name] = tf.extractfile(m).read()

    def cases(self):
        for n in sorted(self.real):
            yield {"mode": "real", "name": n}
        for i in range(self.scale(350, 8000)):
            yield {"mode": "random", "n": i}

    def translate(self, h):
        h.translate()
        h.writeFile()
        text = Path(h.headerPath).read_text(encoding="utf-8")
        ns = {}
        try:
            exec(compile(text, str(h.headerPath), "exec"), ns)
        except Exception as e:
            fail(f"the module made from a header cannot be executed: {e!r}\n{text[:1500]}")
        return ns

    def work(self, case, obs, d):
        if case["mode"] == "real":
            name = case["name"]
            (d / "in").mkdir()
            (d / "in" / name).write_bytes(self.files[name])
            h = self.HeaderFile(d / "in", name, d / "out", extraCode=["def U_MASK(x: int) -> int: return 1<<x\n"],
                                ignore=["U_NO_NUMERIC_VALUE"])
            ns = self.translate(h)
            for k, v in self.real[name].items():
                if ns.get(k) != v:
                    fail(f"{k} of ICU's {name} should be {v}, is {ns.get(k)!r}")
                obs.state(k, v)
                obs.n("constants")
            if "U_NO_NUMERIC_VALUE" in ns:
                fail("a name that is to be ignored was translated")
            obs.n("real_headers")
            return
        rng = self.rng(case["n"])
        made = []
        (d / "in/common").mkdir(parents=True)
        for i in range(rng.choice([1, 1, 2])):
            stem = rng.choice(["uprops", "utest", "UTest2"]) + str(i)
            t = csource.HeaderText(rng, stem)
            (d / "in/common" / (stem + ".h")).write_text(t.text, encoding="utf-8")
            ignore = [n for n in t.names + list(t.strings) if rng.random() < .1 and len(re.findall(rf"\b{n}\b", t.text)) == 1
                      and (f"#define {n} " in t.text or n in t.enumerators)]
            extra = ["def U_MASK(x: int) -> int: return 1<<x\n"] + (["UX_EXTRA = 12345\n"] if rng.random() < .3 else [])
            if ignore or rng.random() < .5:
                h = self.HeaderFile(d / "in", f"common/{stem}.h", d / "out", extraCode=extra, ignore=ignore)
            else:
                h = self.HeaderFile(d / "in", f"common/{stem}.h", d / "out", extra)
            made.append((stem, t, ignore, extra, h))
        rng.shuffle(made)
        for stem, t, ignore, extra, h in made:
            ns = self.translate(h)
            if not (d / "out" / f"{stem.lower()}_h.py").exists():
                fail(f"no module {stem.lower()}_h.py was written for {stem}.h")
            got = integers(ns)
            want = set(t.names) - set(ignore)
            if len(extra) > 1:
                want.add("UX_EXTRA")
                if got.get("UX_EXTRA") != 12345:
                    fail("the extra code is not in the module")
            missing, surplus = want - set(got), set(got) - want
            if missing:
                fail(f"{sorted(missing)} of the header are not in the module:\n{t.text}")
            if surplus & (set(ignore) | set(t.hidden) | set(t.skipped)) or surplus:
                fail(f"{sorted(surplus)} are in the module and should not be:\n{t.text}")
            for n, v in t.strings.items():
                if n not in ignore and ns.get(n) != v:
                    fail(f"{n} should be {v!r}, is {ns.get(n)!r}")
            names = sorted(want - {"UX_EXTRA"})
            for n, v in self.compiled(d, t, names).items():
                if got[n] != v:
                    fail(f"{n} should be {v}, is {got[n]}:\n{t.text}")
                obs.n("constants")
                obs.state(n, v)
            obs.n("headers_compiled")
            obs.n("hidden_left_out", len(t.hidden))
            obs.sample(t.text[len(csource.LICENSE):][:300])

    def compiled(self, d, t, names):
        text = t.text.replace('#include "unicode/utypes.h"', "")
        c = ("#define U_MASK(x) ((long long)1<<(x))\n#define U_CAPI extern\n#define U_EXPORT2\n" +
             "".join(f"#define {n} 1\n" for n in sorted(t.set)) + "#include <stdint.h>\n#include <stdio.h>\n" + text + "\nint main(void) {\n" +
             "".join(f'  printf("{n} %lld\\n", (long long)({n}));\n' for n in names) + "  return 0;\n}\n")
        (d / "t.c").write_text(c, encoding="utf-8")
        r = subprocess.run(["gcc", "-w", "-O0", "-o", str(d / "t"), str(d / "t.c")], capture_output=True, text=True)
        if r.returncode:
            raise vh.Inconclusive("gcc does not accept a generated header: " + r.stderr[:500])
        out = subprocess.run([str(d / "t")], capture_output=True, text=True).stdout
        # a mask that uses bit 31 is unsigned in C and positive in Python
        return {k: int(v) for k, v in (l.split() for l in out.splitlines())}


def random_array(rng, hi=0xFFFF):
    n = rng.choice([1, 2, 3, 15, 16, 17, 40, 300])
    if rng.random() < .002:
        n = rng.choice([5000, 70000])
    return [rng.choice([rng.randrange(10), rng.randrange(hi + 1), 0]) for _ in range(n)]


class C28(Scratch):
    id = "C28"
    chunk = 4
    needs = ("arrays", "scalars", "tries", "modules", "round_trips")
    assumptions = ["data sources in the format ICU's tools write (one- and many-line arrays, structures)"]
    rule = ("random data sources (arrays on one or many lines, names that are prefixes of each other, scalars, trie structures on "
            "their own and inside property structures, C and C++ spellings) read in random order into a module that is executed "
            "and compared; C sources written from the shipped data modules, which must come back as they were; a state is a "
            "distinct declaration")

    def setup(self):
        self.ModuleBuilder = repo.builder("ModuleBuilder").ModuleBuilder
        self.shipped = {n: repo.mod(n) for n in ("BidiPropsData", "CharPropsData", "CasePropsData")}

    def cases(self):
        for n in sorted(self.shipped):
            yield {"mode": "shipped", "name": n}
        for i in range(self.scale(3000, 30000)):
            yield {"mode": "random", "n": i}

    def execute(self, path):
        text = Path(path).read_text(encoding="utf-8")
        ns = {}
        try:
            exec(compile(text, str(path), "exec"), ns)
        except Exception as e:
            fail(f"the module made from a data source cannot be executed: {e!r}\n{text[:1000]}")
        return {k: v for k, v in ns.items() if not k.startswith("__")}

    def same(self, got, want, text, obs):
        for k, v in want.items():
            g = got.get(k)
            g = list(g) if isinstance(g, tuple) else g
            if g != v:
                fail(f"{k} should be {str(v)[:200]}, is {str(g)[:200]}; source:\n{text[-1500:]}")
            obs.state(k, v if isinstance(v, int) else tuple(v))
        extra = set(got) - set(want)
        if extra:
            fail(f"the module also defines {sorted(extra)}")
        obs.n("modules")

    def fake_trie(self, rng):
        il = rng.randrange(2112, 6000)
        n = rng.randrange(300, 20000)
        return dict(index=range(il + n), indexLength=il, index2NullOffset=rng.randrange(0x10000), dataNullOffset=rng.randrange(0x10000),
                    initialValue=rng.choice([0, 0, 7]), highStart=rng.choice([0x110000, 0xE0800, 0x10000]),
                    highValueIndex=il + n - 4)

    def fields(self, prefix, k):
        return {f"{prefix}_index_length": k["indexLength"], f"{prefix}_index_2_null_offset": k["index2NullOffset"],
                f"{prefix}_data_null_offset": k["dataNullOffset"], f"{prefix}_high_start": k["highStart"],
                f"{prefix}_high_value_index": k["highValueIndex"]}

    def work(self, case, obs, d):
        (d / "src/common").mkdir(parents=True)
        if case["mode"] == "shipped":
            return self.shipped_data(case["name"], obs, d)
        rng = self.rng(case["n"])
        names = ["alpha_indexes", "alpha_trieIndex", "alpha_mirrors", "alpha_jgArray", "alpha_jgArray2", "beta", "betaX", "betaX_index",
                 "gammaColumns", "deltaVectors", "deltaVectorsTrie_index", "old_beta", "uBetaX_beta", "x_alpha_mirrors"]
        parts = []
        want = {}
        ops = []
        null = rng.choice(["NULL", "nullptr"])
        for n in rng.sample(names, rng.randint(1, len(names))):
            v = random_array(rng, rng.choice([9, 0xFF, 0xFFFF, 0xFFFFFFFF]))
            parts.append(csource.array(n, v, rng.choice(["uint16_t", "int32_t", "uint8_t", "uint32_t"]),
                                       newline_end=rng.random() < .7, per_line=rng.choice([8, 16, 1]),
                                       tail=rng.choice([""] * 7 + [","])))
            if rng.random() < .8:
                ops.append(("arrayToPython", (n,), {n: v}))
        for n in rng.sample(["epsColumns", "zetaCount", "countEpsColumns", "zeta_epsColumns", "zeta_Count"], rng.randint(0, 4)):
            v = rng.choice([rng.randrange(10), rng.randrange(70000)])
            parts.append(f"static const int32_t {n}={csource.fmt(v) if rng.random() < .5 else v};\n\n")
            ops.append(("scalarToPython", (n,), {n: v}))
        for n in rng.sample(["etaTrie", "etaVectorsTrie", "my_etaTrie", "eta"], rng.randint(0, 3)):
            k = self.fake_trie(rng)
            parts.append(csource.trie_struct(n, n + "_index", k, null))
            p = rng.choice([n, "out_trie_" + n])
            ops.append(("trieValuesFromTrieDeclaration", (n, p), self.fields(p, k)))
        for n in rng.sample(["theta_props_singleton", "theta_first_singleton", "theta_props_singletonTwo", "a_theta_props_singleton"],
                            rng.choice([0, 1, 1, 2, 3])):
            k = self.fake_trie(rng)
            parts.append(csource.props_struct(n, "UThetaProps", ["NULL", "theta_indexes", "theta_extra"][:rng.randint(1, 3)],
                                              rng.choice([n + "_trieIndex", "theta_trieIndex"]), k,
                                              rng.choice([["{ 2,2,0,0 }"], ["{ 4,0,0,0 }"]]), null))
            p = rng.choice([n + "_trie", "trie_of_" + n])
            ops.append(("trieValuesFromPropsDeclaration", (n, p), self.fields(p, k)))
        rng.shuffle(parts)
        rng.shuffle(ops)
        text = csource.LICENSE + "//\n// machine-generated by: icu/tools/unicode/c/genprops/x.cpp\n\n#ifdef INCLUDED_FROM_X\n\n" + \
            "".join(parts) + "#endif  // INCLUDED_FROM_X\n"
        (d / "src/common/data.h").write_text(text, encoding="utf-8")
        b = self.ModuleBuilder(d / "src", "common/data.h", d / "out/deep", "DataModule.py")
        # a second builder, used in turn, must not disturb the first
        other = self.ModuleBuilder(d / "src", "common/data.h", d / "out/deep", "Other.py")
        second = {}
        for op, args, result in ops:
            getattr(b, op)(*args)
            want.update(result)
            if rng.random() < .3:
                getattr(other, op)(*args)
                second.update(result)
            obs.n({"arrayToPython": "arrays", "scalarToPython": "scalars"}.get(op, "tries"))
        b.writeFile()
        other.writeFile()
        self.same(self.execute(d / "out/deep/DataModule.py"), want, text, obs)
        self.same(self.execute(d / "out/deep/Other.py"), second, text, obs)
        obs.sample([o[:2] for o in ops][:6])

    def shipped_data(self, name, obs, d):
        m = self.shipped[name]
        vals = {k: v for k, v in vars(m).items() if not k.startswith("__") and isinstance(v, (int, list))}
        text = shipped_source(name, vals)
        (d / "src/common/data.h").write_text(text, encoding="utf-8")
        b = self.ModuleBuilder(d / "src", "common/data.h", d / "out", name + ".py")
        drive(b, name)
        b.writeFile()
        self.same(self.execute(d / "out" / (name + ".py")), vals, text, obs)
        obs.n("round_trips")


def trie_kw(vals, index, prefix):
    return dict(index=vals[index], indexLength=vals[prefix + "_index_length"], index2NullOffset=vals[prefix + "_index_2_null_offset"],
                dataNullOffset=vals[prefix + "_data_null_offset"], initialValue=0, highStart=vals[prefix + "_high_start"],
                highValueIndex=vals[prefix + "_high_value_index"])


def shipped_source(name, vals, null="NULL"):
    """The C source a data module of the package is made from, given the module's values."""
    A = csource.array
    s = csource.LICENSE
    if name == "CharPropsData":
        s += A("propsTrie_index", vals["propsTrie_index"])
        s += csource.trie_struct("propsTrie", "propsTrie_index", trie_kw(vals, "propsTrie_index", "propsTrie"), null)
        s += A("propsVectorsTrie_index", vals["propsVectorsTrie_index"])
        s += csource.trie_struct("propsVectorsTrie", "propsVectorsTrie_index",
                                 trie_kw(vals, "propsVectorsTrie_index", "propsVectorsTrie"), null)
        s += A("propsVectors", vals["propsVectors"], "uint32_t")
        s += f"static const int32_t countPropsVectors={len(vals['propsVectors'])};\n"
        s += f"static const int32_t propsVectorsColumns={vals['propsVectorsColumns']};\n"
        s += A("scriptExtensions", vals["scriptExtensions"])
        s += "static const int32_t indexes[UPROPS_INDEX_COUNT]={0x241,2,3};\n"
    elif name == "BidiPropsData":
        p = "ubidi_props_"
        s += A(p + "indexes", vals[p + "indexes"], "int32_t", newline_end=False).replace("[16]", "[UBIDI_IX_TOP]")
        s += A(p + "trieIndex", vals[p + "trieIndex"])
        for a, t in (("mirrors", "uint32_t"), ("jgArray", "uint8_t"), ("jgArray2", "uint8_t")):
            s += A(p + a, vals[p + a], t)
        s += csource.props_struct(p + "singleton", "UBiDiProps", [null] + [p + x for x in ("indexes", "mirrors", "jgArray", "jgArray2")],
                                  p + "trieIndex", trie_kw(vals, p + "trieIndex", p + "trie"), ["{ 2,2,0,0 }"], null)
    else:
        p = "ucase_props_"
        s += A(p + "indexes", vals[p + "indexes"], "int32_t", newline_end=False).replace("[16]", "[UCASE_IX_TOP]")
        for a in ("trieIndex", "exceptions", "unfold"):
            s += A(p + a, vals[p + a])
        s += csource.props_struct(p + "singleton", "UCaseProps", [null] + [p + x for x in ("indexes", "exceptions", "unfold")],
                                  p + "trieIndex", trie_kw(vals, p + "trieIndex", p + "trie"), ["{ 4,0,0,0 }"], null)
    return s


def drive(b, name):
    """What build() asks of a builder for a data module."""
    if name == "CharPropsData":
        for a in ("propsTrie_index", "propsVectorsTrie_index", "propsVectors", "scriptExtensions"):
            b.arrayToPython(a)
        b.trieValuesFromTrieDeclaration("propsTrie", "propsTrie")
        b.trieValuesFromTrieDeclaration("propsVectorsTrie", "propsVectorsTrie")
        b.scalarToPython("propsVectorsColumns")
    elif name == "BidiPropsData":
        for a in ("indexes", "trieIndex", "mirrors", "jgArray", "jgArray2"):
            b.arrayToPython("ubidi_props_" + a)
        b.trieValuesFromPropsDeclaration("ubidi_props_singleton", "ubidi_props_trie")
    else:
        for a in ("indexes", "trieIndex", "exceptions", "unfold"):
            b.arrayToPython("ucase_props_" + a)
        b.trieValuesFromPropsDeclaration("ucase_props_singleton", "ucase_props_trie")


DICTIONARY = dict(bc="bidiClass", blk="block", dt="decompositionType", ea="eastAsianWidth", gc="generalCategory",
                  GCB="graphemeClusterBreak", hst="hangulSyllableType", InPC="indicPositionalCategory",
                  InSC="indicSyllabicCategory", jg="joiningGroup", jt="joiningType", lb="lineBreak", nt="numberType",
                  SB="sentenceBreak", sc="script", vo="verticalOrientation", WB="wordBreak")
GROUPS = [("C", "Other"), ("L", "Letter"), ("LC", "Cased_Letter"), ("M", "Mark;Combining_Mark"), ("N", "Number"),
          ("P", "Punctuation;punct"), ("S", "Symbol"), ("Z", "Separator")]


def rnd_short(rng):
    return rng.choice(["", "", "x", "_".join(rng.choice(["A", "Sup", "ext", "B12", "or", "Latin", "1"]) for _ in range(rng.choice([1, 2, 3, 4, 5, 6, 20])))]) or \
        "".join(rng.choice("ABCabc019") for _ in range(rng.randint(1, 4)))


def shown(prop, short):
    if prop == "dt":
        return short.lower()
    return short if prop in ("InPC", "InSC") else short.replace("_", " ")


def ppucd(rng, values, version):
    """Text in the format of ICU's ppucd.txt, with the given (property, number, short, long)."""
    lines = ["# Preparsed UCD generated by ICU preparseucd.py", f"ucd;{version}", ""]
    props_ = []
    for p in DICTIONARY:
        props_.append(f"property;Enumerated;{p};{p}_Long_Name")
    rng.shuffle(props_)
    lines += ["property;Binary;AHex;ASCII_Hex_Digit", "property;Miscellaneous;na;Name"] + props_
    lines += ["binary;N;No;F;False", "value;ccc;0;NR;Not_Reordered", "value;NFC_QC;M;Maybe", "value;age;1.1;V1_1"]
    vals = []
    for p, n, s, l in values:
        extra = rng.choice(["", "", ";" + l + "_Alias"])
        vals.append(f"value;{p};{s};{l}{extra}")
    for s, l in GROUPS:
        vals.append(f"value;gc;{s};{l}")
    vals += ["value;bpt;c;Close", "value;lccc;1;OV;Overlay", "value;Other;L;Letter"]
    lines[0] = rng.choice([lines[0], "# \u00a9 2016 and later: Unicode, Inc. and others."])
    if rng.random() < .5:
        p, n, s, l = rng.choice(values)
        vals += rng.sample(["", "", "# Values", f"# value;{p};{s}x;{l}_Not", f"#value;{p};{s}x;{l}_Not", f'# The "value" lines of {p}; see UAX #44',
                            f"ucd values;{p};{s};{l}_Not", f"values;{p};{s};{l}_Not", f"Value;{p};{s};{l}_Not",
                            f"value;{p}x;{s};{l}_Not", f"value;x{p};{s};{l}_Not", f"value;{p.swapcase()};{s};{l}_Not"], rng.randint(1, 8))
        vals = [v for v in vals if not v.startswith("value;") or v.split(";")[1] not in DICTIONARY or not v.endswith("_Not")]
    rng.shuffle(vals)
    lines += vals
    lines += ["", "defaults;0000..10FFFF;age=NA;bc=L;blk=NB", "block;0000..007F;age=1.1;blk=ASCII", "cp;0041;gc=Lu;na=LATIN CAPITAL LETTER A",
              "algnamesrange;3400..4DBF;han;CJK UNIFIED IDEOGRAPH-", "unassigned;0080;gc=Cn"]
    return rng.choice(["\n", "\r\n"]).join(lines) + "\n"


class C29(Scratch):
    id = "C29"
    chunk = 4
    needs = ("entries", "generated", "versions")
    assumptions = ["property values are those of the Unicode version whose constants the package has; the number of each value "
                   "is ICU's (recorded with libicu's u_getPropertyValueName, tools/crossvalidate.py)"]
    rule = ("preparsed UCD files with all or some of the 852 property values, shuffled, among other lines; the generated module "
            "is executed beside the package's constants and must map each value's number to its short name and define nothing "
            "else; a state is a distinct (property, value, number of values)")

    def setup(self):
        self.UCDReader = repo.builder("UCDReader").UCDReader
        self.values = json.loads(repo.read_data("ppvals.json.xz"))
        self.modules = [repo.mod("uchar_h"), repo.mod("uscript_h")]

    def cases(self):
        for i in range(self.scale(800, 12000)):
            yield {"n": i}

    def execute(self, path):
        text = Path(path).read_text(encoding="utf-8")
        ns = {}
        for m in self.modules:
            ns.update({k: v for k, v in vars(m).items() if not k.startswith("_")})
        known = set(ns)
        text = text.replace("from .uchar_h import *", "").replace("from .uscript_h import *", "")
        try:
            exec(compile(text, str(path), "exec"), ns)
        except Exception as e:
            fail(f"the generated module cannot be executed: {e!r}")
        return {k: v for k, v in ns.items() if k not in known and not k.startswith("__")}

    def work(self, case, obs, d):
        rng = self.rng(case["n"])
        vals = [tuple(v) for v in self.values]
        if rng.random() < .8:
            keep = rng.sample(sorted(DICTIONARY), rng.randint(1, len(DICTIONARY)))
            share = rng.choice([1, .5, .1])
            vals = [v for v in vals if v[0] in keep and rng.random() < share] or vals[:3]
        if rng.random() < .4:      # other short names, perhaps the same as another value's
            vals = [(p, n, rnd_short(rng) if rng.random() < .5 else s, l) for p, n, s, l in vals]
        version = rng.choice(["13.0.0", "14.0.0", "15.1.0", "%d.%d.%d" % (rng.randrange(20), rng.randrange(9), rng.randrange(9)),
                              "%d.%d" % (rng.randrange(20), rng.randrange(9)), "%d.%d.%d.%d" % tuple(rng.randrange(200) for _ in range(4))])
        src = d / "src/data/unidata"
        src.mkdir(parents=True)
        (d / "out").mkdir()
        (src / "ppucd.txt").write_text(ppucd(rng, vals, version), encoding="utf-8", newline="")
        r = self.UCDReader(d / "src", d / "out")
        r.generateDictionaries()
        r.writeFile()
        if r.ucdVersion != version:
            fail(f"the version should be {version!r}, is {r.ucdVersion!r}")
        obs.n("versions")
        got = self.execute(d / "out/UCDTypeDictionaries.py")
        want = {}
        for p, n, s, l in vals:
            want.setdefault(DICTIONARY[p] + "Names", {})[n] = shown(p, s)
        for k, v in want.items():
            if got.get(k) != v:
                g = got.get(k) or {}
                diff = [(n, v.get(n), g.get(n)) for n in set(v) | set(g) if v.get(n) != g.get(n)][:5]
                fail(f"{k}: (number, expected, observed) {diff}")
            obs.n("entries", len(v))
            for n in v:
                obs.state(k, n, len(v))
        for k in set(got) - set(want):
            if got[k] != {}:
                fail(f"the generated module also defines {k} = {str(got[k])[:200]}")
        obs.n("generated")
        obs.sample({"properties": sorted(want)[:5], "version": version})


class C30(Scratch):
    id = "C30"
    chunk = 1
    needs = ("builds", "rebuilds", "installs", "lookups", "rejected_arguments")
    assumptions = ["FontDocTools, which is not installed here, is stood in for by an argument iterator with its documented behaviour"]
    rule = ("ICU source trees with random tries, property vectors, headers, property value names, versions and data files, taken "
            "through build and installation into a copy of the package, which is then imported and asked about random code points "
            "and compared with the model the tree was made from; command lines with missing, repeated and unknown options; a "
            "state is a distinct tree or command line")

    def setup(self):
        self.mb = repo.builder("ModuleBuilder")
        self.installer = repo.builder("ModuleInstaller")
        self.values = [tuple(v) for v in json.loads(repo.read_data("ppvals.json.xz"))]
        self.shipped = {n: {k: v for k, v in vars(repo.mod(n)).items() if not k.startswith("__") and isinstance(v, (int, list))}
                        for n in ("BidiPropsData", "CharPropsData", "CasePropsData")}
        self.constants = json.loads(repo.read_data("constants.json.xz"))

    def cases(self):
        for i in range(self.scale(48, 400)):
            yield {"mode": "build", "n": i}
        for i in range(self.scale(8, 60)):
            yield {"mode": "arguments", "n": i}

    def work(self, case, obs, d):
        getattr(self, "do_" + case["mode"])(self.rng(case["mode"], case["n"]), obs, d)

    def call(self, module, entry, argv, cwd):
        """Run a script's entry point with a command line."""
        old, oldcwd = list(sys.argv), os.getcwd()
        saved = getattr(module, "argv", None)
        olderr = getattr(module, "stderr", None)
        os.chdir(cwd)
        err = io.StringIO()
        sys.argv[:] = argv
        if saved is not None and saved is not sys.argv:
            module.argv = sys.argv
        if olderr is not None:
            module.stderr = err
        try:
            with contextlib.redirect_stderr(err), contextlib.redirect_stdout(io.StringIO()):
                entry()
            return None, err.getvalue()
        except SystemExit as e:
            return e.code, err.getvalue()
        finally:
            os.chdir(oldcwd)
            sys.argv[:] = old
            if olderr is not None:
                module.stderr = olderr

    def make(self, generator, rng, obs):
        g = generator(self.tier, self.seed)
        g.consts = self.constants
        while True:
            try:
                values, ask = g.make(rng, vh.Obs())
            except OverflowError:
                continue
            if all(v or not isinstance(v, list) for v in values.values()):        # C has no empty arrays
                return values, ask

    def tree(self, rng, obs, d):
        """An ICU source tree and build tree in d, and what a package built from them must answer."""
        src, bld = d / "icu/source", d / "bld"
        (src / "common/unicode").mkdir(parents=True)
        (src / "data/unidata").mkdir(parents=True)
        (bld / "data/out").mkdir(parents=True)
        null = rng.choice(["NULL", "nullptr"])
        data = {n: dict(v) for n, v in self.shipped.items()}
        asks = {}
        for g, module in ((gendata.C36, "CharProps"), (gendata.C35, "BidiProps"), (gendata.C34, "CaseProps")):
            values, asks[module] = self.make(g, rng, obs)
            data[module + "Data"].update(values)
        for n, f in (("BidiPropsData", "ubidi_props_data.h"), ("CharPropsData", "uchar_props_data.h"), ("CasePropsData", "ucase_props_data.h")):
            (src / "common" / f).write_text(shipped_source(n, data[n], null), encoding="utf-8")
        extra, absent = {}, {}
        for f, m in (("common/uprops.h", "uprops_h"), ("common/ucase.h", "ucase_h"), ("common/unicode/uchar.h", "uchar_h"),
                     ("common/unicode/uscript.h", "uscript_h")):
            t = csource.HeaderText(rng, m[:-2], masks=m == "uchar_h")
            extra[m] = {n: t.env[n] for n in t.names}
            extra[m].update(t.strings)
            extra[m].update(self.constants[m])
            absent[m] = t.hidden + t.skipped
            lines = csource.constants_text(rng, self.constants[m])
            if m == "uchar_h":
                lines += "#define U_NO_NUMERIC_VALUE ((double)-123456789.)\n#define UX_MASKED U_MASK(7)\n"
                extra[m]["UX_MASKED"] = 128
                absent[m].append("U_NO_NUMERIC_VALUE")
            if m == "ucase_h":
                lines += "#define UCASECONTEXT_INITIALIZER { NULL,  0, 0,  0, 0,  0,  FALSE, FALSE,  { 0, 0, 0 } }\n"
                absent[m].append("UCASECONTEXT_INITIALIZER")
            end = t.text.rindex("#endif")
            (src / f).write_text(t.text[:end] + lines + t.text[end:], encoding="utf-8")
        short = str(rng.choice([rng.randrange(60, 99), rng.randrange(4, 10), rng.randrange(100, 130)]))
        (src / "common/unicode/uvernum.h").write_text(
            f'#define U_ICU_VERSION_MAJOR_NUM {short}\n#define U_ICU_VERSION "{short}{rng.choice([".1", ".0.1", ""])}"\n'
            f'#define U_ICU_VERSION_SHORT "{short}"\n')
        version = "%d.%d.%d" % (rng.randrange(20), rng.randrange(9), rng.randrange(9))
        (src / "data/unidata/ppucd.txt").write_text(ppucd(rng, self.values, version), encoding="utf-8", newline="")
        items, asks2 = self.files(rng)
        dat = repo.build_package(items, prefix=f"icudt{short}l/", align=rng.choice([4, 16]))
        (bld / f"data/out/icudt{short}l.dat").write_bytes(dat)
        for other in (int(short) + 1, short[:2], short[:1], short + "0", "", 69):
            if str(other) != short:
                (bld / f"data/out/icudt{other}l.dat").write_bytes(b"another version's")
        lic = f"ICU LICENSE {rng.random()}\n"
        (src.parent / "LICENSE").write_text(lic)
        return types.SimpleNamespace(src=src, bld=bld, data=data, asks=asks, asks2=asks2, extra=extra, absent=absent, version=version,
                                     dat=dat, lic=lic)

    ODD = ["a b", "x.", "~", "$HOME", "100%", "[s]", "\u00fc\u4e00", "a=b", "{0}", "it's", "s*", " end ", "x.py", "a,b;c", "\u00abq\u00bb"]

    def odd(self, rng):
        return rng.choice(["", "~", "$HOME"]) + rng.choice(["", " ", "-"]).join(rng.sample(self.ODD, rng.choice([1, 3, 6])))

    def do_build(self, rng, obs, d):
        if rng.random() < .5:      # directories may be called anything
            d = d / self.odd(rng)
            d.mkdir()
        inst = d / "inst"
        out = d / rng.choice(["out", "out", "gen/x/out", "gen/out.d", "out.", self.odd(rng), self.odd(rng)])
        made = self.tree(rng, obs, d)
        src, bld, data, dat, lic, version = made.src, made.bld, made.data, made.dat, made.lic, made.version
        where = d        # a path may be written in any way that leads to the directory
        if rng.random() < .4:
            where = rng.choice([src, src.parent, src / "data", bld, bld / "data", d])

        def local(p):
            r = rng.random()
            if r < .3 or where != d and r < .5:
                return os.path.relpath(p, where)
            if r < .6 and p.exists():
                inner = rng.choice([q for q in p.iterdir() if q.is_dir()] or [p])
                return f"{inner}/{os.path.relpath(p, inner)}"
            if r < .7 and p.exists():
                links = d / "links"
                links.mkdir(exist_ok=True)
                (links / p.name).symlink_to(p)
                return str(links / p.name)
            return str(p) + rng.choice(["", "", "/", "/."])
        opts = [("--sourceDir", local(src)), ("--buildDir", local(bld)), ("--outputDir", local(out))]
        tree = {p: p.read_bytes() for t in (src.parent, bld) for p in t.rglob("*") if p.is_file()}
        rng.shuffle(opts)
        if rng.random() < .4:      # what an earlier build left in the output directory
            out.mkdir(parents=True)
            for n in ("BidiPropsData.py", "uchar_h.py", "UCDTypeDictionaries.py", "UnicodeVersion.py", "icudata.dat", "LICENSE"):
                if rng.random() < .7:
                    (out / n).write_text(rng.choice(["# from an earlier build, and longer\n", "raise ValueError('from an earlier build')\n"]) *
                                         rng.choice([1, 20000]))
        code, err = self.call(self.mb, self.mb.build, ["ModuleBuilder.py"] + [x for o in opts for x in o], where)
        if code not in (None, 0):
            fail(f"the build in {where} with {opts} ends with {code!r}: {err[:500]}")
        want = {"BidiPropsData.py", "CharPropsData.py", "CasePropsData.py", "uprops_h.py", "ucase_h.py", "uchar_h.py", "uscript_h.py",
                "UCDTypeDictionaries.py", "UnicodeVersion.py", "icudata.dat", "LICENSE"}
        have = {p.name for p in out.iterdir()}
        if have != want:
            fail(f"the build wrote {sorted(have)}, which should be {sorted(want)}")
        if rng.random() < .3:      # once more, over files of the same sizes that are not what belongs there
            first = {p.name: p.read_bytes() for p in out.iterdir()}
            for p in out.iterdir():
                p.write_bytes(b"#" * p.stat().st_size)
            code, err = self.call(self.mb, self.mb.build, ["ModuleBuilder.py"] + [x for o in opts for x in o], where)
            if code not in (None, 0):
                fail(f"the second build ends with {code!r}: {err[:500]}")
            for n, content in first.items():
                if self.dateless(content) != self.dateless((out / n).read_bytes()):
                    fail(f"{n} of a second build differs from that of the first")
            obs.n("rebuilds")
        if (out / "icudata.dat").read_bytes() != dat or (out / "LICENSE").read_text() != lic:
            fail("the data file or the license is not the one of the ICU tree")
        obs.n("builds")
        if {p: p.read_bytes() for t in (src.parent, bld) for p in t.rglob("*") if p.is_file()} != tree:
            fail("the build changed the ICU tree")

        pkg = inst / "UnicodeData"
        shutil.copytree(Path(repo.REPO) / "UnicodeData", pkg, ignore=shutil.ignore_patterns("__pycache__", "Data"))
        (pkg / "Data").mkdir()
        if rng.random() < .5:      # an older installation's files, or the same size, or newer than what is to be installed
            for p in out.iterdir():
                q = pkg / p.name if p.suffix == ".py" else pkg / "Data" / p.name
                q.write_bytes(rng.choice([b"# old\n", p.read_bytes()[::-1], b"#" * p.stat().st_size]))
        for p in out.iterdir():      # or none of some
            q = pkg / p.name if p.suffix == ".py" else pkg / "Data" / p.name
            if q.exists() and rng.random() < .15:
                q.unlink()
        when = rng.choice([0, 10 ** 6, -10 ** 6])
        if when:
            for p in out.iterdir():
                t = p.stat().st_mtime + when
                os.utime(p, (t, t))
        for n in ("README.md", "UnicodeData/Data/notes.txt", "UnicodeData/py.typed", "icudata.dat", "uchar_h.py"):
            (inst / n).write_text("stays as it is")
        targets = {pkg / p.name if p.suffix == ".py" else pkg / "Data" / p.name for p in out.iterdir()}
        before = {p: p.read_bytes() for p in inst.rglob("*") if p.is_file() and p not in targets}
        given = {p.name: p.read_bytes() for p in out.iterdir()}
        source = os.path.relpath(out, inst) if rng.random() < .3 else str(out)
        code, err = self.call(self.installer, self.installer.install, ["ModuleInstaller.py", source], inst)
        if code not in (None, 0):
            fail(f"the installation ends with {code!r}")
        if {p.name: p.read_bytes() for p in out.iterdir()} != given:
            fail("the installation changed what the build wrote")
        for p in out.iterdir():
            q = pkg / p.name if p.suffix == ".py" else pkg / "Data" / p.name
            if not q.exists() or q.read_bytes() != p.read_bytes():
                fail(f"{p.name} is not installed in {q.relative_to(inst)}")
        if rng.random() < .5:      # what is installed does not depend on what was built any more
            for p in list(out.iterdir()):
                p.write_bytes(b"raise SystemExit('of another build')")
                p.unlink()
            for n, content in given.items():
                q = pkg / n if n.endswith(".py") else pkg / "Data" / n
                if not q.exists() or q.read_bytes() != content:
                    fail(f"{n}, which is installed, is lost or changes with the directory it was installed from")
        after = {p: p.read_bytes() for p in inst.rglob("*") if p.is_file() and p not in targets}
        for p in set(before) | set(after):
            if before.get(p) != after.get(p):
                fail(f"the installation wrote or changed {p.relative_to(inst)}, which is not one of the generated files")
        obs.n("installs")
        self.ask(rng, obs, inst, data, {**made.asks, **made.asks2}, made.extra, made.absent, version)
        c = data["CharPropsData"]
        obs.state(c["propsVectors"][:20], version)
        obs.sample({"vector words": len(c["propsVectors"]), "columns": c["propsVectorsColumns"], "version": version})

    def dateless(self, content):
        return [l for l in content.split(b"\n") if not l.startswith(b"Generated by ")]

    def files(self, rng):
        """The items of a data package, and what asks the modules that read them."""
        while True:
            spec = names.random_spec(rng)
            try:
                unames = names.encode(spec, rng, tokens=rng.random() < .8, doubles=rng.random() < .7)
                maps = [tries.Runs(tries.random_runs(rng, 20, 255, "sparse")) for _ in range(3)]
                layout = [tries.serialize_cptrie(tries.encode_cptrie(m, rng, fast=rng.random() < .5, width=8)) for m in maps]
                break
            except OverflowError:
                continue
        norms = {n: norm.Norm(rng) for n in ("nfkc", "nfkc_cf")}
        items = {"unames.icu": unames, "ulayout.icu": norm.layout_file(rng, layout), "x.res": bytes(50)}
        items.update({n + ".nrm": f.item for n, f in norms.items()})

        def ask_names(m):
            for c in rng.sample(sorted(spec.fields), min(len(spec.fields), 60)) + [a[0] for a in spec.algs] + [a[1] for a in spec.algs]:
                for x in (c, min(c + 1, TOP - 1)):
                    g = m.CharNames.getCharName(x)
                    if g != spec.name(x):
                        fail(f"the name of U+{x:04X} should be {spec.name(x)!r}, is {g!r}")

        def ask_layout(m):
            for i, n in enumerate(inventory.LAYOUT):
                for c in [rng.choice(maps[i].interesting()) for _ in range(40)]:
                    if getattr(m, n)(c) != maps[i].get(c):
                        fail(f"{n}({c:#x}) should be {maps[i].get(c)}, is {getattr(m, n)(c)}")

        def ask_norm(m):
            for n, f in norms.items():
                for c in f.points:
                    full = norm.hangul(c)[0] if 0xAC00 <= c <= 0xD7A3 else f.full.get(c)
                    g = getattr(m, n + "Trie").getDecomposition(c)
                    if g != full:
                        fail(f"the {n} mapping of U+{c:04X} should be {full!r}, is {g!r}")

        return items, {"CharNames": ask_names, "LayoutProps": ask_layout, "Normalizer2": ask_norm}

    def ask(self, rng, obs, inst, data, asks, extra, absent, version):
        repo.drop_modules()
        sys.path.insert(0, str(inst))
        importlib.invalidate_caches()
        try:
            for n in rng.sample(sorted(asks), len(asks)):
                m = importlib.import_module("UnicodeData." + n)
                if not m.__file__.startswith(str(inst)):
                    raise vh.Inconclusive("the installed package was not imported")
                try:
                    asks[n](m)
                except vh.Violation as e:
                    fail(f"in the built and installed package: {e}")
                obs.n("lookups")
                if n + "Data" not in data:
                    continue
                built = importlib.import_module(f"UnicodeData.{n}Data")
                for k, v in data[n + "Data"].items():
                    if getattr(built, k, None) != v:
                        fail(f"{k} of the built {n}Data is not what ICU's source has for it")
            for m, wanted in extra.items():
                mod = importlib.import_module("UnicodeData." + m)
                for n, v in wanted.items():
                    if getattr(mod, n, None) != v:
                        fail(f"{m}.{n} of the built package should be {v}, is {getattr(mod, n, None)}")
                for n in absent[m]:
                    if hasattr(mod, n):
                        fail(f"{m} of the built package has {n}, which is hidden, ignored or without a value")
            if importlib.import_module("UnicodeData.UnicodeVersion").unicodeVersion != version:
                fail("the built package has another Unicode version")
            names = importlib.import_module("UnicodeData.UCDTypeDictionaries")
            for p, n, s, l in self.values:
                if getattr(names, DICTIONARY[p] + "Names").get(n) != shown(p, s):
                    fail(f"the built package names value {n} of {p} {getattr(names, DICTIONARY[p] + 'Names').get(n)!r}")
        finally:
            sys.path.remove(str(inst))
            repo.drop_modules()

    def do_arguments(self, rng, obs, d):
        good = [("--sourceDir", str(d / "s")), ("--buildDir", str(d / "b")), ("--outputDir", str(d / "o"))]
        Args = self.mb.ModuleBuilderArgs
        order = list(good)
        rng.shuffle(order)
        a = Args.forArguments([x for o in order for x in o])
        if (a.icuSourceDir, a.icuBuildDir, a.outputDir) != tuple(v for _, v in good):
            fail(f"options {order} read as {a.icuSourceDir!r}, {a.icuBuildDir!r}, {a.outputDir!r}")
        flat = [x for o in order for x in o]
        i = rng.randrange(3)
        bads = [flat[:2 * i] + flat[2 * i + 2:], flat + list(rng.choice(good)), flat + ["--unknown", "x"], flat[:-1], ["--help"],
                flat + ["surplus"]]
        for bad in bads:
            try:
                Args.forArguments(list(bad))
            except ValueError:
                obs.n("rejected_arguments")
            else:
                fail(f"the command line {bad} is accepted")
            code, err = self.call(self.mb, self.mb.build, ["ModuleBuilder.py"] + bad, d)
            if code != 1:
                fail(f"the build ends with {code!r} for the command line {bad}")
        code, err = self.call(self.mb, self.mb.build, ["ModuleBuilder.py"], d)
        if code != 1:
            fail(f"the build without options ends with {code!r}")
        if any(d.iterdir()):
            fail(f"a rejected command line left {[p.name for p in d.iterdir()]}")
        obs.state(tuple(o[0] for o in order), i)
