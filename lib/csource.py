"""Writes C sources in the style of ICU's headers and generated data files, for the checks of the module builder."""
import re


def fmt(v, rng=None):
    """ICU's tools write small numbers in decimal and others in hexadecimal."""
    return str(v) if v <= 9 else hex(v)


def array(name, values, ctype="uint16_t", newline_end=True, per_line=16, tail=""):
    lines = []
    for i in range(0, len(values), per_line):
        lines.append(",".join(map(fmt, values[i:i + per_line])))
    body = ",\n".join(lines) + tail
    one = len(lines) == 1 and not newline_end
    return f"static const {ctype} {name}[{len(values)}]={{" + (body if one else "\n" + body + "\n") + "};\n\n"


def trie_lines(prefix, k, null="NULL", indent="    "):
    """k: the keyword arguments lib/tries.encode_utrie2 gives for UTrie2."""
    n = len(k["index"]) - k["indexLength"]
    f = [prefix, f"{prefix}+{k['indexLength']}", null, str(k["indexLength"]), str(n), hex(k["index2NullOffset"]),
         hex(k["dataNullOffset"]), hex(k["initialValue"]), "0x0", hex(k["highStart"]), hex(k["highValueIndex"])]
    return ",\n".join(indent + x for x in f) + f",\n{indent}{null}, 0, FALSE, FALSE, 0, {null}\n"


def trie_struct(name, prefix, k, null="NULL"):
    return f"static const UTrie2 {name}={{\n{trie_lines(prefix, k, null)}}};\n\n"


def props_struct(name, ctype, before, prefix, k, after, null="NULL"):
    s = f"static const {ctype} {name}={{\n"
    for b in before:
        s += f"  {b},\n"
    s += "  {\n" + trie_lines(prefix, k, null) + "  },\n"
    s += ",\n".join("  " + a for a in after) + "\n};\n"
    return s


LICENSE = """// © 2016 and later: Unicode, Inc. and others.
// License & terms of use: http://www.unicode.org/copyright.html
/*
**********************************************************************
*   Copyright (C) 1997-2016, International Business Machines
*   Corporation and others.  All Rights Reserved.
**********************************************************************
*/

"""


class HeaderText:
    """A random header in the style of ICU's, and the names it defines (as the C compiler sees it with U_HIDE defined)."""

    def __init__(self, rng, stem, masks=True):
        self.rng = rng
        self.can_mask = masks
        self.names = []          # integer names, in order
        self.env = {}
        self.strings = {}
        self.hidden = []
        self.skipped = []        # function-like macros and names without a value
        self.out = [LICENSE]
        g = self.guard = stem.upper() + "_H"
        self.enumerators = []    # the names among these that are enumerators
        self.unset = set()       # names whose parts are hidden because they are, or are not, defined
        self.set = {"U_HIDE_DEPRECATED_API"}
        if rng.random() < .5:
            g = "__" + g + "__"
        self.n = 0
        self.defines = []
        self.out.append(f"#ifndef {g}\n#define {g}\n\n#include \"unicode/utypes.h\"\n\n")
        for _ in range(rng.randint(2, 10)):
            rng.choice([self.define, self.define, self.enum, self.enum, self.masks, self.function_macro, self.declaration,
                        self.hidden_part, self.string, self.block_comment, self.sum])()
        self.out.append(f"#endif" + rng.choice(["\n", f"  // {g}\n", f" /* {g} */\n"]))
        self.text = self.blanks("".join(self.out))

    def blanks(self, text):
        """The same with other white space: tabs, blanks at the ends of lines."""
        rng = self.rng
        if rng.random() < .3:
            text = re.sub(r"(?m)^(    )+", lambda m: "\t" * (len(m[0]) // 4), text)
        if rng.random() < .2:
            text = re.sub(r"(?m)^(#define \w+) +", lambda m: m[1] + "\t" * rng.choice([1, 2]), text)
        if rng.random() < .2:
            text = re.sub(r"(?m) +(/\*|//|=)", lambda m: "\t" + m[1], text)
        if rng.random() < .2:
            text = re.sub(r"(?m)(?<=[^\\\n])$", lambda m: rng.choice(["", " ", "  ", "\t"]), text)
        return text

    def name(self, prefix="UX_"):
        self.n += 1
        if self.names and self.rng.random() < .15:      # one name at the beginning of another
            return f"{self.rng.choice(self.names)}_{self.n}"
        words = ["ALPHA", "BETA", "MAX", "IX", "COUNT", "MASK", "TOP", "SHIFT", "enumValue", "B2", "define", "endif", "typedef"]
        return f"{prefix}{self.rng.choice(words)}_{self.n}"

    def comment(self):
        return self.rng.choice(["", "", " /* a comment */", " /**< Wh = 3, x */", " // to the end of the line", " /* #define X 3 */",
                                " /**< [9FFF], see {@link U}; */", "  // 0x324, 'q' \"r\"",
                                " // $x, US$", " //", " /**/", " // km/h, a//b", " // see /* x */ there", " /* see // y */", " /* a */  /* b */",
                                " /* " + "and so on, " * 40 + "*/", " /** 1/2 * 3 **/", " // },", " /* } x; */", " /* \u00a9 \u212b, \u4e2d \U0001f600 */", "  // \u2192 see \u00a7 3",
                                " /* short */ /* and\n   UX_NOT_THIS, which goes on */", " /* x */  /**< It\n     *   goes on,\n     *   UX_NOR_THIS = 3 */",
                                " /**< It goes on,\n     *   UX_NOT_ME_AT_ALL = 3,\n     */", "  /* A comment\n       UX_NOT, over two lines */"])

    def literal(self, allow_negative=True):
        rng = self.rng
        v = rng.choice([rng.randrange(10), rng.randrange(256), rng.randrange(1 << 16), rng.randrange(1 << 30)])
        s = rng.choice([str(v), hex(v), "0x%08X" % v])
        if allow_negative and rng.random() < .15:
            s = "-" + str(v)
        return s

    def expr(self, pool):
        rng = self.rng
        if not pool or rng.random() < .4:
            return self.literal()
        small = [p for p in pool if 0 <= self.env[p] < 24] or None
        k = rng.random()
        a, b = rng.choice(pool), rng.choice(pool)
        if k < .2:
            return a
        if k < .4:
            return f"{a}+{rng.randrange(40)}"
        if k < .55:
            return f"({a}|{b})"
        if k < .7:
            return f"(-{a}-1)"
        if k < .85 and small:
            return f"(1<<{rng.choice(small)})"
        return f"(({a}&0xff)*4 - 1)"

    def value_of(self, expr):
        v = eval(expr, {"U_MASK": lambda x: 1 << x}, dict(self.env))
        return v

    def fits(self, v):
        return -(1 << 31) <= v < 1 << 31

    def define(self):
        for _ in range(self.rng.randint(1, 4)):
            e = self.expr(self.names)
            if "+" in e and e[0] != "(":
                e = f"({e})"        # a macro is text, so that an operand would bind to what is around it
            v = self.value_of(e)
            if not self.fits(v):
                e, v = "7", 7
            if self.rng.random() < .05:
                parts = [e] + [str(self.rng.randrange(10)) for _ in range(self.rng.randrange(30, 200))]
                if self.fits(v + 2000):
                    e = "(" + " + ".join(parts) + ")"
                    v = self.value_of(e)
            n = self.name()
            sp = self.rng.choice([" ", "  ", "       "])
            self.out.append(f"#define {n}{sp}{e}{self.comment()}\n")
            self.env[n] = v
            self.names.append(n)
        self.out.append("\n")

    def string(self):
        n = self.name()
        self.strings[n] = "ucase"
        self.out.append(f'#define {n} "ucase"\n\n')

    def masks(self):
        """A definition continued over several lines."""
        pool = [n for n in self.names if 0 <= self.env[n] < 31]
        if len(pool) < 2 or not self.can_mask:
            return self.define()
        n = self.name("UX_GC_")
        parts = [f"U_MASK({self.rng.choice(pool)})" for _ in range(self.rng.choice([2, 3, 4, 5, 30]))]
        e = "|".join(parts)
        v = self.value_of(e)
        if not self.fits(v):
            return
        text = f"#define {n} \\\n            ("
        for i, p in enumerate(parts):
            text += p + ("|" if i + 1 < len(parts) else "")
            if i + 1 < len(parts) and self.rng.random() < .6:
                text += "\\\n             "
        self.out.append(text + ")\n\n")
        self.env[n] = v
        self.names.append(n)

    def sum(self):
        """A definition of numbers continued over several lines."""
        rng = self.rng
        n = self.name()
        parts = [str(rng.choice([rng.randrange(10), rng.randrange(1000), 10 * rng.randrange(100)])) for _ in range(rng.choice([2, 3, 4, 5, 6, 40]))]
        text, e = f"#define {n} \\\n", "("
        for i, x in enumerate(parts):
            more = i + 1 < len(parts)
            op = rng.choice(["+", "-", "|", "*2+"]) if more else ")"
            at_start = rng.random() < .5
            e += x + op
            text += ("    (" if i == 0 else "" if not glued else glued) + x
            glued = ""
            if not more:
                text += ")\n\n"
            elif at_start:
                text += rng.choice(["", " "]) + "\\\n    "
                glued = op + rng.choice(["", " "])
            else:
                text += rng.choice(["", " "]) + op + rng.choice([" ", " \\\n    ", "\\\n  "])
        v = self.value_of(e)
        if not self.fits(v):
            return
        self.out.append(text)
        self.env[n] = v
        self.names.append(n)

    def function_macro(self):
        n = self.name("UX_F")
        self.skipped.append(n)
        self.out.append(self.rng.choice([f"#define {n}(x) ((x)>>3)\n\n", f"#define {n}(x, y) ((x)+(y))\n\n",
                                         f"#define {n}(c) \\\n    (((c)&1)!=0 \\\n    || (c)==2)\n\n", f"#define {n}\n\n"]))

    def declaration(self):
        self.out.append(self.rng.choice(["U_CAPI int32_t U_EXPORT2\nux_foo(int32_t a,\n       int32_t b);\n\n",
                                         "typedef struct UXProps UXProps;\n\n", "struct UXData {\n    int32_t x;\n};\n\n"]))
        if "struct UXData" in self.out[-1] and sum("struct UXData" in o for o in self.out) > 1:
            self.out.pop()

    def block_comment(self):
        self.out.append(self.rng.choice(["/* one line */\n", "/**\n * Several lines:\n * #define UX_NOT_ME 3\n * enum { UX_NOR_ME };\n */\n",
                                         "// #define UX_NOT_ME_EITHER 4\n", "/*\n * }\n */\n"]))

    def hidden_part(self):
        n = self.name("UX_HIDDEN_")
        self.hidden.append(n)
        self.out.append(f"{self.condition()}\n#define {n} 99\n#endif  /* U_HIDE_DEPRECATED_API */\n\n")

    def condition(self):
        """A directive for a part that the compiler does not see."""
        g = self.guard
        on = self.rng.choice(["U_HIDE_DEPRECATED_API", "U_HIDE_DEPRECATED_API", "U_HIDE_DEPRECATED_API", "U_HIDE_INTERNAL_API",
                              f"{g}_HIDE_API", f"__{g}_HIDE_API", f"U_{g}__", f"{g}__X"])
        off = self.rng.choice(["UX_SHOW_API", f"{g}_SHOW_API"])
        k = self.rng.random()
        if k < .7:
            self.set.add(on)
            return f"#ifndef {on}"
        self.unset.add(off)
        return f"#ifdef {off}" if k < .85 else f"#if defined({off})"

    def enum(self):
        rng = self.rng
        tag = rng.choice(["", f"UXEnum{self.n}"])
        typedef = rng.random() < .5
        head = ("typedef " if typedef else "") + "enum" + (" " + tag if tag else "")
        end = f"}} UXType{self.n};" if typedef else "};"
        head += rng.choice([" {\n", "\n{\n"])
        if rng.random() < .3:
            self.out.append("/**\n * What it is.\n */\n")
        self.out.append(head)
        local = []
        nxt = 0
        count = rng.choice([1, 2, 3, 4, 5, 6, 7, 8, 9, rng.randint(10, 300)])
        self.n += 1
        for i in range(count):
            if rng.random() < .2:
                self.out.append(rng.choice(["    /** Explains the next one. @stable ICU 2.0 */\n", "    // why\n", "\n",
                                            "    /**\n     * Longer = 3,\n     */\n"]))
            if rng.random() < .1:
                h = self.name("UX_HIDDEN_")
                self.hidden.append(h)
                self.out.append(f"{self.condition()}\n    {h} = 55,\n#endif\n")
            n = self.name()
            last = i + 1 == count
            e = None
            if rng.random() < .35:
                e = self.expr(local)
                v = self.value_of(e)
                if not self.fits(v + 20):
                    e = None
            v = self.value_of(e) if e else nxt
            nxt = v + 1
            self.env[n] = v
            local.append(n)
            self.names.append(n)
            self.enumerators.append(n)
            eq = rng.choice(["=", " = ", " ="])
            comma = "" if last and rng.random() < .6 else ","
            c = self.comment()
            self.out.append("    " + n + (eq + e if e else "") + comma + c + "\n")
        self.out.append(end + "\n\n")


def constants_text(rng, values):
    """Macros and enums that give names the given values."""
    items = list(values.items())
    if rng.random() < .6:
        items.sort(key=lambda kv: (kv[1], kv[0]))
    out = []
    i = 0
    while i < len(items):
        part = items[i:i + rng.choice([1, 4, 25, 70])]
        i += len(part)
        if rng.random() < .6 and all(-(1 << 31) <= v < (1 << 31) - 1 for _, v in part):
            out.append(rng.choice(["typedef enum U%d {\n" % i, "enum {\n", "typedef enum U%d\n{\n" % i]))
            typedef = out[-1].startswith("typedef")
            nxt = 0
            for j, (n, v) in enumerate(part):
                e = "" if v == nxt and rng.random() < .8 else rng.choice([" = ", "="]) + rng.choice([str(v), hex(v)])
                out.append(f"    {n}{e}{',' if j + 1 < len(part) or rng.random() < .3 else ''}"
                           + rng.choice(["", "", " /**< [x], @stable ICU 2.0 */", "  // 3", "\n    /** Next = 5, */"]) + "\n")
                nxt = v + 1
            out.append("} UT%d;\n\n" % i if typedef else "};\n\n")
        else:
            for n, v in part:
                out.append(f"#define {n} {v}" + rng.choice(["", "", " /* x */", "  // y"]) + "\n")
    return "".join(out)
