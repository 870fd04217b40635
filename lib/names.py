"""Builds 'unames.icu' items (ICU's character names data, format version 1) from a plain table of names, with several
tokenisations, group layouts and algorithmic ranges.  The reference answers come from the table itself."""
import struct


def item(body, dataformat, version=(1, 0, 0, 0), hlen=32):
    """Prefix body with the MappedData header of an item."""
    head = struct.pack("<HBBHHBBBB4s4B4B", hlen, 0xda, 0x27, 20, 0, 0, 0, 2, 0, dataformat, *version, 13, 0, 0, 0)
    return head + b"\0" * (hlen - len(head)) + body


class Spec:
    """fields: {code point: [field, ...]} (name; 1.0 name; ...; alias), algs: [(start, end, type, variant, prefix,
    factors, elements)]."""

    def __init__(self, fields, algs):
        self.fields = fields
        self.algs = algs

    def alg_name(self, alg, c):
        start, end, kind, variant, prefix, factors, elements = alg
        if kind == 0:
            return prefix + format(c, "0%dX" % variant)
        if kind != 1:
            return ""
        n = c - start
        idx = []
        for f in reversed(factors[1:]):
            idx.append(n % f)
            n //= f
        idx.append(n)
        return prefix + "".join(e[i] for e, i in zip(elements, reversed(idx)))

    def name(self, c, choice=0):
        for a in self.algs:
            if a[0] <= c <= a[1]:
                return self.alg_name(a, c) if choice == 0 else ""
        f = self.fields.get(c)
        i = {0: 0, 1: 1, 3: 3}[choice]
        return f[i] if f and i < len(f) else ""

    def iterate(self, choice=0):
        """All (code point, nonempty name), ascending."""
        out = [(c, self.name(c, choice)) for c in self.fields]
        if choice == 0:
            for a in self.algs:
                out += [(c, self.alg_name(a, c)) for c in range(a[0], a[1] + 1)]
        return sorted((c, n) for c, n in out if n)


def encode(spec, rng, tokens=True, doubles=True, extra_groups=()):
    lines = {c: ";".join(f) for c, f in spec.fields.items() if not any(a[0] <= c <= a[1] for a in spec.algs)}
    used = {ord(ch) for s in lines.values() for ch in s} | {ord(";")}
    words = sorted({w + suf for s in lines.values() for fld in s.split(";") for w in fld.split(" ") if len(w) > 1
                    for suf in ("", " ")})
    # byte values that are free to stand for tokens, or to lead two-byte tokens
    free = [b for b in range(255) if b not in used and b != 0]
    rng.shuffle(free)
    code = {}
    leads = []
    if tokens and words:
        rng.shuffle(words)
        if doubles:
            leads = sorted(free[:rng.choice([1, 2, 3])])
            free = free[3:]
        for w in words:
            if free and rng.random() < 0.5:
                code[w] = bytes([free.pop()])
        rest = [w for w in words if w not in code]
        if leads:
            # the second byte of a token is never ';' (fields are split on the raw bytes)
            slots = [(l, b) for l in leads for b in range(256) if b != ord(";")]
            rng.shuffle(slots)
            for w in rest:
                if slots:
                    code[w] = bytes(slots.pop())
    count = 256
    if leads:
        count = (max(leads) + 1) << 8
    elif rng.random() < 0.5:
        count = max([c[0] for c in code.values()] + [0]) + 1   # shorter than the byte range: the rest are literals
        count = rng.choice([count, *[b for b in sorted(used) if b >= count][:1] * 2, rng.randint(count, 256)])
    table = [0xFFFF] * count
    strings = bytearray()
    for l in leads:
        table[l] = 0xFFFE
    for w, c in code.items():
        i = c[0] if len(c) == 1 else c[0] << 8 | c[1]
        if len(strings) > 0xFFFD:
            raise OverflowError
        table[i] = len(strings)
        strings += w.encode("latin-1") + b"\0"
    if not strings:
        strings = bytearray(b"\0")

    byword = sorted(code, key=len, reverse=True)

    def enc(s):
        out = bytearray()
        i = 0
        while i < len(s):
            if byword and (i == 0 or s[i - 1] in " ;") and rng.random() < 0.9:
                for w in byword:
                    if s.startswith(w, i) and (w.endswith(" ") or i + len(w) == len(s) or s[i + len(w)] == ";"):
                        out += code[w]
                        i += len(w)
                        break
                else:
                    out.append(ord(s[i]))
                    i += 1
            else:
                out.append(ord(s[i]))
                i += 1
        return bytes(out)

    groups = {}
    for c, s in lines.items():
        groups.setdefault(c >> 5, {})[c & 31] = s
    for g in extra_groups:
        groups.setdefault(g, {})
    gs = bytearray()
    gt = bytearray()
    for msb in sorted(groups):
        off = len(gs)
        gt += struct.pack("<HHH", msb, off >> 16, off & 0xFFFF)
        encs = [enc(groups[msb].get(i, "")) for i in range(32)]
        nib = []
        for e in encs:
            n = len(e)
            if n < 12:
                nib.append(n)
            elif n <= 75:
                nib += [0xC | (n - 12) >> 4, (n - 12) & 15]
            else:
                raise OverflowError
        if len(nib) % 2:
            nib.append(0)
        gs += bytes(nib[i] << 4 | nib[i + 1] for i in range(0, len(nib), 2))
        for e in encs:
            gs += e
    alg = bytearray(struct.pack("<I", len(spec.algs)))
    for start, end, kind, variant, prefix, factors, elements in spec.algs:
        body = prefix.encode() + b"\0"
        if kind == 1:
            body = struct.pack("<%dH" % len(factors), *factors) + body
            for e in elements:
                for x in e:
                    body += x.encode() + b"\0"
        # ICU pads the ranges to a multiple of 4; a trailing pad byte reads as an empty element, which is never used
        body += b"\0" * (-len(body) % 4)
        alg += struct.pack("<IIBBH", start, end, kind, len(factors) if kind == 1 else variant, 12 + len(body)) + body
    tok = struct.pack("<H%dH" % count, count, *table)
    o1 = 16 + len(tok)
    o2 = o1 + len(strings)
    if o2 % 2:
        strings += b"\0"
        o2 += 1
    groups_b = struct.pack("<H", len(groups)) + gt
    o3 = o2 + len(groups_b)
    o4 = o3 + len(gs)
    pad = -o4 % 4
    o4 += pad
    return item(struct.pack("<IIII", o1, o2, o3, o4) + tok + bytes(strings) + groups_b + bytes(gs) + b"\0" * pad + bytes(alg),
                b"unam", hlen=rng.choice([32, 48, 64]))


WORDS = ("LATIN SMALL CAPITAL LETTER SIGN WITH AND OF THE DIGIT KA GA NGA A B C D E-1 X2 SYLLABLE MARK ABOVE BELOW TAI "
         "LE HOOK STROKE SYMBOL FOR NU11 OVER BUR ARROW LEFTWARDS DOUBLE VERTICAL O Q").split()


def random_spec(rng):
    fields = {}

    words = WORDS
    if rng.random() < .3:        # names are upper case in Unicode, but for a file they are characters like others
        words = WORDS + ["a", "Small", "letter", "the", "(kwa)", "it's", "x.y", "Nu_2", "e+f", "b/c", "<q>", "no:1"]

    def nm():
        return " ".join(rng.choice(words) for _ in range(rng.choice([1, 1, 2, 2, 3])))

    for _ in range(rng.randrange(1, 12)):
        base = rng.choice([0, 0x20, 0x40, 0x1000, 0x4DE0, 0xFFE0, 0x10000, 0x1F600, 0xE0100, 0x10FFE0,
                           rng.randrange(0, 0x110000 >> 5) << 5])
        for i in range(32):
            if rng.random() < rng.choice([0.1, 0.9]):
                f = [nm()]
                r = rng.random()
                if r < 0.15:
                    f.append(nm())
                elif r < 0.3:
                    f += ["", "", nm()]
                elif r < 0.4:
                    f += [nm(), nm(), nm()]
                elif r < 0.45:
                    f = ["", nm()]
                fields[base + i] = f
    if rng.random() < .15:       # groups of more bytes than usual, and sometimes more of them than 16 bits can count
        least = rng.choice([50, 72])
        for base in rng.sample(range(0x110000 >> 5), rng.choice([1, 2, 3, 36])):
            for i in range(32):
                fields[base << 5 | i] = ["".join(rng.choice("ABCDEFGHIJKLMNOPQRSTUVWXYZ-") for _ in range(rng.randint(least, 75)))]
    if not fields:
        fields[0x41] = [nm()]
    algs = []
    pos = rng.randrange(0, 0x4000)
    kinds = rng.random()                 # a few files have no ranges, or nothing but ranges
    for _ in range(0 if kinds < 0.05 else rng.randrange(1, 6) if rng.random() < .9 else rng.randrange(6, 80)):
        start = pos + rng.choice([0, 1, 5, 31, 32, 64, rng.randrange(0, 0x8000)])
        if rng.random() < 0.6:
            n = rng.choice([1, 2, 3, 9, 31, 32, 33, 100, 700])
            end = start + n - 1
            if end > 0x10FFFF:
                break
            digits = rng.choice(([4, 4, 4] if end <= 0xFFFF else []) + ([5, 5] if end <= 0xFFFFF else []) + [6])
            algs.append((start, end, 0, digits, rng.choice(WORDS) + " IDEOGRAPH-", (), ()))
        else:
            k = rng.choice([1, 2, 3, 4, 3, 8])
            factors = tuple(rng.choice([1, 2, 3, 5, 7] if k < 5 else [1, 2, 3]) for _ in range(k))
            n = 1
            for f in factors:
                n *= f
            end = start + n - 1
            if end > 0x10FFFF:
                break
            elements = tuple(tuple("".join(rng.choice("GNDRMBSJCKTPH") for _ in range(rng.choice([0, 1, 2]))) + "AEIOU"[i % 5]
                                   for i in range(f)) for f in factors)
            algs.append((start, end, 1, 0, rng.choice(WORDS) + " ", factors, elements))
        pos = end + 1
    if not algs and kinds >= 0.05:
        algs.append((0x20000, 0x20010, 0, 5, "CJK IDEOGRAPH-", (), ()))
    for a in algs:
        for c in range(a[0], a[1] + 1):
            fields.pop(c, None)
    if 0.05 <= kinds < 0.08:
        fields.clear()
    elif not fields:
        fields[0x10FFFD] = ["LAST ONE"]
    spec = Spec(fields, algs)
    for c in fields:
        if rng.random() < 0.05:          # named like a character of an algorithmic range, or like another one
            a = rng.choice(algs or [None])
            fields[c][0] = spec.alg_name(a, rng.randint(a[0], a[1])) if a and rng.random() < .6 else rng.choice(sorted(fields.items()))[1][0]
    return spec
