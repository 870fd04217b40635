"""Random normalization data files (.nrm), laid out as ICU's gennorm2 does, and the mappings they hold."""
import struct

import tries

TOP = 0x110000
INERT, JAMO_L, JAMO_VT = 1, 2, 0xfe00
MIN_NORMAL_MAYBE_YES = 0xfc00


def units(s):
    b = s.encode("utf-16-le")
    return list(struct.unpack(f"<{len(b) // 2}H", b))


def header(fmt, rng, major=4):
    hlen = rng.choice([32, 32, 48, 176])
    return struct.pack("<HBBHHBBBB4s8B", hlen, 0xda, 0x27, 20, 0, 0, 0, 2, 0, fmt, major, 0, 0, 0, 13, 0, 0, 0).ljust(hlen, b"\0")


def random_char(rng):
    k = rng.random()
    if k < .35:
        return chr(rng.randrange(0x20, 0x250))
    if k < .6:
        return chr(rng.randrange(0x300, 0xAC00))
    if k < .65:
        return chr(rng.randrange(0xE000, 0x10000))
    if k < .85:
        return chr(rng.choice([0x10000, 0x11000, 0x1D100, 0x20000, 0x2FA00, 0xF0000, 0x10FF00]) + rng.randrange(0x100))
    return chr(rng.randrange(0x10000, TOP))


def random_string(rng, longest=18):
    n = rng.choice([1, 1, 2, 2, 3, 4, rng.randint(1, longest)])
    s = "".join(random_char(rng) for _ in range(n))
    while len(units(s)) > 31:
        s = s[:-1]
    return s


def random_mapping(rng):
    """(full, raw or None if it is the same)"""
    k = rng.random()
    if k < .4:
        return random_string(rng), None
    if k < .45:
        return "", None
    if k < .65:
        tail = "" if rng.random() < .3 else random_string(rng, 14)
        two = chr(rng.randrange(0x20, 0xD800)) + chr(rng.randrange(0x20, 0xD800)) if rng.random() < .8 else chr(rng.randrange(0x10000, TOP))
        return (two + tail)[:15], (chr(rng.choice([rng.randrange(32, 0x300), rng.randrange(0x300, 0xD800)])) + tail)[:14]
    if k < .7:
        # a supplementary character in the raw mapping, which shares its second unit with one in the full mapping
        c = rng.randrange(0x10000, TOP)
        d = 0x10000 + (rng.randrange(0x400) << 10 | c & 0x3FF)
        tail = "" if rng.random() < .5 else random_string(rng, 8)
        return chr(rng.randrange(0x20, 0xD800)) + chr(c) + tail, chr(d) + tail
    if k < .72:
        # nothing is left of what the raw mapping gives
        return "", random_string(rng, 3)
    if k < .74:
        # as long as a full mapping can be
        return "".join(chr(rng.randrange(0x20, 0xD800)) for _ in range(rng.choice([30, 31, 31, 31]))), rng.choice([None, random_string(rng)])
    if k < .79:
        # as long as a raw mapping can be
        return random_string(rng), "".join(chr(rng.randrange(0x20, 0xD800)) for _ in range(rng.choice([30, 31, 31, 31])))
    return random_string(rng), random_string(rng)


def hangul(c):
    """(full, raw) decomposition of a Hangul syllable, from chapter 3.12 of the Unicode Standard."""
    i = c - 0xAC00
    l, v, t = 0x1100 + i // 588, 0x1161 + i % 588 // 28, 0x11A7 + i % 28
    if t == 0x11A7:
        return chr(l) + chr(v), chr(l) + chr(v)
    return chr(l) + chr(v) + chr(t), chr(c - i % 28) + chr(t)


class Norm:
    """A random file: .item (bytes; .indexes, .trie and .extra are its parts), .full and .raw (code point -> string)."""

    def __init__(self, rng):
        for _ in range(100):
            try:
                self.make(rng)
                return
            except OverflowError:
                pass
        raise RuntimeError("no normalization file fits")

    def sibling(self, k):
        """A file of the same layout, in whose mappings other characters (bits of k, below 64, exchanged) stand."""
        def other_unit(u):
            return u ^ k if 0x40 <= u < 0xD800 else u

        def other(s):
            return "".join(chr(other_unit(ord(ch))) for ch in s)
        f = Norm.__new__(Norm)
        f.__dict__.update(self.__dict__)
        f.full = {c: other(s) if c in self.stored or self.algorithmic[c] in self.stored else s for c, s in self.full.items()}
        f.raw = {c: other(s) if c in self.stored else s for c, s in self.raw.items()}
        f.extra = list(self.extra)
        for i in self.text_at:
            f.extra[i] = other_unit(f.extra[i])
        f.item = self.before + struct.pack(f"<{len(f.extra)}H", *f.extra) + self.after
        return f

    def place(self, rng):
        k = rng.random()
        while True:
            if k < .3:
                c = self.near + rng.randrange(-40, 40)
            elif k < .6:
                c = rng.choice([rng.randrange(0x80, 0x300), rng.randrange(0x300, 0xAC00), rng.randrange(0xF900, 0x10000)])
            elif k < .8:
                c = rng.choice([0xA0, 0xDFFF, 0xE000, 0xFFFF, 0x10000, 0x10FFFF, 0x2F800, 0x3FF, 0x7FF, 0x800, 0xABFF, 0xD7A4, 0xFFF, 0x1000])
            else:
                c = rng.randrange(0x80, TOP)
            if 0x80 <= c < TOP and not 0xAC00 <= c <= 0xD7A3 and not 0xD800 <= c < 0xDC00 and not 0x1100 <= c < 0x1200 \
                    and c not in self.norm16:
                return c
            k = rng.random()

    def make(self, rng):
        self.full, self.raw, self.norm16 = {}, {}, {}
        self.near = rng.choice([0xC0, 0x1E00, 0x2F00, 0x1D400, 0x2F800])
        extra = [0xffff, 2] + [rng.randrange(0x10000) for _ in range(rng.randrange(0, 30))]    # compositions
        yes_yes = list(range(4, 2 * len(extra), 2))
        min_yes_no = 2 * len(extra)
        extra.append(0)                                  # Hangul LV
        entries = []
        text_at = []                                     # where units of mappings are in extra

        def add_entries(n):
            for _ in range(n):
                full, raw = random_mapping(rng)
                u = units(full)
                lccc, tccc, ccc = rng.choice([(0, 0, 0)] * 3 + [(0, 230, 0), (230, 220, 0), (9, 9, 9)])
                first = len(u) | tccc << 8
                if raw is not None:
                    r = units(raw)
                    if len(r) == len(u) - 1 and r[1:] == u[2:] and r[0] > 31:
                        text_at.append(len(extra))
                        extra.append(r[0])
                    else:
                        text_at.extend(range(len(extra), len(extra) + len(r)))
                        extra.extend(r + [len(r)])
                    first |= 0x40
                if lccc or ccc:
                    extra.append(ccc | lccc << 8)
                    first |= 0x80
                at = len(extra)
                text_at.extend(range(at + 1, at + 1 + len(u)))
                extra.extend([first] + u)
                entries.append((at << 1, full, full if raw is None else raw))

        add_entries(rng.randrange(0, 8))
        yes_no_with = len(entries)
        if len(extra) & 1 and rng.random() < .5:
            extra.append(0)
        min_yes_no_only = 2 * len(extra)
        extra.append(0)                                  # Hangul LVT
        add_entries(rng.randrange(0, 12))
        min_no_no = 2 * len(extra)
        comp_yes = len(entries)
        marks = []
        for _ in range(3):
            add_entries(rng.randrange(0, 12))
            marks.append(2 * len(extra))
        add_entries(rng.randrange(0, 5))
        limit_no_no = 2 * len(extra)
        maybe = rng.choice([0, 4, 8, 40, 400])           # units, so that the border is a multiple of 8
        maybe_units = [rng.randrange(0x10000) for _ in range(maybe)]
        min_maybe_yes = MIN_NORMAL_MAYBE_YES - 2 * maybe
        centre = (min_maybe_yes >> 3) - 64 - 1
        if (centre - 64) << 3 < limit_no_no:
            raise OverflowError

        for c in range(0xAC00, 0xD7A4):
            self.norm16[c] = min_yes_no if (c - 0xAC00) % 28 == 0 else min_yes_no_only | 1
        for c in range(0x1100, 0x1113):
            self.norm16[c] = JAMO_L
        for c in list(range(0x1161, 0x1176)) + list(range(0x11A8, 0x11C3)):
            self.norm16[c] = JAMO_VT
        targets = list(range(0xAC00, 0xAC40)) + [0xD7A3, 0x61, 0x7F]
        for i, (n16, full, raw) in enumerate(entries):
            for _ in range(rng.choice([1, 1, 2])):       # characters with the same mapping share it
                c = self.place(rng)
                self.norm16[c] = n16 | (rng.randrange(2) if n16 not in (min_yes_no, min_yes_no_only) else 0)
                self.full[c], self.raw[c] = full, raw
                if i < comp_yes:
                    targets.append(c)
        stored = set(self.full)
        self.algorithmic = {}
        inert = []
        for _ in range(rng.randrange(0, 40)):
            c = self.place(rng)
            self.norm16[c] = rng.choice(yes_yes or [INERT]) | rng.randrange(2) if rng.random() < .6 else \
                rng.randrange(min_maybe_yes, MIN_NORMAL_MAYBE_YES + 1) if maybe else MIN_NORMAL_MAYBE_YES + 2 * rng.randrange(1, 200)
            if self.norm16[c] < min_yes_no:
                targets.append(c)
            inert.append(c)
        for _ in range(rng.randrange(0, 40)):
            t = rng.choice(targets)
            d = rng.choice([-64, 64, 1, -1, rng.randrange(-64, 65)])
            c = t - d
            if not 0x80 <= c < TOP or c in self.norm16 or 0xD800 <= c < 0xDC00:
                continue
            self.norm16[c] = (centre + d) << 3 | rng.choice([0, 2, 4]) | rng.randrange(2)
            self.raw[c] = chr(t)
            self.algorithmic[c] = t
            self.full[c] = self.full.get(t, chr(t))
            if 0xAC00 <= t <= 0xD7A3:
                i = t - 0xAC00
                self.full[c] = chr(0x1100 + i // 588) + chr(0x1161 + i % 588 // 28) + (chr(0x11A7 + i % 28) if i % 28 else "")
        for _ in range(rng.randrange(0, 6)):             # what a lead surrogate stands for is not a mapping of its own
            self.norm16[rng.randrange(0xD800, 0xDC00)] = rng.choice([n for n, _, _ in entries] + [INERT, min_yes_no])

        runs = [(0, INERT)]
        for c in sorted(self.norm16):
            if runs[-1][0] == c:
                runs.pop()
            if not runs or runs[-1][1] != self.norm16[c]:
                runs.append((c, self.norm16[c]))
            if c + 1 < TOP and c + 1 not in self.norm16:
                runs.append((c + 1, INERT))
        model = tries.Runs(runs)
        self.trie = tries.encode_cptrie(model, rng, fast=True, width=16, null_value=rng.choice([None, INERT]), error=INERT,
                                        share=rng.choice(["same", "overlap"]), late_high=rng.random() < .3)
        trie = tries.serialize_cptrie(self.trie)
        count = rng.choice([20, 20, 20, 24])
        trie_at = 4 * count
        extra_at = trie_at + len(trie) + (-len(trie) % 4)
        trie = trie.ljust(extra_at - trie_at, b"\0")
        all_units = maybe_units + extra
        if len(all_units) & 1 and rng.random() < .5:
            all_units.append(0)
        small_at = extra_at + 2 * len(all_units)
        low = min(self.full) if self.full else 0xAC00
        ix = [trie_at, extra_at, small_at] + [small_at + 256] * 5 + [
            min(rng.choice([low, low, 0x80, 0]), 0xAC00), rng.randrange(0x300), min_yes_no, min_no_no, limit_no_no, min_maybe_yes,
            min_yes_no_only] + marks + [rng.randrange(0x300), 0]
        ix += [0] * (count - len(ix))
        self.indexes, self.extra = ix, all_units
        self.text_at = [maybe + i for i in text_at]
        self.stored = stored
        self.before = header(b"Nrm2", rng) + struct.pack(f"<{count}I", *ix) + trie
        self.after = bytes(rng.randrange(256) for _ in range(256))
        self.item = self.before + struct.pack(f"<{len(all_units)}H", *all_units) + self.after
        high = self.trie["highStart"]
        self.points = sorted(set(self.norm16) - set(range(0xAC10, 0xD780)))
        self.points += [c for c in (high - 1, high, high + 0x80, high + 0x1FF, (high + 0xFFF & ~0xFFF) - 1, high + 0xFFF & ~0xFFF)
                        if 0x80 <= c < TOP and c not in self.norm16 and not 0xAC00 <= c <= 0xD7A3]
        self.key = (len(entries), yes_no_with, comp_yes, maybe, min(self.full, default=0))


def layout_file(rng, maps):
    """ulayout.icu with the given three tries (serialized)."""
    count = rng.choice([12, 12, 16, 20])
    tops = []
    body = b""
    for t in maps:
        t = t.ljust(-(-len(t) // 16) * 16, b"\0")
        body += t
        tops.append(4 * count + len(body))
    ix = [count] + tops + [tops[-1]] * 4 + [0, rng.randrange(1 << 31)]
    ix += [rng.randrange(1 << 31) for _ in range(count - len(ix))]
    return header(b"Layo", rng, 1) + struct.pack(f"<{count}I", *ix) + body
