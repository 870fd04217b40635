"""Reference model of a code point map, and encoders that lay one out as a frozen UTrie2 (16-bit values) or UCPTrie in
many ways the two formats allow (shared, overlapping or separate blocks, with or without null blocks, early or late
highStart, 16- or 18-bit index-3 entries).  Nothing here comes from the code under test."""
import bisect
import struct

MAX = 0x110000


class Runs:
    """A total map from code points to values, as [(start, value), ...] with start 0 first."""

    def __init__(self, runs):
        out = []
        for s, v in sorted(dict(runs).items()):
            if not out or out[-1][1] != v:
                out.append((s, v))
        assert out and out[0][0] == 0
        self.runs = out
        self.starts = [s for s, _ in out]

    def get(self, c):
        return self.runs[bisect.bisect_right(self.starts, c) - 1][1]

    def ranges(self, start=0, limit=MAX, f=None):
        """The maximal ranges of equal value that partition [start, limit)."""
        out = []
        if start >= limit:
            return out
        i = bisect.bisect_right(self.starts, start) - 1
        c = start
        while c < limit:
            v = self.runs[i][1]
            e = min(self.runs[i + 1][0] if i + 1 < len(self.runs) else MAX, limit)
            if f:
                v = f(v)
            if out and out[-1][2] == v:
                out[-1][1] = e
            else:
                out.append([c, e, v])
            c = e
            i += 1
        return [(range(a, b), v) for a, b, v in out]

    def block(self, start, n):
        i = bisect.bisect_right(self.starts, start) - 1
        end = self.runs[i + 1][0] if i + 1 < len(self.runs) else MAX
        if end >= start + n:
            return (self.runs[i][1],) * n
        vals = []
        c = start
        while c < start + n:
            e = min(end, start + n)
            vals += [self.runs[i][1]] * (e - c)
            c = e
            i += 1
            end = self.runs[i + 1][0] if i + 1 < len(self.runs) else MAX
        return tuple(vals)

    def interesting(self):
        s = set()
        for a in self.starts:
            s.update((a - 1, a, a + 1))
        return sorted(c for c in s if 0 <= c < MAX)


def high_start(model, grain):
    """The smallest multiple of grain from which on the map is constant."""
    last = model.starts[-1]
    return (last + grain - 1) // grain * grain


class Store:
    """An array of units into which blocks are placed, under one of several sharing policies."""

    def __init__(self, rng, share, granularity):
        self.data = []
        self.rng = rng
        self.share = share          # 'none' | 'same' | 'overlap'
        self.gran = granularity
        self.seen = {}

    def align(self):
        while len(self.data) % self.gran:
            self.data.append(0)

    def add(self, block, unique=False):
        if not unique and self.share != "none" and block in self.seen:
            return self.seen[block]
        if not unique and self.share == "overlap":
            n = len(block)
            # the block may start inside what is already there ...
            for k in range(n - self.gran, 0, -self.gran):
                p = len(self.data) - k
                if p >= 0 and p % self.gran == 0 and tuple(self.data[p:]) == block[:k]:
                    self.data.extend(block[k:])
                    self.seen.setdefault(block, p)
                    return p
            # ... or lie wholly inside it
            key = block[: self.gran]
            base = max(0, len(self.data) - 1500)
            base += -base % self.gran
            for p in range(base, len(self.data) - n + 1, self.gran):
                if tuple(self.data[p:p + self.gran]) == key and tuple(self.data[p:p + n]) == block:
                    self.seen.setdefault(block, p)
                    return p
        self.align()
        p = len(self.data)
        self.data.extend(block)
        if self.share != "none" or unique:
            self.seen.setdefault(block, p)
        return p


def encode_utrie2(model, rng, initial=0, error=0, units=None, share="same", use_null=True, late_high=False):
    """-> kwargs for UTrie2(index, indexLength, index2NullOffset, dataNullOffset, highStart, highValueIndex, initialValue).
    units: values of the lead surrogate *code units*, which a code point lookup must not see."""
    hs = high_start(model, 0x800)
    if late_high:
        hs = min(MAX, hs + 0x800 * rng.randrange(0, 40))
    sup = max(0, hs - 0x10000) >> 11
    # data, relative to the start of the data section
    d = Store(rng, share, 4)
    d.data = list(model.block(0, 128)) + [error] * 64
    for i in range(4):
        d.seen.setdefault(model.block(32 * i, 32), 32 * i)
    nullblock = (initial,) * 32
    null = None
    if use_null:
        d.seen.pop(nullblock, None)
        null = d.add(nullblock, unique=True)

    def place(block):
        if block == nullblock and null is not None:
            return null
        return d.add(block)

    nullblk = (initial,) * 32
    bmp = [32 * i if i < 4 else place(model.block(32 * i, 32)) for i in range(2048)]
    lscp = [place(model.block(0xD800 + 32 * i, 32)) for i in range(32)]
    if units is not None:
        for i in range(32):
            bmp[0x6C0 + i] = place(units.block(0xD800 + 32 * i, 32))
    # two-byte UTF-8 table: offsets of the 64-blocks, not used by code point lookups
    utf8 = [bmp[min(2 * i, 2047)] for i in range(32)]
    supp = [[place(model.block(0x10000 + 0x800 * k + 32 * j, 32)) for j in range(64)] for k in range(sup)]
    # index-2 blocks
    i2 = Store(rng, share, 1)
    i2.data = bmp + lscp + utf8 + [None] * sup
    i2null = 0xFFFF
    nulli2 = (null,) * 64
    i1 = []
    for blk in supp:
        blk = tuple(blk)
        if null is not None and blk == nulli2:
            if i2null == 0xFFFF:
                i2null = i2.add(blk, unique=True) if rng.random() < 0.7 else i2.add(blk)
            i1.append(i2null)
        else:
            i1.append(i2.add(blk))
    i2.data[0x840:0x840 + sup] = i1
    n = len(i2.data)
    n4 = (n + 3) & ~3
    index = list(i2.data)
    for i in list(range(0x840)) + list(range(0x840 + sup, n)):
        index[i] = (index[i] + n4) >> 2
    index += [0] * (n4 - n)
    d.align()
    high = len(d.data)
    # where highStart is the end of the code space, the high value stands for nothing (ICU stores the error value)
    d.data += [model.get(MAX - 1) if hs < MAX else error] * 4
    full = index + d.data
    if max(index) > 0xFFFF or max(full) > 0xFFFF:
        raise OverflowError
    return dict(index=full, indexLength=n4, index2NullOffset=i2null,
                dataNullOffset=(null + n4) if null is not None else 0xFFFF, highStart=hs, highValueIndex=high + n4,
                initialValue=initial)


def encode_cptrie(model, rng, fast=True, width=16, null_value=None, error=0, share="same", wide=False, late_high=False,
                  pad=0, total=0):
    """-> dict(index, data, type, valueWidth, index3NullOffset, dataNullOffset, highStart)."""
    hs = high_start(model, 512)
    if late_high:
        hs = min(MAX, hs + 512 * rng.randrange(0, 60))
    limit = 0x10000 if fast else 0x1000
    d = Store(rng, share, 4 if share == "overlap" else 1)
    d.data = list(model.block(0, 128))
    for i in range(2):
        d.seen.setdefault(model.block(64 * i, 64), 64 * i)
    for i in range(8):
        d.seen.setdefault(model.block(16 * i, 16), 16 * i)
    null = None
    if null_value is not None:
        # a null data block is a full fast block, so that it serves both block lengths
        null = d.add((null_value,) * 64, unique=True)
        d.seen[(null_value,) * 16] = null
    nf = limit >> 6
    fi = []
    for i in range(nf):
        b = model.block(64 * i, 64)
        if i < 2:
            p = 64 * i
        elif 64 * i >= hs and rng.random() < 0.5 and fi:
            # beyond highStart a fast block still has to hold the high value
            p = d.add(b)
        else:
            p = null if null is not None and b == (null_value,) * 64 else d.add(b)
        if p > 0xFFFF:
            raise OverflowError
        # the sub-blocks of a fast block can serve as small blocks
        if share != "none":
            for k in range(4):
                d.seen.setdefault(b[16 * k:16 * k + 16], p + 16 * k)
        fi.append(p)
    if pad:
        d.data += [rng.randrange(0, 1 << width) for _ in range(pad)]   # unused values: pushes later blocks past 0xffff
        if share == "none" or True:
            d.seen = {b: p for b, p in d.seen.items() if rng.random() < 0.2 or p == null}
    idx = list(fi)
    offs_used = []
    n1 = 0
    base = 0
    i3null = 0x7FFF
    if hs > limit:
        base = 0x10000 if fast else 0
        n1 = ((hs + 0x3FFF) >> 14) - (base >> 14)
        i1pos = len(idx)
        idx += [None] * n1
        i3 = {}
        i2 = {}
        i1 = []
        for a in range(n1):
            ent = []
            for b in range(32):
                s = base + (a << 14) + (b << 9)
                offs = []
                beyond = rng.randrange(len(d.data) - 15) if rng.random() < .5 else None
                for k in range(32):
                    c = s + 16 * k
                    if c >= hs and beyond is not None:
                        offs.append(beyond)
                        continue
                    if c < limit or c >= hs:
                        # never consulted; any in-range offset will do
                        blk = (model.get(MAX - 1),) * 16 if c >= hs else model.block(c, 16)
                    else:
                        blk = model.block(c, 16)
                    if null is not None and blk == (null_value,) * 16:
                        offs.append(null)
                    else:
                        offs.append(d.add(blk))
                is18 = wide or max(offs) > 0xFFFF
                offs_used.append(max(offs))
                if null is not None and all(o == null for o in offs) and i3null == 0x7FFF and rng.random() < 0.9:
                    i3null = "new"
                key = (is18, tuple(offs))
                if key in i3 and share != "none":
                    p = i3[key]
                else:
                    p = len(idx)
                    if is18:
                        for g in range(0, 32, 8):
                            hi = 0
                            for k in range(8):
                                hi |= (offs[g + k] >> 16 & 3) << (14 - 2 * k)
                            idx.append(hi)
                            idx += [o & 0xFFFF for o in offs[g:g + 8]]
                    else:
                        idx += offs
                    if p > 0x7FFF:
                        raise OverflowError
                    if is18:
                        p |= 0x8000
                    i3[key] = p
                if i3null == "new":
                    i3null = p
                    i3[key] = p
                ent.append(p)
            ent = tuple(ent)
            if ent not in i2 or share == "none":
                i2[ent] = len(idx)
                idx += list(ent)
            i1.append(i2[ent])
        idx[i1pos:i1pos + n1] = i1
    if len(idx) > 0xFFFF:
        raise OverflowError
    if isinstance(i3null, int) and i3null != 0x7FFF and share == "none":
        pass
    data = d.data
    if width == 8 and len(data) % 2 == 1 or len(data) % 4 and rng.random() < 0.5:
        data = data + [0] * (-len(data) % 4)
    if max(offs_used, default=0) > 0x3FFFF:
        raise OverflowError
    # where highStart is the end of the code space, the high value stands for nothing (ICU stores the initial value)
    high = model.get(MAX - 1) if hs < MAX else rng.randrange(1 << width)
    data = data + [0] * (total - 2 - len(data)) + [high, error]
    if len(data) > 0x40010:          # the last block may begin at 0x3FFFF
        raise OverflowError
    return dict(index=idx, data=data, type=0 if fast else 1, valueWidth={16: 0, 32: 1, 8: 2}[width],
                index3NullOffset=i3null, dataNullOffset=null if null is not None else 0xFFFFF, highStart=hs)


def serialize_cptrie(t):
    dl = len(t["data"])
    dn = t["dataNullOffset"]
    options = (dl >> 16 & 0xF) << 12 | (dn >> 16 & 0xF) << 8 | t["type"] << 6 | t["valueWidth"]
    head = struct.pack("<IHHHHHH", 0x54726933, options, len(t["index"]), dl & 0xFFFF, t["index3NullOffset"], dn & 0xFFFF,
                       t["highStart"] >> 9)
    fmt = {0: "H", 1: "I", 2: "B"}[t["valueWidth"]]
    return head + struct.pack(f"<{len(t['index'])}H", *t["index"]) + struct.pack(f"<{dl}{fmt}", *t["data"])


def serialize_utrie2(k):
    """The 16-bit serialized form (for comparison with ICU)."""
    n = k["indexLength"]
    d = len(k["index"]) - n
    d4 = -d % 4
    data = k["index"] + [0] * d4
    head = struct.pack("<IHHHHHH", 0x54726932, 0, n, (d + d4) >> 2, k["index2NullOffset"], k["dataNullOffset"],
                       k["highStart"] >> 11)
    return head + struct.pack(f"<{len(data)}H", *data)


def random_runs(rng, nvalues, vmax, style):
    """Code point maps of many shapes: long constant stretches, block-periodic patterns, dense noise, planes."""
    vals = [0] + [rng.randrange(0, vmax + 1) for _ in range(nvalues)]
    runs = {0: rng.choice(vals)}

    def put(a, b, v):
        a = max(0, a)
        b = min(MAX, b)
        if a >= b:
            return
        # value in force at b before this change
        ks = [k for k in runs if k <= b]
        after = runs[max(ks)]
        for k in [k for k in runs if a <= k < b]:
            del runs[k]
        runs[a] = v
        if b < MAX and b not in runs:
            runs[b] = after

    grains = [1, 4, 16, 32, 64, 512, 0x800, 0x4000]
    anchors = [0, 0x80, 0x800, 0x1000, 0xD800, 0xDC00, 0xE000, 0xF800, 0x10000, 0x10800, 0x1F000, 0x20000, 0xE0000, 0xF0000,
               0x10FFFF, 0x10F800, 0x10FE00]
    n = {"sparse": 6, "medium": 25, "dense": 60}[style]
    for _ in range(n):
        k = rng.random()
        if k < 0.35:
            a = rng.choice(anchors) + rng.choice([-65, -64, -33, -32, -16, -1, 0, 1, 16, 31, 32, 64]) * rng.choice([1, 1, 1, 32])
        elif k < 0.7:
            g = rng.choice(grains)
            a = rng.randrange(0, MAX // g) * g
        else:
            a = rng.randrange(0, MAX) if rng.random() < .5 else rng.randrange(0, 0x12000)
        g = rng.choice(grains)
        b = a + g * rng.choice([1, 1, 2, 3, 8, 32, 33])
        r = rng.random()
        if r < 0.06:
            # at a boundary between block lengths: a block whose head comes again right behind it, with another tail
            at = rng.choice([0x1000, 0x10000, 0x10000, 0xDC00, 0xE000, a & ~0x7FF])
            x, y = rng.randrange(0, vmax + 1), rng.randrange(0, vmax + 1)
            g = rng.choice([64, 32])
            put(at - g, at - g + 16, x)
            put(at - g + 16, at, y)
            put(at, at + 16 * rng.choice([1, 1, 2]), x)
        elif r < 0.6:
            put(a, b, rng.choice(vals))
        elif r < 0.8:
            # a block pattern repeated over consecutive blocks
            g = rng.choice([16, 32, 64, 64, 512, 0x800, 0x800, 0x4000])
            if g > 64 and a < 0x10000:
                a = 0x10000 + rng.randrange(0, 0xE0000)
            a = a // g * g
            pat = [(rng.randrange(0, g), rng.choice(vals)) for _ in range(rng.randrange(1, 4))]
            for rep in range(rng.randrange(2, 6)):
                for off, v in pat:
                    put(a + rep * g + off, a + (rep + 1) * g, v)
        else:
            for i in range(rng.randrange(2, 20)):
                put(a + i, a + i + 1, rng.choice(vals))
    return {max(0, k): v for k, v in runs.items() if k < MAX}
