"""C19: UTF-16, bit and formatting utilities."""
import random

import repo
from vh import Check, fail, expect

TOP = 0x110000


class C19(Check):
    id = "C19"
    chunk = 1
    needs = ("code_points", "pairs", "shifts", "high_bits", "lists", "large_codes")
    assumptions = ["64-bit values at most for bit positions, as documented; code points and surrogates are asked about as 32-bit values"]
    rule = ("all code points through the UTF-16 encoder and decoder (against Python's own UTF-16 codec), all pairs of a lead "
            "and a trail surrogate by sampling, all 16-bit words at all field widths and random wider ones, bit positions of "
            "every power of two and its neighbours and random values, random code lists; a state is a distinct argument class")

    def setup(self):
        self.u = repo.mod("Utilities")

    def cases(self):
        for i in range(0, TOP, 0x11000):
            yield {"mode": "utf16", "start": i}
        for w in range(1, 17):
            yield {"mode": "shift16", "width": w}
        for i in range(self.scale(16, 400)):
            yield {"mode": "random", "n": i}

    def run(self, case, obs):
        getattr(self, "do_" + case["mode"])(case, obs)

    def do_utf16(self, case, obs):
        u = self.u
        for c in range(case["start"], case["start"] + 0x11000):
            if u.isUnicodeNoncharacter(c) != (0xFDD0 <= c <= 0xFDEF or c & 0xFFFF in (0xFFFE, 0xFFFF)):
                fail(f"isUnicodeNoncharacter({c:#x}) is {u.isUnicodeNoncharacter(c)}")
            if u.isSurrogate(c) != (0xD800 <= c <= 0xDFFF):
                fail(f"isSurrogate({c:#x}) is {u.isSurrogate(c)}")
            if u.isLead(c) != (0xD800 <= c <= 0xDBFF):
                fail(f"isLead({c:#x}) is {u.isLead(c)}")
            if u.isTrail(c) != (0xDC00 <= c <= 0xDFFF):
                fail(f"isTrail({c:#x}) is {u.isTrail(c)}")
            if 0xD800 <= c <= 0xDFFF:
                if u.isSurrogateLead(c) != (c < 0xDC00) or u.isSurrogateTrail(c) != (c >= 0xDC00):
                    fail(f"isSurrogateLead/Trail({c:#x}): {u.isSurrogateLead(c)}, {u.isSurrogateTrail(c)}")
            if c >= 0x10000:
                b = chr(c).encode("utf-16-be")
                want = (b[0] << 8 | b[1], b[2] << 8 | b[3])
                got = u.surrogatesFromChar(c)
                if tuple(got) != want:
                    fail(f"surrogatesFromChar({c:#x}) is {got}, should be {want}")
                if u.charFromSurrogates(*want) != c:
                    fail(f"charFromSurrogates{want} is {u.charFromSurrogates(*want):#x}, should be {c:#x}")
                obs.n("pairs")
            obs.n("code_points")
        obs.state("utf16", case["start"])

    def do_shift16(self, case, obs):
        w = case["width"]
        f = self.u.arithmeticShift
        for v in range(0x10000):
            want = v >> (16 - w)
            if want >= 1 << (w - 1):
                want -= 1 << w
            if f(v, 16, w) != want:
                fail(f"arithmeticShift({v:#x}, 16, {w}) is {f(v, 16, w)}, should be {want}")
        obs.n("shifts", 0x10000)
        obs.state("shift", 16, w)

    def do_random(self, case, obs):
        rng = self.rng(case["n"])
        u = self.u
        for _ in range(3000):
            bits = rng.choice([1, 2, 3, 5, 8, 12, 16, 24, 31, 32, 33, 48, 64])
            w = rng.randint(1, bits)
            v = rng.choice([rng.randrange(1 << bits), 0, (1 << bits) - 1, 1 << (bits - 1), (1 << (bits - 1)) - 1])
            want = v >> (bits - w)
            if v >> (bits - 1):
                want -= 1 << w
            if u.arithmeticShift(v, bits, w) != want:
                fail(f"arithmeticShift({v:#x}, {bits}, {w}) is {u.arithmeticShift(v, bits, w)}, should be {want}")
            obs.n("shifts")
            obs.state("shift", bits, w, v >> (bits - 1))
            b = rng.randrange(64)
            for x in (1 << b, (1 << b) | rng.randrange(1 << b), (2 << b) - 1, v):
                want = x.bit_length() - 1 if x else None
                if u.highBit(x) != want:
                    fail(f"highBit({x:#x}) is {u.highBit(x)}, should be {want}")
                obs.n("high_bits")
                obs.state("bit", want)
        for _ in range(300):
            codes = [rng.choice([rng.randrange(TOP), rng.randrange(256), rng.randrange(0x10000)]) for _ in range(rng.choice([0, 1, 2, 3, 4, 5, 5, 18, rng.randrange(400)]))]
            want = ", ".join("%04X" % c for c in codes)
            if u.listOfCodes(list(codes)) != want:
                fail(f"listOfCodes({codes}) is {u.listOfCodes(list(codes))!r}, should be {want!r}")
            obs.n("lists")
        for _ in range(300):
            c = rng.choice([0xD7FF, 0xD800, 0xDBFF, 0xDC00, 0xDFFF, 0xE000, 0xFDD0, 0xFFFE, 0xFFFF, rng.randrange(0xD800, 0xE000)])
            c |= rng.choice([rng.randrange(1, 0x10000) << 16, 1 << rng.randrange(16, 32), 0x100000])
            if u.isSurrogate(c) or u.isLead(c) or u.isTrail(c):
                fail(f"{c:#x} is said to be a surrogate")
            if c >= TOP and u.isUnicodeNoncharacter(c):
                fail(f"isUnicodeNoncharacter({c:#x}) is True")
            obs.n("large_codes")
        for c in (TOP, TOP + 0xFFFE, 0x11FFFF, 0x1FFFFE, 0x7FFFFFFF, 0x1FDD0, 0x10FDD0, 0xFDCF, 0xFDF0):
            if u.isUnicodeNoncharacter(c):
                fail(f"isUnicodeNoncharacter({c:#x}) is True")
