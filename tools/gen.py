"""Case generation.  Offsets, widths, thresholds and permitted lengths come from the specification
(spec/Export.tla); abstract table shapes come from spec/GenWalk.tla and spec/GenSearch.tla.  Nothing
in here says what the library should answer."""
import json, os, random
from itertools import chain

VERSIONS = [(2, 0), (2, 1), (2, 2), (2, 3), (2, 4), (2, 5), (2, 6), (2, 7), (2, 8), (2, 16), (2, 255),
            (3, 0), (3, 1), (3, 2), (3, 3), (3, 7), (3, 255), (4, 0), (4, 6), (255, 255)]
COMMON = [(2, 0), (2, 1), (2, 3), (2, 4), (2, 6), (2, 7), (3, 0), (3, 1), (3, 2), (3, 5)]
RAW_TYPES = [5, 6, 10, 23, 24, 31, 32, 33, 42, 126, 127, 128, 129, 200, 255]

TEXTS = [b'a', b'Z', b'Intel(R) Corp.', b'x' * 63, b'y' * 300, 'é'.encode(), 'Łódź-漢字'.encode(), '\U0001F600ok'.encode(),
         b' ', b'\x01\x02', b'\x7f', b'0', b'part-number 0001', b'To Be Filled By O.E.M.', b'\t tab', 'a\u0301'.encode(),
         '\u00a0'.encode(), '\uffff'.encode(), '\U0010ffff'.encode(), '\ud7ff'.encode(), '\u0800'.encode(), b'end\r', b'end\n', b'\ttab ', b' lead', b'trail ', '\ufeffbom'.encode()]
BAD = [b'\xff', b'ok\xfe', b'\x80', b'\xc3', b'\xc0\xaf', b'\xe2\x82', b'\xed\xa0\x80', b'\xf4\x90\x80\x80', b'\xf0\x8f\xbf\xbf',
       b'\xe0\x9f\xbf', b'abc\xc3(', b'\xf8\x88\x80\x80\x80', b'tail\xe2\x28\xa1']


def enc(v):
    return v[0] * 256 + v[1]


class Gen:
    def __init__(self, layout, seed, words=((), ())):
        self.layout = {x['t']: x for x in layout}
        self.rng = random.Random(seed)
        self.nums, self.texts = list(words[0]), list(words[1])
        self.handles = [0, 1, 2, 0xFF, 0x100, 0x7FFF, 0x8000, 0xFEFF, 0xFF00, 0xFFFD, 0xFFFE, 0xFFFF] + [n for n in self.nums if 255 < n < 65536]

    # --- building blocks -------------------------------------------------------------------------
    def versions(self, t):
        """versions at and around the thresholds of a type"""
        th = {512, 513} | {r['v'] for r in self.layout[t]['rows'] if r['v']}
        prev = None
        for v, lo, hi in self.layout[t]['lengths']:
            if prev is not None and prev != (lo, hi):
                th.add(v)
            prev = (lo, hi)
        extra = {4: [517, 518, 768], 7: [769], 16: [519], 13: [513], 15: [513], 1: [518], 0: [769]}.get(t, [])
        th |= set(extra)
        out = set()
        for v in th:
            out.add(v)
            if v % 256:
                out.add(v - 1)
            elif v > 512:
                out |= {v - 256 + 255, v - 256 + 8}
            out.add(v + 1)
        out |= {512 + 255, 768, 770, 771, 1024, 1030, 512 + 16, 65535}
        return sorted((v // 256, v % 256) for v in out if v >= 512)

    def bounds(self, t, v):
        lo = hi = None
        for x, a, b in self.layout[t]['lengths']:
            if enc(v) >= x:
                lo, hi = a, b
        return lo, hi

    def lengths(self, t, v):
        """lengths at and around every threshold of the type"""
        lo, hi = self.bounds(t, v)
        ms = {r['m'] for r in self.layout[t]['rows']} | {lo, self.layout[t]['longest']}
        ms |= {x[1] for x in self.layout[t]['lengths']}
        ms |= {4: {40, 42, 48}, 7: {27}, 16: {23}, 22: {16, 18, 20, 21, 22, 26}, 3: {19, 20, 21, 22}, 9: {18, 19, 20, 21, 22, 24}}.get(t, set())
        out = set()
        for m in ms:
            out |= {m - 1, m, m + 1}
        out |= {4, 5, self.layout[t]['longest'] + 3, 200, 255}
        return sorted(x for x in out if 4 <= x <= 255)

    def good_len(self, t, v, long=False):
        lo, hi = self.bounds(t, v)
        if lo == hi:
            return lo
        top = min(255, max(self.layout[t]['longest'] + (9 if long else 0), lo))
        return top if self.rng.random() < 0.6 else self.rng.randint(lo, top)

    def strings(self, n):
        r = self.rng
        ss = [r.choice(TEXTS) if r.random() < 0.4 else bytes(r.choices(b'abcdefghijklmnopqrstuvwxyzABCDEFGHIJ 0123456789-_.', k=r.randint(1, 12)))
              for _ in range(n)]
        if n > 1 and r.random() < .2:
            # one repeats, begins or continues another
            a, b = r.sample(range(n), 2)
            x = ss[a]
            ss[b] = r.choice([x, x, x + b'a', x + b' ', x.swapcase() if x.isascii() else x, x[:1] if x.isascii() else x])
        return ss

    def body(self, t, v, ln, nstr):
        """a formatted section (with type, length, handle) of a decodable structure, if the length permits"""
        r = self.rng
        b = bytearray(r.randbytes(ln))
        mode = r.random()
        if mode < 0.1:
            b = bytearray([0] * ln)
        elif mode < 0.2:
            b = bytearray([255] * ln)
        b[0] = t
        b[1] = ln
        b[2:4] = r.randbytes(2) if r.random() < .8 else r.choice(self.handles).to_bytes(2, 'little')
        if t in self.layout:
            for o in self.layout[t]['strings']:
                if o < ln:
                    b[o] = r.randint(0, nstr)
            self.fit(b, t, v, ln, nstr)
        return b

    def fit(self, b, t, v, ln, nstr):
        r = self.rng
        if t == 3 and ln >= 21:
            room = ln - 21
            if r.random() < 0.85:
                size = r.choice([0, 3, 3, 3, 1, 2, 4, 5, 8])
                cnt = r.randint(0, room // size) if size else r.choice([0, 1, 3, 255])
                if size and r.random() < 0.4:
                    cnt = room // size
                b[19], b[20] = cnt, size
            at = 21 + b[19] * b[20]
            if at < ln:
                b[at] = r.randint(0, nstr)
        elif t == 9 and ln > 18:
            if r.random() < 0.85:
                room = max(0, (ln - 19) // 5)
                b[18] = r.choice([0, r.randint(0, room), room])
        elif t == 15 and enc(v) >= 513 and ln >= 23:
            n = ln - 23
            divs = [(x, n // x) for x in range(1, n + 1) if n % x == 0 and n // x < 256] if n else [(0, r.choice([0, 2, 7])), (r.choice([1, 9]), 0)]
            two = [d for d in divs if d[1] == 2]
            b[21], b[22] = r.choice(two) if two and r.random() < 0.7 else r.choice(divs)
        elif t == 12 and ln > 4:
            b[4] = nstr if nstr < 256 else 255

    def raw(self, b, ss):
        return bytes(b) + (b'\0'.join(ss) + b'\0\0' if ss else b'\0\0')

    def struct(self, t, v, ln=None, nstr=None, ss=None):
        if nstr is None:
            nstr = self.rng.choice([0, 1, 2, 3, 5, 8])
        ss = self.strings(nstr) if ss is None else ss
        if ln is None:
            ln = self.good_len(t, v) if t in self.layout else self.rng.choice([4, 5, 8, 20, 100, 255])
        return self.raw(self.body(t, v, ln, len(ss)), ss)

    def table(self, v, buf, decl=None, fmt=None, extra=1):
        fmt = fmt or (2 if len(buf) > 60000 else self.rng.choice([2, 2, 2, 3] if v[0] == 2 else [2, 3]))
        decl = len(buf) if decl is None else decl
        if fmt == 2:
            decl = min(decl, 65535)
        return 'T %d %d %d %d %d %s' % (v[0], v[1], decl, fmt, extra, buf.hex() or '-')

    def single(self, v, buf):
        return self.table(v, buf, fmt=2 if len(buf) > 60000 else self.rng.choice([2, 2, 2, 3]), extra=0)

    # --- one structure ---------------------------------------------------------------------------
    def grid(self, types=None, per=1):
        """versions and lengths around every threshold"""
        for t in types or self.layout:
            for v in self.versions(t):
                for ln in self.lengths(t, v):
                    for _ in range(per):
                        yield self.single(v, self.struct(t, v, ln))

    def everylen(self, types=None):
        for t in types or self.layout:
            for v in COMMON + [(2, 5), (2, 2), (4, 0)]:
                for ln in range(4, 256):
                    yield self.single(v, self.struct(t, v, ln))

    def plain(self, n, types=None):
        """decodable structures with random contents"""
        ts = list(types or self.layout)
        for i in range(n):
            t = ts[i % len(ts)]
            v = self.rng.choice(self.versions(t) if self.rng.random() < .5 else COMMON)
            yield self.single(v, self.struct(t, v, self.good_len(t, v, long=self.rng.random() < .2)))

    def nonzero(self, n, types=None):
        """decodable structures under the newest versions with every optional field there"""
        ts = list(types or self.layout)
        for i in range(n):
            t = ts[i % len(ts)]
            v = self.rng.choice([(3, 2), (3, 5), (3, 9), (2, 255), (4, 0)])
            lo, hi = self.bounds(t, v)
            ln = max(lo, min(hi, self.layout[t]['longest'] + self.rng.choice([0, 0, 0, 1, 5])))
            yield self.single(v, self.struct(t, v, ln, nstr=6))

    def full(self, t, v):
        lo, hi = self.bounds(t, v)
        ln = max(lo, min(hi, self.layout[t]['longest']))
        if t == 15 and lo != hi:
            ln = 23 + 2 * self.rng.choice([0, 1, 2, 4, 20])
        return ln

    def at_offset(self, t, v, sets, nstr=4, tries=1):
        """a structure with the bytes of {offset: value} put in"""
        for _ in range(tries):
            ln = self.full(t, v)
            ss = self.strings(nstr)
            b = self.body(t, v, ln, nstr)
            for o, x in sets.items():
                if o < ln:
                    b[o] = x
            yield self.single(v, self.raw(b, ss))

    def codes(self, per, rows='enum'):
        """every enumerated field: codes from the whole range (per = None: all 256)"""
        for t, lay in self.layout.items():
            offs = {(r['o'], r['v']) for r in lay['rows'] if r['k'] in ('enum', 'enum7')}
            offs |= {4: {(6, 0)}, 22: {(9, 0)}, 15: {(10, 0), (20, 0)}, 9: {(20, 770), (21, 770), (26, 770)}}.get(t, set())
            for o, since in sorted(offs):
                vs = [x for x in COMMON if enc(x) >= max(since, 513)]
                cs = range(256) if per is None else sorted(set(self.rng.sample(range(256), per)) | {0, 1, 2, 3, 127, 128, 254, 255} | set(self.rng.sample(range(32), min(per, 12))))
                for c in cs:
                    v = self.rng.choice(vs)
                    yield from self.at_offset(t, v, {o: c})

    def families(self, ws):
        """processor family and its wide form"""
        for x in ws:
            v = self.rng.choice([(2, 5), (2, 6), (2, 7), (3, 0), (3, 4)])
            yield from self.at_offset(4, v, {6: self.rng.choice([254, 254, 254, 253, 255, x % 256]), 40: x % 256, 41: x // 256})

    NEAR = {1: [0, 1, 2, 0x7F, 0x80, 0xFE, 0xFF],
            2: [0, 1, 0xFF, 0x100, 0x7FFF, 0x8000, 0x8001, 0xFFFD, 0xFFFE, 0xFFFF, 0x00FF, 0xFF00, 0xFEFF, 0x01FF],
            4: [0, 1, 0x7FFFFFFF, 0x80000000, 0x80000001, 0x00000080, 0xFFFFFFFF, 0xFFFFFFFE, 0x8000, 0x00800000],
            8: [0, 1, 1 << 63, (1 << 64) - 1, 1 << 32, (1 << 32) - 1, 0x80000000, 255 << 56, 1 << 56],
            16: [0, (1 << 128) - 1, 1, 1 << 127]}

    def boundary(self, per=1):
        """every numeric field with the values around the reserved ones"""
        for t, lay in self.layout.items():
            for r in lay['rows']:
                if r['k'] not in ('u8', 'u16', 'le', 'uuid', 'mask'):
                    continue
                vals = set(self.NEAR[r['w']])
                s = int.from_bytes(bytes(r['s']), 'little') if r['s'] else None
                if s is not None:
                    top = (1 << 8 * r['w']) - 1
                    vals |= {s, (s + 1) & top, (s - 1) & top, s ^ 1, s ^ (1 << (8 * r['w'] - 1)), int.from_bytes(bytes(r['s']), 'big')}
                    vals |= {s ^ (1 << i) for i in range(8 * r['w'])}
                for x in vals:
                    for _ in range(per):
                        vs = [v for v in COMMON if enc(v) >= max(r['v'], 513)]
                        v = self.rng.choice(vs)
                        by = x.to_bytes(r['w'], 'little')
                        yield from self.at_offset(t, v, {r['o'] + i: by[i] for i in range(r['w'])})

    def wide(self, per=1):
        """fields that stand in for one another"""
        r = self.rng
        for v in self.versions(4):
            for c in (35, 36, 37):
                for x in (0, 1, 2, 0x7F, 0xFE, 0xFF):
                    for y in (0, 1, 0xFF, 0x100, 0xFFFF, 0x0180):
                        if r.random() < (0.6 if x == 255 else 0.2) * per:
                            o2 = {35: 42, 36: 44, 37: 46}[c]
                            for ln in (39, 40, 42, 47, 48, 50):
                                if r.random() < (0.6 if x == 255 else 0.35):
                                    ss = self.strings(4)
                                    b = self.body(4, v, ln, 4)
                                    for q in (35, 36, 37):
                                        if q < ln and r.random() < .5:
                                            b[q] = 255
                                    for o, z in ((c, x), (o2, y % 256), (o2 + 1, y // 256)):
                                        if o < ln:
                                            b[o] = z
                                    yield self.single(v, self.raw(b, ss))
        for v in self.versions(4):
            for fam in (0, 1, 0xFD, 0xFE, 0xFF):
                for f2 in (0, 1, 0xFE, 0xFF, 0x100, 0x104, 0xFFFE, 0xFFFF):
                    for ln in [40, 41, 42, 43, 48, 50]:
                        if r.random() >= (0.5 if fam == 0xFE else 0.08) * per:
                            continue
                        ss = self.strings(4)
                        b = self.body(4, v, ln, 4)
                        b[6] = fam
                        for o, z in ((40, f2 % 256), (41, f2 // 256)):
                            if o < ln:
                                b[o] = z
                        yield self.single(v, self.raw(b, ss))
        for v in self.versions(16):
            for cap in (0, 0x7FFFFFFF, 0x80000000, 0x80000001, 0xFFFFFFFF, 0x80, 0x40000000):
                for ext in (0, 1, 1 << 63, (1 << 64) - 1, 0x80000000, 1 << 32, 0x1234 << 40):
                    for ln in [15, 16, 22, 23, 24, 30]:
                        if r.random() >= (0.4 if cap == 0x80000000 else 0.1) * per:
                            continue
                        b = self.body(16, v, ln, 0)
                        b[7:11] = cap.to_bytes(4, 'little')
                        e = ext.to_bytes(8, 'little')
                        for i in range(8):
                            if 15 + i < ln:
                                b[15 + i] = e[i]
                        yield self.single(v, self.raw(b, []))
        for v in ((2, 0), (2, 1), (2, 2), (2, 7), (3, 0), (3, 4)):
            for _ in range(int(160 * per)):
                lo, hi = self.bounds(22, v)
                ln = lo if v > (2, 0) else r.choice([16, 17, 18, 19, 20, 21, 22, 26])
                n = r.choice([0, 1, 3])
                ss = self.strings(n)
                if ss and r.random() < .3:
                    ss[r.randrange(len(ss))] = r.choice(BAD)
                b = self.body(22, v, ln, n)
                for o in (4, 5, 8, 14):
                    b[o] = r.choice([0] + [i + 1 for i, s in enumerate(ss) if s not in BAD])
                for o in (6, 7, 20):
                    if o < ln:
                        b[o] = r.choice([0, 0, 1, 1, 2, 3, 4, 255])
                b[9] = r.choice([0, 1, 2, 2, 2, 3, 8, 9, 255])
                if r.random() < .3:
                    b[10:12] = r.choice([b'\0\0', b'\1\0', b'\0\1', b'\xff\xff'])
                if ln > 19 and r.random() < .5:
                    b[18:20] = r.choice([b'\0\0', b'\xff\xff', b'\x21\x00', b'\x00\x02', b'\x1f\x00', b'\xe0\x01', b'\x00\xfe'])
                if ln > 17 and r.random() < .5:
                    b[16:18] = r.choice([b'\0\0', b'\xff\xff', b'\x05\0', b'\x10\0', b'\0\x01', b'\xab\xcd'])
                yield self.single(v, self.raw(b, ss))

    def bits(self, per=1):
        """flag words and bit-fields, each bit alone, each bit missing, random"""
        for t, lay in self.layout.items():
            rows = [(r['o'], r['w'], r['v']) for r in lay['rows'] if r['k'] == 'mask' or r['g'] == 'b']
            if t == 13:
                rows.append((5, 1, 513))
            if t == 4:
                rows.append((17, 1, 0))
            if t == 7:
                rows.append((5, 2, 0))
            for o, w, since in rows:
                top = (1 << 8 * w) - 1
                vals = {0, top} | {1 << i for i in range(8 * w)} | {top ^ (1 << i) for i in range(8 * w)}
                vals |= {self.rng.randint(0, top) for _ in range(20 * per)}
                for x in sorted(vals):
                    v = self.rng.choice([v for v in COMMON if enc(v) >= max(since, 513)])
                    by = x.to_bytes(w, 'little')
                    yield from self.at_offset(t, v, {o + i: by[i] for i in range(w)})

    def shapes(self):
        """string-sets"""
        r = self.rng
        yield []
        yield [b'a']
        yield [b'one', b'two', b'three']
        yield [bytes([65 + i]) for i in range(12)]
        yield ['é'.encode(), b'x', '漢字'.encode(), b'y' * 40]
        yield [b'same', b'same', b'other']
        yield [b'z' * 300, b'q']
        for pos in (0, 1, 2):
            ss = [b'first', b'second', b'third']
            ss[pos] = r.choice(BAD)
            yield ss
        yield [r.choice(BAD)]
        yield [r.choice(BAD), r.choice(BAD), b'fine']
        yield [b'%d' % i for i in range(1, 41)]

    def refs(self, per=1, types=None):
        """every string field with every kind of number over every kind of string-set"""
        r = self.rng
        for t, lay in self.layout.items():
            if types and t not in types:
                continue
            for o in lay['strings']:
                for ss in self.shapes():
                    n = len(ss)
                    nums = {0, 1, n, n + 1, n - 1, 255, 128, r.randint(0, 255), (n + 1) // 2, r.randint(0, n + 1)}
                    for x in sorted(y for y in nums if 0 <= y <= 255):
                        for _ in range(per):
                            v = r.choice(COMMON)
                            lo, hi = self.bounds(t, v)
                            ln = self.full(t, v)
                            good = [0] + [i + 1 for i, s in enumerate(ss) if s not in BAD]
                            b = self.body(t, v, ln, 0)
                            for q in lay['strings']:
                                if q < ln:
                                    b[q] = r.choice(good)
                            if t == 3 and ln >= 22:
                                b[19], b[20] = r.choice([(0, 0), (0, 3), (3, 0)])
                                b[21] = r.choice(good)
                            if t == 12:
                                b[4] = x
                            if o < ln:
                                b[o] = x
                            yield self.single(v, self.raw(b, ss))

    def manystrings(self):
        """long string-sets: numbers up to and over 255"""
        r = self.rng
        for n in (127, 128, 129, 200, 254, 255, 256, 257, 300, 511, 512):
            ss = [b'%x' % i for i in range(n)]
            for t in (11, 12, 13):
                for v in ((2, 0), (2, 1), (3, 0)):
                    ln = self.full(t, v)
                    b = self.body(t, v, ln, n)
                    if t == 12:
                        b[4] = r.choice([n % 256, n & 255, 255, 0])
                    yield self.single(v, self.raw(b, ss))
            for t in (0, 1, 2, 8, 17):
                b = self.body(t, (2, 8), self.full(t, (2, 8)), 0)
                for q in self.layout[t]['strings']:
                    if q < len(b):
                        b[q] = r.choice([1, 2, 100, 126, 127, 128, 253, 254, 255])
                yield self.single((2, 8), self.raw(b, ss))

    def stringlists(self, n):
        r = self.rng
        for i in range(n):
            t = (11, 12, 13)[i % 3]
            v = r.choice(COMMON)
            k = r.choice([0, 1, 2, 3, 4, 5, 9, 20])
            ss = self.strings(k)
            if ss and r.random() < .35:
                ss[r.randrange(len(ss))] = r.choice(BAD)
            ln = self.full(t, v) + (r.choice([0, 0, 1, 5]) if t != 13 else r.choice([0, 0, 3]))
            b = self.body(t, v, ln, k)
            if t in (11, 12) and ln > 4:
                clean = k
                for j, s in enumerate(ss):
                    if s in BAD:
                        clean = j
                        break
                b[4] = r.choice([clean, clean, k, clean + 1, max(0, clean - 1), 0, 255])
            if t == 13 and ln > 4:
                b[4] = r.choice([k % 256, 0, 255, 1])
            if t == 13:
                b[5] = r.choice([0, 1, 0x80, 255])
            tail = self.raw(b, ss)
            if r.random() < .1:
                tail = bytes(b) + b'\0' + b'hidden' + b'\0\0'
            yield self.single(v, tail)

    def records(self, n):
        """structures with record lists"""
        r = self.rng
        for i in range(n):
            t = (3, 9, 14, 15)[i % 4]
            v = r.choice([(3, 2), (3, 3), (4, 0), (2, 255)] if t == 9 and r.random() < .9 else COMMON)
            ss = self.strings(r.choice([0, 2, 4]))
            if t == 3:
                size = r.choice([0, 1, 2, 3, 3, 3, 4, 7, 30, 255])
                cnt = r.choice([0, 1, 2, 3, 5, 10, 255])
                need = 21 + size * cnt
                ln = min(255, max(9, need + r.choice([-2, -1, 0, 0, 1, 1, 2, 8])))
                b = self.body(3, v, ln, len(ss))
                if ln > 19:
                    b[19] = cnt
                if ln > 20:
                    b[20] = size
                if need < ln:
                    b[need] = r.randint(0, len(ss))
                for j in range(cnt):
                    if size and 21 + j * size < ln and r.random() < .5:
                        b[21 + j * size] = r.choice([0, 1, 10, 13, 14, 127, 128, 129, 145, 160, 255])
                        if need < ln:
                            b[need] = r.randint(0, len(ss))
            elif t == 9:
                cnt = r.choice([0, 0, 1, 1, 2, 3, 5, 10, 40, 46, 47, 48, 255])
                need = 19 + 5 * cnt
                ln = min(255, max(17, need + r.choice([-6, -5, -1, 0, 1, 2, 3, 4, 5, 5, 5, 6, 9])))
                if v < (3, 2):
                    ln = self.full(9, v)
                b = self.body(9, v, ln, len(ss))
                if ln > 18:
                    b[18] = cnt
            elif t == 14:
                ln = r.choice([4, 5, 6, 7, 8, 9, 10, 11, 14, 20, 50, 254, 255])
                b = self.body(14, v, ln, len(ss))
            else:
                x, y = r.choice([0, 1, 2, 3, 10, 50, 116, 117, 255]), r.choice([0, 1, 2, 2, 2, 2, 3, 4, 255])
                if r.random() < .3:
                    y = r.choice([5, 7, 8, 16, 31, 32, 33, 63, 64, 65, 100, 116, 127, 128, 129, 200, 231, 232])
                    x = r.choice([232 // y, 1, r.randint(1, 232 // y)])
                ln = 23 + x * y
                if enc(v) < 513:
                    ln = r.choice([20, 20, 20, 19, 21, 23])
                else:
                    ln = min(255, max(5, ln + r.choice([0, 0, 0, 0, -1, 1, 2])))
                b = self.body(15, v, ln, len(ss))
                if ln > 22 and enc(v) >= 513:
                    b[21], b[22] = x, y
            if r.random() < .4:   # records of few different bytes, equal records, records of one byte
                first = {3: 21, 9: 19, 14: 5, 15: 23}[t]
                last = min(ln, need) if t in (3, 9) else ln
                some = r.choice([[0, 255], [0, 255, 127], [255, 254, 1], [0, 1, 2, 127, 128, 255], [0], [255], [r.randrange(256)]])
                for j in range(first, last):
                    b[j] = r.choice(some)
                if t == 14 and r.random() < .5:   # handles and types that mean something elsewhere
                    for j in range(first, last - 2, 3):
                        b[j] = r.choice([127, 126, 14, 0, 255, r.randrange(256)])
                        b[j + 1:j + 3] = r.choice([b'\xff\xff', b'\xfe\xff', b'\0\0', bytes(b[2:4]), b'\xff\0', b'\0\xff'])
            yield self.single(v, self.raw(b, ss))

    def rawtypes(self, per=1):
        """all 256 type codes"""
        r = self.rng
        for t in range(256):
            for _ in range(per):
                v = r.choice(VERSIONS)
                yield self.single(v, self.struct(t, v))
                yield self.single(v, self.struct(t, v, ln=r.choice([4, 5, 30, 100, 255])))

    def malformed(self, n):
        """single structures of decoded types with arbitrary bytes"""
        r = self.rng
        for _ in range(n):
            t = r.choice(list(self.layout))
            v = r.choice(VERSIONS)
            ln = r.choice([4, 5, 6, 8, 9, 12, 15, 18, 20, 21, 23, 26, 31, 40, 48, 64, 92, 120, 255, r.randint(4, 255)])
            b = bytearray(r.randbytes(ln)) if r.random() < .7 else bytearray(r.choices([0, 1, 2, 3, 127, 128, 254, 255], k=ln))
            b[0], b[1] = t, ln
            ss = self.strings(r.choice([0, 1, 3, 8]))
            if ss and r.random() < .3:
                ss[r.randrange(len(ss))] = r.choice(BAD)
            yield self.single(v, self.raw(b, ss))

    # --- tables ----------------------------------------------------------------------------------
    def piece(self, kind, v):
        """one structure of an abstract kind"""
        r = self.rng
        t = r.choice(list(self.layout))
        if kind == 'raw':
            return self.struct(r.choice([x for x in RAW_TYPES if x != 127]), v)
        if kind == 'tiny':
            return self.struct(r.choice([126, 200, 33]), v, ln=4, nstr=r.choice([0, 1]))
        if kind == 'bare':
            return self.struct(r.choice([32, 126, 10]), v, ln=r.choice([4, 6, 11]), nstr=0)
        if kind == 'good':
            return self.struct(t, v)
        if kind == 'nuls':   # a body full of NULs, or ending in one
            b = self.struct(r.choice([32, 126, 129]), v, ln=r.choice([6, 9, 20]), nstr=0)
            ln = b[1]
            body = bytearray(b[:4]) + bytearray(ln - 4)
            return bytes(body) + r.choice([b'\0\0', b's\0\0', b'a\0bc\0\0'])
        if kind == 'badstr':  # a string number out of range
            t = r.choice([0, 1, 2, 4, 8, 17])
            ss = self.strings(2)
            ln = self.full(t, v)
            b = self.body(t, v, ln, 2)
            b[r.choice([o for o in self.layout[t]['strings'] if o < self.bounds(t, v)[0]])] = r.choice([3, 9, 255])
            return self.raw(b, ss)
        if kind == 'badlen':  # a section that is too short for its type
            t = r.choice([0, 1, 4, 7, 8, 17])
            lo, hi = self.bounds(t, v)
            return self.raw(self.body(t, v, r.randint(4, lo - 1), 0), self.strings(r.choice([0, 2])))
        if kind == 'text':   # strings that are not text
            ss = [b'ok', r.choice(BAD), b'more']
            return self.raw(self.body(r.choice([32, 130, 11]), v, 5, 3), ss)
        if kind == 'end':
            return self.raw(bytes([127, 4]) + r.randbytes(2), r.choice([[], [], [b'x']]))
        if kind == 'long':
            return self.struct(r.choice([200, 17, 1, 3]), v, ln=255, nstr=r.choice([0, 4]))
        if kind == 'short0':
            return bytes([r.choice([1, 126, 200]), r.choice([0, 1, 2, 3]), 1, 0]) + b'abc\0\0'
        raise KeyError(kind)

    def finish(self, buf, offs, cut, decl):
        """cut: what happens to the end of the buffer; decl: the declared length"""
        r = self.rng
        if cut == 'nonul' and buf.endswith(b'\0\0'):
            buf = buf[:-1]
        elif cut == 'nonuls' and buf.endswith(b'\0\0'):
            buf = buf[:-2]
        elif cut == 'head' and offs:
            buf = buf[:offs[-1] + r.choice([1, 2, 3, 4])]
        elif cut == 'body' and offs:
            buf = buf[:offs[-1] + r.randint(4, max(4, len(buf) - offs[-1] - 1))]
        elif cut == 'tail':
            buf = buf + r.randbytes(r.choice([1, 2, 3, 4, 7, 20]))
        elif cut == 'zeros':
            buf = buf + bytes(r.choice([1, 2, 3, 4, 5, 8, 30]))
        n = len(buf)
        if decl == 'exact':
            d = n
        elif decl == 'less':
            d = max(0, n - r.choice([1, 1, 2, 2, 3, 4, 5, 9]))
        elif decl == 'more':
            d = n + r.choice([1, 2, 3, 4, 5, 8, 100, 1000])
        elif decl == 'huge':
            d = 0xFFFFFFFF
        elif decl == 'zero':
            d = r.choice([0, 1, 2, 3])
        elif decl == 'inner' and offs:
            ln = buf[offs[-1] + 1] if offs[-1] + 1 < n else 4
            d = offs[-1] + r.choice([0, 1, 3, 4, ln - 1, ln, ln + 1, ln + 2])
        else:
            d = n
        return buf, max(0, d)

    def shaped(self, shape):
        """a table of an abstract shape: {p: kinds, c: cut, d: declared, v: major, f: format}"""
        r = self.rng
        v = (shape['v'], r.choice([0, 1, 4, 6, 7, 8])) if shape['v'] < 4 else (shape['v'], r.choice([0, 200]))
        buf, offs = b'', []
        for k in shape['p']:
            offs.append(len(buf))
            buf += self.piece(k, v)
        buf, d = self.finish(buf, offs, shape['c'], shape['d'])
        return self.table(v, buf, decl=d, fmt=shape['f'], extra=2)

    KINDS = ['raw', 'tiny', 'bare', 'good', 'good', 'nuls', 'badstr', 'badlen', 'text', 'end', 'long', 'short0']
    CUTS = ['no', 'no', 'nonul', 'nonuls', 'head', 'body', 'tail', 'zeros']
    DECLS = ['exact', 'exact', 'less', 'more', 'huge', 'zero', 'inner', 'inner']

    def tables(self, n, most=6):
        r = self.rng
        for _ in range(n):
            yield self.shaped({'p': [r.choice(self.KINDS) for _ in range(r.randint(0, most))], 'c': r.choice(self.CUTS),
                               'd': r.choice(self.DECLS), 'v': r.choice([2, 2, 3, 3, 4, 255]), 'f': r.choice([2, 3])})

    def wellformed(self, n, most=8):
        r = self.rng
        for _ in range(n):
            yield self.shaped({'p': [r.choice(self.KINDS[:10]) for _ in range(r.randint(1, most))], 'c': r.choice(['no', 'no', 'tail', 'zeros']),
                               'd': r.choice(['exact', 'exact', 'exact', 'more']), 'v': r.choice([2, 2, 3, 3, 4]), 'f': r.choice([2, 3])})

    def truncations(self, n):
        """a small table with every buffer length and with every declared length"""
        r = self.rng
        for _ in range(n):
            v = r.choice([(2, 1), (2, 7), (3, 0), (3, 4)])
            buf = b''.join(self.piece(r.choice(['tiny', 'bare', 'raw', 'good', 'end', 'badlen']), v)[:70] for _ in range(r.randint(1, 2)))
            buf = buf[:90]
            for i in range(len(buf) + 1):
                yield self.table(v, buf[:i], fmt=r.choice([2, 3]), extra=1)
                yield self.table(v, buf[:i], decl=len(buf), fmt=2, extra=1)
            for d in range(len(buf) + 4):
                yield self.table(v, buf, decl=d, fmt=r.choice([2, 3]), extra=1)

    def big(self, n):
        """tables of more than 64 KB: offsets and lengths that need more than 16 bits"""
        r = self.rng
        combos = [('nonul', 'exact'), ('head', 'exact'), ('no', 'more'), ('no', 'less'), ('no', 'exact'), ('no', 'huge')]
        for i in range(n):
            v = r.choice([(3, 0), (3, 4), (4, 0)])
            buf = bytearray()
            while len(buf) < 66000:
                buf += self.raw(self.body(r.choice([200, 33, 126]), v, 255, 0), [b'x' * 4000])
            for _ in range(3):
                buf += self.piece(r.choice(['good', 'raw', 'badstr', 'tiny']), v)
            cut, decl = combos[i % 6]
            offs = [len(buf) - 40]
            b, d = self.finish(bytes(buf), offs, cut, decl)
            yield self.table(v, b, decl=d, fmt=3, extra=1)

    def huge(self, n):
        """a table of more than 1 MiB, of structures with more than 64 KiB of strings"""
        r = self.rng
        for i in range(n):
            v = [(3, 0), (2, 8), (3, 4)][i % 3]
            buf = bytearray()
            while len(buf) < 1 << 20:
                buf += self.raw(self.body(200, v, 4, 0), [b'x' * 70000])
            for _ in range(2):
                buf += self.piece(r.choice(['good', 'raw', 'badstr', 'tiny']), v)
            if i % 3 == 1:
                buf = buf[:-1]
            elif i % 3 == 2:
                buf += bytes([1, 30]) + b'ab'
            yield self.table(v, bytes(buf), fmt=3, extra=1)

    def giant(self, n=None):
        """tables of more than 4 GiB: offsets and lengths that do not fit into 32 bits"""
        r = self.rng
        top = 1 << 32
        v = lambda: '%d %d' % r.choice([(3, 0), (3, 4), (2, 8)])
        # no types that are decoded: their strings would have to be looked at
        head = lambda ln, t=None: bytes([t or r.choice([126, 200, 255, 127, 44]), ln, r.randrange(256), r.randrange(256)])
        small = lambda ln, t=None: head(ln, t) + bytes(r.randrange(1, 256) for _ in range(ln - 4)) + b'a\0\0'
        first = lambda ln=4: head(ln, 130) + b'x' * (ln - 4)
        case = lambda decl, size, *parts: 'G %s %d %d %s' % (v(), decl, size, ' '.join('%d:%s' % (a, b.hex()) for a, b in parts))
        d = r.randrange(0, 90)
        # where the second structure begins, counted back from 2^32
        second = lambda back, body, decl=top - 1, size=top + 5000: case(decl, size, (0, first()), (top - back - 2, b'\0\0' + body))
        some = [
            # the strings of the first structure end behind 2^32
            case(top - 1, top + 5000, (0, first(9)), (top + d, b'\0\0' + small(12))),
            # the formatted section ends before the end of what is declared, its strings behind 2^32
            second(21, small(18, 200) + small(9)),
            # the strings of the first structure end behind 2^32, and little is declared
            case(r.choice([64, 5000]), top + 5000, (0, first(9)), (top + r.randrange(4, 60), b'\0\0' + small(8, 131) + small(4, 131))),
            # a structure that begins before 2^32 and would end behind it
            second(10 + r.randrange(60), first(200)),
            # its formatted section ends with what is declared
            second(19, small(18, 200) + small(9)),
            # fewer than four bytes are left
            second(r.choice([3, 2, 1, 4]), small(40)),
            second(5, small(4)),
            # no strings end at all
            case(top - 1, top + 5000, (0, first(5))),
            case(top - 1, top - 1, (0, first(5)), (top - 30, b'\0\0' + first(6))),
            # the end of what is there, with more declared
            case(top - 1, top - 40, (0, first(5)), (top - 60, b'\0\0' + small(4, 200) + b'\0\0' + b'xy')),
            # several structures on both sides of 2^31
            case(top - 1, (1 << 31) + 900, (0, first()), ((1 << 31) - 20, b'\0\0' + small(9, 200) + small(40, 201) + small(4, 202) + first(9))),
        ]
        yield from (some if n is None else some[:2] + r.sample(some[2:], n - 2))

    def crowded(self, n):
        """tables of very many structures"""
        r = self.rng
        for i in range(n):
            v = [(3, 1), (2, 8), (3, 4)][i % 3]
            count, fmt = [(65600, 3), (10000, 2), (33000, 3)][i % 3]
            one = [bytes([t, 4, j & 255, j >> 8, 0, 0]) for t in (126, 200) for j in (0, 1, 0xFFFF)]
            buf = b''.join(one[(j * j) % 6] for j in range(count)) + self.piece('good', v)
            yield self.table(v, buf + r.choice([b'', self.raw([127, 4, 9, 9], [])]), fmt=fmt, extra=1)

    def dumps(self, n, data):
        """real dumps, unchanged and with some bytes changed"""
        r = self.rng
        files = [(f, v) for f, vs in (('dmi.bin', [(2, 1), (2, 7), (3, 0)]), ('dmi.0.bin', [(2, 8), (2, 3), (3, 2)]),
                                      ('dmi_v3.bin', [(3, 0), (3, 2), (2, 8)]), ('dmi_v3_short.bin', [(3, 0), (3, 1)]),
                                      ('dmidecode.bin', [(2, 4), (3, 1)])) for v in vs]
        bufs = {f: open(os.path.join(data, f), 'rb').read() for f, _ in files}
        bufs['dmidecode.bin'] = bufs['dmidecode.bin'][32:]
        for f, v in files:
            yield self.table(v, bufs[f], fmt=3, extra=1)
        for i in range(n):
            f, v = files[i % len(files)]
            b = bytearray(bufs[f])
            start = r.randrange(0, len(b))
            if r.random() < .7:   # a part of the dump, to keep cases small
                # start at a structure
                offs, o = [], 0
                while o + 4 < len(b):
                    offs.append(o)
                    z = b.find(b'\0\0', o + b[o + 1])
                    if z < 0:
                        break
                    o = z + 2
                s = r.choice(offs)
                b = b[s:s + r.choice([120, 300, 600])]
            for _ in range(r.choice([0, 1, 1, 2, 4, 10])):
                b[r.randrange(len(b))] = r.choice([0, 1, 4, 255, 254, 127, 128, r.randrange(256)])
            d = len(b) if r.random() < .8 else r.randint(0, len(b) + 10)
            yield self.table(r.choice([v, r.choice(VERSIONS)]), bytes(b), decl=d, fmt=r.choice([2, 3]), extra=1)

    def noise(self, n):
        r = self.rng
        for _ in range(n):
            ln = r.choice([0, 1, 3, 4, 5, 8, 20, 60, 200])
            b = r.randbytes(ln) if r.random() < .3 else bytes(r.choices([0, 0, 1, 2, 4, 5, 6, 9, 17, 127, 255, 65], k=ln))
            yield self.table(r.choice(VERSIONS), b, decl=r.choice([ln, ln, ln + 4, max(0, ln - 1), 0xFFFFFFFF]), fmt=r.choice([2, 3]), extra=1)

    def endmarks(self, n):
        """end-of-table structures at all places, all lengths, followed by more"""
        r = self.rng
        for _ in range(n):
            v = r.choice([(2, 0), (2, 8), (2, 255), (3, 0), (3, 5), (4, 0), (255, 0)])
            b = b''
            for _ in range(r.randint(0, 2)):
                b += self.piece(r.choice(['tiny', 'good', 'raw', 'badlen', 'badstr']), v)
            b += self.raw(self.body(127, v, r.choice([4, 4, 4, 5, 20, 127, 128, 254, 255, r.randint(4, 255)]), 0), r.choice([[], [b'end'], [b'x' * r.randint(1, 300)]]))
            for _ in range(r.randint(0, 3)):
                b += self.piece(r.choice(['tiny', 'good', 'raw', 'end', 'badstr', 'short0']), v)
            yield self.table(v, b, decl=len(b) + r.choice([0, 0, 0, 50, -1]), fmt=r.choice([2, 3]), extra=3)

    def contexts(self, n):
        """the same structure alone, and between others"""
        r = self.rng
        for _ in range(n):
            v = r.choice(COMMON)
            x = self.piece(r.choice(['good', 'good', 'badstr', 'badlen', 'text', 'nuls']), v)
            yield self.single(v, x)
            a = b''.join(self.piece(r.choice(['good', 'badstr', 'raw', 'tiny', 'badlen', 'text']), v) for _ in range(r.randint(1, 3)))
            z = b''.join(self.piece(r.choice(['good', 'badstr', 'raw', 'tiny']), v) for _ in range(r.randint(1, 2)))
            yield self.table(v, a + x + z)
            yield self.table(v, x + x + z)
            if r.random() < .4:
                # with the handle of their neighbours, with end-of-table structures among them
                ks = [x] + [self.piece(r.choice(['good', 'end', 'end', 'tiny', 'raw', 'badstr']), v) for _ in range(3)]
                r.shuffle(ks)
                h = r.choice([x[2:4], b'\0\0', b'\xff\xff'])
                yield self.table(v, b''.join(k[:2] + h + k[4:] for k in ks))

    # --- search ----------------------------------------------------------------------------------
    def ep(self, fmt, length=None, good=True, major=None):
        r = self.rng
        mn = 31 if fmt == 2 else 24
        length = mn if length is None else length
        b = bytearray(r.randbytes(max(length, mn)))
        if fmt == 2:
            b[:4] = b'_SM_'
            b[5], b[6] = length, (r.choice([2, 2, 3, 255]) if major is None else major)
            at = 4
            if r.random() < .8:
                b[16:21] = b'_DMI_'
        else:
            b[:5] = b'_SM3_'
            b[6], b[7] = length, (r.choice([3, 3, 2, 4, 255]) if major is None else major)
            at = 5
        b[at] = 0
        b[at] = (-sum(b[:length])) & 255 if at < length else r.randrange(256)
        if not good:
            j = r.choice([i for i in range(len(b)) if i not in (0, 1, 2, 3, 4, 5, 6, 7)])
            b[j] = (b[j] + r.randint(1, 255)) & 255
        return bytes(b)

    def search(self, n):
        r = self.rng
        for i in range(n):
            fmt = r.choice([2, 3])
            mn = 31 if fmt == 2 else 24
            k = i % 14
            lead = b''.join(r.choice([bytes(16), r.randbytes(16), b'x' * 16, b'_SM' + r.randbytes(13), b'\0_SM_' + r.randbytes(11), b'_SM3' + b'x' * 12])
                            for _ in range(r.choice([0, 0, 1, 2, 5, 20])))
            tail = r.choice([b'', b'', bytes(1), r.randbytes(7), r.randbytes(40), bytes(200)])
            if k < 3:
                b = lead + self.ep(fmt) + tail
            elif k == 3:    # longer than the minimum
                b = lead + self.ep(fmt, length=r.choice([mn + 1, mn + 5, 64, 127, 128, 200, 254, 255])) + tail
            elif k == 4:    # bad sum
                b = lead + self.ep(fmt, good=False) + tail
            elif k == 5:    # old
                b = lead + self.ep(fmt, major=r.choice([0, 1])) + tail
            elif k == 6:    # declared too small, sum right over what is declared
                b = lead + self.ep(fmt, length=r.choice([0, 1, 5, 6, 7, mn - 1, mn - 2, 16, 23, 24])) + tail
            elif k == 7:    # cut
                e = self.ep(fmt, length=r.choice([mn, mn, mn + 4, 200, 255]))
                b = lead + e[:r.randint(0, len(e))]
            elif k == 8:    # exactly at the end / one missing / much too long
                e = self.ep(fmt, length=r.choice([mn, mn + 1, 255]))
                b = lead + e[:len(e) - r.choice([0, 1, 2])]
            elif k == 9:    # unaligned, then perhaps aligned
                b = lead + bytes(r.randint(1, 15)) + self.ep(fmt) + r.choice([b'', bytes(40)])
                b += bytes(-len(b) % 16) + r.choice([b'', self.ep(r.choice([2, 3]))])
            elif k == 10:   # several anchors
                b = lead
                for _ in range(r.randint(2, 4)):
                    e = r.choice([self.ep(2), self.ep(3), self.ep(2, good=False), self.ep(3, major=1), self.ep(3, length=200), self.ep(2, length=10),
                                  b'_SM_', b'_SM3_', b'_SM_' + bytes(12)])
                    b += e + bytes(-len(e) % 16)
                b += tail
            elif k == 11:   # no anchor
                b = lead + r.choice([b'', b'_SM', b'_SM2_', b'_sm_' + bytes(40), b'_DMI_' + bytes(40), b'\0_SM_', b'SM_'])
            elif k == 12:   # several things wrong
                b = lead + self.ep(fmt, length=r.choice([3, mn, 250]), good=False, major=r.choice([0, 1, 2]))[:r.choice([4, 5, 6, 7, 8, 20, 24, 30, 31, 300])] + tail
            else:           # large distance, more than 255 bytes after
                b = lead * r.choice([1, 30]) + self.ep(fmt, length=r.choice([mn, 100])) + r.randbytes(r.choice([0, 225, 250, 256, 300, 512, 1000]))
            yield 'S ' + (b.hex() or '-')

    def sums(self, n):
        """one bit of an accepted entry point changed; every byte position"""
        r = self.rng
        for _ in range(n):
            fmt = r.choice([2, 3])
            e = self.ep(fmt, length=r.choice([31, 31, 24, 40, 255]) if fmt == 3 else r.choice([31, 32, 255]))
            for i in range(len(e) * 8):
                if r.random() < 0.15:
                    x = bytearray(e)
                    x[i // 8] ^= 1 << (i % 8)
                    yield 'S ' + bytes(x).hex()

    def anchored(self, shape):
        """a search buffer of an abstract shape: sequence of chunk kinds (spec/GenSearch.tla)"""
        r = self.rng
        b = b''
        for k in shape['p']:
            fmt = 2 if k.endswith('2') else 3
            mn = 31 if fmt == 2 else 24
            if k == 'fill':
                b += r.choice([bytes(16), r.randbytes(16), b' _SM_' + bytes(11), b'_SM' + bytes(13)])
                continue
            if k.startswith('good'):
                e = self.ep(fmt)
            elif k.startswith('long'):
                e = self.ep(fmt, length=r.choice([48, 64, 96]))
            elif k.startswith('sum'):
                e = self.ep(fmt, good=False)
            elif k.startswith('old'):
                e = self.ep(fmt, major=r.choice([0, 1]))
            elif k.startswith('small'):
                e = self.ep(fmt, length=r.choice([0, 7, mn - 1]))
            elif k.startswith('over'):
                e = self.ep(fmt, length=255)[:mn]
            elif k.startswith('skew'):
                e = bytes(r.randint(1, 15)) + self.ep(fmt)
            b += e + bytes(-len(e) % 16)
        if shape['c'] == 'cut':
            b = b[:max(0, len(b) - r.randint(1, 40))]
        elif shape['c'] == 'last':
            b = b.rstrip(b'\0')
        elif shape['c'] == 'tail':
            b += r.randbytes(r.choice([1, 15, 16, 300]))
        return 'S ' + (b.hex() or '-')

    # --- more entry points -----------------------------------------------------------------------
    def lengths_ep(self):
        """every declared length with enough bytes behind it, both formats"""
        for fmt in (2, 3):
            for n in range(256):
                yield 'S ' + (self.ep(fmt, length=n) + bytes(self.rng.choice([0, 0, 1, 300]))).hex()

    def versions_ep(self):
        """declared lengths around the smallest one under every published version, with all kinds of sums"""
        r = self.rng
        for fmt, mn in ((2, 31), (3, 24)):
            for major, minor in [(2, x) for x in range(9)] + [(3, x) for x in range(9)] + [(1, 0), (1, 255), (0, 2), (4, 0), (255, 255)]:
                for n in (mn - 8, mn - 2, mn - 1, mn, mn + 1):
                    b = bytearray(self.ep(fmt, length=n, major=major))
                    b += r.randbytes(4)
                    b[7 if fmt == 2 else 8] = minor
                    chk = 4 if fmt == 2 else 5
                    for over in {n, mn, n + 1}:
                        b[chk] = 0
                        b[chk] = -sum(b[:over]) & 255
                        yield 'S ' + bytes(b).hex()

    def prefixes(self, n):
        """an entry point cut after every byte"""
        for i in range(n):
            e = self.ep(2 + i % 2, length=self.rng.choice([31, 31, 40]) if i % 2 == 0 else self.rng.choice([24, 31, 50]))
            lead = bytes(16 * self.rng.choice([0, 0, 1, 3]))
            for k in range(len(e) + 1):
                yield 'S ' + ((lead + e[:k]).hex() or '-')

    def far(self, n):
        """anchors far into the buffer, at and around powers of two, with false anchors before"""
        r = self.rng
        spots = [0xF0, 0x100, 0x110, 0xFF0, 0x1000, 0x7FF0, 0x8000, 0xFFD0, 0xFFE0, 0xFFF0, 0x10000, 0x10010, 0x1FFF0, 0x20000, 0x30010]
        for i in range(n):
            at = spots[i % len(spots)]
            b = bytearray(at)
            for _ in range(r.randint(0, 6)):
                j = r.randrange(0, max(1, at - 40))
                if j % 16 == 0:
                    j += r.randint(1, 15)
                e = r.choice([self.ep(2), self.ep(3), b'_SM_', b'_SM3_', b'_SM'])
                if j + len(e) < at:
                    b[j:j + len(e)] = e
            for j in range(0, at, 16):   # no true anchor before
                if b[j:j + 4] == b'_SM_' or b[j:j + 5] == b'_SM3_':
                    b[j] = 0
            fmt = r.choice([2, 3])
            k = r.random()
            e = self.ep(fmt, length=r.choice([None, 64, 255])) if k < .5 else self.ep(fmt, good=False) if k < .65 else \
                self.ep(fmt, major=r.choice([0, 1])) if k < .75 else self.ep(fmt, length=r.choice([5, 200]))[:r.choice([10, 31])] if k < .85 else b''
            e += r.choice([b'', bytes(1), bytes(300)]) if k < .75 else b''
            yield 'S ' + bytes(b + e).hex()

    def vast(self, n=None):
        """buffers of more than 1 MiB, 2 GiB and 4 GiB, with an anchor at and behind those"""
        r = self.rng
        M, G2, G4 = 1 << 20, 1 << 31, 1 << 32
        false = lambda: r.choice([self.ep(2), self.ep(3), b'_SM_', b'_SM3_'])
        case = lambda size, *parts: 'H %d %s' % (size, ' '.join('%d:%s' % (a, b.hex()) for a, b in sorted(parts)))
        def one(at, kind, tail=5000):
            fmt = r.choice([2, 3])
            e = self.ep(fmt, length=r.choice([None, 40, 255])) if kind == 'good' else self.ep(fmt, good=False) if kind == 'sum' else \
                self.ep(fmt, major=r.choice([0, 1])) if kind == 'old' else self.ep(fmt, length=r.choice([5, 20]))
            parts = [(at, e)]
            for _ in range(3):
                o = r.randrange(at // 64 or 1) * 16 + r.randint(1, 15)
                if all(abs(o - a) > 300 for a, _ in parts):
                    parts.append((o, false()))
            if kind == 'cut':
                parts[0] = (at, e[:r.randint(4 if fmt == 2 else 5, len(e) - 1)])
                return case(at + len(parts[0][1]), *parts)
            if at > 5000:   # a true anchor behind it has no say
                parts.append((at + 4000, false()))
            return case(at + tail, *parts)
        some = [one(G4 + 16 * r.randrange(200), 'good'), one(M + r.choice([-16, 0, 16]), 'good'), one(G2 + r.choice([-16, 0, 16]), 'good'),
                one(G4 - 16, 'good'), one(G4, 'sum'), one(G4 + 32, 'old'), one(G4 + 64, 'short'), one(G4 + 80, 'cut'), one(M, 'sum'), one(M, 'good'),
                one(16 * M, 'good'), one(M + 160, 'old'), one(M - 16, 'cut'),
                case(G4 + 100, (G4 + 7, false()), (G2 + 5, false())), case(M + 100, (M + 9, false())), case(G4 - 1, (G4 - 17, b'_SM'), (77, false()))]
        yield from (some if n is None else some[:2] + r.sample(some[2:], n - 2))

    def valid_eps(self, n):
        """accepted entry points with random fields; one field at a time at its extremes"""
        r = self.rng
        spans = {2: [(6, 1), (7, 1), (8, 2), (10, 1), (11, 5), (16, 5), (21, 1), (22, 2), (24, 4), (28, 2), (30, 1)],
                 3: [(7, 1), (8, 1), (9, 1), (10, 1), (11, 1), (12, 4), (16, 8)]}
        for i in range(n):
            fmt = 2 + i % 2
            mn = 31 if fmt == 2 else 24
            ln = r.choice([mn, mn, mn, mn + 1, mn + r.randint(0, 60)])
            b = bytearray(r.randbytes(ln))
            a = b'_SM_' if fmt == 2 else b'_SM3_'
            b[:len(a)] = a
            o, w = r.choice(spans[fmt])
            m = r.random()
            if m < .5:
                b[o:o + w] = r.choice([bytes(w), b'\xff' * w, (1 << r.randrange(8 * w)).to_bytes(w, 'little'), bytes(range(1, w + 1))])
            at, chk, maj = (5, 4, 6) if fmt == 2 else (6, 5, 7)
            b[at] = ln
            if b[maj] < 2:
                b[maj] = r.choice([2, 3, 255])
            b[chk] = 0
            b[chk] = -sum(b) & 255
            yield 'S ' + (r.choice([b'', bytes(16), r.randbytes(16).replace(b'_', b'-')]) + bytes(b) + r.choice([b'', r.randbytes(5), bytes(300)])).hex()

    # --- more structures -------------------------------------------------------------------------
    def utf8(self, n, types=None):
        """string-sets at the edges of what is text"""
        r = self.rng
        edge = [0x7f, 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xc0, 0xc1, 0xc2, 0xdf, 0xe0, 0xe1, 0xec, 0xed, 0xee, 0xef, 0xf0, 0xf1, 0xf3, 0xf4, 0xf5, 0xff, 0x41]
        ts = types or [t for t in self.layout if self.layout[t]['strings']] + [11, 12, 13]
        for i in range(n):
            t = ts[i % len(ts)]
            v = r.choice(COMMON)
            k = r.randint(1, 4)
            ss = self.strings(k)
            for _ in range(r.choice([1, 1, 2])):
                ss[r.randrange(k)] = bytes(r.choice(edge) for _ in range(r.randint(1, 5)))
            b = self.body(t, v, self.full(t, v), k)
            for o in self.layout[t]['strings']:
                if o < len(b):
                    b[o] = r.randint(0, k)
            if t in (11, 12):
                if len(b) > 4:
                    b[4] = r.randint(0, k)
            yield self.single(v, self.raw(b, ss))

    def edges(self, per=1, types=None):
        """strings that begin or end with, or consist of, any one byte; blanks and controls kept as they are"""
        r = self.rng
        ts = types or [t for t in self.layout if self.layout[t]['strings']] + [11, 12, 13]
        odd = [b'\r', b'\n', b'\r\n', b'\t', b' ', b'  ', b'\x0b', b'\x0c', b'\x1f', b'\x7f', b'\xc2\xa0', b'\xef\xbb\xbf', b'\xe2\x80\x8b',
               b'\xe3\x80\x80', b'\xff', b'"', b'\\', b'%s', b'{}', b'Not Specified', b'None', b'N/A', b'.', b'\xc2\x85', b'\xef\xbf\xbd']
        for e in [bytes([x]) for x in range(1, 256)] + odd:
            for form in (lambda s: s + e, lambda s: e + s, lambda s: e, lambda s: s + e + s, lambda s: e + s + e):
                for _ in range(per):
                    t = r.choice(ts)
                    v = r.choice(COMMON)
                    k = r.randint(1, 4)
                    ss = self.strings(k)
                    j = r.randrange(k)
                    ss[j] = form(ss[j][:20] if max(ss[j]) < 128 else b'abc')
                    b = self.body(t, v, self.full(t, v), k)
                    for o in self.layout[t]['strings']:
                        if o < len(b):
                            b[o] = r.choice([j + 1, j + 1, r.randint(0, k)])
                    if t in (11, 12) and len(b) > 4:
                        b[4] = k
                    yield self.single(v, self.raw(b, ss))

    def batteries(self, n):
        """all dates and serial numbers"""
        r = self.rng
        for _ in range(n):
            v = r.choice([(2, 2), (2, 7), (3, 0), (3, 4)])
            ss = self.strings(3)
            b = self.body(22, v, 26, 3)
            b[6] = r.choice([0, 0, 0, 1])
            b[7] = r.choice([0, 0, 0, 2])
            b[9] = r.choice([2, 2, r.randrange(256)])
            b[16:18] = r.choice([r.randbytes(2), bytes([r.randrange(256), 0]), bytes([r.randrange(16), 0])])
            b[18:20] = r.randbytes(2)
            yield self.single(v, self.raw(b, ss))

    def extroms(self, n):
        """BIOS ROM sizes inside a structure"""
        r = self.rng
        for _ in range(n):
            v = r.choice([(2, 4), (2, 8), (3, 0), (3, 1), (3, 2), (4, 0)])
            ln = r.choice([18, 20, 24, 25, 26, 26, 26, 27])
            b = self.body(0, v, ln, 3)
            b[9] = r.choice([0, 1, 254, 255, 255, 255, r.randrange(256)])
            if ln > 25:
                b[24:26] = r.choice([r.randrange(32768), 0, 1, 0x4000, 0x7fff, 0x3fff, 16]).to_bytes(2, 'little')
            yield self.single(v, self.raw(b, self.strings(3)))

    def everyraw(self):
        """undecoded types with every length"""
        r = self.rng
        others = [t for t in range(256) if t not in self.layout]
        for t in others:
            for _ in range(20):
                v = r.choice(VERSIONS)
                yield self.single(v, self.struct(t, v, ln=r.randint(4, 255), nstr=r.choice([0, 1, 3])))

    def everypair(self, per=1):
        """structures that differ in one byte, for every byte of every full structure"""
        r = self.rng
        for t in list(self.layout) + [126]:
            for v in ((3, 2),) if per == 1 else ((3, 2), (2, 7), (2, 1), (3, 4)):
                ln = self.full(t, v) if t in self.layout else 20
                ss = self.strings(4)
                a = self.body(t, v, ln, 4)
                for o in range(2, ln):
                    b = bytearray(a)
                    b[o] ^= 1 << r.randrange(8)
                    yield 'E %d %d %s %s' % (v[0], v[1], self.raw(a, ss).hex(), self.raw(b, ss).hex())

    # --- values that stand in the sources ----------------------------------------------------------
    def around(self, lo, hi):
        """numbers of the sources and their neighbours"""
        return sorted({x for n in self.nums for x in (n - 1, n, n + 1) if lo <= x <= hi})

    def named(self, n=None):
        """every wide field with every number of the sources"""
        r, out = self.rng, []
        for t, lay in self.layout.items():
            for row in lay['rows']:
                if row['w'] < 2 or row['k'] == 'str':
                    continue
                for x in self.around(256, (1 << 8 * row['w']) - 1):
                    out.append((t, row, x, 'little'))
                if row['w'] <= 4:
                    for x in self.around(0, 255):
                        out.append((t, row, x, 'little'))
        for t, row, x, order in out if n is None or len(out) <= n else r.sample(out, n):
            v = r.choice([v for v in COMMON if enc(v) >= max(row['v'], 513)])
            by = x.to_bytes(row['w'], order)
            yield from self.at_offset(t, v, {row['o'] + i: by[i] for i in range(row['w'])})

    def bytewise(self, n=None, kinds=('u8',)):
        """every value of one-byte fields (kinds = None: of every byte of the section)"""
        r, out = self.rng, []
        for t, lay in self.layout.items():
            if kinds is None:
                offs = {(o, 0) for o in range(4, min(255, lay['longest'] + 2))}
            else:
                offs = {(row['o'], row['v']) for row in lay['rows'] if row['w'] == 1 and row['k'] in kinds}
            out += [(t, o, since, x) for o, since in sorted(offs) for x in range(256)]
        for t, o, since, x in out if n is None or len(out) <= n else r.sample(out, n):
            v = r.choice([v for v in COMMON if enc(v) >= max(since, 513)])
            yield from self.at_offset(t, v, {o: x})

    def echoes(self, n=None):
        """fields of the same value as another field, as its complement, as the handle, or as the length"""
        r, out = self.rng, []
        for t, lay in self.layout.items():
            rows = [row for row in lay['rows'] if row['k'] != 'str' and 0 < row['w'] <= 8]
            for a in rows:
                for b in rows:
                    if a['o'] < b['o']:
                        out.append((t, a, b))
                out.append((t, a, None))
        for t, a, b in out if n is None or len(out) <= n else r.sample(out, n):
            v = r.choice([v for v in COMMON if enc(v) >= max(a['v'], b['v'] if b else 0, 513)])
            ln = self.full(t, v)
            q = self.body(t, v, ln, 4)
            if a['o'] + a['w'] > ln or b and b['o'] + b['w'] > ln:
                continue
            val = bytes(q[a['o']:a['o'] + a['w']])
            if b is None:
                x = r.choice([q[2] + 256 * q[3], ln, t, ln - 4])
                q[a['o']:a['o'] + a['w']] = x.to_bytes(8, 'little')[:a['w']]
            else:
                if r.random() < .15:
                    val = bytes(255 - x for x in val)
                q[b['o']:b['o'] + b['w']] = (val + bytes(8))[:b['w']]
            yield self.single(v, self.raw(q, self.strings(4)))

    EVERY = [(2, x) for x in range(0, 17)] + [(3, x) for x in range(0, 13)] + [(4, x) for x in range(0, 4)] + \
            [(2, 20), (2, 32), (2, 100), (2, 127), (2, 128), (2, 254), (2, 255), (3, 16), (3, 99), (3, 128), (3, 255), (5, 0), (9, 9), (10, 0), (16, 0),
             (127, 1), (128, 0), (254, 0), (255, 0), (255, 255)]

    def everyversion(self, per=1):
        """every version that was ever published, and some that were not"""
        for t in self.layout:
            for v in self.EVERY:
                for _ in range(per):
                    yield self.single(v, self.struct(t, v, self.full(t, v), nstr=5))
                    yield self.single(v, self.struct(t, v, self.good_len(t, v, long=True)))

    def sizes(self, n, types=None):
        """long strings, many strings, structures far into the table: sizes at and around powers of two and numbers of the sources"""
        r = self.rng
        ns = sorted(set(self.around(24, 9000)) | {x for k in range(5, 14) for x in ((1 << k) - 1, 1 << k, (1 << k) + 1)})
        ts = types or [t for t in self.layout if self.layout[t]['strings']] + [11, 12, 13]
        for i in range(n):
            v = r.choice(COMMON)
            t = r.choice(ts)
            k = r.choice(ns)
            b = self.body(t, v, self.full(t, v), 2)
            ss = self.strings(r.randint(0, 3))
            m = i % 4
            if i % 80 == 0:
                k = r.choice([32767, 32768, 65534, 65535, 65536, 65537, 70000])
            if m < 2:      # one long string
                j = r.randint(0, len(ss))
                ss.insert(j, r.choice([b'x' * k, bytes(r.choices(b'abcdefgh ', k=k)), ('\u00e9' * k).encode()[:k + k % 2], b'x' * (k - 3) + '\u6f22'.encode()]))
                for o in self.layout[t]['strings']:
                    if o < len(b):
                        b[o] = r.choice([j + 1, j + 1, r.randint(0, len(ss))])
                if t in (11, 12) and len(b) > 4:
                    b[4] = len(ss)
                yield self.single(v, self.raw(b, ss))
            elif m == 2:   # many strings
                k = min(k, 400)
                ss = [b'%d' % x for x in range(1, k + 1)]
                for o in self.layout[t]['strings']:
                    if o < len(b):
                        b[o] = r.choice([k, k + 1, k - 1, 1, r.randint(0, k)]) & 255
                if t in (11, 12) and len(b) > 4:
                    b[4] = r.choice([k & 255, 255, min(k, 255)])
                yield self.single(v, self.raw(b, ss))
            else:          # the structure begins at offset k
                lead = b''
                while len(lead) < k:
                    room = k - len(lead)
                    ln = room - 2 if room < 250 else r.choice([100, 200])
                    if ln < 4:
                        break
                    if room < 250:
                        one = self.raw(self.body(200, v, ln, 0), [])
                    else:
                        one = self.raw(self.body(126, v, ln, 0), [b'z' * min(4000, room - ln - 12)] if room > ln + 20 and r.random() < .8 else [])
                        if len(lead) + len(one) > k - 6 and len(lead) + len(one) != k:
                            one = self.raw(self.body(200, v, 50, 0), [])
                    lead += one
                for o in self.layout[t]['strings']:
                    if o < len(b):
                        b[o] = r.randint(0, len(ss))
                if t in (11, 12) and len(b) > 4:
                    b[4] = len(ss)
                yield self.table(v, lead + self.raw(b, ss) + self.piece('tiny', v), extra=1)

    def terminators(self, n=None):
        """double NULs at and around powers of two, counted from the strings, the structure and the table"""
        r = self.rng
        ks = [(1 << k) + d for k in range(3, 17) for d in (-3, -2, -1, 0, 1)]
        for k in ks if n is None else [x for x in ks if 4093 <= x <= 4097] + [65540, 66000] + r.sample(ks, n):
            v = r.choice([(2, 4), (3, 0), (3, 3)])
            t, ln = r.choice([200, 126, 33]), r.choice([4, 4, 9, 100, 255])
            lead = self.piece('tiny', v) if r.random() < .5 else b''
            m = max(1, k - r.choice([0, 0, ln, ln + len(lead)]))
            ss = [b'y' * m] if r.random() < .6 or m < 3 else [b'z' * (m // 2), b'y' * (m - m // 2 - 1)]
            b = lead + self.raw(self.body(t, v, ln, 0), ss)
            k = r.random()
            if k < .4:
                yield self.table(v, b + self.piece('tiny', v) + self.piece('good', v), fmt=3, extra=1)
            elif k < .8:
                yield self.table(v, b, fmt=3, extra=1)
            else:
                yield self.table(v, b[:-1], fmt=3, extra=1)

    def late(self, n, most=300):
        """structures of all kinds after many others, of the same kind and of others"""
        r = self.rng
        for _ in range(n):
            v = r.choice(COMMON)
            k = r.choice([10, 17, 33, 65, 129, 257, most])
            few = [self.piece(r.choice(['good', 'good', 'tiny', 'raw', 'badlen', 'badstr']), v) for _ in range(3)]
            few = [x for x in few if len(x) < 200] or [self.piece('tiny', v)]
            buf = b''.join(few[(j * j) % len(few)] for j in range(k))
            buf += b''.join(self.piece(r.choice(['good', 'badstr', 'badlen', 'raw', 'text']), v) for _ in range(3))
            yield self.table(v, buf, fmt=3 if len(buf) > 60000 else None)

    def dates(self):
        """every day and month, every year"""
        r = self.rng
        for x in [(r.randrange(128) << 9) | md for md in range(512)] + [(y << 9) | r.randrange(512) for y in range(128)] + [(y << 9) | 0x21 for y in range(128)]:
            v = r.choice([(2, 2), (2, 7), (3, 0), (3, 4)])
            b = self.body(22, v, 26, 3)
            b[6] = 0
            b[18:20] = x.to_bytes(2, 'little')
            yield self.single(v, self.raw(b, self.strings(3)))

    def bitpairs(self, n=None):
        """flag words and bit-fields with two bits, and with all but two"""
        r, out = self.rng, []
        for t, lay in self.layout.items():
            rows = [(q['o'], q['w'], q['v']) for q in lay['rows'] if q['k'] == 'mask' or q['g'] == 'b']
            rows += {13: [(5, 1, 513)], 4: [(17, 1, 0), (24, 1, 0)], 7: [(5, 2, 0)], 15: [(11, 1, 0)]}.get(t, [])
            for o, w, since in rows:
                top = (1 << 8 * w) - 1
                for i in range(8 * w):
                    for j in range(i):
                        out += [(t, o, w, since, 1 << i | 1 << j), (t, o, w, since, top ^ (1 << i | 1 << j))]
        for t, o, w, since, x in out if n is None or len(out) <= n else r.sample(out, n):
            v = r.choice([v for v in COMMON if enc(v) >= max(since, 513)])
            by = x.to_bytes(w, 'little')
            yield from self.at_offset(t, v, {o + i: by[i] for i in range(w)})

    def spoken(self, n=None, types=None):
        """strings that stand in the sources"""
        r = self.rng
        ts = types or [t for t in self.layout if self.layout[t]['strings']] + [11, 12, 13]
        for e in self.texts if n is None or len(self.texts) <= n else r.sample(self.texts, n):
            t = r.choice(ts)
            v = r.choice(COMMON)
            ss = self.strings(r.randint(0, 3))
            j = r.randint(0, len(ss))
            ss.insert(j, e)
            b = self.body(t, v, self.full(t, v), len(ss))
            for o in self.layout[t]['strings']:
                if o < len(b):
                    b[o] = r.choice([j + 1, j + 1, r.randint(0, len(ss))])
            if t in (11, 12) and len(b) > 4:
                b[4] = len(ss)
            yield self.single(v, self.raw(b, ss))

    def allbits(self, n=None):
        """pairs that differ in one bit, for every bit of every full structure"""
        r, out = self.rng, []
        for t in list(self.layout) + [126]:
            for v in ((3, 2), (2, 1)):
                ln = self.full(t, v) if t in self.layout else 20
                a, ss = self.body(t, v, ln, 4), self.strings(4)
                out += [(v, a, ss, o, i) for o in range(2, ln) for i in range(8)]
        for v, a, ss, o, i in out if n is None or len(out) <= n else r.sample(out, n):
            b = bytearray(a)
            b[o] ^= 1 << i
            yield 'E %d %d %s %s' % (v[0], v[1], self.raw(a, ss).hex(), self.raw(b, ss).hex())

    # --- raw structures, pairs, copies, values ---------------------------------------------------
    def rawops(self, n):
        r = self.rng
        big = [2 ** 64 - 1, 2 ** 64 - 2, 2 ** 64 - 4, 2 ** 64 - 5, 2 ** 63, 2 ** 32, 2 ** 32 - 1, 2 ** 32 + 4, 65535, 65536, 65540, 256, 260, 255]
        for _ in range(n):
            ln = r.choice([4, 5, 6, 7, 8, 11, 12, 13, 20, 21, 36, 100, 255, r.randint(4, 60)])
            k = r.choice([0, 1, 3, 6])
            ss = self.strings(k)
            if ss and r.random() < .3:
                ss[r.randrange(k)] = r.choice(BAD)
            if r.random() < .08:
                k = r.choice([17, 33, 65, 127, 128, 129, 254, 255, 256, 300])
                ss = [b'%d' % x for x in range(1, k + 1)]
            b = self.body(r.choice([126, 127, 32, 200, 128, 255]), (2, 4), ln, k)
            for o in range(4, ln):
                if r.random() < .3:
                    b[o] = r.choice([0, 1, 2, k, k + 1, 255]) & 255
            ops = []
            for o in list(range(0, min(ln, 16) + 4)) + [ln - 17, ln - 16, ln - 15, ln - 9, ln - 8, ln - 7, ln - 4, ln - 3, ln - 2, ln - 1, ln, ln + 1]:
                if o >= 0:
                    for g in ('g1', 'g2', 'g4', 'g8', 'g16', 't'):
                        if r.random() < .35:
                            ops.append('%s:%d' % (g, o))
                    for sz in (0, 1, 2, ln - o - 1, ln - o, ln - o + 1, 2 ** 64 - 1, 2 ** 64 - o, 255, 256 - o):
                        if sz >= 0 and r.random() < .25:
                            ops.append('s:%d:%d' % (o, min(sz, 2 ** 64 - 1)))
            for o in big:
                ops.append('%s:%d' % (r.choice(['g1', 'g2', 'g4', 'g8', 'g16', 't']), o))
                ops.append('s:%d:%d' % (o, r.choice([0, 1, 4, 5, 2 ** 64 - 1, 2 ** 63])))
            for i in {0, 1, 2, k & 255, (k - 1) & 255, (k + 1) & 255, 64, 128, 254, 255}:
                ops.append('f:%d' % i)
            for w in (1, 2, 4, 8, 16):
                for sz in {0, 1, w - 1, w, w, w + 1, 2 * w, r.randint(0, 17)}:
                    if sz <= ln - 4:
                        ops.append('c%d:%d:%d' % (w, r.randint(0, ln - 4 - sz), sz))
            yield 'R 2 4 %s %s' % (self.raw(b, ss).hex(), ' '.join(ops))

    def pairs(self, n):
        """two structures under one version: the same, or different in one place"""
        r = self.rng
        ts = list(self.layout) + [126, 32, 200]
        for i in range(n):
            t = ts[i % len(ts)]
            v = r.choice(COMMON + [(3, 2), (3, 4)])
            if t == 9:
                v = r.choice([(3, 2), (3, 4), (2, 1)])
            if t == 22 and r.random() < .6:
                v = (2, 6)
            if r.random() < .5 and t in (3, 9, 14, 15):
                line = next(self.records(4)).split() if False else None
            ln = self.good_len(t, v) if t in self.layout else r.choice([4, 8, 30])
            if t in (3, 9, 14, 15) and self.bounds(t, v)[0] != self.bounds(t, v)[1]:
                ln = min(255, ln + r.choice([0, 5, 15, 30]))
            k = r.choice([1, 2, 4])
            ss = self.strings(k)
            a = self.body(t, v, ln, k)
            b, s2 = bytearray(a), list(ss)
            m = r.random()
            if m < .25:
                pass
            elif m < .8:
                lo = 2 if r.random() < .15 else 4
                if ln > lo:
                    j = r.randrange(lo, ln)
                    if t == 9 and ln > 24 and r.random() < .5:
                        j = r.randrange(19, ln)
                    b[j] = (b[j] ^ (1 << r.randrange(8))) if r.random() < .7 else r.randrange(256)
            elif m < .9 and s2:
                j = r.randrange(len(s2))
                s2[j] = s2[j] + b'!' if r.random() < .5 else b'changed'
            else:
                b = self.body(t, v, ln, k)
            yield 'E %d %d %s %s' % (v[0], v[1], self.raw(a, ss).hex(), self.raw(b, s2).hex())

    def listpairs(self, n):
        """pairs that differ only inside a record list"""
        r = self.rng
        for i in range(n):
            t = (3, 9, 14, 15, 11, 13)[i % 6]
            v = r.choice([(3, 2), (3, 4), (4, 0)])
            ss = self.strings(4)
            if t == 3:
                cnt, size = r.choice([(1, 3), (2, 3), (3, 3), (2, 5)])
                ln = 21 + cnt * size + 1
                b = self.body(3, v, ln, 4)
                b[19], b[20], b[ln - 1] = cnt, size, 1
                lo, hi = 21, ln - 1
            elif t == 9:
                cnt = r.choice([1, 2, 3])
                ln = 19 + 5 * cnt + 5
                b = self.body(9, v, ln, 4)
                b[18] = cnt
                lo, hi = 19, ln
            elif t == 14:
                ln = 5 + 3 * r.randint(1, 4)
                b = self.body(14, v, ln, 4)
                lo, hi = 5, ln
            elif t == 15:
                x = r.randint(1, 4)
                ln = 23 + 2 * x
                b = self.body(15, v, ln, 4)
                b[21], b[22] = x, 2
                lo, hi = 23, ln
            else:
                ln = self.full(t, v)
                b = self.body(t, v, ln, 4)
                lo, hi = 4, ln
            c, s2 = bytearray(b), list(ss)
            if t in (11, 13):
                j = r.randrange(4)
                s2[j] = r.choice([b'other', s2[j] + b'x'])
                if r.random() < .2:
                    s2 = s2[:3]
            elif r.random() < .85:
                j = r.randrange(lo, hi)
                c[j] ^= 1 << r.randrange(8)
                if t == 3:
                    c[ln - 1] = b[ln - 1]
            yield 'E %d %d %s %s' % (v[0], v[1], self.raw(b, ss).hex(), self.raw(c, s2).hex())

    def prefixpairs(self, n):
        """lists of which one is the beginning of the other, or the same bytes cut differently; other versions; other strings"""
        r = self.rng
        E = lambda v, a, b, v2=None: 'E %d %d %s %s' % (v[0], v[1], a.hex(), b.hex()) + ('' if v2 is None else ' %d %d' % v2)
        for i in range(n):
            v = r.choice([(3, 2), (3, 4), (4, 0)])
            ss = self.strings(4)
            k, j = sorted(r.sample(range(0, 6), 2)) if r.random() < .7 else (0, r.randint(1, 5))
            m = i % 8
            out = []
            if m == 0:      # peers
                b = self.body(9, v, 19, 4)
                tail = bytes(r.randrange(256) for _ in range(5 * j))
                for c in (k, j):
                    x = bytearray(b)
                    x[18] = c
                    out.append(self.raw(x + tail[:5 * c], ss))
            elif m == 1:    # elements
                b = self.body(3, v, 21, 4)
                size = r.choice([3, 3, 4, 6])
                tail = bytes(r.randrange(256) for _ in range(size * j))
                cut = [(k, size), (j, size)]
                if size == 6 and r.random() < .6:
                    cut = [(j, 6), (2 * j, 3)]
                for c, z in cut:
                    x = bytearray(b)
                    x[19], x[20] = c, z
                    out.append(self.raw(x + tail[:z * c], ss))
            elif m == 2:    # members
                b = self.body(14, v, 5, 4)
                tail = bytes(r.randrange(256) for _ in range(3 * j))
                out = [self.raw(bytearray(b) + tail[:3 * c], ss) for c in (k, j)]
            elif m == 3:    # descriptors
                b = self.body(15, v, 23, 4)
                tail = bytes(r.randrange(256) for _ in range(2 * j))
                for c in (k, j):
                    x = bytearray(b)
                    x[21], x[22] = c, 2
                    out.append(self.raw(x + tail[:2 * c], ss))
            elif m in (4, 5):    # strings
                t = (11, 13)[m - 4]
                b = self.body(t, v, self.full(t, v), 4)
                s5 = self.strings(5)
                out = [self.raw(b, s5[:k]), self.raw(b, s5[:j])]
                if r.random() < .3 and j > 1:
                    out[0] = self.raw(b, [s5[0] + s5[1]] + s5[2:j])
            elif m == 6:    # raw structures
                t = r.choice([126, 32, 200, 127])
                b = self.body(t, v, r.choice([4, 5, 9, 20]), 4)
                s5 = self.strings(5)
                out = [self.raw(b, s5[:k]), self.raw(b + bytes([r.randrange(256)]) if r.random() < .3 else b, s5[:r.choice([k, j])])]
            else:           # the same bytes under another version
                t = r.choice([126, 32, 200, 127, 0, 1, 4, 7, 13, 16, 22])
                b = self.body(t, v, self.full(t, v) if t in self.layout else 12, 4)
                a = self.raw(b, ss)
                yield E(v, a, a, r.choice([(2, 0), (2, 1), (2, 3), (2, 6), (3, 0), (v[0], v[1] + 1), (v[0] + 1, v[1])]))
                continue
            if r.random() < .5:
                out.reverse()
            yield E(v, out[0], out[1])
            if m == 0 and r.random() < .5:
                yield 'PE %s %s' % (tail[:5 * k].hex() or '-', tail.hex() or '-')
                q = bytearray(tail)
                if q:
                    q[r.randrange(len(q))] ^= 1 << r.randrange(8)
                yield 'PE %s %s' % (bytes(q).hex() or '-', tail.hex() or '-')
                yield 'PE %s %s' % (tail.hex() or '-', tail.hex() or '-')

    def entrypairs(self, n):
        """two entry points: the same, or different in one place, or of the two formats"""
        r = self.rng
        lines = list(self.valid_eps(n))
        for i, line in enumerate(lines):
            a = bytearray.fromhex(line.split()[1])
            m = r.random()
            if m < .2:
                b = bytearray(a)
            elif m < .3:
                b = bytearray.fromhex(r.choice(lines).split()[1])
            else:
                b = bytearray(a)
                s = next((x for x in range(0, len(b), 16) if b[x:x + 4] in (b'_SM_', b'_SM3')), 0)
                two = b[s:s + 4] == b'_SM_'
                size = 31 if two else 24
                if len(b) - s >= size:
                    j = r.choice([x for x in range(6 if two else 7, size) if x != (5 if two else 6)])
                    d = 1 << r.randrange(8)
                    if j == (6 if two else 7):
                        d = 1
                    old = b[s + j]
                    b[s + j] ^= d
                    # keep the sum: by the checksum byte, or by another field
                    z = r.choice([4 if two else 5, r.choice([x for x in range(8, size) if x != j])])
                    b[s + z] = (b[s + z] - b[s + j] + old) & 255
            yield 'EE %s %s' % (a.hex(), b.hex())

    def copies(self, n):
        r = self.rng
        for _ in range(n):
            v = r.choice([(2, 1), (2, 7), (3, 0), (3, 2)])
            ks = [r.choice(self.KINDS[:10]) for _ in range(r.randint(1, 4))]
            buf = b''.join(self.piece(k, v) for k in ks)
            if r.random() < .5:
                x = r.choice([3, 9, 14, 15, 11, 13])
                for line in self.records(4) if x in (3, 9, 14, 15) else self.stringlists(3):
                    p = line.split()
                    buf += bytes.fromhex(p[6])
            d = len(buf) + r.choice([0, 0, 0, 9, -1, -3])
            yield 'K %d %d %d %d %s' % (v[0], v[1], max(0, min(d, 65535)), r.randint(0, len(ks) + 2), buf.hex())

    def program(self):
        """operations on a sequence"""
        r = self.rng
        ops = []
        for _ in range(r.choice([2, 3, 4, 6])):
            o = r.choice(['next', 'next', 'nth', 'nth', 'take', 'count', 'last', 'fold', 'each', 'collect', 'skip', 'step', 'hint'])
            k = r.choice([0, 0, 1, 1, 2, 3, 4, 5, 8, 15, 64, 300])
            if r.random() < .08:
                k = r.choice([65535, 1 << 16, 1 << 31, (1 << 32) - 1, 1 << 32, 1 << 62, 1 << 63, (1 << 64) // 3, (1 << 64) // 3 + 1, (1 << 64) // 5 + 1, (1 << 64) - 1])
            if o == 'step':
                k = max(1, k)
            ops.append('%s:%d' % (o, k) if o in ('nth', 'take', 'skip', 'step') else o)
        return ops

    def viewprograms(self, n):
        """views of bit-fields with layouts of the user's, under programs of operations"""
        for line in self.customs(n):
            yield 'J' + line[1:] + ' ' + ' '.join(self.program())

    def programs(self, n):
        """tables and the sequences in them under programs of operations"""
        r = self.rng
        inner = [l.split() for l in chain(self.records(n // 4), self.stringlists(n // 6), self.manystrings(), self.plain(n // 6, [0, 9, 13, 15]), self.plain(n // 6))]
        for i in range(n):
            v = r.choice([(2, 1), (2, 7), (3, 0), (3, 2), (3, 4)])
            buf = b''
            if r.random() < .7:
                p = r.choice(inner)
                if r.random() < .7:
                    v = (int(p[1]), int(p[2]))
                buf = bytes.fromhex(p[6]) if p[6] != '-' else b''
            for _ in range(r.choice([0, 0, 1, 2, 4, 9])):
                buf += self.piece(r.choice(self.KINDS[:10]), v)
            if not buf:
                buf = self.piece(self.KINDS[0], v)
            d = len(buf) + r.choice([0, 0, 0, 9, -1, -3])
            ops = self.program()
            yield 'I %d %d %d %s %s' % (v[0], v[1], max(0, min(d, 65535)), buf.hex(), ' '.join(ops))

    TABLES = ('WakeupType BoardType EnclosureType State SecurityStatus ContainedElementType ProcessorType ProcessorUpgrade '
              'CacheErrorCorrectionType SystemCacheType CacheAssociativity CacheLevel CacheLocation CacheOperationalMode ConnectorType '
              'PortType SlotType SlotWidth CurrentUsage SlotLength LogHeaderFormat EventLogType MemoryArrayLocation MemoryArrayUse '
              'MemoryArrayErrorCorrectionTypes MD_ErrorGranularity MD_ErrorOperation MD_ErrorType FormFactor MemoryTechnology MemoryType '
              'ErrorType ErrorGranularity ErrorOperation PointingType PointingInterface InfoType').split()

    def code_tables(self):
        for t in self.TABLES:
            yield 'X ' + t
        for lo in range(0, 65536, 256):
            yield 'F %d %d' % (lo, lo + 255)
        yield 'VDF'

    def dwords(self, n):
        r = self.rng
        base = [0, 1, 2, 6, 7, 8, 15, 16, 17, 20, 21, 31, 32, 39, 40, 47, 48, 49, 255, 256, 0xFFFF, 0x10000, 0x10001, 0x1FFFF, 0x20000,
                0x1FFFE, 0x7FFFFFFF, 0x80000000, 0x80000001, 0xFFFFFFFF, 0x01000000, 0x10100, 0x8001FFFF, 0x00FF00FF, 0x12345678]
        return base + list(range(0, 64)) + [r.getrandbits(32) for _ in range(n)] + [0x10000 + r.getrandbits(16) for _ in range(n // 4)]

    def sm_types(self, n):
        for d in self.dwords(n):
            yield 'M %d' % d

    def access(self, n):
        for m in list(range(0, 8)) + [126, 127, 128, 129, 254, 255] + [self.rng.randrange(256) for _ in range(n)]:
            for d in [0, 0xFFFFFFFF, 0x01020304, 0xF1E2D3C4, 0x0A000B00, 0x00090007, 0x000C000D] + [self.rng.getrandbits(32) for _ in range(3)]:
                yield 'A %d %d' % (m, d)

    def all_methods(self):
        for m in range(256):
            for d in (0xF1E2D3C4, self.rng.getrandbits(32)):
                yield 'A %d %d' % (m, d)

    def devices(self, n):
        r = self.rng
        for _ in range(n):
            yield 'V ' + (r.randbytes(r.choice([5, 5, 5, 5, 6, 9, 4, 3, 2, 1, 0])).hex() or '-')
        for c in range(256):
            yield 'V ' + bytes([r.randrange(256), r.randrange(256), r.randrange(256), c, r.randrange(256)]).hex()
        for k in range(0, 7):
            yield 'PD ' + (r.randbytes(5 * k).hex() or '-')

    def elements(self, n):
        r = self.rng
        for c in range(256):
            yield 'L ' + bytes([c, r.randrange(256), r.randrange(256)]).hex()
        for _ in range(n):
            yield 'L ' + (r.randbytes(r.choice([0, 1, 2, 3, 4, 8])).hex() or '-')

    def descriptors(self):
        for a in range(256):
            yield 'ELD %d' % a

    def roms(self, n, units=False):
        r = self.rng
        for b in range(256):
            yield 'Q %d -' % b
            yield 'Q %d %d' % (b, r.randrange(0x8000))
        top = 65536 if units else 0x8000
        for e in {0, 1, 15, 16, 17, 31, 32, 0x3FFF, 0x3FFE, 0x4000, 0x4001, 0x4010, 0x7FFF, 0x7FFE, 0x0FFF, 0x1000, 0x1FFF, 0x2000} | {r.randrange(0x8000) for _ in range(n)}:
            yield 'Q 255 %d' % e
        if units:
            for e in (0x8000, 0x8001, 0xBFFF, 0xC000, 0xFFFF):
                yield 'Q 255 %d' % e

    def capacities(self, n):
        r = self.rng
        yield 'D - -'
        for v in (0, 1, 255, 256, 0x7FFF, 0x8000, 0xFFFF):
            for m in (0, 1, 2, 10, 127, 128, 255):
                yield 'D %d %d' % (v, m)
        for _ in range(n):
            yield 'D %d %d' % (r.randrange(65536), r.randrange(256))

    def cachesizes(self, step=256, every=1):
        for lo in range(0, 65536, step * every):
            yield 'CS %d %d' % (lo, lo + step - 1)

    def cachesizes2(self, n):
        for d in self.dwords(n):
            yield 'CS2 %d' % d

    def cacheconfs(self):
        for lo in range(0, 65536, 256):
            yield 'CC %d %d' % (lo, lo + 255)

    def pitches(self):
        for lo in range(0, 65536, 256):
            yield 'SP %d %d' % (lo, lo + 255)

    def errors(self, n):
        """errors by value"""
        r = self.rng
        offs = sorted({0, 9, 10, 99, 100, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFF, 0xFFFFFFFE, 1000000, 999999, 4294967290} | {1 << k for k in range(32)} | set(self.around(256, 0xFFFFFFFF)))
        bs = [0, 1, 4, 9, 10, 99, 100, 127, 128, 199, 200, 255]
        for x in range(256):
            for k in range(4):
                yield 'MS %d %d' % (k, x)
            yield 'ME 0 0 0 %d %d 0' % (x, r.choice(offs))
            yield 'ME 2 %d %d %d 0 0' % (r.randrange(24), r.choice(self.handles), x)
            yield 'ME 2 %d %d %d 0 0' % (x, r.randrange(65536), r.randrange(256))
            yield 'ME 4 %d %d %d 0 %d' % (x, r.choice(self.handles), r.randrange(256), r.randrange(4))
            yield 'ME 4 %d %d %d 0 %d' % (r.randrange(24), r.randrange(65536), x, r.randrange(4))
        for o in offs:
            yield 'ME 0 0 0 %d %d 0' % (r.choice(bs), o)
            yield 'ME 1 0 0 0 %d 0' % o
        for h in self.handles:
            yield 'ME 2 %d %d %d 0 0' % (r.randrange(24), h, r.choice(bs))
            yield 'ME 4 %d %d %d 0 %d' % (r.randrange(24), h, r.choice(bs), r.randrange(4))
        yield 'ME 3 0 0 0 0 0'
        yield 'ME 3 0 0 1 0 0'
        for _ in range(n):
            yield 'ME %d %d %d %d %d %d' % (r.choice([0, 1, 2, 4]), r.randrange(256), r.randrange(65536), r.randrange(256), r.getrandbits(32), r.randrange(4))

    def revisions(self, n):
        r = self.rng
        for a, b in [(0, 0), (255, 255), (255, 0), (0, 255), (254, 255), (255, 254), (1, 2), (10, 9)] + [(r.randrange(256), r.randrange(256)) for _ in range(n)]:
            yield 'RV %d %d' % (a, b)

    def orders(self, n):
        r = self.rng
        vs = [0, 1, 2, 3, 4, 7, 8, 254, 255]
        for a in vs:
            for b in vs:
                for c in vs[1:5]:
                    yield 'Y %d %d %d %d' % (a, b, c, r.choice(vs))
        for _ in range(n):
            yield 'Y %d %d %d %d' % tuple(r.randrange(256) for _ in range(4))

    def fields(self, n):
        r = self.rng
        for x in range(256):
            for nm in ('slot1', 'slot2', 'status'):
                yield 'B %s %02x' % (nm, x)
        for q in [0, 2 ** 64 - 1] + [1 << i for i in range(64)] + [r.getrandbits(64) for _ in range(n)]:
            yield 'B post ' + q.to_bytes(8, 'little').hex()

    def customs(self, n):
        r = self.rng
        for _ in range(n):
            w = r.choice([1, 1, 1, 2, 2, 4, 8, 16])
            al = r.choice(['suabc', 'sa', 'ab', 'a', 's', 'u', 'sab', 'saaaabbbb', 'ua', 'aaaaaaab'])
            lay = ''.join(r.choice(al) for _ in range(8 * w))
            if r.random() < .4:
                # runs
                lay = ''
                while len(lay) < 8 * w:
                    lay += r.choice(al) * r.choice([1, 1, 2, 3, 8])
                lay = lay[:8 * w]
            v = r.choice([r.randbytes(w), bytes(w), b'\xff' * w, (1 << r.randrange(8 * w)).to_bytes(w, 'little')])
            if r.random() < .25:
                # a layout of other bits than there are
                lay = r.choice([lay[:r.randrange(8 * w)], lay[:8 * w - 1], lay + lay[:8], ''])
            yield 'C %s %s' % (lay or '-', v.hex())
