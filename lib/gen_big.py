"""Generates scripts for harness/big: histories of operations on number registers.

The generator keeps its own idea of the registers' values only in order to choose interesting operands and to keep
sizes bounded; it decides nothing (TLC does)."""
import random

NR = 8
BW = [0, 1, 2, 0x7fffffff, 0x80000000, 0x80000001, 0xfffffffe, 0xffffffff]
I64MIN, I64MAX = -(1 << 63), (1 << 63) - 1

def tdiv(a, b):
    q = abs(a) // abs(b)
    if (a < 0) != (b < 0): q = -q
    return q, a - q * b

def hx(v): return ('-' if v < 0 else '') + format(abs(v), 'x')

DIGITS = "0123456789abcdefghijklmnopqrstuvwxyz"
def fmt(v, r):
    if v == 0: return "0"
    s = ''; n = abs(v)
    while n: n, d = divmod(n, r); s = DIGITS[d] + s
    return ('-' if v < 0 else '') + s

class Gen:
    def __init__(self, rng, layer, weights, maxwords=6, sizes=None, loadp=0.2, segment=50, quiet=(), nload=NR):
        self.nload = nload                                        # objects that get a value at the beginning
        self.quiet, self.qp, self.unseen = set(quiet), 0, False   # operations after which the objects may go unobserved
        self.g, self.layer, self.maxwords, self.loadp, self.segment = rng, layer, maxwords, loadp, segment
        self.sizes = sizes
        ops = [(o, w) for o, w in weights.items() if hasattr(self, 'op_' + o) and self.has(o)]
        self.ops = [o for o, w in ops]; self.w = [w for o, w in ops]
        self.out = []; self.cnt = {}
        self.reg = [0] * NR

    # which operations exist in which layer
    def has(self, o):
        L = self.layer
        only = {'pos': 'B', 'postinc': 'B', 'postdec': 'B', 'mod': 'BC', 'div': 'BIC', 'divrem': 'I', 'cmp': 'B', 'cmp3': 'IC', 'counts': 'I',
                'parsenew': 'BI', 'parsec': 'C', 'toi64': 'BC', 'tou64': 'BC', 'trunc': 'BI', 'asbool': 'B', 'ofwords': 'I', 'move': 'BI', 'swap': 'BI',
                'strcheck': 'C', 'strnew': 'C', 'mulstatic': 'I'}
        return L in only.get(o, 'BIC')

    # ---- values
    def word(self):
        g = self.g
        return g.choice(BW) if g.random() < 0.6 else g.getrandbits(32)
    def nwords(self):
        if self.sizes: return self.g.choice(self.sizes)
        return self.g.choice([0, 1, 1, 1, 2, 2, 2, 3, 3, 4, 5, self.maxwords])
    def mag(self):
        g = self.g; k = g.randrange(12)
        n = self.nwords()
        if n > 600: return self.giantmag(n)
        if k < 5:
            v = 0
            for _ in range(n): v = v << 32 | self.word()
            return v
        if k < 7:   # runs of equal words
            v = 0
            while n > 0:
                w = g.choice([0, 0xffffffff, 0, 0xffffffff, self.word()]); c = min(n, g.randint(1, max(1, n)))
                for _ in range(c): v = v << 32 | w
                n -= c
            return v
        if k < 9:   # around a power of two
            e = g.choice([32 * n, 32 * n, 32 * n + 31, 32 * n + 1, g.randint(0, 32 * n + 31), 8 * g.randint(0, 4 * n + 1), 63, 64])
            return abs((1 << e) + g.choice([-2, -1, 0, 0, 1, 2]))
        if k == 9:  # sparse: few bits set
            v = 0
            for _ in range(g.randint(1, 3)): v |= 1 << g.randint(0, 32 * n + 31)
            return v
        if k == 10:
            return g.choice([0, 1, 2, 3, 10, 35, 36, 255, 256, 0xffff, 0x10000, (1 << 31), (1 << 63), (1 << 64) - 1, (1 << 63) - 1])
        return g.getrandbits(32 * n) if n else 0
    def giantmag(self, n):
        g = self.g; k = g.randrange(6)
        if k == 0: return (1 << 32 * n) - g.choice([1, 1, 1 << 31, 1 << 32, 1 << 32 * (n - 1)])
        if k == 1: return 1 << 32 * (n - 1) + g.randrange(32)
        if k == 2: return (g.choice([1, 0x80000000, 0xffffffff]) << 32 * (n - 1)) + self.word()
        if k == 3: return int.from_bytes(bytes([g.choice([1, 255])]) * (4 * n - g.randrange(4)), 'little') << 32 * g.choice([0, 0, 1])
        return g.getrandbits(32 * n) | 1 << 32 * n - 1
    def value(self):
        g = self.g
        live = [v for v in self.reg if v is not None]
        if live and g.random() < 0.25:     # near an existing one
            v = g.choice(live); k = g.randrange(8)
            if k == 0: v = -v
            elif k == 1: v += g.choice([-1, 1])
            elif k == 2: v = ~v
            elif k == 3: v ^= 1 << g.randint(0, max(1, v.bit_length()))
            elif k == 4: v = v << g.choice([1, 31, 32, 33, 64])
            elif k == 5: v = v >> g.choice([1, 31, 32, 33, 64])
            elif k == 6: v = (abs(v) // (1 << 32) << 32) | self.word()
            if v.bit_length() <= 32 * (self.limit()): return v
        v = self.mag()
        return -v if g.random() < 0.5 else v
    def limit(self): return max(self.sizes) if self.sizes else self.maxwords + 3
    def i64(self):
        g = self.g; k = g.randrange(10)
        if k < 3: v = g.choice([0, 1, -1, 2, -2, 10, -10, I64MAX, I64MIN, I64MIN + 1, I64MAX - 1, 0xffffffff, -0xffffffff, 0x100000000, -0x100000000, 0x7fffffff, 0x80000000, -0x80000000, -0x80000001])
        elif k < 6: v = (self.word() << 32 | self.word()); v = v - (1 << 64) if v >> 63 else v
        elif k < 8: v = g.choice([1, -1]) * self.word()
        else:
            live = [x for x in self.reg if x is not None and I64MIN + 2 <= x <= I64MAX - 2]
            v = (g.choice(live) + g.choice([-1, 0, 0, 1])) if live else g.randint(-100, 100)
        return max(I64MIN, min(I64MAX, v))

    # ---- emitting
    def emit(self, op, form='-', d=(), s=(), n=0, i=(), t=None):
        self.cnt[op] = self.cnt.get(op, 0) + 1
        if self.qp and op in self.quiet and not (op in ('div', 'mod', 'divrem') and (self.reg[s[1]] if s[1] >= 0 else i[0]) == 0) and self.g.random() < self.qp:
            op += '~'; self.unseen = True
        elif self.unseen:
            self.unseen = False; self.out.append('obs - - - 0 - -')
        self.out.append("%s %s %s %s %d %s %s" % (op, form, ','.join(map(str, d)) or '-', ','.join(map(str, s)) or '-', n,
                        ','.join(hx(x) for x in i) or '-', '-' if t is None else (bytes(t).hex() or '=')))
    focus = ()   # objects that are preferred at the moment
    def src(self):
        f = [k for k in self.focus if self.reg[k] is not None]
        if f and self.g.random() < 0.85: return self.g.choice(f)
        return self.g.choice([k for k in range(NR) if self.reg[k] is not None])
    def dst(self): return self.g.choice(self.focus) if self.focus and self.g.random() < 0.85 else self.g.randrange(NR)
    def live(self): return [k for k in range(NR) if self.reg[k] is not None]
    def set(self, k, v): self.reg[k] = v

    def load(self, k=None, v=None, how=None):
        g = self.g
        if k is None: k = self.dst()
        if v is None: v = self.value()
        how = how or g.choice(['bin', 'bin', 'str16', 'str10', 'str', 'i64', 'words'])
        if how == 'i64' and not I64MIN <= v <= I64MAX: how = 'bin'
        if how == 'words' and self.layer != 'I': how = 'bin'
        if abs(v).bit_length() > 3000 and how.startswith('str'): how = 'bin'
        if how == 'i64': self.emit('ofi64', g.choice(['new', 'as', 'eq', '-'] if self.layer == 'B' else ['new', 'as']), [k], [-1], 0, [v])
        elif how == 'words':
            m = abs(v); w = m.to_bytes((m.bit_length() + 31) // 32 * 4 + 4 * g.choice([0, 0, 1, 2]), 'little')
            if not w: w = bytes(4)
            self.emit('ofwords', '-', [k], [], (v > 0) - (v < 0), [], w)
        elif how == 'bin':
            n = (v.bit_length() // 8 + 1) + g.choice([0, 0, 0, 1, 2, 3, 5]); little = g.randrange(2)
            self.emit('ofbin', g.choice(['as', 'new']), [k], [], little, [], v.to_bytes(n, 'little' if little else 'big', signed=True))
        else:
            r = 16 if how == 'str16' else 10 if how == 'str10' else g.randint(2, 36)
            self.emit('parse', g.choice('tf'), [k], [], r, [], fmt(v, r).encode())
        self.set(k, v)
        return k

    def fresh_pair(self):
        """two source registers, often just loaded with operands chosen for one another"""
        g = self.g
        if self.nload < NR and g.random() < 0.5:   # lengths apart, one sign
            n, m = g.choice([(1, 32768), (1, 32769), (2, 32769), (2, 32770), (1, 65537), (2, 65537), (1, 65536), (3, 65538), (32768, 65536), (32767, 65536), (32769, 65536)])
            x, y = (self.giantmag(k) >> 64 << 64 | 5 if k > 9 else g.getrandbits(32 * k) | 1 << 32 * k - 1 for k in (n, m)); s = g.choice([1, 1, -1])
            x, y = (v if v.bit_length() > 32 * k - 32 else v | 1 << 32 * k - 1 for v, k in ((x, n), (y, m)))
            a, b = g.sample(range(NR), 2); self.load(a, s * x); self.load(b, s * y)
            return g.choice([(a, b), (b, a)])
        a = self.src(); b = a if g.random() < 0.08 else self.src()
        return a, b

    def binary(self, op, f):
        g = self.g; L = self.layer
        a, b = self.fresh_pair()
        form = g.choice({'B': ['BB', 'BB', 'BB', 'Bi', 'iB', 'A', 'A', 'Ai'], 'I': ['A', 'A', 'Ai'], 'C': ['A', 'A', 'Ai']}[L])
        d = self.dst()
        if form in ('A', 'Ai'): d = a
        if form in ('BB', 'A'): s, im, va, vb = [a, b], [], self.reg[a], self.reg[b]
        elif form in ('Bi', 'Ai'): x = self.i64(); s, im, va, vb = [a, -1], [x], self.reg[a], x
        else: x = self.i64(); s, im, va, vb = [-1, b], [x], x, self.reg[b]
        r = f(va, vb)
        if r is not None and r.bit_length() > 64 * self.limit(): return self.load()
        self.emit(op, form, [d], s, 0, im)
        self.set(d, r if r is not None else 0)

    def op_add(self): self.binary('add', lambda a, b: a + b)
    def op_sub(self): self.binary('sub', lambda a, b: a - b)
    def op_mul(self): self.binary('mul', lambda a, b: a * b)
    def op_and(self): self.binary('and', lambda a, b: a & b)
    def op_or(self): self.binary('or', lambda a, b: a | b)
    def op_xor(self): self.binary('xor', lambda a, b: a ^ b)
    def op_mulstatic(self):
        a, b = self.fresh_pair(); ks = [k for k in range(NR) if k not in (a, b)]; d = self.g.choice(ks)
        r = self.reg[a] * self.reg[b]
        if r.bit_length() > 64 * self.limit(): return self.load()
        self.emit('mul', 'S', [d], [a, b]); self.set(d, r)

    # division: operands made for one another
    def div_operands(self):
        g = self.g; k = g.randrange(10)
        if k < 2: return
        if k < 5:   # dividend = q * b + r at the edges
            b = abs(self.value()) or 3; q = abs(self.value()); r = g.choice([0, b - 1, 1 % b, g.randrange(b)])
            a = q * b + r
        elif k < 8: # long division with extreme leading words
            n = g.choice([2, 2, 3, 3, 4]); m = g.randint(0, 3)
            top = g.choice([0x80000000, 0x80000001, 0x80000000, 0xffffffff, 0x7fffffff, 1, 0xfffffffe, self.word() or 1])
            w = [top] + [g.choice([0, 0, 0xffffffff, 1, 0xfffffffe, 0x80000000, self.word()]) for _ in range(n - 1)]
            b = 0
            for x in w: b = b << 32 | x
            if g.random() < 0.5:
                a = b
                for _ in range(m + 1): a = a << 32 | g.choice([0, 0xffffffff, 1, self.word()])
                a = max(0, a + g.choice([-1, 0, 1, -b, b - 1]))
                if g.random() < 0.5: a -= g.choice([1 << 32, 1 << (32 * m), 1 << (32 * (m + 1))]); a = abs(a)
            else:
                q = 0
                for _ in range(m + 1): q = q << 32 | g.choice([0xffffffff, 0xfffffffe, 0x80000000, 0, 1, self.word()])
                a = q * b + g.choice([b - 1, b - 2, 0, g.randrange(b), b >> 1])
        elif k < 9: # equal or almost equal magnitudes
            b = abs(self.value()) or 5; a = b + g.choice([-1, 0, 0, 1])
        else:       # add-back territory: high words of dividend just below the divisor's
            n = g.choice([3, 4]); b = (0x80000000 << (32 * (n - 1))) + g.choice([1, 0xffffffff, 0xfffffffe, self.word()])
            a = (0x7fffffff << (32 * n)) | (0x80000000 << (32 * (n - 1))) | g.choice([0, 0, self.word()])
            if g.random() < 0.5: a = (b << 32) - g.choice([1, 2, 1 << 31, 1 << 33, b >> 33])
        a = abs(a) * g.choice([1, -1]); b = b * g.choice([1, -1])
        ra = self.load(v=a); rb = self.dst()
        while rb == ra: rb = self.dst()
        self.load(rb, b)
        return ra, rb

    def division(self, op):
        g = self.g
        p = self.div_operands()
        saved = self.fresh_pair
        if p: self.fresh_pair = lambda: p
        try:
            self.binary(op, (lambda a, b: tdiv(a, b)[0] if b else None) if op == 'div' else (lambda a, b: tdiv(a, b)[1] if b else None))
        finally: self.fresh_pair = saved
    def op_div(self): self.division('div')
    def op_mod(self): self.division('mod')
    def op_divrem(self):
        g = self.g
        a, b = self.div_operands() or self.fresh_pair()
        form = g.choice(['A', 'Ai', 'M', 'Mi', 'S', 'S', 'S', 'Si'])
        x = self.i64()
        other = self.dst()
        if form in ('A', 'Ai'):
            while other == a: other = self.dst()
            d = [a, other]
        elif form in ('M', 'Mi'):
            while other == a: other = self.dst()
            d = [other, a]
        else:
            q = self.dst()
            while other == q: other = self.dst()
            d = [q, other]
            if g.random() < 0.4: d = g.choice([[a, b], [b, a], [a, other], [b, other], [other, a], [other, b]])
            if d[0] == d[1]: d = [self.reg.index(self.reg[a]), (self.reg.index(self.reg[a]) + 1) % NR]
        if any(self.reg[k] is None for k in d): return self.load()
        vb = x if form.endswith('i') else self.reg[b]
        self.emit('divrem', form, d, [a, -1] if form.endswith('i') else [a, b], 0, [x] if form.endswith('i') else [])
        if vb == 0:
            # unspecified destinations: give them known values again
            self.load(d[0]); self.load(d[1])
        else:
            q, r = tdiv(self.reg[a], vb); self.set(d[0], q); self.set(d[1], r)

    def unary(self, op, f, forms):
        a = self.src(); form = self.g.choice(forms); d = a if form == 'A' else self.dst()
        self.emit(op, form, [d], [a]); self.set(d, f(self.reg[a]))
    def op_neg(self): self.unary('neg', lambda a: -a, ['A', 'n', '-'] if self.layer == 'B' else ['A'])
    def op_abs(self): self.unary('abs', abs, ['A', '-'] if self.layer == 'B' else ['A'])
    def op_pos(self): self.unary('pos', lambda a: a, ['-'])
    def op_not(self): self.unary('not', lambda a: ~a, ['A', '-'] if self.layer == 'B' else ['A'])
    def op_inc(self):
        self.edge(); self.unary('inc', lambda a: a + 1, ['A'])
    def op_dec(self):
        self.edge(); self.unary('dec', lambda a: a - 1, ['A'])
    def edge(self):
        g = self.g
        if g.random() < 0.4:
            v = (1 << 32 * g.randint(0, 4)) - g.choice([0, 0, 1]); self.load(v=v * g.choice([1, -1]))
    def op_notbits(self):
        def f(a):
            m = abs(a) ^ ((1 << abs(a).bit_length()) - 1)
            return -m if a < 0 else m
        self.unary('notbits', f, ['A'])
    def post(self, op, dlt):
        x = self.src(); d = self.dst()
        while d == x: d = self.dst()
        self.emit(op, '-', [d, x], [x]); v = self.reg[x]; self.set(d, v); self.set(x, v + dlt)
    def op_postinc(self): self.post('postinc', 1)
    def op_postdec(self): self.post('postdec', -1)

    def shift_count(self, v):
        g = self.g; L = abs(v).bit_length()
        tz = (abs(v) & -abs(v)).bit_length() - 1 if v else 0
        if self.nload < NR and g.random() < 0.4: return g.choice([32 * 32767, 32 * 32768, 32 * 32768 + 1, 1 << 16, (1 << 16) + 5, 1 << 21, (1 << 21) + 31, 32 * 65535])
        return max(0, g.choice([0, 1, 31, 32, 33, 63, 64, 65, L, L - 1, L + 1, tz, tz + 1, tz - 1, (L + 31) // 32 * 32, L // 32 * 32, L + 40, g.randint(0, L + 34), 32 * g.randint(0, 4), g.randint(0, 31)]))
    def op_shl(self):
        a = self.src(); n = self.shift_count(self.reg[a]); form = self.g.choice(['A', '-']) if self.layer == 'B' else 'A'; d = a if form == 'A' else self.dst()
        if (abs(self.reg[a]) << n).bit_length() > 64 * self.limit(): return self.load()
        self.emit('shl', form, [d], [a], n); self.set(d, self.reg[a] << n)
    def op_shr(self):
        if self.g.random() < 0.5:   # numbers with zero low words
            self.load(v=self.value() << self.g.choice([0, 0, 32, 64, 33]))
        a = self.src(); n = self.shift_count(self.reg[a]); form = self.g.choice(['A', '-']) if self.layer == 'B' else 'A'; d = a if form == 'A' else self.dst()
        self.emit('shr', form, [d], [a], n); self.set(d, self.reg[a] >> n)
    HUGE = [1 << 31, (1 << 31) - 1, 1 << 32, (1 << 32) + 1, (1 << 32) - 1, (1 << 35) + 31, 1 << 36, 1 << 37, (1 << 37) + 5, (1 << 37) + (1 << 36), 1 << 38, (1 << 40) + 33, 1 << 62, (1 << 63) - 1]
    def huge(self):
        g = self.g; c = g.choice(self.HUGE)
        if g.random() < 0.3: c = (1 << g.randint(31, 62)) + g.choice([0, 0, 1, 31, 32, g.getrandbits(20)])
        if self.layer == 'I' and g.random() < 0.2: c = (1 << 64) - g.choice([1, 2, 31, 32, 33, 64, 1 << 32, 1 << 37])
        return c
    def op_shrz(self):
        a = self.src(); c = self.huge(); form = self.g.choice(['A', '-']) if self.layer == 'B' else 'A'; d = a if form == 'A' else self.dst()
        self.emit('shrz', form, [d], [a, -1], 0, [c]); self.set(d, -1 if self.reg[a] < 0 else 0)
    def op_shlz(self):
        a = self.src(); c = self.huge()
        if self.reg[a] != 0: self.load(a, 0)
        form = self.g.choice(['A', '-']) if self.layer == 'B' else 'A'; d = a if form == 'A' else self.dst()
        self.emit('shlz', form, [d], [a, -1], 0, [c]); self.set(d, 0)
    def op_blockz(self): self.emit('blockz', '-', [], [self.src(), -1], 0, [self.huge()])
    def op_tomagz(self): self.emit('tomagz', '-', [], [self.src(), -1], 0, [self.huge()])
    def op_block(self):
        a = self.src(); n = (abs(self.reg[a]).bit_length() + 31) // 32
        self.emit('block', '-', [], [a], max(0, self.g.choice([0, 1, n - 1, n, n + 1, self.g.randint(0, n + 2), 1000])))
    def op_blocks(self):   # all blocks of one number
        a = self.src(); n = (abs(self.reg[a]).bit_length() + 31) // 32
        for k in range(min(n, 8) + 1): self.emit('block', '-', [], [a], k)
    CHASE = ['swap', 'swap', 'move', 'copy', 'copy', 'inc', 'dec', 'neg', 'abs', 'not', 'notbits', 'shl', 'shr', 'and', 'or', 'xor', 'add', 'sub', 'mul', 'div', 'mod', 'divrem', 'zero', 'ofi64', 'ofbin', 'parse', 'load']
    def look(self, k):
        if self.reg[k] is None: return
        n = (abs(self.reg[k]).bit_length() + 31) // 32; ks = [j for j in range(min(n, 5) + 1)]; self.g.shuffle(ks)
        for j in ks[:3]: self.emit('block', '-', [], [k], j)
    def op_chase(self):
        """what reading the words of negative numbers leaves behind, and what the next operations do with it"""
        g = self.g; f = g.sample(range(NR), 2); ws = g.sample(range(5), 2)
        for k, z in zip(f, ws):
            if self.reg[k] is None or g.random() < 0.8: self.load(k, -((abs(self.value()) >> g.choice([0, 0, 32, 64]) | g.choice([0, 1])) << 32 * z))
        self.focus = f
        try:
            for _ in range(g.randint(1, 3)):
                for k in f: self.look(k)
                o = g.choice(self.CHASE)
                if o == 'load': self.load()
                elif self.has(o): getattr(self, 'op_' + o)()
            for k in f: self.look(k)
        finally: self.focus = ()
    def op_cmp(self):
        a, b = self.near_pair(); f = self.g.choice(['BB', 'BB', 'Bi', 'iB'])
        self.cmpemit('cmp', f, a, b)
    def op_cmp3(self):
        a, b = self.near_pair(); f = self.g.choice(['BB', 'BB', 'Bi', 'iB'] if self.layer == 'I' else ['BB', 'BB', 'Bi'])
        self.cmpemit('cmp3', f, a, b)
    def cmpemit(self, op, f, a, b):
        x = self.i64()
        if f == 'BB': self.emit(op, f, [], [a, b])
        elif f == 'Bi': self.emit(op, f, [], [a, -1], 0, [x])
        else: self.emit(op, f, [], [-1, b], 0, [x])
    def near_pair(self):
        g = self.g
        if g.random() < 0.5: return self.fresh_pair()
        a = self.src(); v = self.reg[a]; k = g.randrange(7)
        w = [v, -v, v + 1, v - 1, v ^ (1 << g.randint(0, max(0, abs(v).bit_length()))), v << 32, v + (1 << 32 * g.randint(0, 5))][k]
        b = self.dst()
        if b == a or w.bit_length() > 64 * self.limit(): return self.fresh_pair()
        self.load(b, w)
        return (a, b) if g.random() < 0.5 else (b, a)
    def op_preds(self):
        if self.g.random() < 0.3: self.load(v=self.g.choice([0, 1, -1, 2, -2, 1 << 32, -(1 << 32), (1 << 32) + 1, -(1 << 32) - 1, 1 << 64]))
        self.emit('preds', '-', [], [self.src()])
    def op_counts(self): self.emit('counts', '-', [], [self.src()])
    def op_print(self, r=None):
        g = self.g
        if g.random() < 0.5:    # digits zero at block boundaries, block edges
            r = r or g.randint(2, 36); e = g.randint(1, 70)
            v = (g.randrange(1, r) * r ** e + g.choice([0, 1, r - 1, g.randrange(r ** min(e, 40))])) * g.choice([1, -1]) - g.choice([0, 0, 1])
            if abs(v).bit_length() <= 32 * self.limit() * 2: a = self.load(v=v)
            else: a = self.src()
        else: a = self.src()
        if abs(self.reg[a]).bit_length() > 3000 and g.random() < 0.8: a = self.load(v=g.randint(-10**30, 10**30))
        r = r or g.randint(2, 36)
        if r == 10 and self.layer == 'B' and g.random() < 0.3: self.emit('print', 'as', [], [a], 10)
        else: self.emit('print', '-', [], [a], r)
    # texts
    def numeral(self):
        g = self.g; r = g.choice([2, 3, 7, 8, 10, 10, 16, 16, 35, 36, g.randint(2, 36), g.randint(2, 36)])
        k = g.randrange(5)
        if k == 0: v = self.value(); t = fmt(abs(v), r) if abs(v).bit_length() < 700 else fmt(g.getrandbits(200), r)
        elif k == 1: t = ''.join(g.choice([DIGITS[0], DIGITS[r - 1], DIGITS[g.randrange(r)]]) for _ in range(g.randint(1, 45)))
        elif k == 2: t = g.choice([DIGITS[r - 1], '1', '0']) + ''.join(g.choice(['0', DIGITS[r - 1]]) * g.randint(1, 9) for _ in range(g.randint(0, 4)))
        elif k == 3: t = '0' * g.randint(0, 5) + ''.join(DIGITS[g.randrange(r)] for _ in range(g.randint(1, 4)))
        else: t = ''.join(DIGITS[g.randrange(r)] for _ in range(g.randint(1, 30)))
        if g.random() < 0.3: t = '0' * g.randint(1, 40) + t
        if g.random() < 0.5: t = ''.join(c.upper() if g.random() < 0.5 else c for c in t)
        t = g.choice(['', '', '', '-', '-', '+']) + t
        return t, r
    def badtext(self):
        g = self.g; t, r = self.numeral(); k = g.randrange(12)
        if k == 0: return '', r
        if k == 1: return g.choice(['+', '-', '+-', '-+', '--', '++', '-0-', '0+']), r
        if k == 2: p = g.randint(1, len(t)); return t[:p] + g.choice('+-') + t[p:], r
        if k in (3, 4, 5): # one bad digit somewhere
            bad = g.choice([DIGITS[r] if r < 36 else '~', '.', ' ', '_', '/', ':', '@', '[', '`', '{', 'x', ',', '\0', '\xff', '!', "'"])
            p = g.choice([len(t), len(t), 0, g.randint(0, len(t)), g.randint(0, len(t)), max(0, len(t) - g.randint(1, 12))]); return t[:p] + bad + t[p:], r
        if k == 6: return g.choice([' ', '\t', '\n']) + t, r
        if k == 7: return t + g.choice([' ', '\n', 'L', 'u', 'g']), r
        if k == 8: return '0x' + t, r
        if k == 9: return t, g.choice([0, 1, -1, 37, 64, 100, -10, 255])
        if k == 10: return '0' * g.randint(0, 9) + g.choice('.-+ zZ~'), r
        return ''.join(chr(g.choice([43, 45, 48, 49, 50, 57, 65, 70, 90, 97, 102, 122, 32, 46])) for _ in range(g.randint(0, 6))), r
    def textval(self, t, r):
        """value or None when the text is no numeral"""
        if not 2 <= r <= 36: return None
        u = t[1:] if t[:1] in ('+', '-') else t
        if not u: return None
        v = 0
        for c in u:
            d = DIGITS.find(c.lower()) if ord(c) < 128 else -1
            if d < 0 or d >= r: return None
            v = v * r + d
        return -v if t[0] == '-' else v
    def op_parse(self):
        g = self.g; t, r = self.numeral() if g.random() < 0.6 else self.badtext(); v = self.textval(t, r)
        if self.layer == 'C' and '\0' in t: t = t.replace('\0', '~'); v = self.textval(t, r)
        d = self.dst()
        if self.reg[d] is None and v is None: d = self.src()
        self.emit('parse', g.choice('tf0') if self.layer == 'B' else g.choice('tf'), [d], [], r, [], t.encode('latin-1'))
        if v is not None: self.set(d, v)
    def op_parsenew(self):
        g = self.g; t, r = self.numeral() if g.random() < 0.6 else self.badtext(); v = self.textval(t, r); d = self.dst()
        self.emit('parsenew', g.choice('tf'), [d], [], r, [], t.encode('latin-1')); self.set(d, v if v is not None else 0)
    def op_parsec(self):
        g = self.g; t, r = self.numeral() if g.random() < 0.6 else self.badtext(); t = t.replace('\0', '~'); v = self.textval(t, r); d = self.dst()
        self.emit('parsec', '-', [d], [], r, [], t.encode('latin-1'))
        if v is not None: self.set(d, v)
    def op_roundtrip(self):
        """print in every radix"""
        a = self.src()
        if abs(self.reg[a]).bit_length() > 400: a = self.load(v=self.g.getrandbits(200) * self.g.choice([1, -1]))
        for r in range(2, 37): self.emit('print', '-', [], [a], r)
    def edge64(self):
        g = self.g
        if g.random() < 0.5:
            e = g.choice([7, 8, 15, 16, 31, 32, 63, 63, 63, 64, 64, 64]); v = (1 << e) + g.choice([-2, -1, 0, 1]); self.load(v=v * g.choice([1, 1, -1]))
        return self.src()
    def op_toi64(self): a = self.edge64(); self.emit('toi64', self.g.choice(['t', 'f', '0', 'try'] if self.layer == 'B' else ['t', 'f', '0']), [], [a])
    def op_tou64(self): a = self.edge64(); self.emit('tou64', self.g.choice(['t', 'f', '0', 'try'] if self.layer == 'B' else ['t', 'f', '0']), [], [a])
    def op_trunc(self): a = self.edge64(); self.emit('trunc', self.g.choice(['c', 'uc', 's', 'us', 'i', 'ui', 'l', 'ul', 'll', 'ull']) if self.layer == 'B' else 'ull', [], [a])
    def op_asbool(self): self.emit('asbool', '-', [], [self.src()])
    def op_ofi64(self): self.load(v=self.i64(), how='i64')
    def op_ofwords(self): self.load(how='words')
    def op_ofbin(self):
        g = self.g; n = g.choice([0, 1, 1, 2, 3, 4, 4, 5, 6, 7, 8, 8, 9, 11, 12, 13, 16, g.randint(0, 30)])
        k = g.randrange(6)
        if k == 0: b = bytes(g.choice([0, 255, 0x80, 0x7f, 1]) for _ in range(n))
        elif k == 1: b = bytes([g.choice([0, 255])]) * n
        elif k == 2: b = bytes(g.randrange(256) for _ in range(n))
        elif k == 3: b = bytes(n - 1) + bytes([g.choice([0x80, 0xff, 1, 0x7f, 0xfe])]) if n else b''
        elif k == 4:
            p = g.randint(0, n); b = bytes(p) + bytes([255]) * (n - p)
        else:
            v = self.value(); m = v.bit_length() // 8 + 1 + g.choice([0, 0, 1, 2, 3, 4]); b = v.to_bytes(m, 'little', signed=True)
        little = g.randrange(2)
        if not little and g.random() < 0.7: b = b[::-1]
        if len(b) > 8 * 4 * self.limit(): b = b[:16]
        d = self.dst()
        self.emit('ofbin', g.choice(['as', 'new']), [d], [], little, [], b)
        self.set(d, int.from_bytes(b, 'little' if little else 'big', signed=True))
    def op_tomag(self):
        a = self.src(); n = (abs(self.reg[a]).bit_length() + 7) // 8
        self.emit('tomag', '-', [], [a], max(0, self.g.choice([0, 1, n - 1, n, n, n, n + 1, n + 7, n // 2, 4, 8, self.g.randint(0, n + 3)])))
    # value semantics
    def op_copy(self):
        a = self.src(); d = self.dst(); f = self.g.choice(['new', 'as', 'eq'])
        if d == a: f = 'as'
        self.emit('copy', f, [d], [a]); self.set(d, self.reg[a])
    def op_move(self):
        if len(self.live()) < 4: return self.load(self.g.choice([k for k in range(NR) if self.reg[k] is None]))
        a = self.src(); d = self.dst()
        if d == a: return self.op_copy()
        self.emit('move', self.g.choice(['new', 'as', 'eq']), [d, a], [a]); self.set(d, self.reg[a]); self.set(a, None)
    def op_swap(self):
        a = self.dst(); b = self.dst()
        if a == b: return self.op_copy()
        if self.layer == 'B' and (self.reg[a] is None or self.reg[b] is None): return self.op_copy()
        self.emit('swap', self.g.choice(['f', 'm']), [a, b], [a, b]); self.reg[a], self.reg[b] = self.reg[b], self.reg[a]
    def op_zero(self): d = self.dst(); self.emit('zero', '-', [d]); self.set(d, 0)
    def op_strcheck(self): self.emit('strcheck')
    def op_strnew(self):
        self.emit('strnew', '-', [], [], 0, [], bytes(self.g.choice(b'abcXYZ019 _-') for _ in range(self.g.randint(0, 12))))

    def run(self, nops):
        g = self.g
        while len(self.out) < nops:
            self.qp = 0 if g.random() < 0.6 else 0.75
            self.emit('reset', self.layer); self.reg = [0] * NR
            self.cnt['reset'] -= 1
            for k in g.sample(range(NR), self.nload): self.load(k)
            end = len(self.out) + self.segment
            while len(self.out) < end:
                if g.random() < self.loadp: self.load()
                else: getattr(self, 'op_' + g.choices(self.ops, self.w)[0])()
            if self.layer == 'C': self.emit('strcheck')
            self.qp = 0
            if self.unseen: self.emit('preds', '-', [], [self.src()])
        return self.out
