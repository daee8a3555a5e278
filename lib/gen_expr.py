"""Texts for the expression checks. The little evaluator here only keeps the generated texts affordable (size of the
numbers, exponents, shifts); verdicts come from spec/Expr.tla."""
import re
LEVELS = [['|'], ['^'], ['&'], ['==', '!='], ['<', '<=', '>', '>='], ['<<', '>>'], ['+', '-'], ['*', '/', '%'], ['**']]
LEVEL = {o: k for k, l in enumerate(LEVELS) for o in l}
class Costly(Exception): pass
class Bad(Exception): pass
TOK = re.compile(r'\*\*|!=|>>|>=|<<|<=|==|[-+*/!%&|^~><(),?:]|[0-9][0-9A-Za-z]*(?:\.[0-9A-Za-z]*)?|[A-Za-z_][A-Za-z0-9_]*')
def literal(t):
    t = t.split('.')[0].lower() if not (t[0] == '0' and len(t.split('.')[0]) > 1) else t.lower()
    m = re.match(r'0x(.*)$|0([0-9]{1,2})x(.*)$', t)
    try:
        if t == '0': return 0
        if m and m.group(1) is not None: return int(m.group(1), 16)
        if m: return int(m.group(3), int(m.group(2)))
        if t[0] == '0': return int(t[1:], 8) if t[1].isdigit() else 0
        return int(t)
    except ValueError: raise Bad()
def chk(v):
    if v is not None and v.bit_length() > 6000: raise Costly()
    return v
def tdiv(a, b): q = abs(a) // abs(b); return q if (a < 0) == (b < 0) else -q
def binop(o, a, b):
    if o in '/%':
        if b is None: raise Costly()
        if b == 0 or a is None: return None
        return tdiv(a, b) if o == '/' else a - b * tdiv(a, b)
    if o in ('<<', '>>', '**'):
        if a is not None and b is not None and b >= 0 and (o == '>>' or o == '<<' and a == 0): return a >> b if b < 9999 else -1 if a < 0 else 0
        if b is None or b < 0 or b > (400 if o == '**' else 3000): raise Costly()
        if a is None: return None
        if o == '**' and a.bit_length() * b > 6000: raise Costly()
        return a << b if o == '<<' else a >> b if o == '>>' else a ** b
    if a is None or b is None: return None
    return {'|': lambda: a | b, '^': lambda: a ^ b, '&': lambda: a & b, '==': lambda: int(a == b), '!=': lambda: int(a != b), '<': lambda: int(a < b), '<=': lambda: int(a <= b),
            '>': lambda: int(a > b), '>=': lambda: int(a >= b), '+': lambda: a + b, '-': lambda: a - b, '*': lambda: a * b}[o]()
def unop(o, a):
    if a is None:
        if o == '!': raise Costly()
        return None
    if o == '!':
        if a < 0: return 0
        if a > 250: raise Costly()
        r = 1
        for k in range(2, a + 1): r *= k
        return r
    return {'+': a, '-': -a, '~': ~a}[o]
def call(f, xs):
    if f == 'cnt': return len(xs)
    if f == 'nine': return 9
    if f == 'boom': return 1 if xs else 0
    if None in xs: return None
    if f == 'sum': return sum(xs)
    if f == 'neg': return -xs[0]
    if f == 'max2': return max(xs)
    if f == 'fma': return xs[0] * xs[1] + xs[2]
    if f == 'bump': return xs[0] + 1
    return xs[0]
def affordable(text, tab):
    """can the text be evaluated cheaply (malformed texts are)?"""
    try:
        s = text.decode('latin1'); pos = 0; ts = []
        while True:
            while pos < len(s) and s[pos] in '\0 \t\r\n': pos += 1
            if pos == len(s): break
            m = TOK.match(s, pos)
            if not m: raise Bad()
            ts.append(m.group()); pos = m.end()
        ts.append(None); p = [0]
        def at(): return ts[p[0]]
        def expr(run):
            c = level(0, run)
            if at() != '?': return c
            if run and c is None: raise Costly()
            p[0] += 1; a = expr(run and c != 0)
            if at() != ':': raise Bad()
            p[0] += 1; b = expr(run and c == 0)
            return a if c else b
        def level(l, run):
            if l == 9: return unary(run)
            x = level(l + 1, run)
            while at() in LEVELS[l]:
                o = at(); p[0] += 1; y = level(l + 1, run); x = chk(binop(o, x, y)) if run else 0
            return x
        def unary(run):
            if at() in ('+', '-', '~'): o = at(); p[0] += 1; x = unary(run); return unop(o, x) if run else 0
            x = prim(run)
            while at() == '!': p[0] += 1; x = chk(unop('!', x)) if run else 0
            return x
        def prim(run):
            t = at()
            if t is None: raise Bad()
            p[0] += 1
            if t == '(':
                x = expr(run)
                if at() != ')': raise Bad()
                p[0] += 1; return x
            if t[0].isdigit(): return literal(t)
            if t not in tab: raise Bad()
            k, v, n = tab[t]
            if k == 'con': return v
            if k != 'fun' or at() != '(': raise Bad()
            p[0] += 1; xs = []
            while at() != ')':
                if xs:
                    if at() != ',': raise Bad()
                    p[0] += 1
                xs.append(expr(run))
            p[0] += 1
            if n not in (-1, len(xs)): raise Bad()
            return chk(call(v, xs)) if run else 0
        expr(True)
        return True
    except Bad: return True
    except (Costly, RecursionError): return False

FUNS = [('sum', -1), ('neg', 1), ('max2', 2), ('fma', 3), ('cnt', -1), ('nine', 0), ('tick', 1), ('bump', 1)]
def table(g):
    names = ['f', 'g_1', '_', '__x9', 'Sum', 'sum', 'x1F', 'K', 'kk', 'E', 'MAX', 'a' * 40, 'tick', 'e5', 'X10', 'b_']
    g.shuffle(names); tab = {}
    for f, n in FUNS: tab[names.pop()] = ('fun', f, n)
    for _ in range(3): tab[names.pop()] = ('con', g.choice([0, 1, -1, 2 ** 64, 2 ** 32 - 1, -2 ** 63, 10 ** 30, g.getrandbits(100)]), 0)
    if g.random() < 0.5: tab[names.pop()] = ('bad', 0, 0)
    return tab
ENUM = {'f': ('fun', 'neg', 1), 'g': ('fun', 'sum', -1), 'h': ('fun', 'nine', 0), 'm': ('fun', 'max2', 2), 't': ('fun', 'tick', 1), 'K': ('con', 2 ** 64 - 1, 0), 'B_': ('bad', 0, 0)}
def hx(v): return ('-' if v < 0 else '') + '%x' % abs(v)
def defs(tab): return ['def %s %s %s %d' % (n.encode().hex(), k, hx(v) if isinstance(v, int) else v, c) for n, (k, v, c) in tab.items()]
DIG = '0123456789abcdefghijklmnopqrstuvwxyz'
def radixed(v, r):
    s = ''
    while v: s = DIG[v % r] + s; v //= r
    return s or '0'
def case(g, s): return ''.join(c.upper() if g.random() < 0.4 else c for c in s)
def numeral(g, v):
    k = g.randrange(12)
    if k < 5: return str(v) + (g.choice(['.', '.5', '.0', '.999999', '.1e9']) if g.random() < 0.1 else '')
    if k < 7: return '0x' + '0' * g.choice([0, 0, 0, 1, 7, 9]) + case(g, '%x' % v)
    if k < 9 and v: return '0' + '0' * g.choice([0, 0, 1]) + '%o' % v
    r = g.randint(2, 36)
    return '0%s%dx' % ('0' if r < 10 and g.random() < 0.5 else '', r) + '0' * g.choice([0, 0, 2]) + case(g, radixed(v, r))
def value(g):
    k = g.randrange(12)
    if k < 4: return g.randint(0, 9)
    if k < 6: return g.randint(0, 300)
    if k < 8: return max(0, 2 ** g.choice([31, 32, 33, 63, 64, 65, 96, 128]) + g.randint(-2, 2))
    if k < 9: return 10 ** g.randint(1, 40)
    return g.getrandbits(g.choice([8, 32, 33, 64, 65, 100, 200, 600]))
class Tree:
    """random trees as token lists with (tokens, precedence, value); value None after a division by zero"""
    def __init__(self, g, tab, divzero=0.02):
        self.g, self.tab, self.dz = g, tab, divzero
        self.fun = [(n, v, c) for n, (k, v, c) in tab.items() if k == 'fun']; self.con = [(n, v) for n, (k, v, c) in tab.items() if k == 'con']
    def leaf(self, lo=None, hi=None):
        g = self.g
        if lo is not None: v = g.randint(lo, hi); return [numeral(g, v)], 12, v
        if self.con and g.random() < 0.12: n, v = g.choice(self.con); return [n], 12, v
        v = value(g); return [numeral(g, v)], 12, v
    def wrap(self, x, p): return (['('] + x[0] + [')'], 12, x[2]) if x[1] < p or self.g.random() < 0.06 else x
    def gen(self, budget):
        g = self.g
        for _ in range(20):
            try: return self.gen1(budget)
            except Costly: budget = max(1, budget // 2)
        return self.leaf()
    def gen1(self, budget):
        g = self.g
        if budget <= 1: return self.leaf()
        k = g.randrange(100)
        if k < 62:
            o = g.choice(g.choice(LEVELS)); l = LEVEL[o] + 1
            b1 = g.randint(1, budget - 1) if budget > 2 else 1
            a = self.gen(b1)
            if o in ('<<', '>>'): b = self.leaf(0, g.choice([3, 33, 70, 200]))
            if (o == '>>' or o == '<<' and a[2] == 0) and g.random() < 0.15: v = g.choice([1 << k for k in (31, 32, 33, 37, 38, 63, 64, 65, 70, 96, 128)]) + g.choice([-1, 0, 1, 5, 37]); b = [numeral(g, v)], 12, v
            elif o == '**': b = self.leaf(0, g.choice([3, 8, 20]))
            else: b = self.gen(budget - b1)
            if o in '/%' and (b[2] is None or b[2] == 0) and g.random() > self.dz: b = self.leaf(1, 99)
            v = chk(binop(o, a[2], b[2]))
            a, b = self.wrap(a, l), self.wrap(b, l + 1)
            return a[0] + [o] + b[0], l, v
        if k < 80:
            o = g.choice('+-~-~!')
            a = self.leaf(0, 12) if o == '!' and g.random() < 0.8 else self.gen(budget - 1)
            v = chk(unop(o, a[2]))
            a = self.wrap(a, 11 if o == '!' else 10)
            return (a[0] + ['!'], 11, v) if o == '!' else ([o] + a[0], 10, v)
        if k < 89:
            c, a, b = self.gen(budget // 3 or 1), self.gen(budget // 3 or 1), self.gen(budget // 3 or 1)
            if c[2] is None: raise Costly()
            return self.wrap(c, 1)[0] + ['?'] + a[0] + [':'] + b[0], 0, a[2] if c[2] else b[2]
        if not self.fun: raise Costly()
        n, f, c = g.choice(self.fun)
        if c == -1: c = g.choice([0, 1, 1, 2, 3, 6])
        xs = [self.gen(max(1, budget // max(c, 1))) for _ in range(c)]
        if f in ('max2', 'tick') and any(x[2] is None for x in xs): raise Costly()
        ts = [n, '(']
        for k, x in enumerate(xs): ts += ([','] if k else []) + x[0]
        return ts + [')'], 12, chk(call(f, [x[2] for x in xs]))
WHITE = [' ', '  ', '\t', '\n', '\r\n', '\0', ' \t \n']
def render(g, ts, tight=0.6):
    """tokens to text, with white space where two tokens would run together and anywhere else"""
    s = ''
    if g.random() < 0.1: s = g.choice(WHITE)
    for k, t in enumerate(ts):
        if k:
            j = s[-1:] + t[:1]
            need = (j[0].isalnum() or j[0] in '_.') and (j[1].isalnum() or j[1] in '_.') or j in ('**', '!=', '>>', '>=', '<<', '<=', '==') or s[-1:] in '<>!*=' and t[:1] in '<>=*'
            if need or g.random() > tight: s += g.choice(WHITE) if g.random() < 0.3 else ' '
        s += t
    if g.random() < 0.1: s += g.choice(WHITE)
    return s.encode('latin1')
def deep(g):
    k = g.randrange(5); n = g.randint(5, 60)
    if k == 0: return ['('] * n + ['1'] + [')'] * n
    if k == 1: return [g.choice('+-~') for _ in range(n)] + ['7'] 
    if k == 2: return sum([[str(g.randint(0, 9)), g.choice(['+', '-', '*', '|', '^', '&'])] for _ in range(n)], []) + ['1']
    if k == 3: return sum([[str(g.randint(0, 1)), '?', str(g.randint(0, 9)), ':'] for _ in range(n)], []) + ['5']
    return sum([['(', str(g.randint(0, 9)), g.choice(['+', '-', '<', '=='])] for _ in range(n)], []) + ['3'] + [')'] * n
def wellformed(g, tab):
    if g.random() < 0.05: return render(g, deep(g))
    t = Tree(g, tab); return render(g, t.gen(g.choice([1, 2, 3, 5, 8, 12, 20, 40, 60]))[0])
def malformed(g, tab):
    t = Tree(g, tab); k = g.randrange(10)
    ts = list(t.gen(g.choice([1, 2, 3, 5, 8, 12, 40]))[0])
    pool = ['+', '-', '*', '**', '/', '%', '!', '!=', '&', '|', '^', '~', '>', '>>', '>=', '<', '<<', '<=', '=', '==', '(', ')', ',', '?', ':', '0', '1', '0x', '0xg', '08', '1x', '037x1', '00x1', '01x0', '12.5.5', '0x1.5', '01.5', '0b1', '1z', '$', '@', '#', '.', '"', '\\', ';', '\x7f', '\xff', '\x80', '[', 'undefined_', '_q', '0X1F', '0036x1', '2x1', '099x1', '036xzz', '1.', '0.', '0.x', '0.5', '.5', '0_'] + list(tab)
    if k < 6:
        for _ in range(g.choice([1, 1, 1, 2, 3])):
            p = g.randrange(len(ts) + 1); m = g.randrange(5)
            if m == 0 and ts: del ts[min(p, len(ts) - 1)]
            elif m == 1: ts.insert(p, g.choice(pool))
            elif m == 2 and ts: ts[min(p, len(ts) - 1)] = g.choice(pool)
            elif m == 3: ts = ts[:p]
            elif ts: q = g.randrange(len(ts)); p = min(p, len(ts) - 1); ts[p], ts[q] = ts[q], ts[p]
        return render(g, ts, g.choice([0.6, 1.0]))
    if k < 7: return render(g, [g.choice(pool) for _ in range(g.randint(1, 9))], g.choice([0, 0.6, 1]))
    s = bytearray(render(g, ts))
    if k < 9:
        for _ in range(g.choice([1, 1, 2])):
            p = g.randrange(len(s) + 1); m = g.randrange(4)
            if m == 0 and s: del s[min(p, len(s) - 1)]
            elif m == 1: s.insert(p, g.choice(b'0123xX._=!<>*()?:, \0az$\xff'))
            elif m == 2 and s: s[min(p, len(s) - 1)] = g.randrange(256)
            else: s = s[:p]
    else: s = bytearray(g.randrange(256) for _ in range(g.randint(0, 12)))
    return bytes(s)
def history(g, n, bad, mode=lambda g: 'e'):
    """segments of evaluations; bad: the share of malformed texts"""
    out = []
    while len(out) < n:
        tab = table(g); out += ['reset'] + defs(tab); recent = []
        for _ in range(60):
            if g.random() < 0.05:      # a symbol is registered anew
                nm = g.choice(list(tab)); k, v, c = tab[nm]
                f, c2 = g.choice(FUNS); tab[nm] = ('con', value(g), 0) if g.random() < 0.4 else ('fun', f, c2); out += defs({nm: tab[nm]}); recent = []
            if recent and g.random() < 0.15: t = g.choice(recent)
            else:
                t = malformed(g, tab) if g.random() < bad else wellformed(g, tab)
                if len(t) > 1500 or not affordable(t, tab): continue
                recent.append(t)
            out.append('eval %d %s %s' % (g.choice([0, 0, 0, 1, 2, 3]), mode(g), t.hex()))
    return out

WIDE, DEEP = (1, 2, 3, 10, 13, 15), (6, 7, 8, 9, 14, 16, 17, 18, 19)
def families(g, modes, wide, deep):
    """members of the families of Expr.tla: long lists of operands, many nodes, deep trees, long literals and blanks"""
    out = []
    def put(f, n): 
        for m in modes(g): out.append('fam %d %s %d,%d' % (g.choice([0, 0, 0, 1, 2, 3]), m, f, n))
    def head(): out.extend(['reset'] + defs(ENUM))
    small = [0, 1, 2, 3, 127, 128, 129, 254, 255, 256, 257, 258, 300, 511, 513]
    for f in WIDE:
        head()
        for n in g.sample(small, 5) + g.sample(wide, min(2, len(wide))): put(f, n // 6 + n % 6 if f == 3 and n > 9999 else n // 3 + n % 3 if f == 2 and n > 9999 else n)
    head()
    for f in (4, 11):
        for n in g.sample([0, 1, 2, 16, 17, 31, 33, 127, 128, 129, 255, 256, 257], 4): put(f, n)
    for n in g.sample(range(11), 3) + [g.choice([15, 16] if wide else [7])]: put(5, n)
    for n in g.sample([0, 8, 9, 18, 19, 20, 99, 308, 1000, 1999], 4): put(12, n)
    for f in DEEP:
        head()
        for n in g.sample([0, 1, 2, 31, 32, 33, 63, 64, 65, 127, 128, 129, 200], 4) + [g.choice(deep)]: put(f, n)
    return out
