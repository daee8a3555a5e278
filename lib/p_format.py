"""C21: formatted texts (Format.tla). Short format texts enumerated by TLC and random ones, all argument types."""
import core
TRACE = 'SPECIFICATION TraceSpec\nPOSTCONDITION TraceAccepted\nCHECK_DEADLOCK FALSE\n'
GEN = 'INIT Init\nNEXT Next\nCONSTANTS Alphabet = {%s}\n MaxLen = %d\n NArgs = %d\nINVARIANTS Plain Parts Emit\nCHECK_DEADLOCK FALSE\n'
def h(b): return bytes(b).hex() or '='
def hx(v): return ('-' if v < 0 else '') + format(abs(v), 'x')
FEW = 'lsn'
class G:
    def __init__(self, rng): self.g = rng
    def text(self, big=False):
        g = self.g; k = g.randrange(10)
        n = g.choice([0, 0, 1, 1, 2, 3, 5, 15, 16, 17, 40]) if not big else g.choice([0, 1, 49, 50, 51, 300, 5000])
        b = bytes(g.choice(b'ab{}:0 %s\xc3') for _ in range(n))
        return b.replace(b'\0', b'')
    def int(self, bits, signed):
        g = self.g; lo, hi = (-(1 << bits - 1), (1 << bits - 1) - 1) if signed else (0, (1 << bits) - 1)
        k = g.randrange(5)
        if k == 0: return g.choice([lo, hi, lo + 1, hi - 1])
        if k == 1: return max(lo, min(hi, g.choice([0, 0, 1, -1, 9, 10, 11, -9, -10, 99, 100, 255, 256, 1000])))
        return max(lo, min(hi, g.choice([1, -1]) * g.getrandbits(g.randint(0, bits))))
    def arg(self, t):
        g = self.g
        if t in 'hil': return t + ':' + hx(self.int(dict(h=16, i=32, l=64)[t], True))
        if t in 'HILy': return t + ':' + hx(self.int(dict(H=16, I=32, L=64, y=8)[t], False))
        if t == 'b': return 'b:%d' % g.randrange(2)
        if t == 'k': return 'k:%02x' % g.choice(b'a0{} %')
        if t == 's': return 's:' + h(self.text(g.random() < 0.1)) if g.random() < 0.9 else 's:' + h(self.text() + b'\0' + self.text())
        if t == 'c': return 'c:' + h(self.text(g.random() < 0.1))
        if t == 'a': return 'a:' + h(self.text()[:7])
        if t in 'fd':
            m = g.choice([0, 1, 3, 5, 25, 125, g.getrandbits(24), g.getrandbits(24)]); e = g.choice([0, 0, 1, 2, 3, 10, 20, 30])
            if t == 'd' and g.random() < 0.5: m = g.getrandbits(53)
            if t == 'd' and g.random() < 0.15: m = g.choice([1, 0x7fffffffffffffff // 2 + 1, 1 << 62]); e = 0
            return '%s:%s,%d' % (t, hx(m * g.choice([1, -1])) if m else '0', e)
        if t == 'n': return 'n:' + hx(g.choice([0, 1, -1, 35, 36, 255, g.getrandbits(70), -g.getrandbits(200), g.getrandbits(64)]))
        if t == 'v': return 'v:' + ','.join(hx(self.int(64, True)) for _ in range(g.randrange(4)))
        if t == 'w': return 'w:' + ','.join(h(self.text()) for _ in range(g.randrange(4)))
        if t == 'p': return 'p:%s,%s' % (hx(self.int(32, True)), h(self.text()))
    def limit(self, t):
        g = self.g
        if g.random() < 0.45 or t is None: return b''
        w = b'' if g.random() < 0.2 else b'%d' % g.choice([1, 2, 3, 5, 8, 10, 17, 19, 20, 21, 25, 39, 40, 41, 60, 100, 300])
        p = b'' if g.random() < 0.6 else b'.%s' % g.choice([b'', b'0', b'1', b'2', b'6', b'10', b'20', b'50'])
        if t in 'hilHIL': return b''.join(g.sample([b'-', b'0', b'+', b' '], g.choice([0, 0, 1, 2]))) + w + p
        if t in 'fd': return b''.join(g.sample([b'-', b'0', b'+', b' '], g.choice([0, 0, 1, 2]))) + w + p
        if t in 'sca': return g.choice([b'', b'-']) + w + p
        if t == 'n': return b'%d' % g.choice([2, 3, 8, 10, 16, 35, 36, 37, 1, 0, 100])
        return g.choice([b'', b'3', b'x'])
    def line(self):
        g = self.g; n = g.choice([0, 1, 1, 1, 2, 2, 2, 3, 3, 4, 12])
        if n == 12: ts = 's' * 12
        elif n == 4: ts = 'slns'
        elif n == 3: ts = [g.choice(FEW) for _ in range(3)]
        else: ts = [g.choice('hilHILybkscafdnvwp')][:n] + [g.choice(FEW) for _ in range(n - 1)]
        args = [self.arg(t) for t in ts]
        f = b''; order = list(range(n)); k = g.randrange(4)
        if k == 0: g.shuffle(order)
        elif k == 1: order = [g.randrange(n + 2) for _ in range(g.randint(0, 5))]
        elif k == 2 and n: order = [g.randrange(n) for _ in range(g.randint(1, 6))]
        lit = lambda: g.choice([b'', b'', b' ', b'a', b' * ', b'}', b': ', b'%d', b'\n', b'0', b'x' * 60])
        f = lit()
        for x in order:
            t = ts[x] if x < n else None
            NUL = t == 's' and '00' in [args[x][2:][i:i + 2] for i in range(0, len(args[x]) - 2, 2)]
            l = b'' if NUL else self.limit(t)
            f += b'{' + (b'0' * g.choice([0, 0, 0, 1]) + b'%d' % x if g.random() < 0.97 else b'%d' % (x + 20)) + (b':' + l if l or g.random() < 0.05 else b'') + b'}' + lit()
        if g.random() < 0.1: f += g.choice([b'{', b'{0', b'{0:5'])
        return 'format %s %s %s' % (h(f), '-' if g.random() < 0.6 else h(self.text()), ' '.join(args))
def run(ctx):
    q = ctx.quick
    R = core.Replay(ctx, 'format', 'FormatTrace', TRACE)
    ctx.javac(); fut = ctx.ex.submit(R.build)
    alpha = [123, 125, 48, 49, 58] + ctx.rng('alpha').choice([[120, 50], [51, 97], [53, 45]])
    outs = []
    for n in ((2,) if q else (0, 1, 2, 3)):
        o = ctx.p('fmt%d.txt' % n); open(o, 'w').close(); outs.append((n, o))
        ctx.model('FormatGen', GEN % (', '.join(map(str, alpha)), 6 if q else 7, n), what='all format texts of up to %d characters, %d arguments' % (6 if q else 7, n), env=dict(OUT=o), workers=8, xmx='6g')
    fut.result()
    ARGS = ['s:717b31', 'l:-2a', 'n:7']
    for n, o in outs:
        rng = ctx.rng('pick', n)
        fs = [x for x in (l.strip().strip('"') for l in open(o)) if '7b' in [x[i:i + 2] for i in range(0, len(x), 2)]]
        ctx.count('formats_enumerated', len(fs))
        br = [x for x in fs if '7d' in x]; fs = br + rng.sample(fs, min(len(fs), 2000))
        if not q and len(fs) > 60000: fs = rng.sample(fs, 60000)
        ls = ['format %s %s %s' % (f, '-' if k % 3 else rng.choice(['=', '7a7b307d']), ' '.join(ARGS[:n])) for k, f in enumerate(fs)]
        ctx.count('formats_replayed', len(ls)); ctx.sample(ls[0])
        for i in range(0, len(ls), 6000): R.shard(['reset'] + ls[i:i + 6000], 'asan' if i % 12000 == 0 else 'plain', 'enumerated', 6001)
    for k in range(8 if q else 40):
        g = G(ctx.rng('rand', k))
        ls = [g.line() for _ in range(3000)]
        if k == 0: ctx.sample(ls[0]); ctx.sample(ls[1])
        out = []
        for i, l in enumerate(ls):
            if i % 20 == 0: out.append('reset')
            out.append(l)
        R.shard(out, 'asan' if k % 4 else 'plain', 'random', 4000)
    # hundreds of placeholders; the target among the arguments
    g = G(ctx.rng('long')); out = []
    for n in [2, 5, 127, 128, 255, 256, 257, 300] + ([] if q else [511, 512, 513, 1000]):
        for t in ('-', '=', '3e3e'):
            out += ['reset', 'format %s %s %s' % (h(b''.join(b"{%d}" % g.g.randrange(3) + g.g.choice([b'', b'.', b'ab']) for _ in range(n))), t, ' '.join(g.arg(x) for x in 'lsn'))]
    for i in range(100 if q else 1000):
        x = h(g.text()); y = g.g.choice([b'{0}', b'{0}{0}', b'a{0}', b'{0:40}', b'{0}b{1}{0}']); out += ['reset', 'format %s %s s:%s' % (h(y), x, x)]
    R.shard(out, 'asan', 'long', 4000)
    R.go()
    ctx.assumptions += ['java.math.BigInteger evaluates the integer operators of Z.tla']
