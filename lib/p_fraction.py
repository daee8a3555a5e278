"""C16: fractions and gcd (Fraction.tla)."""
import core, math
from gen_big import hx
TRACE = 'SPECIFICATION TraceSpec\nCONSTANT Slots = {0,1,2,3,4,5}\nINVARIANT TypeOK\nPOSTCONDITION TraceAccepted\nCHECK_DEADLOCK FALSE\n'
GRID = 'INIT GInit\nNEXT GNext\nCONSTANTS Slots = {0}\n N = %d\nINVARIANTS Laws Unique Emit\nCHECK_DEADLOCK FALSE\n'
def gen(g, n, thorough):
    out = []; f = [(0, 1)] * 6; bad = set()
    def num(nz=False):
        k = g.randrange(9)
        if k < 3: v = g.randint(-9, 9)
        elif k < 5: v = g.choice([1, -1]) * 2 ** g.randint(0, 40) * 3 ** g.randint(0, 9) * 5 ** g.randint(0, 9)
        elif k < 6: v = g.choice([1, -1]) * 10 ** g.randint(0, 25)
        elif k < 7: v = g.choice([1, -1]) * (2 ** (32 * g.randint(1, 4)) + g.randint(-1, 1))
        elif k < 8: v = g.choice([1, -1]) * g.getrandbits(g.randint(1, 140))
        else:
            a = f[g.randrange(6)]; v = g.choice(a) * g.choice([1, 1, -1, 2, 3])
        if abs(v).bit_length() > 400: v >>= 300
        return v or (1 if nz else 0)
    def low(a, b):
        d = math.gcd(a, b) or 1; return a // d, b // d
    def emit(op, k=-1, i=-1, j=-1, a=0, b=0, n=0, fm='-'): out.append('%s %d %d %d %s %s %d %s' % (op, k, i, j, hx(a), hx(b), n, fm))
    while len(out) < n:
        out.append('reset'); f = [(0, 1)] * 6; bad = set()
        for _ in range(40):
            good = [k for k in range(6) if k not in bad]; k = g.randrange(6); i = g.choice(good) if good else None; j = g.choice(good) if good else None
            op = g.choice(['make'] * 5 + ['int', 'new', 'copy'] + ['setnum', 'setden'] * 2 + ['add', 'sub', 'mul', 'div'] * 3 + ['recip'] * 2 + ['text'] * 3 + ['dec'] * 5 + ['gcd'] * 3)
            if i is None: op = 'make'
            fm = g.choice('tf0')
            if op == 'make':
                a, b = num(), g.choice([0, num(), num(), num(), num()]); emit(op, k, a=a, b=b, fm=fm); bad.discard(k)
                if b == 0: bad.add(k)
                else: f[k] = low(a, b)
            elif op == 'int': a = num(); emit(op, k, a=a); bad.discard(k); f[k] = (a, 1)
            elif op == 'new': emit(op, k); bad.discard(k); f[k] = (0, 1)
            elif op == 'copy': emit(op, k, i); bad.discard(k); f[k] = f[i]
            elif op == 'setnum': a = num(); emit(op, i, a=a); f[i] = low(a, f[i][1])
            elif op == 'setden':
                b = g.choice([0, num(), num(), num()]); emit(op, i, b=b, fm=fm)
                if b: f[i] = low(f[i][0], b)
            elif op in ('add', 'sub', 'mul', 'div'):
                p, q = f[i], f[j]
                r = dict(add=(p[0] * q[1] + q[0] * p[1], p[1] * q[1]), sub=(p[0] * q[1] - q[0] * p[1], p[1] * q[1]), mul=(p[0] * q[0], p[1] * q[1]), div=(p[0] * q[1], p[1] * q[0]))[op]
                if max(abs(r[0]), abs(r[1])).bit_length() > 2000: continue
                emit(op, k, i, j); bad.discard(k); f[k] = low(*r) if r[1] else (0, 1)
            elif op == 'recip': emit(op, k, i, fm=fm); bad.discard(k); f[k] = (f[i][1], f[i][0]) if f[i][0] else (0, 1)
            elif op == 'text': emit(op, -1, i, n=g.choice([10, 10, 2, 16, 36, g.randint(2, 36)]), fm=fm)
            elif op == 'dec': emit(op, -1, i, n=g.choice([8, 0, 1, 2, 3, 5, 10, 18, 19, 20, 30, -1, g.randint(0, 40)]), fm=fm)
            elif op == 'gcd':
                a, b = num(), num()
                if g.random() < 0.5: c = num(); a, b = a * c, b * c
                emit(op, a=a, b=b)
    return out
def grid(ps, part, tot):
    out = []; n = 0
    for x, (a, b) in enumerate(ps):
        if x % tot != part: continue
        out += ['reset', 'make 0 -1 -1 %s %s 0 t' % (a, b), 'text -1 0 -1 0 0 10 -', 'recip 3 0 -1 0 0 0 f', 'copy 4 0 -1 0 0 0 -', 'make 5 -1 -1 %s 0 0 t' % a, 'setden 4 -1 -1 0 0 0 t'] + ['dec -1 0 -1 0 0 %d -' % d for d in (-1, 0, 1, 2, 7, 8)]
        for y in range(7): out += ['copy 4 0 -1 0 0 0 -', 'setnum 4 -1 -1 %s 0 0 -' % hx(y - 3), 'copy 4 0 -1 0 0 0 -', 'setden 4 -1 -1 0 %s 0 f' % hx(y - 3)]
        for (c, d) in ps:
            out.append('make 1 -1 -1 %s %s 0 0' % (c, d))
            for o in ('add', 'sub', 'mul', 'div'): out.append('%s 2 0 1 0 0 0 -' % o)
            out.append('gcd -1 -1 -1 %s %s 0 -' % (a, d))
    return out
def run(ctx):
    q = ctx.quick; ctx.javac()
    R = core.Replay(ctx, 'fraction', 'FractionTrace', TRACE)
    fut = ctx.ex.submit(R.build)
    o = ctx.p('frac.txt')
    ctx.model('FractionGrid', GRID % (3 if q else 6), what='laws of the rationals on all pairs of small fractions', env=dict(OUT=o), workers=4)
    import p_big
    zc = ctx.ex.submit(p_big.zcheck, ctx)
    ps = sorted(tuple(x.strip('"') for x in l.split()) for l in open(o))
    fut.result()
    for k in range(8):
        R.shard(grid(ps, k, 8), 'asan' if k % 2 else 'plain', 'grid')
        g = gen(ctx.rng('rand', k), 6000 if q else 100000, not q)
        R.shard(g, 'asan' if k % 2 == 0 else 'plain', 'random')
        if k == 0: ctx.sample(g[1:16])
    ctx.count('grid_pairs', len(ps) ** 2)
    R.go(); zc.result()
    ctx.assumptions += ['java.math.BigInteger evaluates the integer operators of Z.tla (compared with their TLA+ definitions by ZCheck)']
