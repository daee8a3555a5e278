"""C15: status codes (Status.tla): histories enumerated by TLC and random ones; recordings validated."""
import core
TRACE = 'SPECIFICATION TraceSpec\nCONSTANTS Objs = {1, 2, 3, 4, 5}\n Threads = {0, 1, 2}\nINVARIANT SType\nPOSTCONDITION TraceAccepted\nCHECK_DEADLOCK FALSE\n'
GEN = 'SPECIFICATION GSpec\nCONSTANTS Objs = {1}\n Threads = {0, 1}\n Depth = %d\nINVARIANTS Once Emit SType\nPROPERTIES Isolated Kept\nCHECK_DEADLOCK FALSE\n'
LIB = range(17)
def history(g, n, pc=0.4):
    """one segment: registrations of library and own codes, assignments to objects and global statuses"""
    out = ['reset']; reg = {}; alive = {k: False for k in range(1, 6)}; moved = set(); serial = 0
    own = g.sample(range(17, 400), 6) + [2147483647, 65536]; text = 0
    def codes(kinds): return [c for c, r in reg.items() if r[0] in kinds]
    def assignable(): return [c for c in list(reg)] + [c for c in LIB if c != 1 and c not in reg]
    def api(o): return 'c' if o in (4, 5) or (o >= 100 and g.random() < pc) else 'p'
    for _ in range(n):
        r = g.random()
        if r < 0.30 or not reg:
            c = g.choice(own + [0, 1, 2, 5, 7, 9, 16]); text += 1
            k = g.choice(['none', 'rec', 'rec', 'rec', 'chain', 'rereg', 'fresh']); a, x, y = g.randint(1, 1000), 0, 0; p = 'p'
            if k == 'chain':
                ys = [d for d in codes(('none', 'rec')) if d != c]; xs = [o for o in (1, 2, 3) if alive[o]] + [101, 102]
                if not ys or any(q[0] == 'chain' and q[3] == c for q in reg.values()): k = 'rec'
                else: x, y = g.choice(xs), g.choice(ys)
            # the target of a chain stays a code with a plain callback
            if k in ('chain', 'rereg', 'fresh') and any(q[0] == 'chain' and q[3] == c for q in reg.values()): k = 'rec'; x = y = 0
            if k == 'rereg': x = g.randint(1, 1000)
            if k == 'fresh':
                serial += 1; x, y = g.randint(1, 1000), 5000 + serial
            if k in ('none', 'rec') and g.random() < pc: p = 'c'
            if k == 'none': a = 0
            t = g.choice(['text%d' % text, 'T%d' % text + 'long' * 12, 'x'])
            out.append('reg %s %d %s %s %d %d %d' % (p, c, t, k, a, x, y)); reg[c] = (k, a, x, y)
        elif r < 0.36:
            c = g.choice(own + list(LIB) + [30, 401, 5000 + serial]); out.append('info %s %d' % (g.choice('pc'), c))
        elif r < 0.40:
            c = g.choice(own + list(LIB) + [30, 401]); out.append('find %d' % c)
        elif r < 0.72:
            o = g.choice([o for o in alive if alive[o]] + [100, 101, 102]); c = g.choice(assignable())
            if g.random() < 0.6 and reg: c = g.choice(list(reg))
            out.append('set %s %d %d' % (api(o), o, c)); done(reg, c)
        elif r < 0.80:
            o = g.choice([1, 2, 3, 4, 5] if pc < 0.5 else [1, 4, 4, 5, 5]); c = g.choice(assignable() + [-1] * 3 if o <= 3 else assignable() + [0] * 3)
            k = reg.get(c)
            if k and k[0] == 'chain' and k[2] == o: continue          # the callback would assign to the object being made
            if c == -1 and any(q[0] == 'chain' and q[2] == o for q in reg.values()): pass
            out.append('new %s %d %d' % ('c' if o > 3 else 'p', o, c)); alive[o] = True; moved.discard(o); done(reg, c)
        elif r < 0.84:
            js = [o for o in (1, 2, 3) if alive[o] and not any(q[0] == 'chain' and q[2] == o for q in reg.values())]
            if not js: continue
            j = g.choice(js); k = g.choice([o for o in (1, 2, 3, 100) if o != j])
            if any(q[0] == 'chain' and q[2] == k for q in reg.values()) and k <= 3: continue
            out.append('move p %d %d' % (j, k)); alive[j] = False
            if k <= 3: alive[k] = True
        elif r < 0.88:
            o = g.choice([o for o in (1, 2, 3) if alive[o]] + [100, 101, 102]); out.append('ctx %d c%d' % (o, g.randint(0, 99)))
            if g.random() < 0.8: out.append('getctx %d' % o)
        elif r < 0.92:
            c = g.choice(codes(('none', 'rec')) + [30, 401]); out.append('invoke %d' % c)
        elif r < 0.96:
            cs = codes(('none', 'rec'))
            if cs: out.append('par ' + ' '.join('%d:%s' % (t, ','.join(str(g.choice(cs)) for _ in range(g.randint(1, 40)))) for t in g.sample([0, 1, 2], g.randint(2, 3))))
        else:
            c = g.choice([c for c in LIB if c not in reg] or [0])
            if c not in reg: out.append('child %d' % c)
    return out
def done(reg, c):
    k = reg.get(c)
    if k and k[0] == 'rereg': reg[c] = ('rec', k[2], 0, 0)
    if k and k[0] == 'fresh': reg[k[3]] = ('rec', k[2], 0, 0)
def early(g):
    """registrations of library codes before the library is used at all, then every way of starting to use it"""
    out = []
    for c in LIB:
        for first in ('set p 100 %d' % (5 if c != 5 else 6), 'set c 100 0', 'set p 101 2', 'new p 1 %d' % (4 if c != 4 else 3), 'new c 4 0'):
            if g.random() < 0.5 and c not in (0, 1): continue
            out += ['reset', 'info p %d' % c, 'find %d' % c, 'reg %s %d mine rec 3 0 0' % (g.choice('pc'), c), 'info p %d' % c, first, 'info c %d' % c, 'set p 100 %d' % c, 'new p 2 %d' % c, 'set p 102 %d' % c]
            if c != 9: out += ['set p 100 9', 'child 9']
        out += ['reset', 'info p %d' % c, 'find %d' % c, 'child %d' % c, 'set p 100 3', 'info p %d' % c, 'find %d' % c, 'child %d' % c]
        if c != 1: out += ['set p 100 %d' % c, 'set p 101 %d' % c, 'new p 1 %d' % c, 'new c 4 %d' % c]
    return out
def binding(ctx):
    """C17: the C functions on statuses"""
    R = core.Replay(ctx, 'status', 'StatusTrace', TRACE, limit=4000); R.build(); q = ctx.quick
    for k in range(2 if q else 8):
        g = ctx.rng('status', k); s = []
        for _ in range(25 if q else 400): s += history(g, 60, 0.9)
        R.shard(s, 'asan' if k % 2 == 0 else 'plain', 'status')
    R.go()
def run(ctx):
    q = ctx.quick; ctx.javac()
    R = core.Replay(ctx, 'status', 'StatusTrace', TRACE, limit=4000)
    fut = ctx.ex.submit(R.build)
    o = ctx.p('status.txt')
    ctx.model('StatusGen', GEN % (3 if q else 4), what='registry, objects and global statuses of two threads: laws', env=dict(OUT=o), workers=8, xmx='6g')
    hs = sorted(set(l.strip().strip('"') for l in open(o))); ctx.count('histories_enumerated', len(hs))
    g = ctx.rng('pick'); lim = 1500 if q else 60000
    if len(hs) > lim: hs = g.sample(hs, lim)
    ctx.sample(hs[:3]); fut.result()
    n = len(hs) // 8 + 1
    for k in range(8):
        s = []
        for h in hs[k * n:(k + 1) * n]: s += ['reset'] + h.split(';')
        R.shard(s, 'asan' if k % 2 else 'plain', 'enumerated')
        g = ctx.rng('rand', k); s = []
        for _ in range(30 if q else 900): s += history(g, 60)
        if k == 0: ctx.sample(s[:20])
        R.shard(s, 'asan' if k % 2 == 0 else 'plain', 'random')
    R.shard(early(ctx.rng('early')), 'plain', 'early', 600)
    R.go()
    ctx.assumptions += ['the text a code of the library shows before the library is used for the first time is not specified', 'assigning a code nobody registered is outside the contract (debug assertion)']
