"""C12: peval against eval (Expr.tla, PevalImpl.tla): the model of its steps, and evaluations of the real code, with threads
and under a controlled scheduler, each compared with the specification and with the sequential evaluation of the text."""
import core, gen_expr, p_expr
IMPL = 'SPECIFICATION Spec\nCONSTANTS N = %d\n W = %d\nINVARIANTS NeverWaits Once Needed\nPROPERTIES Terminates\nCHECK_DEADLOCK FALSE\n'
def table(g):
    t = gen_expr.table(g)
    if g.random() < 0.5: t['boom'] = ('fun', 'boom', -1)
    return t
def text(g, tab, most):
    """a text that is worth evaluating in parallel"""
    while True:
        k = g.randrange(20)
        if k < 2: t = gen_expr.malformed(g, tab)
        elif k < 3: t = gen_expr.render(g, gen_expr.deep(g))
        else: t = gen_expr.render(g, gen_expr.Tree(g, tab, 0.3 if k < 8 else 0.02).gen(g.randint(1, most))[0])
        if len(t) < 900 and gen_expr.affordable(t, tab): return t
def history(g, n, how, most):
    """`how` gives the texts' parallel evaluations: lists of (threads, schedule)"""
    out = []
    while len(out) < n:
        tab = table(g); out += ['reset'] + gen_expr.defs(tab)
        for _ in range(25):
            t = text(g, tab, most); s = g.choice([0, 0, 0, 1, 2, 3])
            if not t: continue
            out.append('eval %d e %s' % (s, t.hex()))
            for w, sched in how(g): out.append('eval %d p%d %s %s' % (g.choice([s, s, 0, 1, 2]) , w, t.hex(), sched))
    return out
def threads(g): return [(g.choice([1, 1, 2, 3, 4, 8, 0, -1]), '') for _ in range(2)]
def schedules(count):
    def f(g):
        r = []
        for _ in range(g.randint(1, 2)):
            st = g.choice('rrpp'); mem = g.choice([0, 0, 100, 1000]) if st == 'r' else g.choice([200, 1000, 5000, 20000])
            r.append((g.choice([1, 1, 2, 2, 3, 4, 8, -1]), '%d,%s,%d,%d,%d,%d' % (g.randrange(1 << 30), st, g.randint(1, 6), mem, g.randint(0, 1), count)))
        return r
    return f
def run(ctx):
    q = ctx.quick; ctx.javac()
    R = core.Replay(ctx, 'expr', 'ExprTrace', p_expr.TRACE, flavours=('asan', 'plain', 'sched', 'schedn'), limit=6000)
    fut = ctx.ex.submit(R.build)
    for n, w in [(5, 2)] + ([] if q else [(6, 3)]):
        ctx.model('PevalImpl', IMPL % (n, w), what='peval on every tree of up to %d nodes with %d workers: as sequential evaluation, nobody waits, ends' % (n, w), workers=8, xmx='12g')
    fut.result()
    for k in range(8):
        g = ctx.rng('threads', k); s = history(g, 500 if q else 12000, threads, 30)
        R.shard(s, 'asan' if k % 2 == 0 else 'plain', 'threads', 3000)
        if k == 0: ctx.sample([bytes.fromhex((l.split() + [''])[3]).decode('latin1') for l in s if l.startswith('eval') and ' p' in l][:6])
    for k in range(16):
        g = ctx.rng('sched', k); fl = 'sched' if k % 2 else 'schedn'
        R.shard(history(g, 150 if q else 4000, schedules(6 if q else 20), 20 if k % 4 else 45), fl, 'schedules', 2000)
        R.shard([l for l in history(g, 60 if q else 600, schedules(40 if q else 200), 6)], fl, 'schedules', 2000)
    for k in range(3 if q else 12):
        g = ctx.rng('fam', k); R.shard(gen_expr.families(g, lambda g: ['p%d' % g.choice([1, 2, 4, 8])], p_expr.FAMWIDE, [255, 256, 257, 300, 1000]), 'asan' if k % 2 else 'plain', 'families', 3000)
        def modes(g): return ['p%d' % w + ' @%s' % s for w, s in schedules(2)(g)]
        s = [' '.join([l.split()[0], l.split()[1], l.split()[2], l.split()[4], l.split()[3][1:]]) if '@' in l else l for l in gen_expr.families(g, modes, [], [100])]
        R.shard(s, 'sched' if k % 2 else 'schedn', 'families', 3000)
    R.go()
    ctx.assumptions += ['java.math.BigInteger evaluates the integer operators of Z.tla (compared with their TLA+ definitions by ZCheck)',
                        'threads interleave sequentially consistently (the scheduler runs one at a time)', 'builtin functions given to the library may be called by several threads at a time']
