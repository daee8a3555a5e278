"""C11, C13: expressions (Expr.tla): texts enumerated by TLC from the grammar, and random ones; recordings validated."""
import core, gen_expr
TRACE = 'SPECIFICATION TraceSpec\nINVARIANT XType\nPOSTCONDITION TraceAccepted\nCHECK_DEADLOCK FALSE\n'
GEN = 'INIT GInit\nNEXT GNext\nCONSTANTS Mode = "%s"\n Depth = %d\n LeafVals = {%s}\nINVARIANTS Laws Emit\nCHECK_DEADLOCK FALSE\n'
FAMWIDE = [1000, 21845, 21846, 32767, 32768, 65534, 65535, 65536, 65537, 70000]
WHAT = dict(trees='all small syntax trees', all='all token sequences', calls='token sequences around calls', cond='token sequences around the conditional', chars='all character sequences', families='families of texts, by formula')
def texts(ctx, mode, depth, leaves=''):
    o = ctx.p('texts-%s.txt' % mode)
    ctx.model('ExprGen', GEN % (mode, depth, leaves), what='%s up to length %d: laws of the grammar' % (WHAT[mode], depth) if mode != 'trees' else WHAT[mode], env=dict(OUT=o), workers=8, xmx='6g')
    r = sorted(set(bytes.fromhex(l.strip().strip('"')) for l in open(o)))
    ctx.count('texts_enumerated', len(r))
    return r
def script(g, ts, mode=lambda g: 'e'):
    out = []
    for k in range(0, len(ts), 150):
        out += ['reset'] + gen_expr.defs(gen_expr.ENUM) + ['eval %d %s %s' % (g.choice([0, 0, 0, 1, 2]), mode(g), t.hex()) for t in ts[k:k + 150]]
    return out
def run(ctx):
    q = ctx.quick; ctx.javac()
    R = core.Replay(ctx, 'expr', 'ExprTrace', TRACE, limit=6000)
    fut = ctx.ex.submit(R.build)
    if ctx.prop == 'C11': sets = [texts(ctx, 'trees', 0, '0,2,3' if q else '0,1,2,3,5'), texts(ctx, 'cond', 5 if q else 6)]
    else: sets = [texts(ctx, 'all', 3), texts(ctx, 'calls', 4 if q else 6), texts(ctx, 'cond', 4 if q else 6), texts(ctx, 'chars', 3 if q else 5)]
    ctx.model('ExprGen', GEN % ('families', 6, '0'), what='what the families of texts evaluate to, by formula, is what the language says')
    fut.result()
    for k in range(2 if q else 8):
        g = ctx.rng('fam', k); R.shard(gen_expr.families(g, lambda g: ['e'], FAMWIDE, [255, 256, 257, 300, 1000]), 'asan' if k % 2 else 'plain', 'families', 3000)
    g = ctx.rng('pick'); limit = 8000 if q else 150000
    for ts in sets:
        ts = [t for t in ts if gen_expr.affordable(t, gen_expr.ENUM)]
        if len(ts) > limit: ts = g.sample(ts, limit)
        g.shuffle(ts); ctx.count('texts_replayed', len(ts))
        ctx.sample([t.decode('latin1') for t in ts[:5]])
        h = len(ts) // 2
        R.shard(script(g, ts[:h]), 'asan', 'enumerated', 3000); R.shard(script(g, ts[h:]), 'plain', 'enumerated', 3000)
    for k in range(8):
        g = ctx.rng('rand', k)
        s = gen_expr.history(g, 2500 if q else 40000, 0.05 if ctx.prop == 'C11' else 0.75)
        if k == 0: ctx.sample([bytes.fromhex((l.split() + [''])[3]).decode('latin1') for l in s[12:24] if l.startswith('eval') and len(l.split()) > 3])
        R.shard(s, 'asan' if k % 2 == 0 else 'plain', 'random', 3000)
    R.go()
    ctx.assumptions += ['java.math.BigInteger evaluates the integer operators of Z.tla (compared with their TLA+ definitions by ZCheck)',
                        'not specified: negative exponents, negative or enormous shift counts, what is computed from the result of a division by zero']
