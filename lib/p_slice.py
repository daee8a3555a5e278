"""C19: slices as sequences (SliceSpec.tla); histories generated by TLC from the specification, replayed, recordings validated."""
import core
GEN = 'SPECIFICATION GSpec\nCONSTANTS Slots = {%s}\n Depth = %d\n Random = %s\n MaxLen = %d\nINVARIANTS TypeOK Emit\nCHECK_DEADLOCK FALSE\n'
TRACE = 'SPECIFICATION TraceSpec\nCONSTANT Slots = {0,1,2,3,4,5,6,7}\nINVARIANT TypeOK\nPOSTCONDITION TraceAccepted\nCHECK_DEADLOCK FALSE\n'
def read(f, known):
    for l in open(f):
        yield l.strip().strip('"').split(';')
def run(ctx):
    q = ctx.quick
    R = core.Replay(ctx, 'slice', 'SliceTrace', TRACE, sources=[])
    ctx.javac()
    fut = ctx.ex.submit(R.build)
    ctx.model('SliceImpl', 'SPECIFICATION ISpec\nCONSTANTS Slots = {0,1%s}\n Depth = %d\nINVARIANT Inv\nPROPERTY Refines\nCHECK_DEADLOCK FALSE\n' % (('', 4) if q else (',2', 4)), what='windows on shared vectors (the design of Slice.h) refine SliceSpec', workers=6, xmx='6g')
    outs = []
    for slots, depth in ([('0,1', 3)] if q else [('0,1', 3), ('0,1,2', 3)]):
        o = ctx.p('ex%s-%d.txt' % (slots.count(','), depth))
        ctx.model('SliceGen', GEN % (slots, depth, 'FALSE', 8), what='all histories of %d operations on %d slices' % (depth, slots.count(',') + 1), env=dict(OUT=o), workers=8, xmx='6g')
        outs.append(o)
    fut.result()
    def fix(h, nslots):   # the slices the generating model does not have are never touched
        rest = ''.join(str(k) for k in range(nslots, 8))
        r = []
        for x in h:
            a, b = x.rsplit(' ', 1); r.append(a + ' ' + ('' if b == '-' else b) + rest)
        return r
    for k, o in enumerate(outs):
        hs = [l.strip().strip('"').split(';') for l in open(o)]
        ctx.count('histories_enumerated', len(hs))
        rng = ctx.rng('pick', k); hs = hs if len(hs) < 60000 and not q else rng.sample(hs, min(len(hs), 24000 if q else 120000))
        ctx.count('histories_replayed', len(hs))
        for z, t in (('u32', 0), ('str', 1)):
            lines = []
            for h in hs[t::2]: lines += ['reset ' + z] + fix(h, 2 if k == 0 else 3)
            R.shard(lines, 'asan', 'enumerated', 14000)
        ctx.sample(hs[0]); ctx.sample(hs[1])
    n = 40 if q else 600
    def sim(k):
        o = ctx.p('sim%d.txt' % k); open(o, 'w').close()
        r = ctx.tlc('SliceGen', GEN % ('0,1,2,3', 40, 'TRUE', 14), env=dict(OUT=o), args=['-simulate', 'num=%d' % n, '-depth', '60', '-seed', str(ctx.seed * 100 + k)])
        if not r['ok']: raise core.Broken('SliceGen: ' + r['out'][-2000:])
        ctx.states += r['dist']; ctx.transitions += r['gen']
        return [l.strip().strip('"').split(';') for l in open(o)]
    for k, hs in enumerate(ctx.map(sim, range(8))):
        lines = []
        for h in hs: lines += ['reset ' + ('u32' if k % 2 else 'str')] + fix(h, 4)
        ctx.count('random_histories', len(hs))
        R.shard(lines, 'asan' if k < 6 else 'plain', 'random', 14000)
        if k == 0 and hs: ctx.sample(hs[0][:20])
    R.go()
    ctx.assumptions.append('slices that share storage and are not detached promise nothing about one another once one of them is changed in place')
