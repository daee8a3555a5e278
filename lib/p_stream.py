"""C22: text streams (Stream.tla); histories generated by TLC from the specification, replayed, recordings validated."""
import core
GEN = 'SPECIFICATION GSpec\nCONSTANTS Sources = {%s}\n Slots = {%s}\n Depth = %d\n Random = %s\nINVARIANTS TypeOK InPlace Emit\nCHECK_DEADLOCK FALSE\n'
TRACE = 'SPECIFICATION TraceSpec\nCONSTANTS Sources = {0,1,2}\n Slots = {0,1,2,3,4,5}\nINVARIANTS TypeOK InPlace\nPOSTCONDITION TraceAccepted\nCHECK_DEADLOCK FALSE\n'
def run(ctx):
    q = ctx.quick
    R = core.Replay(ctx, 'stream', 'StreamTrace', TRACE, sources=[])
    ctx.javac(); fut = ctx.ex.submit(R.build)
    o = ctx.p('ex.txt'); open(o, 'w').close(); d = 5 if q else 6
    ctx.model('StreamGen', GEN % ('0', '0,1', d, 'FALSE'), what='all histories of %d operations on one source and two streams' % d, env=dict(OUT=o), workers=8, xmx='6g')
    hs = [l.strip().strip('"').split(';') for l in open(o)]; ctx.count('histories_enumerated', len(hs))
    fut.result(); rng = ctx.rng('pick'); hs = rng.sample(hs, min(len(hs), 16000 if q else 200000)); ctx.count('histories_replayed', len(hs))
    pre = 'text 0 0 0 0 0 120,0,121,122 -'     # every history begins with this text
    for k, f in ((0, 'asan'), (1, 'plain')):
        lines = []
        for h in hs[k::2]: lines += ['reset', pre] + h
        R.shard(lines + ['reset'], f, 'enumerated', 14000)
    ctx.sample(hs[0]); ctx.sample(hs[1])
    n = 60 if q else 800
    def sim(k):
        o = ctx.p('sim%d.txt' % k); open(o, 'w').close()
        r = ctx.tlc('StreamGen', GEN % ('0,1,2', '0,1,2,3,4,5', 60, 'TRUE'), env=dict(OUT=o), args=['-simulate', 'num=%d' % n, '-depth', '80', '-seed', str(ctx.seed * 100 + k)])
        if not r['ok']: raise core.Broken('StreamGen: ' + r['out'][-2000:])
        ctx.states += r['dist']; ctx.transitions += r['gen']
        return [l.strip().strip('"').split(';') for l in open(o)]
    for k, hs in enumerate(ctx.map(sim, range(8))):
        lines = []
        for h in hs: lines += ['reset'] + h
        ctx.count('random_histories', len(hs))
        R.shard(lines + ['reset'], 'asan' if k % 2 else 'plain', 'random', 14000)
        if k == 0 and hs: ctx.sample(hs[0][:20])
    R.go()
    ctx.assumptions.append('streams reading a source in place promise nothing once the source is changed; neither do streams moved from')
