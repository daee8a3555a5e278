"""C20: the concurrent queue (Queue.tla): the model of its steps, and histories of the real code under a controlled scheduler."""
import core, itertools
TRACE = 'SPECIFICATION TraceSpec\nCONSTANT Threads = {0, 1, 2, 3, 4, 5, 6}\nINVARIANT QType\nPOSTCONDITION TraceAccepted\nCHECK_DEADLOCK FALSE\n'
IMPL = 'SPECIFICATION Spec\nCONSTANTS Threads = {%s}\n N = %d\n LockedNotify = TRUE\nINVARIANT Mutex\nPROPERTIES Refines Delivered Ends Closes\nCHECK_DEADLOCK FALSE\n'
def programs(lens, ops='poteskm'):
    """all tuples of programs of the given lengths, up to the order of the threads"""
    one = {n: [''.join(x) for x in itertools.product(ops, repeat=n)] for n in set(lens)}
    out = set()
    for x in itertools.product(*[one[n] for n in lens]): out.add(tuple(sorted(x)))
    return sorted(out)
def text(ps):
    n = itertools.count(1)
    return ' '.join(','.join(o + str(next(n)) if o in 'pmf' else o for o in p) for p in ps)
def useful(ps):
    s = ''.join(ps); return any(o in s for o in 'pm') and any(o in s for o in 'otk')
def rand(g, threads, most):
    return [''.join(g.choice('pppmmoooooottefks' if g.random() < 0.4 else 'pmoo') for _ in range(g.randint(1, most))) for _ in range(threads)]
def run(ctx):
    q = ctx.quick; ctx.javac()
    R = core.Replay(ctx, 'queue', 'QueueTrace', TRACE, sources=[], flavours=('sched', 'schedn'))
    fut = ctx.ex.submit(R.build)
    ctx.model('QueueImpl', IMPL % ('1, 2, 3', 3) if q else IMPL % ('1, 2, 3', 5), what='queue with mutex and condition variable, 3 threads: refines Queue, nobody is left behind', workers=8, xmx='8g')
    fut.result()
    # all schedules of small programs
    small = [p for p in programs((1, 1), 'potesk') + programs((2, 1), 'pots') + programs((1, 1, 1), 'pots') if useful(p)]
    more = [p for p in programs((2, 2), 'pots') + programs((2, 1, 1), 'pos') + programs((1, 1, 1, 1), 'pots') if useful(p)]
    g = ctx.rng('pick'); more = g.sample(more, 60 if q else len(more))
    ctx.count('programs_all_schedules', len(small) + len(more))
    jobs = [[] for _ in range(16)]
    for k, p in enumerate(small): jobs[k % 16] += ['reset', 'dfs %d %d %s' % (2 if q else 3, 3000 if q else 30000, text(p))]
    for k, p in enumerate(more): jobs[k % 16] += ['reset', 'dfs %d %d %s' % (1 if q else 2, 3000 if q else 30000, text(p))]
    for k, j in enumerate(jobs): R.shard(j, 'sched', 'schedules', 100000)
    for k in range(8):
        g = ctx.rng('rand', k); s = []
        for n in range(40 if q else 600):
            ps = rand(g, g.randint(2, 6), 4); st = g.choice('rrpp'); mem = g.choice([0, 0, 30, 300]) if st == 'r' else g.choice([100, 400, 1500])
            s += ['reset', 'run %d %d %s %d %d %d %s' % (g.randrange(1 << 30), 10 if q else 30, st, g.randint(1, 6), mem, g.randint(0, 1), text(ps))]
        R.shard(s, 'sched' if k % 2 else 'schedn', 'random', 100000)
        if k == 0: ctx.sample(s[:8])
    R.go()
    ctx.assumptions += ['threads interleave sequentially consistently (the scheduler runs one at a time)', 'mutexes, condition variables and futures behave as POSIX and the C++ standard demand']
