"""C14: the thread pool (Pool.tla): the model of its steps, and histories of the real code under a controlled scheduler."""
import core, itertools
TRACE = 'SPECIFICATION TraceSpec\nCONSTANT Tasks = {1,2,3,4,5,6,7,8,9,10,11,12,13,14,15}\nINVARIANT PType\nPOSTCONDITION TraceAccepted\nCHECK_DEADLOCK FALSE\n'
IMPL = 'SPECIFICATION Spec\nCONSTANTS K = %d\n W = %d\n Nesting = {%s}\n LockedNotify = TRUE\nINVARIANT Mutex\nPROPERTIES Refines Terminates Runs\nCHECK_DEADLOCK FALSE\n'
def scenario(g, nested):
    """pool size, flags, programs; the tasks wait only for what is sure to come"""
    n = g.choice([1, 1, 2, 2, 3, 4, 0 if g.random() < 0.3 else 2]); ids = itertools.count(1); fl = g.choice('gghq--')
    forward = g.random() < 0.25 and n != 1
    progs = []; budget = 12; fwd = (n or 4) - 1
    for _ in range(g.randint(1, 4)):
        p = []; mine = []; opened = []
        for _ in range(g.randint(1, 4)):
            if budget <= 2: break
            k = g.choice('vvxwar' + ('' if forward else 'dids'))
            if k == 's' and not (nested or fl == 'g'): k = 'v'
            if k in 'di' and not mine: k = 'w'
            t = next(ids); budget -= 1
            if k in 'di':
                m = g.choice(mine)
                if k == 'i': mine.remove(m)
                p.append('%s%d.%d' % (k, t, m))
            elif k == 's': p.append('s%d.%d' % (t, next(ids))); budget -= 1
            elif forward and fwd > 0 and g.random() < 0.5:
                fwd -= 1
                if g.random() < 0.5: m = next(ids); budget -= 1; p += ['d%d.%d' % (t, m)] + ['y'] * g.randint(0, 1) + ['v%d' % m]; mine.append(m)
                else: p += ['k%d' % t, 'v%d' % next(ids), 'l%d' % t]; budget -= 1
            else: p.append('%s%d' % (k, t))
            if k != 's': mine.append(t)
            if g.random() < 0.2: p.append('y')
            if mine and g.random() < 0.25:
                m = g.choice(mine); mine.remove(m); p.append('f%d' % m)
        progs.append(','.join(p) or '-')
    return 'n%d %s %s' % (n, fl, ' '.join(progs))
def wide(g):
    """pools of many threads, all of which are needed, or many tasks for few threads"""
    k = g.randrange(3); n = g.choice([5, 7, 8, 9, 12, 16, 17, 24, 32, 33, 40]); fl = g.choice('gq-')
    if k == 0:   # all threads are busy at the same time, tasks wait behind them
        m = n + g.choice([-1, 0, 1, 2, 5]); p = ['k%d' % t for t in range(1, m + 1)]; ls = list(range(1, m + 1))
        p += ['Q']; g.shuffle(ls)
        for j, t in enumerate(ls):
            p.append('l%d' % t)
            if g.random() < 0.1: p.append('Q')
        return 'n%d %s %s' % (n, fl, ','.join(p))
    if k == 1:   # every task waits for the next one
        return 'n%d %s %s' % (n, fl, ','.join(['%s%d.%d' % (g.choice('ddi') if fl != 'g' else 'd', t, t + 1) for t in range(1, n)] + ['v%d' % n]))
    return 'n%d %s %s' % (g.choice([1, 1, 2, 2, 3, 4, 7]), fl, ','.join('%s%d' % (g.choice('vvxwar'), t) for t in range(1, g.randint(21, 67))))
SMALL = ['n1 - -', 'n2 - -', 'n3 - -', 'n1 - v1', 'n1 g v1,x2', 'n1 - w1,v2', 'n2 - v1', 'n2 - v1,v2', 'n2 q v1,v2', 'n2 g x1,w2', 'n2 - v1,f1', 'n2 q d1.2,v2', 'n2 - d1.2,v2', 'n1 - v1,d2.1', 'n1 - v1 v2', 'n1 q v1 v2', 'n1 g v1 x2',
         'n2 - v1 v2', 'n2 g s1.2', 'n1 g s1.2,v3', 'n2 - k1,v2,l1', 'n1 - k1,v2,l1', 'n1 - v1,i2.1', 'n3 - v1', 'n2 - a1,r2', 'n1 - v1,v2,v3', 'n2 - v1,v2,v3', 'n1 - v1 v2 v3']
NESTED = ['n1 - s1.2', 'n2 - s1.2', 'n1 - s1.2,v3', 'n2 - v1 s2.3', 'n1 - s1.2,s3.4', 'n2 q s1.2']
def run(ctx):
    q = ctx.quick; ctx.javac()
    R = core.Replay(ctx, 'pool', 'PoolTrace', TRACE, sources=[], flavours=('sched', 'schedn'))
    fut = ctx.ex.submit(R.build)
    for k, w, nest in [(2, 2, '1')] + ([] if q else [(3, 2, '1'), (2, 3, '1, 2'), (4, 2, '')]):
        ctx.model('PoolImpl', IMPL % (k, w, nest), what='pool with queue, mutex, condition variable and destructor: %d tasks, %d workers: refines Pool, the destructor terminates' % (k, w), workers=8, xmx='8g')
    fut.result()
    for k, p in enumerate(SMALL): R.shard(['reset', 'dfs %d %d %s' % (2 if q else 3, 3000 if q else 60000, p)], 'sched', 'schedules', 100000)
    for k, p in enumerate(NESTED): R.shard(['reset', 'dfs %d %d %s' % (2 if q else 3, 3000 if q else 60000, p)], 'schedn', 'schedules', 100000)
    ctx.count('programs_all_schedules', len(SMALL) + len(NESTED))
    for k in range(16):
        g = ctx.rng('rand', k); s = []; fl = 'sched' if k % 2 else 'schedn'
        for n in range(30 if q else 500):
            st = g.choice('rrpp'); mem = g.choice([0, 0, 30, 300]) if st == 'r' else g.choice([100, 400, 1500, 5000])
            s += ['reset', 'run %d %d %s %d %d %d %s' % (g.randrange(1 << 30), 8 if q else 30, st, g.randint(1, 6), mem, g.randint(0, 1), scenario(g, fl == 'schedn'))]
        R.shard(s, fl, 'random', 100000)
        if k == 0: ctx.sample(s[:12])
    R.go()
    W = core.Replay(ctx, 'pool', 'PoolTrace', TRACE.replace('{1,2,3,4,5,6,7,8,9,10,11,12,13,14,15}', '{%s}' % ','.join(map(str, range(1, 71)))), sources=[], flavours=('sched',))
    W.build()
    for k in range(8):
        g = ctx.rng('wide', k); s = []
        for n in range(20 if q else 150):
            st = g.choice('rp'); mem = g.choice([0, 0, 300]) if st == 'r' else g.choice([1500, 5000, 20000])
            s += ['reset', 'run %d %d %s %d %d %d %s' % (g.randrange(1 << 30), 2 if q else 10, st, g.randint(1, 6), mem, 0, wide(g))]
        W.shard(s, 'sched', 'wide', 100000)
    W.go()
    ctx.assumptions += ['threads interleave sequentially consistently (the scheduler runs one at a time)', 'mutexes, condition variables and futures behave as POSIX and the C++ standard demand',
                        'a task submitted by another task while the pool is closing may be run or refused']
