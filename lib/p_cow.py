"""C18: copies in different threads (Cow.tla, BigNum.tla): the model of copy on write, and threads of the real code working on
copies of the same numbers under a controlled scheduler; what each sees is validated against BigNum."""
import core, gen_big, itertools
from gen_big import Gen
TRACE = ('SPECIFICATION TraceSpec\nCONSTANTS Regs = {0,1,2,3,4,5,6,7}\n Checked = {"*"}\n CheckFrame = TRUE\n CheckCanon = TRUE\nINVARIANT TypeOK\nPOSTCONDITION TraceAccepted\nCHECK_DEADLOCK FALSE\n')
COW = 'SPECIFICATION Spec\nCONSTANTS Threads = {%s}\n Ops = %d\n Alone = 1\nINVARIANTS Values NotGivenBack Counts NoLeak\nCHECK_DEADLOCK FALSE\n'
W = dict(add=5, sub=4, mul=4, div=3, mod=2, divrem=2, inc=6, dec=6, neg=4, abs=2, pos=1, postinc=2, postdec=2, shl=4, shr=5, block=1, cmp=2, cmp3=2, preds=1, counts=1,
         print=5, parse=4, parsenew=2, parsec=2, toi64=1, tou64=1, trunc=1, asbool=0.5, ofi64=2, ofbin=2, ofwords=1, tomag=2, copy=8, move=4, swap=4, zero=2, notbits=3)
W['not'] = 3; W['and'] = 3; W['or'] = 3; W['xor'] = 3
class Elsewhere(Exception): pass
class TGen(Gen):
    """a generator that uses some registers only"""
    def __init__(self, rng, layer, weights, regs, **kw):
        super().__init__(rng, layer, weights, **kw); self.regs = regs
    def src(self): return self.g.choice([k for k in self.regs if self.reg[k] is not None])
    def dst(self): return self.g.choice(self.regs)
    def live(self): return [k for k in self.regs if self.reg[k] is not None]
    def op_move(self):
        l = self.live()
        if len(l) < 2: return self.load([k for k in self.regs if k not in l][0])
        a, d = self.g.sample(l, 2); self.emit('move', self.g.choice(['new', 'as', 'eq']), [d, a], [a]); self.set(d, self.reg[a]); self.set(a, None)
    def emit(self, op, form='-', d=(), s=(), n=0, i=(), t=None):
        if any(k >= 0 and k not in self.regs for k in list(d) + list(s)): raise Elsewhere()
        super().emit(op, form, d, s, n, i, t)
    def step(self):
        try: return self.step1()
        except Elsewhere: pass
    def step1(self):
        if not self.live(): return self.load()
        if self.g.random() < self.loadp: return self.load()
        return getattr(self, 'op_' + self.g.choices(self.ops, self.w)[0])()
def prelude(g, layer, vals):
    """two originals, the other registers copies of them"""
    out = []; reg = list(vals) + [None] * 6
    import p_big
    for k, v in enumerate(vals): out.append('m ' + p_big.loadline(k, v))
    if g.random() < 0.7: out.append('m %s A 0 0 0 - -' % g.choice(['inc', 'neg'])); reg[0] = reg[0] + 1 if 'inc' in out[-1] else -reg[0]
    for k in range(2, 8): s = g.choice([0, 0, 0, 1]); out.append('m copy %s %d %d 0 - -' % (g.choice(['as', 'new', '-'] if layer == 'I' else ['as', 'new']), k, s)); reg[k] = reg[s]
    return out, reg
def scenario(g, layer, ops, w=W, threads=None, maxwords=4, sizes=None):
    t = Gen(g, layer, w, maxwords=maxwords, sizes=sizes)
    out, reg = prelude(g, layer, [t.value() or 5, t.value()])
    for k in (threads or g.choice([[1, 2], [1, 2], [0, 1], [1, 2, 3], [0, 1, 2, 3]])):
        u = TGen(g, layer, {o: x for o, x in w.items()}, [2 * k, 2 * k + 1], maxwords=maxwords, sizes=sizes, loadp=0.1); u.reg = list(reg)
        for r in range(8):
            if r not in u.regs: u.reg[r] = reg[r]      # values near the others'
        n = g.randint(1, ops)
        while len(u.out) < n: u.step()
        out += ['t%d %s' % (k, c) for c in u.out]
    return out
def small(layer):
    """single operations on a copy (register R, its neighbour S)"""
    r = ['inc A R R 0 - -', 'dec A R R 0 - -', 'neg A R R 0 - -', 'not A R R 0 - -', 'notbits A R R 0 - -', 'shl A R R 33 - -', 'shr A R R 33 - -', 'add A R R,S 0 - -', 'sub A R R,S 0 - -', 'mul A R R,S 0 - -', 'div Ai R R,-1 0 3 -',
         'and A R R,S 0 - -', 'or Ai R R,-1 0 ff -', 'copy as R S 0 - -', 'copy new R S 0 - -', 'zero - R - 0 - -', 'print - - R 10 - -', 'parse t R - 10 - 373737', 'ofi64 as R -1 0 -7 -', 'tomag - - R 20 - -']
    if layer != 'C': r += ['move as R,S S 0 - -', 'move new R,S S 0 - -', 'swap f R,S R,S 0 - -']
    if layer == 'B': r += ['postinc - R,S S 0 - -', 'add BB R R,S 0 - -', 'toi64 t - R 0 - -']
    if layer == 'I': r += ['divrem Ai R,S R,-1 0 7 -']
    return r
def on(op, k): return op.replace('R', str(2 * k)).replace('S', str(2 * k + 1))
def run(ctx):
    q = ctx.quick; ctx.javac()
    R = core.Replay(ctx, 'cow', 'BigTrace', TRACE, flavours=('asan', 'sched', 'schedn'), limit=6000)
    fut = ctx.ex.submit(R.build)
    for t, n in ([('1, 2', 2)] if q else [('1, 2', 3), ('1, 2, 3', 2)]):
        ctx.model('Cow', COW % (t, n), what='copy on write, threads {%s}, %d operations each: values, no use after release, no leak' % (t, n), workers=8, xmx='12g')
    fut.result()
    # all schedules (at atomic operations) of pairs of operations on copies of one number
    for L, layer in enumerate('BIC'):
        ops = small(layer); pairs = list(itertools.combinations_with_replacement(ops, 2)); g = ctx.rng('pairs', layer)
        if q: pairs = g.sample(pairs, 80)
        s = []
        for a, b in pairs:
            reg = g.choice([0x1ffffffff, -0x100000000, 5, 2 ** 64, -2 ** 96 + 1])
            s += ['reset ' + layer, 'm ofi64 as 0 -1 0 3 -'] if g.random() < 0.2 else ['reset ' + layer, 'm parse t 0 - 16 %s' % (('-' if reg < 0 else '') + '%x' % abs(reg)).encode().hex(), 'm inc A 0 0 0 - -']
            s += ['m copy as %d 0 0 - -' % k for k in (2, 3, 4, 5)]
            if g.random() < 0.5: s.append('m zero - 0 - 0 - -')      # only the threads' copies are left
            s += ['t1 ' + on(a, 1), 't2 ' + on(b, 2)]
            if 'move' not in a and g.random() < 0.5: s.append('t1 ' + on(g.choice(ops), 1))
            if 'move' not in b and g.random() < 0.5: s.append('t2 ' + on(g.choice(ops), 2))
            s.append('dfs %d %d' % (1 if q else 2, 400 if q else 6000))
        ctx.count('pairs_all_schedules', len(pairs))
        R.shard(s, 'sched' if L % 2 else 'schedn', 'schedules', 250)
    for k in range(16):
        g = ctx.rng('rand', k); s = []; fl = ('sched', 'schedn', 'asan', 'schedn')[k % 4]; layer = 'BIC'[k % 3]
        for n in range(60 if q else 1500):
            s += ['reset ' + layer] + scenario(g, layer, g.choice([2, 4, 8, 16]), sizes=[40, 80, 82, 100] if n % 20 == 19 else None)
            if fl == 'asan': s.append('real %d' % (20 if q else 60)); continue
            st = g.choice('rrrpp'); mem = g.choice([0, 20, 100, 1000, 5000]) if st == 'r' else g.choice([300, 2000, 10000])
            s.append('run %d %d %s %d %d 0' % (g.randrange(1 << 30), 12 if q else 40, st, g.randint(1, 5), mem))
        R.shard(s, fl, 'random', 1000 if q else 5000)
        if k == 0: ctx.sample(s[:14])
    R.go()
    ctx.assumptions += ['java.math.BigInteger evaluates the integer operators of Z.tla (compared with their TLA+ definitions by ZCheck)',
                        'threads interleave sequentially consistently (the scheduler runs one at a time); the order of memory accesses on weaker memory is not examined']
