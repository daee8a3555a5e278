"""C01-C10, C17: the number objects (BigNum.tla), decided by trace validation (BigTrace.tla)."""
import os, subprocess, itertools
import core, gen_big
from core import Broken, cfgset
from gen_big import Gen, hx

ALLOPS = dict(add=8, sub=8, mul=6, inc=3, dec=3, neg=2, abs=2, pos=1, postinc=1, postdec=1, div=4, mod=4, divrem=4, notbits=2, shl=4, shr=4,
              xor=3, block=2, cmp=3, cmp3=2, preds=3, counts=2, print=3, parse=3, parsenew=1, parsec=1, toi64=2, tou64=2, trunc=2, asbool=1,
              ofi64=2, ofwords=1, ofbin=2, tomag=2, copy=6, move=3, swap=3, zero=1, chase=2, shrz=0.5, shlz=0.1, blockz=0.5, tomagz=0.5)
ALLOPS.update({'and': 3, 'or': 3, 'not': 2, 'strcheck': 1, 'strnew': 1})
ARITH = dict(add=10, sub=10, mul=8, inc=4, dec=4, neg=2, abs=2, pos=1, postinc=2, postdec=2, copy=2)
BITS = {'and': 10, 'or': 10, 'xor': 10, 'not': 4, 'notbits': 3, 'block': 5, 'blockz': 1, 'blocks': 1, 'copy': 2, 'chase': 1.5}
# numbers whose length in words does not fit in 16 bits, and their neighbours
GIANT = [1, 2, 3, 32766, 32767, 32768, 32769, 32770, 65535, 65536, 65537, 65538]
GIANTW = dict(C01=dict(add=4, sub=4, inc=2, dec=2, neg=1, abs=1), C02=dict(div=3, mod=3, divrem=4), C03={'and': 3, 'or': 3, 'xor': 3, 'not': 2, 'notbits': 1, 'block': 2}, C04=dict(shl=3, shr=4),
              C05=dict(preds=2, counts=2, cmp=2, cmp3=2, block=1, tomag=1, toi64=1, tou64=1, trunc=1, add=1, shr=2, sub=1), C06=dict(cmp=4, cmp3=4, preds=2),
              C08=dict(ofbin=2, ofwords=1, tomag=3, counts=2), C09=dict(toi64=2, tou64=2, trunc=2), C10=dict(copy=4, move=2, swap=2, inc=2, shl=1, sub=1),
              C17=dict(add=2, sub=2, cmp3=3, shr=1, shl=1, tomag=1, tou64=1, copy=1, block=1))
KSIZES = [1, 40, 78, 79, 80, 81, 82, 83, 96, 120, 159, 160, 161, 165, 170]

# property -> operations checked, weights, extra demands, invariants of BigGrid, operations run on the grid
P = {
 'C01': dict(ops='add sub mul inc dec neg abs pos postinc postdec', w=ARITH, frame=True, inv='Ring', grid='add sub mul', un='inc dec neg abs'),
 'C02': dict(ops='div mod divrem', w=dict(div=8, mod=8, divrem=10, neg=1, copy=2, sub=1, inc=1), frame=True, inv='Division', grid='div mod divrem', un=''),
 'C03': dict(ops='and or xor not notbits block blockz', w=BITS, frame=True, inv='Bits', grid='and or xor', un='not notbits blocks'),
 'C04': dict(ops='shl shr shlz shrz', w=dict(shl=10, shr=12, shrz=1.5, shlz=0.3, copy=2, neg=2, add=1, mul=1), frame=True, inv='Shifts', grid='', un='shifts'),
 'C05': dict(ops='preds counts cmp cmp3 print block blockz tomag tomagz toi64 tou64 trunc asbool', w=ALLOPS, frame=False, canon=True, inv='Order', grid='cmp cmp3 add sub and xor div divrem', un='preds counts inc dec notbits shifts', copyback=True),
 'C06': dict(ops='cmp cmp3 preds', w=dict(cmp=10, cmp3=10, preds=6, copy=2, neg=2, add=2, sub=2, shr=1), frame=False, inv='Order', grid='cmp cmp3', un='preds'),
 'C07': dict(ops='parse parsenew parsec print', w=dict(parse=10, parsenew=6, parsec=6, print=10, roundtrip=0.3, copy=2, add=1, neg=1), frame=True, inv='Texts', grid='', un='prints'),
 'C08': dict(ops='ofbin ofwords tomag tomagz counts', w=dict(ofbin=10, ofwords=4, tomag=10, tomagz=1, counts=2, copy=1, neg=2, shr=1, sub=1), frame=True, inv='Bytes', grid='', un='mags counts'),
 'C09': dict(ops='toi64 tou64 trunc asbool ofi64', w=dict(toi64=8, tou64=8, trunc=10, asbool=2, ofi64=8, neg=2, add=1, copy=1, sub=1), frame=True, inv='Conv', grid='', un='convs'),
 'C10': dict(ops='copy move swap zero parse ofi64 ofbin ofwords', w=dict(ALLOPS, copy=30, move=14, swap=10, zero=4, inc=8, dec=8, shl=6, shr=6, notbits=4), frame=True, inv='Order', grid='', un=''),
 'C17': dict(ops='*', w=ALLOPS, frame=True, canon=True, inv='Conv Bytes', grid='add sub mul div mod and or xor cmp3', un='inc dec neg abs not notbits shifts preds blocks convs mags prints', layers='C'),
}
LOADS = {'parse', 'ofi64', 'ofbin', 'ofwords', 'copy', 'zero', 'reset'}

def cfg(prop):
    p = P[prop]; ops = p['ops'].split()
    return ('SPECIFICATION TraceSpec\nCONSTANTS Regs = {0,1,2,3,4,5,6,7}\n Checked = %s\n CheckFrame = %s\n CheckCanon = %s\nINVARIANT TypeOK\nPOSTCONDITION TraceAccepted\nCHECK_DEADLOCK FALSE\n'
            % (cfgset(ops), str(bool(p.get('frame'))).upper(), str(bool(p.get('canon'))).upper()))

GRIDCFG = 'INIT GInit\nNEXT GNext\nCONSTANTS Regs = {0}\n Words = {%s}\n MaxLen = %d\nINVARIANTS %s Emit\nCHECK_DEADLOCK FALSE\n'
HISTCFG = 'SPECIFICATION HSpec\nCONSTANTS Regs = {0,1,2}\n Depth = %d\n Moves = %s\n Start1 = "%s"\n Start2 = "%s"\nINVARIANTS Valid Emit\nCHECK_DEADLOCK FALSE\n'

class Run(core.Replay):
    def __init__(self, ctx):
        self.p = P[ctx.prop]; self.ops = set(self.p['ops'].split())
        super().__init__(ctx, 'big', 'BigTrace', cfg(ctx.prop))

def loadline(k, v):
    n = v.bit_length() // 8 + 1
    return 'ofbin as %d - 1 - %s' % (k, v.to_bytes(n, 'little', signed=True).hex())

def grid_script(prop, nums, layer, rng, part):
    """the property's operations on all pairs of grid numbers"""
    p = P[prop]; g = Gen(rng, layer, {}); out = []
    bins = [o for o in p['grid'].split() if g.has(o)]
    uns = p['un'].split()
    FORMS = {'B': ['BB', 'A', 'Bi', 'iB', 'Ai'], 'I': ['A', 'Ai'], 'C': ['A', 'Ai']}[layer]
    def unary(a):
        r = []
        L = abs(a).bit_length()
        for u in uns:
            if u in ('inc', 'dec', 'neg', 'abs', 'not', 'notbits'): r += ['copy as 2 0 0 - -', '%s A 2 2 0 - -' % u]
            elif u == 'shifts':
                for n in sorted({0, 1, 2, 31, 32, 33, 63, 64, 65, 95, 96, 97, L, max(0, L - 1), L + 1, L + 32}):
                    for o in ('shl', 'shr'): r += ['copy as 2 0 0 - -', '%s A 2 2 %d - -' % (o, n)]
                    if layer == 'B': r += ['%s - 3 0 %d - -' % (o, n) for o in ('shl', 'shr')]
            elif u == 'blocks': r += ['block - - 0 %d - -' % n for n in range((L + 31) // 32 + 2)]
            elif u == 'prints':
                for x in range(2, 37): r.append('print - - 0 %d - -' % x)
                for x in (2, 10, 16, 36):
                    r.append('parse t 2 - %d - %s' % (x, gen_big.fmt(a, x).encode().hex()))
            elif u == 'mags': r += ['tomag - - 0 %d - -' % n for n in range((L + 7) // 8 + 2)]
            elif u == 'convs':
                ts = [] if layer == 'C' else ['ull'] if layer == 'I' else ['c', 'uc', 's', 'us', 'i', 'ui', 'l', 'ul', 'll', 'ull']
                r += ['trunc %s - 0 0 - -' % f for f in ts]
                if layer != 'I': r += ['toi64 t - 0 0 - -', 'tou64 f - 0 0 - -', 'toi64 0 - 0 0 - -', 'tou64 0 - 0 0 - -']
                if layer == 'B': r += ['asbool - - 0 0 - -', 'toi64 try - 0 0 - -', 'tou64 try - 0 0 - -']
                if gen_big.I64MIN <= a <= gen_big.I64MAX: r += ['ofi64 as 2 -1 0 %s -' % hx(a), 'ofi64 new 2 -1 0 %s -' % hx(a)]
            elif u == 'preds': r.append('preds - - 0 0 - -')
            elif u == 'counts' and layer == 'I': r.append('counts - - 0 0 - -')
        return r
    for k, a in enumerate(nums):
        if k % part[1] != part[0]: continue
        out.append('reset %s - - 0 - -' % layer); out.append(loadline(0, a))
        out += unary(a)
        n = 0
        for b in nums:
            if not bins: break
            out.append(loadline(1, b))
            i64 = gen_big.I64MIN <= b <= gen_big.I64MAX
            for o in bins:
                if o in ('cmp', 'cmp3'):
                    out.append('%s BB - 0,1 0 - -' % o)
                    if i64: out.append('%s Bi - 0,-1 0 %s -' % (o, hx(b)))
                    if i64 and layer == 'B' and o == 'cmp': out.append('%s iB - -1,0 0 %s -' % (o, hx(b)))
                elif o == 'divrem':
                    if b != 0:
                        n += 1
                        d = rng.choice(['2,3', '0,3', '3,0', '1,3', '3,1', '0,1', '1,0'])
                        out.append('divrem S %s 0,1 0 - -' % d)
                        if '0' in d: out.append(loadline(0, a))
                        if '1' in d: out.append(loadline(1, b))
                else:
                    f = rng.choice([x for x in FORMS if i64 or 'i' not in x])
                    if f == 'iB': out.append('%s iB 2 -1,0 0 %s -' % (o, hx(b)))
                    elif f == 'BB': out.append('%s BB 2 0,1 0 - -' % o)
                    elif f == 'Bi': out.append('%s Bi 2 0,-1 0 %s -' % (o, hx(b)))
                    elif f == 'A': out += ['copy as 2 0 0 - -', '%s A 2 2,1 0 - -' % o]
                    else: out += ['copy as 2 0 0 - -', '%s Ai 2 2,-1 0 %s -' % (o, hx(b))]
            if len(out) % 400 < 8: out += ['reset %s - - 0 - -' % layer, loadline(0, a)]
    return out

def zcheck(ctx):
    ctx.model('ZCheck', 'CONSTANTS N = %d\n Full = %s\nINIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n' % (1 if ctx.quick else 12, str(not ctx.quick).upper()), what='Java evaluation of the integer operators against their TLA+ definitions')

def run(ctx):
    prop = ctx.prop; p = P[prop]; R = Run(ctx); q = ctx.quick
    ctx.javac()
    zc = ctx.ex.submit(zcheck, ctx)
    R.build()
    layers = p.get('layers', 'BIC')
    # 1. the specification itself: laws on the grid of boundary numbers; the definitions against the Java evaluation
    gout = ctx.p('grid.txt')
    words, L = (['00000000', '00000001', '80000000', 'ffffffff'], 2) if q else (['00000000', '00000001', '7fffffff', '80000000', 'ffffffff'], 3)
    ctx.model('BigGrid', GRIDCFG % (', '.join('"%s"' % w for w in words), L, p['inv']), what='laws %s on all pairs of boundary numbers' % p['inv'], env=dict(OUT=gout), workers=8, xmx='6g')
    nums = sorted(int(x.strip().strip('"'), 16) for x in open(gout))
    if prop in ('C07', 'C08', 'C09', 'C04'):   # unary operations: a larger grid
        s = {abs(int(w1 + w2 + w3, 16)) for w1 in words for w2 in words for w3 in words + ['7fffffff']}
        s |= {(1 << e) + d for e in (7, 8, 15, 16, 23, 24, 31, 32, 39, 40, 47, 48, 55, 56, 63, 64, 71, 72, 95, 96, 127, 128, 160) for d in (-1, 0, 1)}
        nums = sorted(s | {-x for x in s} | set(nums))
    if not q and prop not in ('C07', 'C08', 'C09', 'C04'): nums = [x for x in nums if True]
    # 2. the grid on the real code
    if p['grid'] or p['un']:
        for k, layer in enumerate(layers):
            rng = ctx.rng('grid', layer)
            R.shard(grid_script(prop, nums if (q or len(nums) < 300) else rng.sample(nums, 250), layer, rng, (0, 1)), 'asan' if k != 1 else 'plain', 'grid', 14000)
    if prop == 'C02': division(ctx, R)
    if prop == 'C01': karatsuba(ctx, R)
    if prop in ('C03', 'C05'): lowword(ctx, R)
    # 3. histories enumerated by TLC
    if prop in ('C10', 'C05', 'C17', 'C01'):
        hist(ctx, R, layers)
    # 4. random histories
    rounds = 1 if q else 14
    n = 0
    for rd in range(rounds):
        for k in range(8):
            layer = layers[k % len(layers)]; rng = ctx.rng('rand', rd, k)
            kw = dict(maxwords=6)
            if k == 7: kw = dict(maxwords=14, segment=30)
            g = Gen(rng, layer, p['w'], quiet=R.ops if R.ops != {'*'} else set(p['w']), segment=rng.choice([20, 50, 50, 200]), **({} if k != 7 else {}), maxwords=kw['maxwords'], loadp=0.12 if prop in ('C10', 'C05') else 0.2)
            R.shard(g.run(9000 if q else 15000), 'asan' if k % 2 == 0 else 'plain', 'random')
            for o, m in g.cnt.items(): ctx.cov.setdefault('operations', {}); ctx.cov['operations'][o] = ctx.cov['operations'].get(o, 0) + m
            if k == 0 and rd == 0: ctx.sample(g.out[9:40:3])
        if prop in ('C01', 'C17', 'C02', 'C05'):   # the long-multiplication regime / long division
            for k in range(2):
                rng = ctx.rng('big', rd, k); layer = rng.choice(layers) if prop != 'C01' else 'BI'[k]
                w = dict(mul=10, mulstatic=4, sub=1, add=1, neg=1) if prop == 'C01' else dict(mul=6, div=4, mod=3, divrem=4, print=0.1, cmp=1, copy=1)
                g = Gen(rng, layer, w, sizes=KSIZES if rng.random() < 0.8 else [100, 200, 300, 400], segment=40, loadp=0.5)
                R.shard(g.run(900 if q else 2500), 'plain' if k else 'asan', 'long')
        if prop == 'C07':   # long texts
            rng = ctx.rng('long', rd); layer = layers[rd % len(layers)]
            g = Gen(rng, layer, dict(print=1), sizes=[60, 300, 301, 1024], segment=12, loadp=0.1, nload=4)
            R.shard(longtexts(g, 40 if q else 120), 'plain', 'long')
        if prop in GIANTW:
            for k in range(2 if q else 3):
                rng = ctx.rng('giant', rd, k); layer = layers[(ctx.seed + rd + k) % len(layers)]
                g = Gen(rng, layer, GIANTW[prop], sizes=GIANT, segment=12, loadp=0.25, nload=3, quiet=())
                R.shard(g.run(45 if prop != 'C06' else 90), 'plain' if k else 'asan', 'giant')
    if prop == 'C17':
        import p_status; p_status.binding(ctx)
    R.go(); zc.result()
    ctx.assumptions += ['java.math.BigInteger evaluates the integer operators of Z.tla (compared with their TLA+ definitions by ZCheck)',
                        'values are read through copyMagDataTo/GetMagData and the sign predicates of the code itself']

DIVCFG = 'SPECIFICATION Spec\nCONSTANTS B = %d\n MaxU = %d\n MaxV = %d\nINVARIANTS Fits Loop Close Right\nPROPERTY Ends\nCHECK_DEADLOCK FALSE\n'
DIVGEN = 'INIT Init\nNEXT Next\nCONSTANTS Words = {%s}\n MaxU = %d\n MaxV = %d\nINVARIANTS Sound Emit\nCHECK_DEADLOCK FALSE\n'
LOWCFG = """INIT LInit
NEXT LNext
CONSTANTS Regs = {0,1,2}
 Starts = {%s}
 Others = {%s}
 Imms = {%s}
INVARIANTS TypeOK Words Matters Emit
CHECK_DEADLOCK FALSE
"""
KARCFG = 'INIT Init\nNEXT Next\nCONSTANTS W = %d\n T = %d\n Lens = {%s}\n Patterns = {%s}\n Top = %d\nINVARIANTS Correct Emit\nCHECK_DEADLOCK FALSE\n'

def paths(ctx, module, cfg, what, quota, rng):
    """operands enumerated by TLC, at most `quota` for each path through the algorithm"""
    o = ctx.p(module + '.txt')
    ctx.model(module, cfg, what=what, env=dict(OUT=o), workers=4, xmx='4g')
    by = {}
    for l in open(o):
        a, b, p = l.strip().replace('"', '').split(' ')[:3]
        by.setdefault(p, []).append((int(a, 16), int(b, 16)))
    ctx.count('paths_of_' + module, len(by)); ctx.count('operands_of_' + module, sum(map(len, by.values())))
    return [x for p in sorted(by) for x in (by[p] if len(by[p]) <= quota else rng.sample(by[p], quota))]

def division(ctx, R):
    """long division: the algorithm on all small operands, and operands for every path through it on the real code"""
    q = ctx.quick
    for B, U, V in ([(4, 4, 3), (2, 7, 5)] if q else [(4, 5, 3), (2, 9, 6), (8, 4, 3)]):
        ctx.model('Division', DIVCFG % (B, U, V), what='long division in base %d, dividends of up to %d digits' % (B, U), workers=4, xmx='8g')
    words = ['00000000', '00000001', '7fffffff', '80000000', 'ffffffff'] + ([] if q else ['80000001', 'fffffffe'])
    rng = ctx.rng('div')
    ops = paths(ctx, 'DivGen', DIVGEN % (', '.join('"%s"' % w for w in words), 4, 3), 'paths of long division in base 2^32 on boundary words', 8 if q else 60, rng)
    for k, layer in enumerate('BIC'):
        out = []
        for n, (a, b) in enumerate(ops):
            if rng.random() < 0.5: a = -a
            if rng.random() < 0.5: b = -b
            if n % 40 == 0: out.append('reset %s - - 0 - -' % layer)
            out += [loadline(0, a), loadline(1, b)]
            for o in ('div', 'mod'):
                if layer == 'B': out.append('%s BB 2 0,1 0 - -' % o)
                elif layer == 'C' or o == 'div': out += ['copy as 2 0 0 - -', '%s A 2 2,1 0 - -' % o]
            if layer == 'I': out.append('divrem S %s 0,1 0 - -' % rng.choice(['2,3', '0,3', '3,1', '0,1', '1,0']))
        R.shard(out, 'plain' if k == 1 else 'asan', 'paths', 14000)

def lowword(ctx, R):
    """histories after which a remembered position of the lowest non-zero word is wrong, if nothing made the object forget"""
    q = ctx.quick; rng = ctx.rng('low')
    starts = ['-100000000', '-10000000000000000', '-300000005', '-50000000100000000'] + ([] if q else ['-1', '-ffffffff00000000', '-80000000000000000000000000000000', '-100000000000000000000000100000000'])
    others = ['-1', '300000000', '-1000000000000000000000000'] + ([] if q else ['8000000000000000', '-100000000'])
    imms = ['1', '-1', '80000000', 'ffffffff', '100000000', '-100000000', '300000000', '-8000000000000000'] + ([] if q else ['2', '-2', '7fffffffffffffff', '-300000000', '7fffffff00000000'])
    o = ctx.p('lowword.txt')
    ctx.model('LowWord', LOWCFG % tuple(', '.join('"%s"' % x for x in l) for l in (starts, others, imms)), what='reading words off the magnitude; histories that must make an object forget the position of its lowest non-zero word', env=dict(OUT=o), workers=8, xmx='6g')
    by = {}
    for l in open(o):
        h = l.strip().strip('"').split(';')
        by.setdefault((h[2], h[3].split(' ')[0], h[3].split(' ')[1], h[4], h[5] != '-'), []).append(h)
    ctx.count('ways_to_change_the_lowest_word', len(by)); ctx.count('lowest_word_histories', sum(map(len, by.values())))
    for k, layer in enumerate('IBC'):
        out = []; quota = 4 if q else 10**6 if k == 0 else 200; has = Gen(rng, layer, {}).has
        for w in sorted(by):
            for h in by[w] if len(by[w]) <= quota else rng.sample(by[w], quota):
                if q and k and rng.random() < 0.6 or not has(w[1]): continue
                if len(out) % 300 < 20: out.append('reset %s - - 0 - -' % layer)
                look = lambda j, n: ['block - - %d %d - -' % (j, b) for b in range(n)]
                out += [loadline(0, int(h[0], 16)), loadline(1, int(h[1], 16))] + look(0, 1) + look(1, 1) + [x for x in h[2:] if x != '-'] + look(0, 4) + (look(2, 4) if h[5] != '-' else [])
        R.shard(out, 'plain' if k == 1 else 'asan', 'lowest word', 14000)

def karatsuba(ctx, R):
    """long multiplication: the algorithm on all small operands, and operands for every path through it on the real code"""
    q = ctx.quick; rng = ctx.rng('kar')
    ctx.model('Karatsuba', KARCFG % (1, 4, '', '', 128 if q else 512), what='multiplication in halves, words of one bit', workers=4, xmx='4g')
    lens, pats = ([rng.choice([80, 81]), rng.choice([82, 159, 160, 163])], ['0', 'f', rng.choice('1tw')]) if q else ([80, 81, 82, 160, 163], ['0', '1', 'f', rng.choice('tw')])
    ops = paths(ctx, 'Karatsuba', KARCFG % (32, 80, ', '.join(map(str, lens)), ', '.join('"%s"' % p for p in pats), 0), 'multiplication in halves, 32 bits, patterned quarters', 3 if q else 20, rng)
    if q and len(ops) > 160: ops = rng.sample(ops, 160)
    for k, layer in enumerate('BIC'):
        out = []
        for n, (a, b) in enumerate(ops):
            if n % 3 != k and q: continue
            if rng.random() < 0.5: a, b = b, a
            if rng.random() < 0.5: a = -a
            if rng.random() < 0.5: b = -b
            if n % 30 < 3: out.append('reset %s - - 0 - -' % layer)
            out += [loadline(0, a), loadline(1, b)]
            out += ['mul BB 2 0,1 0 - -'] if layer == 'B' else ['copy as 2 0 0 - -', 'mul A 2 2,1 0 - -'] + ([ 'mul S 2 0,1 0 - -'] if layer == 'I' else [])
        R.shard(out, 'plain' if k == 1 else 'asan', 'paths', 600)

def longtexts(g, n):
    """numerals of thousands of digits: printed, and parsed back"""
    while len(g.out) < n:
        g.emit('reset', g.layer); g.reg = [0] * gen_big.NR
        for k in range(3):
            v = g.value(); r = g.g.choice([2, 3, 10, 10, 16, 32, 35, 36]); g.load(k, v, 'bin')
            g.emit('print', '-', [], [k], r)
            t = gen_big.fmt(v, r) if abs(v).bit_length() < 12000 else ''.join(gen_big.DIGITS[g.g.randrange(r)] for _ in range(g.g.randint(1000, 4000)))
            if g.g.random() < 0.3: p = g.g.randrange(len(t)); t = t[:p] + '~' + t[p + 1:]
            g.emit('parse', 't', [k + 3], [], r, [], t.encode())
        if g.layer == 'C': g.emit('strcheck')
    return g.out

def hist(ctx, R, layers):
    q = ctx.quick
    starts = [('100000000ffffffff', '-1'), ('ffffffff', '-10000000000000000')]
    for layer in layers:
        s = ctx.rng('hist', layer).choice(starts) if q else None
        for st in ([s] if q else starts):
            o = ctx.p('hist-%s-%s.txt' % (layer, st[1]))
            ctx.model('BigHist', HISTCFG % (3, 'FALSE' if layer == 'C' else 'TRUE', st[0], st[1]), what='all histories of 3 operations on 3 sharing objects', env=dict(OUT=o), workers=8, xmx='6g')
            hs = [l.strip().strip('"').split(';') for l in open(o)]
            ctx.count('histories_enumerated', len(hs))
            rng = ctx.rng('histpick', layer, st[1])
            hs = rng.sample(hs, min(len(hs), (2500 if ctx.prop in ('C10',) else 1200) if q else 40000))
            ctx.count('histories_replayed', len(hs))
            out = []
            a, b = int(st[0], 16), int(st[1], 16)
            for k, h in enumerate(hs):
                if k % 6 == 0 or True:
                    out += ['reset %s - - 0 - -' % layer, loadline(0, a), loadline(1, b)]
                if k % 2:   # look only at the end
                    h = [x.split(' ', 1)[0] + '~ ' + x.split(' ', 1)[1] for x in h]
                out += h
                out.append('obs - - - 0 - -')
            ctx.sample(hs[0])
            R.shard(out, 'asan', 'history')
