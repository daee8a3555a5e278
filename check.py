#!/usr/bin/env python3
"""check.py <property>: decides one property on /repo's working tree. Tier and seed: VERIF_TIER, VERIF_SEED; --thorough: that tier."""
import sys, os, traceback
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'lib'))
import core
def main():
    prop = sys.argv[1]
    if '--thorough' in sys.argv: os.environ['VERIF_TIER'] = 'thorough'
    import importlib
    mods = {**{k: 'p_big' for k in ['C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C07', 'C08', 'C09', 'C10', 'C17']},
            'C11': 'p_expr', 'C13': 'p_expr', 'C12': 'p_peval', 'C14': 'p_pool', 'C15': 'p_status', 'C16': 'p_fraction', 'C18': 'p_cow', 'C19': 'p_slice', 'C20': 'p_queue', 'C21': 'p_format', 'C22': 'p_stream'}
    ctx = core.Ctx(prop)
    try:
        importlib.import_module(mods[prop]).run(ctx)
        ctx.stop(); rc = ctx.finish()
    except core.Broken as e:
        ctx.stop(); print('NO ANSWER: %s' % e); rc = 3
        if ctx.violations: rc = ctx.finish()
    except Exception:
        ctx.stop(); traceback.print_exc(); rc = 3
        if ctx.violations: rc = ctx.finish()
    sys.stdout.flush(); sys.exit(rc)
main()
