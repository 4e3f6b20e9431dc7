#!/usr/bin/env python3
"""check.py <property> [--replay FILE]: decide one property of properties.jsonl."""
import os, sys, traceback
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from lib import core

GROUP = {
    'C01': 'containers', 'C02': 'containers', 'C03': 'containers',
    'C04': 'equality',
    'C05': 'index', 'C06': 'index', 'G01': 'graph', 'G02': 'graph', 'G03': 'graph',
    'A01': 'attrs', 'A02': 'attrs',
    'P01': 'xpath', 'P02': 'xpath',
    'X01': 'codec', 'X02': 'codec', 'X03': 'codec', 'X05': 'codec', 'X06': 'codec', 'X04': 'stream',
    'L01': 'latex', 'L02': 'latex',
    'I01': 'odins', 'I02': 'toolboxes', 'I03': 'profiles',
    'E01': 'exprs', 'E02': 'exprs', 'E04': 'exprs', 'E03': 'values',
    'T01': 'scripts', 'T02': 'scripts', 'T03': 'scripts', 'T04': 'scripts',
}


def main():
    import argparse, importlib, json, warnings
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--replay')
    a = ap.parse_args()
    warnings.simplefilter('ignore')
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    replay = None
    if a.replay:
        with open(a.replay) as f:
            replay = json.load(f)
        tier, seed = replay['tier'], replay['seed']
    ctx = core.Ctx(a.property, tier, seed, replay)
    try:
        import logging
        mod = importlib.import_module('harness.' + GROUP[a.property])
        if replay and replay['case'].get('t') != 'crash':
            mod.replay(ctx, replay['case'])
        else:
            mod.run(ctx)
        rc = ctx.finish()
    except core.MachineryError as e:
        print('MACHINERY ERROR: %s' % e)
        rc = ctx.finish() if ctx.violations else 2
    except Exception as e:
        traceback.print_exc()
        if isinstance(e, core.CodeError) or core.raised_by_code(e):
            ctx.violation('the code fails: %s' % (e if isinstance(e, core.CodeError) else traceback.format_exc()), dict(t='crash'))
        rc = ctx.finish() if ctx.violations else 2
    finally:
        ctx.close()
    sys.stdout.flush()
    return rc


if __name__ == '__main__':
    sys.exit(main())
