#!/usr/bin/env python3
"""run.py <property id> [--tier quick|thorough] [--seed N] [--replay file]
exit 0: held on everything explored; 1: VIOLATION; 2: no answer."""
import os, sys

PY = '/opt/veriftools/pyvenv/bin/python3'
if os.path.exists(PY) and os.path.realpath(sys.prefix) != os.path.realpath('/opt/veriftools/pyvenv'):
    try:
        import numpy  # noqa: F401
    except ImportError:
        os.execv(PY, [PY] + sys.argv)
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import argparse, importlib, json, signal, traceback


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('id')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick', choices=['quick', 'thorough'])
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED') or 1))
    ap.add_argument('--replay')
    a = ap.parse_args()
    from vf.core import Ctx, CheckError
    mod = importlib.import_module(f'vf.checks.{a.id.lower()}')

    def stop(*_):
        raise CheckError('terminated')
    signal.signal(signal.SIGTERM, stop)
    ctx = Ctx(a.id, a.tier, a.seed)
    try:
        if a.replay:
            r = json.load(open(a.replay))
            cases = [r['case']]
        else:
            cases = mod.cases(ctx)
        # a case survives a round trip through the replay file
        cases = json.loads(json.dumps(cases))
        mod.run(ctx, cases)
        return ctx.finish()
    except CheckError as e:
        if ctx.viols:
            print(f'# the check stopped early: {e}')
            return ctx.finish()
        print(f'{a.id}: no answer: {e}', file=sys.stderr)
        return 2
    except Exception:
        traceback.print_exc()
        return ctx.finish() if ctx.viols else 2
    finally:
        ctx.cleanup()


if __name__ == '__main__':
    sys.exit(main())
