#!/opt/venv/bin/python
"""check.py <PROPERTY> [quick|thorough] [--only SUB ...]    run one property's check
check.py --replay FILE                                    run one stored failing case again"""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
if os.environ.get('PYTHONHASHSEED') != '0':
    os.environ['PYTHONHASHSEED'] = '0'
    os.execv(sys.executable, [sys.executable] + sys.argv)

from vlib import boot  # noqa: E402


def main():
    import importlib
    args = sys.argv[1:]
    try:
        boot.prepare()
        from vlib import core
        if args[0] == '--setup':
            import hypothesis
            print('extensions build, dynaphopy imports, hypothesis', hypothesis.__version__)
            return 0
        if args[0] == '--replay':
            return core.replay(args[1])
        prop = args[0]
        tier = args[1] if len(args) > 1 and not args[1].startswith('--') else os.environ.get('VERIF_TIER', 'quick')
        only = args[args.index('--only') + 1:] if '--only' in args else None
        seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        mod = importlib.import_module('checks.' + prop)
        return core.execute(mod, tier, seed, only, float(os.environ.get('VERIF_SCALE', '1')))
    except boot.HarnessError as e:
        print('ERROR (harness): %s' % e, file=sys.stderr)
        return 2
    except Exception:
        import traceback
        traceback.print_exc()
        return 2


if __name__ == '__main__':
    code = main()
    sys.stdout.flush()
    sys.exit(code)
