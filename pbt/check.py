#!/opt/venv/bin/python
"""check.py PROPERTY [--replay FILE] [--n CASES]    (VERIF_SEED, VERIF_TIER)"""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(0, '/repo')
sys.setrecursionlimit(6000)
sys.dont_write_bytecode = True
import warnings  # noqa
warnings.simplefilter('ignore')

import engine  # noqa: E402


def load(prop):
    import checks
    return checks.get(prop)


def replay(check, path, here):
    data = json.load(open(path))
    if not here:
        with (engine.Xvfb() if check.display else engine.NoX()) as x:
            kind, txt = engine.replay_in_fresh_process(
                check.id, path, data.get('hashseed', 0), x.env)
        print(txt)
        if kind in ('violation', 'crash'):
            print('VIOLATION property=%s replay=%s' % (check.id, path))
            return 1
        return 0 if kind == 'quiet' else 2
    viol, info = engine.run_case(check, data['case'])
    print(viol or 'quiet %s' % info)
    sys.stdout.flush()
    os._exit(1 if viol else 0)


def main(argv):
    prop = argv[0]
    if prop == '--selftest':
        import gi
        gi.require_version('Gtk', '3.0')
        import liblarch
        import checks
        checks.get('C01')
        print('liblarch from', liblarch.__file__)
        with engine.Xvfb() as x:
            print('display', x.env['DISPLAY'])
        return 0
    if '--worker' in argv:
        tier, seed, w, nw, n, out, budget = argv[argv.index('--worker') + 1:]
        check = load(prop)
        check.setup()
        try:
            engine.worker(check, tier, int(seed), int(w), int(nw), int(n), out,
                          float(budget))
        except BaseException:
            import traceback
            traceback.print_exc()
            sys.stderr.flush()
            os._exit(2)
    if '--replay-here' in argv:
        check = load(prop)
        check.setup()
        try:
            return replay(check, argv[argv.index('--replay-here') + 1], True)
        except BaseException:
            import traceback
            traceback.print_exc()
            sys.stderr.flush()
            os._exit(2)

    check = load(prop)
    if '--replay' in argv:
        return replay(check, argv[argv.index('--replay') + 1], False)
    n = int(argv[argv.index('--n') + 1]) if '--n' in argv else None
    tier = os.environ.get('VERIF_TIER') or 'quick'
    if '--tier' in argv:
        tier = argv[argv.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED') or 1)
    return engine.drive(check, tier, seed, n)


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
