import sys, json, importlib, warnings
from . import core


def main():
    cmd = sys.argv[1]
    if cmd == 'worker':
        _, _, pid, tier, seed, idx, n, sd = sys.argv
        core.worker(pid, tier, int(seed), int(idx), int(n), sd)
    elif cmd == 'check':
        sys.exit(core.drive(sys.argv[2], sys.argv[3]))
    elif cmd == 'selftest':
        import ssqueezepy
        print('ssqueezepy from', ssqueezepy.__file__)
    elif cmd == 'replay':
        warnings.simplefilter('ignore')
        art = json.load(open(sys.argv[2]))
        mod = importlib.import_module('mc.props.' + art['property'])
        ctx = core.Ctx(art['property'], art.get('tier', 'quick'), 1)
        if hasattr(mod, 'setup'):
            mod.setup(ctx)
        msg = core.run_case(mod, ctx, art['case'])
        print('case', core.describe(art['case']))
        print('result:', msg or 'property holds in this case')
        sys.exit(1 if msg else 0)


main()
