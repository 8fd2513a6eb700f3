import os
import sys

from . import core


def main():
    args = sys.argv[1:]
    if '--replay' in args:
        return core.replay(args[args.index('--replay') + 1])
    if args[0] == 'selftest':
        core.setup_path()
        print('soapfish from', core.REPO)
        return 0
    name = args[0].upper()
    tier = args[1] if len(args) > 1 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    return core.run(name, tier, seed)


if __name__ == '__main__':
    try:
        code = main()
    except Exception:
        import traceback
        traceback.print_exc()
        code = 2
    sys.stdout.flush()
    sys.exit(code)
