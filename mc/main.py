import importlib
import json
import os
import sys
import traceback

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[0] = os.path.dirname(HERE)

from mc import core  # noqa: E402


def load(prop):
    sys.path.insert(1, core.REPO)
    return importlib.import_module('mc.checks.' + prop.lower())


def crash_violation(prop, what, exc):
    """
    The code in /repo cannot even be used anymore (import error, missing
    interface, ...): that is an answer, too.
    """
    replays = os.path.join(core.VERIF, 'evidence', 'replays')
    os.makedirs(replays, exist_ok=True)
    path = os.path.join(replays, prop + '-0.json')
    with open(path, 'w') as f:
        json.dump(dict(property=prop, what=what, exception=exc), f, indent=1)
    print(exc)
    print('VIOLATION property={} replay={}'.format(prop, path))
    return 1


def main():
    prop = sys.argv[1].upper()
    tier = (sys.argv[2:] or [os.environ.get('VERIF_TIER') or 'quick'])[0]
    try:
        module = load(prop)
    except Exception:
        exc = traceback.format_exc()
        if core.REPO + '/' in exc.rsplit('File "', 1)[-1]:
            return crash_violation(prop, 'import fails', exc)
        raise
    return core.run_check(prop, tier, module)


if __name__ == '__main__':
    code = main()
    sys.stdout.flush()
    os._exit(code)
