"""
Replay one recorded violation, without the explorer.
"""
import json
import os
import sys
import importlib

sys.dont_write_bytecode = True
sys.path[0] = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

from mc import core  # noqa: E402


def main():
    with open(sys.argv[1]) as f:
        rec = json.load(f)
    if 'space' not in rec:
        print(rec['exception'])
        return 1
    sys.path.insert(1, core.REPO)
    module = importlib.import_module('mc.checks.' + rec['property'].lower())
    space = [s for s in module.spaces(rec['tier'])
             if s.name == rec['space']][0]
    item = core.item_from_json(rec['item'])
    core.limit_memory()
    print('property', rec['property'], 'space', space.name)
    print('item', space.show(item))
    import signal

    def alarm(*args):
        raise core.Hang()
    signal.signal(signal.SIGALRM, alarm)
    signal.alarm(int(space.hang))
    space.setup_worker()
    try:
        space.check(item, core.Stats())
    except core.Violation as v:
        print('VIOLATED:', v.what)
        print('expected:', v.expected)
        print('got:     ', v.got)
        return 1
    except core.Hang:
        print('VIOLATED: does not terminate')
        return 1
    finally:
        signal.alarm(0)
        space.teardown_worker()
    print('holds')
    return 0


if __name__ == '__main__':
    code = main()
    sys.stdout.flush()
    os._exit(code)
