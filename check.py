#!/usr/bin/env python3
"""check.py <property> [--quick|--thorough] [--replay FILE]; see DESIGN.md."""
import os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(HERE, 'lib'), os.path.join(HERE, 'checks')]
sys.dont_write_bytecode = True


def registry():
    import importlib
    out = {}
    for f in sorted(os.listdir(os.path.join(HERE, 'checks'))):
        if f.endswith('.py'):
            m = importlib.import_module(f[:-3])
            for c in vars(m).values():
                if isinstance(c, type) and getattr(c, 'pid', None) and c.__module__ == m.__name__:
                    out[c.pid] = c
    return out


if __name__ == '__main__':
    import runner
    reg = registry()
    if len(sys.argv) < 2 or sys.argv[1] not in reg:
        print('usage: check.py <%s>' % '|'.join(sorted(reg)))
        sys.exit(2)
    sys.exit(runner.main(reg[sys.argv[1]], sys.argv[2:]))
