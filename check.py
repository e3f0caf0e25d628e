#!/usr/bin/env python3
"""check.py <property> [quick|thorough]"""
import importlib
import os
import sys
import threading

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get(
        'VERIF_TIER', 'quick')
    from hikustat import driver
    mod = importlib.import_module('checks.' + pid.lower())
    c = driver.Check(pid, tier)
    try:
        mod.run(c)
        c.run_queue()
    except driver.AnchorLost as e:
        c.lost.append(str(e))
    return driver.finish(c, mod.EXPLANATION if hasattr(mod, 'EXPLANATION')
                         else (mod.__doc__ or ''),
                         getattr(mod, 'ASSUMPTIONS', ''))


if __name__ == '__main__':
    threading.stack_size(512 * 1024 * 1024)
    sys.setrecursionlimit(200000)
    rc = []
    t = threading.Thread(target=lambda: rc.append(main()))
    t.start()
    t.join()
    sys.stdout.flush()
    os._exit(rc[0] if rc else 3)
