#!/usr/bin/env python3
"""run.py ID: decide one property on the current tree of /repo"""
import sys, os, importlib, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import lib
import registry


def main():
    pid = sys.argv[1]
    mod, fn = registry.CHECKS[pid]
    m = importlib.import_module(mod)
    try:
        return getattr(m, fn)(pid)
    except lib.CheckError as ex:
        print('%s: no answer: %s' % (pid, ex))
        return 2


if __name__ == '__main__':
    import threading
    threading.stack_size(512 * 1024 * 1024)
    res = [3]

    def go():
        try:
            res[0] = main()
        except BaseException:
            traceback.print_exc()
            res[0] = 3
    t = threading.Thread(target=go)
    t.start()
    t.join()
    sys.stdout.flush()
    os._exit(res[0])
