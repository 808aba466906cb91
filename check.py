#!/usr/bin/env python3-vt
import sys, os, importlib, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(100000)
from kemvc import driver, build
def main():
    prop = sys.argv[1]; tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'): tier = 'quick'
    c = driver.Check(prop, tier)
    mod = importlib.import_module('props.' + prop.lower())
    try:
        hunt = mod.run(c)
    except build.BuildError as e:
        print('the harness does not build against /repo:\n%s' % str(e)[-2500:]); return 2
    except Exception:
        traceback.print_exc()
        c.rec('verifier').fail('obligation generation', 'verifier error: %s' % traceback.format_exc()[-900:])
        hunt = None
    return c.finish(hunt)
if __name__ == '__main__':
    import threading
    threading.stack_size(512 * 1024 * 1024)
    rc = []
    def go():
        try: rc.append(main())
        except BaseException:
            traceback.print_exc(); rc.append(2)
    t = threading.Thread(target=go); t.start(); t.join()
    sys.stdout.flush(); sys.stderr.flush()
    os._exit(rc[0] if rc else 2)
