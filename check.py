#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough]: decide one property from the
source of /repo's current working tree."""
import os
import sys
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'engine'))
sys.path.insert(0, os.path.join(HERE, 'rules'))
sys.setrecursionlimit(20000)


def main():
    import threading
    threading.stack_size(512 * 1024 * 1024)
    res = []

    def go():
        try:
            res.append(run())
        except BaseException:
            traceback.print_exc()
            res.append(2)
    t = threading.Thread(target=go)
    t.start()
    t.join()
    sys.stdout.flush()
    os._exit(res[0])


def run():
    import build
    import report
    import registry
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    fn, level, trusted = registry.get(pid)
    r = report.Report(pid, tier)
    try:
        fn(r)
        if pid not in registry.OWN_PROFILES and build.mentions('debug_assert'):
            # the code can tell a debug build from a release build: decide both
            r.swap.update({'all': 'all-nodbg', 'generic': 'generic-nodbg'})
            fn(r)
    except build.BuildError as e:
        print(str(e)[-3000:])
        return 2
    except Exception as e:
        # the tree contains a construct on which the rule cannot be decided:
        # reported as a violation naming it, never passed over
        where = registry.location(e)
        if os.environ.get('VERIF_DEBUG'):
            traceback.print_exc()
        r.violate('undecided:' + type(e).__name__ + ':' + str(e)[:120], where,
                  'the property could not be established here (%s: %s)' % (type(e).__name__, e))
    return report.finish(r, level, 'python3 check.py %s --tier %s' % (pid, tier), trusted)


main()
