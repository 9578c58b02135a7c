#!/usr/bin/env python3
"""check.py Jnn [--tier quick|thorough]: decide one property from the current sources of /repo"""
import sys, os, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
from checks.common import Report, Broken
from checks import props
from engine.build import BuildError
from engine.interp import EngineError


def main():
    pid = sys.argv[1]
    if pid == '--selftest':
        from engine import build
        build.toolchain()
        return 0
    tier = 'thorough' if '--tier' in sys.argv and sys.argv[sys.argv.index('--tier') + 1] == 'thorough' else 'quick'
    rep = Report(pid, tier)
    try:
        getattr(props, pid)(rep)
    except Exception as e:
        # a violation already established stands; otherwise there is no answer
        if rep.viol and rep.has_new():
            rep.undec('analysis stopped: %s' % e)
            return rep.finish()
        print('%s: no answer: %s' % (pid, e))
        traceback.print_exc()
        return 2
    return rep.finish()


sys.exit(main())
