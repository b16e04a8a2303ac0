"""Decide one property:  check.py Cxx [quick|thorough]
                        check.py --replay FILE
                        check.py --record     (maintainer: rewrites proved.json)
"""
import os
import sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
if os.environ.get('PYTHONHASHSEED') != '0' and __name__ == '__main__':
    os.environ['PYTHONHASHSEED'] = '0'
    os.execv(sys.executable, [sys.executable, '-B', '-W', 'ignore'] + sys.argv)
sys.setrecursionlimit(20000)


def main(argv):
    from run import runner
    if argv[:1] == ['--replay']:
        return runner.replay(argv[1])
    if argv[:1] == ['--record']:
        return runner.record(argv[1:])
    pid = argv[0]
    tier = argv[1] if len(argv) > 1 else os.environ.get('VERIF_TIER', 'quick')
    return runner.check(pid, tier, int(os.environ.get('VERIF_SEED', '1') or 1))


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
