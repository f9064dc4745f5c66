#!/opt/venv/bin/python
"""check.py PROPERTY [--replay FILE]

Decides a property of /repo's working tree: see DESIGN.md. Exit 0: held; 1: violated; 2: the check itself failed.
"""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
ENV = dict(PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1',
           PYTHONHASHSEED='0')
if any(os.environ.get(k) != v for k, v in ENV.items()):
    os.environ.update(ENV)
    os.execv('/opt/venv/bin/python', ['/opt/venv/bin/python', os.path.abspath(__file__)] + sys.argv[1:])

sys.path.insert(0, os.path.join(HERE, 'harness'))
sys.path.insert(0, '/repo/src')


def main():
    import runcheck
    return runcheck.main(sys.argv[1:], HERE)


if __name__ == '__main__':
    try:
        rc = main()
    except Exception:                                                     # noqa
        import traceback
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)
