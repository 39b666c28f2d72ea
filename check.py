#!/opt/venv/bin/python
"""check.py <property id> [--replay FILE]: decides one property of /repo's current tree; see DESIGN.md."""
import os, sys
os.environ.setdefault('OMP_NUM_THREADS', '1')
os.environ.setdefault('OPENBLAS_NUM_THREADS', '1')
os.environ.setdefault('NUMBA_NUM_THREADS', '1')
os.environ.setdefault('PYTHONDONTWRITEBYTECODE', '1')
os.environ.setdefault('HDF5_USE_FILE_LOCKING', 'FALSE')
os.environ['PYTHONHASHSEED'] = '0'
sys.dont_write_bytecode = True
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(here, 'harness'))
sys.path.insert(0, os.environ.get('VERIF_REPO', '/repo'))
import logging, warnings, traceback, json, importlib
logging.disable(logging.CRITICAL)
warnings.filterwarnings('ignore')


def main():
    pid = sys.argv[1]
    import vlib
    try:
        mod = importlib.import_module(pid.lower())
    except Exception:
        # the driver itself imports the code under test: if that no longer imports, the property is not held
        tb = traceback.format_exc()
        if os.path.join('resqpy', '') not in tb:
            raise
        os.makedirs(vlib.OUT, exist_ok = True)
        p = os.path.join(vlib.OUT, pid + '-import.json')
        with open(p, 'w') as fp:
            json.dump({'property': pid, 'import_error': tb}, fp)
        print(tb)
        print(f'VIOLATION property={pid} replay={p}')
        return 1
    if len(sys.argv) > 3 and sys.argv[2] == '--replay':
        with open(sys.argv[3]) as fp:
            b = json.load(fp)
        return vlib.replay(mod, b)
    c = vlib.Check(pid)
    mod.main(c)
    return c.finish()


if __name__ == '__main__':
    try:
        rc = main()
    except BaseException as e:
        if isinstance(e, SystemExit):
            raise
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)
