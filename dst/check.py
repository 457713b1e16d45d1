"""python check.py ID [--tier quick|thorough] [--seed N] [--replay FILE] [--runs A B]"""
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))


def settle():
    """Same interpreter conditions every time: fixed hash seed, no address randomisation, no stale bytecode."""
    if os.environ.get('VERIF_SETTLED') != '1':
        env = dict(os.environ, VERIF_SETTLED='1', PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1',
                   PYTHONPYCACHEPREFIX='/nonexistent-pycache', PYTHONUNBUFFERED='1', LC_ALL='C.UTF-8')
        for k in ('PYTHONPATH', 'PYTHONWARNINGS', 'PYTHONSTARTUP'):
            env.pop(k, None)
        if len(sys.argv) > 1 and sys.argv[1] == 'C10':
            env['LD_PRELOAD'] = shim()
        try:
            import ctypes
            ctypes.CDLL(None).personality(0x0040000)
        except Exception:
            pass
        os.execve(sys.executable, [sys.executable, '-W', 'ignore'] + sys.argv, env)


def shim():
    """The file system seam, built from source."""
    import hashlib
    import subprocess
    src = os.path.join(HERE, 'native', 'fsshim.c')
    folder = os.path.join(os.path.dirname(HERE), 'build')
    os.makedirs(folder, exist_ok=True)
    with open(src, 'rb') as f:
        path = os.path.join(folder, 'fsshim-%s.so' % hashlib.sha1(f.read()).hexdigest()[:12])
    if not os.path.exists(path):
        tmp = '%s.%d' % (path, os.getpid())
        subprocess.run(['gcc', '-O1', '-shared', '-fPIC', '-o', tmp, src, '-ldl'], check=True)
        os.rename(tmp, path)
    return path


def find(pid):
    import importlib
    mod = importlib.import_module({'C02': 'checks.c01', 'C05': 'checks.c12', 'C09': 'checks.c08'}.get(pid, 'checks.%s' % pid.lower()))
    return getattr(mod, pid)()


def main():
    args = sys.argv[1:]
    pid = args[0]
    opt = dict(zip(args[1::2], args[2::2]))
    sys.path.insert(0, HERE)
    import seams
    seams.install()
    import core
    tier = opt.get('--tier') or os.environ.get('VERIF_TIER') or 'quick'
    seed = int(opt.get('--seed') or os.environ.get('VERIF_SEED') or '1')
    try:
        try:
            L = seams.load()
        except Exception:
            import traceback
            traceback.print_exc()
            print('%s: the code under test cannot be imported' % pid)
            return 2
        check = find(pid)
        check.L = L
        if '--n' in opt:
            check.size = dict(check.size, **{tier: (int(opt['--n']), check.size[tier][1])})
        if '--replay' in opt:
            return core.main_replay(check, opt['--replay'])
        return core.main_check(check, tier, seed, opt.get('--evidence'))
    except core.HarnessError as e:
        print('HARNESS ERROR (no verdict):\n%s' % e)
        return 2


if __name__ == '__main__':
    settle()
    sys.exit(main())
