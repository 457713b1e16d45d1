"""C10: the output module is written completely or not at all."""
import ctypes
import errno
import json
import mmap
import os
import pathlib
import resource
import shutil
import signal
import struct
import tempfile
import inject
import seams
from core import Check, Violation, HarnessError, drop_each, beat, _send
from checks.c08 import compile_

ACTIONS = ['none', 'error', 'lasting error', 'short write', 'torn write, killed', 'killed before', 'killed after', 'stopped before', 'stopped after']
ERRORS = ['ENOSPC', 'EIO', 'EACCES', 'EDQUOT', 'EINTR', 'EROFS', 'EMFILE', 'EPERM']
MODULES = ['Mod', 'Other', 'My-Module']
SHAPES = ['absolute', 'absolute', 'slash', 'relative', 'dot', 'path', 'nested']


def module(r, name, broken):
    n = r.choice([1] * 8 + [2] * 6 + [3] * 4 + [8] * 3 + [20, 150])
    lines = []
    for i in range(n):
        lines.append('%s%d ::= %s' % (r.choice('ABCD'), i, r.choice(['BOOLEAN', 'BOOLEAN', 'INTEGER'])))
    if r.random() < 0.15:
        lines.append('E ::= ENUMERATED { %s }' % ', '.join(r.sample(['red', 'green', 'blue'], r.choice([1, 2, 3]))))
    if r.random() < 0.2:
        lines.append('max INTEGER ::= %d' % r.randrange(100))
    text = '%s DEFINITIONS AUTOMATIC TAGS ::= BEGIN\n%s\nEND\n' % (name, '\n'.join(lines))
    if broken:
        x = r.random()
        if x < 0.4:
            text = text[:r.randrange(3, len(text) - 5)]
        elif x < 0.7:
            text = text.replace('END', 'F ::= Missing\nEND')    # found out when the code is generated
        else:
            text = text.replace('::= BEGIN', '::= BEGIN %', 1)
    return text


class Process(object):
    """A simulated process: executes compile requests one by one; may be killed or stopped by the file system seam."""

    def __init__(self, shm, root):
        r1, w1 = os.pipe()
        r2, w2 = os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            try:
                os.close(w1)
                os.close(r2)
                resource.setrlimit(resource.RLIMIT_CPU, (40, 45))
                lib = ctypes.CDLL(None)
                addr = ctypes.c_void_p(ctypes.addressof(ctypes.c_char.from_buffer(shm)))
                with os.fdopen(r1) as f:
                    for line in f:
                        req = json.loads(line)
                        _send(w2, self.serve(lib, addr, req, root))
            except BaseException:
                import traceback
                _send(w2, {'harness': traceback.format_exc()})
            finally:
                os._exit(0)
        os.close(r1)
        os.close(w2)
        self.w, self.r, self.buf = w1, r2, b''

    @staticmethod
    def serve(lib, addr, req, root):
        folder = req['folder']
        if req['shape'] == 'path':
            folder = pathlib.Path(folder)
        os.chdir(req['cwd'])
        f = req['fault']
        lines = None
        abort = inject.Abort(f[1], f[2], (seams.REPO + '/asn1PERser/',)) if f and f[0] == 'abort' else None
        lib.dst_arm(addr, root.encode(), *(f[1:4] if f and f[0] == 'fs' else [0, 0, 0]))
        try:
            if abort:
                kind, val = abort.run(lambda: compile_(req['text'], folder))
            elif req.get('count'):
                a = inject.Abort(-1, '', (seams.REPO + '/asn1PERser/',))
                kind, val = a.run(lambda: compile_(req['text'], folder))
                lines = a.seen
            else:
                try:
                    kind, val = 'ok', compile_(req['text'], folder)
                except BaseException as e:
                    kind, val = 'exc', e
        finally:
            lib.dst_disarm()
        out = {'kind': kind, 'exc': type(val).__name__ if kind == 'exc' else None, 'lines': lines,
               'aborted': bool(abort and abort.exc)}
        val = None
        return out

    def call(self, req):
        _send(self.w, req)

    def wait(self):
        """The answer, 'killed' or 'stopped'."""
        import select
        while True:
            if select.select([self.r], [], [], 0.02)[0]:
                data = os.read(self.r, 1 << 16)
                if not data:
                    os.waitpid(self.pid, 0)
                    return 'killed'
                self.buf += data
                if self.buf.endswith(b'\n'):
                    out = json.loads(self.buf)
                    self.buf = b''
                    if 'harness' in out:
                        raise HarnessError(out['harness'])
                    return out
            pid, st = os.waitpid(self.pid, os.WNOHANG | os.WUNTRACED)
            if pid and os.WIFSTOPPED(st):
                return 'stopped'
            if pid:
                self.pid = 0
                return 'killed'

    def go_on(self):
        os.kill(self.pid, signal.SIGCONT)

    def end(self):
        os.close(self.w)
        os.close(self.r)
        if self.pid:
            try:
                os.kill(self.pid, signal.SIGKILL)
                os.waitpid(self.pid, 0)
            except OSError:
                pass


def snapshot(folder):
    out = {}
    for base, dirs, files in os.walk(folder):
        for d in dirs:
            out[os.path.relpath(os.path.join(base, d), folder) + '/'] = b''
        for f in files:
            p = os.path.join(base, f)
            with open(p, 'rb') as fh:
                out[os.path.relpath(p, folder)] = fh.read()
    return out


class C10(Check):
    id = 'C10'
    size = {'quick': (800, 10), 'thorough': (15000, 10)}
    needs_shim = True
    mem_limit = 0
    rule = ('one run = a folder with older modules and other files in it and 2-6 compilations into it by simulated processes, most of them '
            'with one fault: an error, a lasting error (full disk), a short or torn write, a kill or a pause before or after the n-th '
            'file operation (during a pause another process compiles into the folder or a reader looks), an exception at the n-th line; the '
            'folder is judged after every step; distinct = distinct (operations performed, fault, operation hit, what existed before)')
    components = {'real': ['asn1PERser compiler and file writing', 'pyparsing', 'jinja2', 'CPython io', 'kernel file system (scratch folder)'],
                  'stub': ['file operations of libc below the scratch folder (LD_PRELOAD seam)', 'process death', 'interrupts']}
    assumptions = ['a killed process keeps what it handed to the kernel (no power loss)', 'names of temporary files are free to choose']

    def gen(self, r, i):
        texts = []
        names = r.sample(MODULES, r.choice([1, 1, 2]))
        for k in range(r.choice([2, 3, 4])):
            texts.append(module(r, r.choice(names), r.random() < 0.2))
        old = r.choice(['none', 'other version', 'other version', 'same', 'junk', 'long', 'empty'])
        steps = []
        for _ in range(r.choice([2, 3, 4, 6])):
            x = r.random()
            f = None
            if x < 0.12:
                f = ['abort', r.random() if r.random() < 0.3 else 1 - r.random() * 0.12, r.choice(sorted(inject.KINDS))]
            elif x < 0.85:
                a = r.randrange(1, len(ACTIONS))
                arg = getattr(errno, r.choice(ERRORS)) if a <= 2 else r.choice([0, 1, 500, 900, 999, r.randrange(1000)])
                if a == 2 and arg == errno.EINTR:
                    arg = errno.ENOSPC      # interrupted for ever is not a fault a file system shows
                f = ['fs', r.random(), a, arg]
            steps.append([r.randrange(len(texts)), 'missing' if r.random() < 0.04 else r.choice(SHAPES), f, r.randrange(len(texts)), r.random() < 0.25])
        return {'texts': texts, 'names': names, 'old': old, 'steps': steps}

    def expected(self, shm, root, scn):
        """What every text gives in a process of its own: [kind, file bytes, ops, lines]."""
        res = []
        for text in scn['texts']:
            folder = os.path.join(root, 'alone')
            os.mkdir(folder)
            p = Process(shm, root)
            p.call({'text': text, 'folder': folder, 'cwd': root, 'shape': 'absolute', 'fault': None, 'count': True})
            out = p.wait()
            ops = struct.unpack_from('i', shm, 4)[0]
            p.end()
            if not isinstance(out, dict):
                raise Violation('process died', 'a lone compilation ended with %s' % out)
            files = snapshot(folder)
            shutil.rmtree(folder)
            if out['kind'] == 'ok':
                name = text.split()[0] + '.py'
                if list(files) != [name]:
                    raise Violation('wrong files', 'a compilation of %s returned and left %s' % (text.split()[0], sorted(files)))
                code = compile_(text).encode()
                if files[name] != code:
                    raise Violation('incomplete module', 'file %r, code %r' % (files[name][-200:], code[-200:]))
                res.append([name, files[name], ops, out['lines']])
            else:
                if files:
                    raise Violation('file of a refused schema', '%s was refused (%s) and left %s' % (text[:300], out['exc'], sorted(files)))
                res.append([None, None, ops, out['lines']])
        return res

    def run(self, scn, stats, expect):
        shm = mmap.mmap(-1, 4096)
        root = os.path.realpath(tempfile.mkdtemp(prefix='c10-'))
        procs = []
        try:
            self.go(scn, stats, shm, root, procs)
        finally:
            for p in procs:
                p.end()
            shutil.rmtree(root, ignore_errors=True)

    def go(self, scn, stats, shm, root, procs):
        exp = self.expected(shm, root, scn)
        out_dir = os.path.join(root, 'out')
        os.makedirs(os.path.join(out_dir, 'sub', 'deep'))
        bystanders = {'notes.txt': b'keep', 'Mod.py.bak': b'backup', 'Mod': b'no suffix', 'sub/Mod.py': b'elsewhere', 'Mod.pyc': b'\0\1'}
        for n, b in bystanders.items():
            with open(os.path.join(out_dir, n), 'wb') as f:
                f.write(b)
        rest = bytes(range(256)) * 3
        for n in scn['names']:
            c = {'none': None, 'other version': b'# older version\nclass A(object):\n    pass\n', 'junk': rest, 'empty': b'',
                 'long': b'# long older version\n' * 3000, 'same': next((e[1] for e in exp if e[0] == n + '.py'), None)}[scn['old']]
            if c is not None:
                with open(os.path.join(out_dir, n + '.py'), 'wb') as f:
                    f.write(c)
        proc = None
        for k, (ti, shape, fault, other, reader) in enumerate(scn['steps']):
            beat()
            text, (name, new, ops, lines) = scn['texts'][ti], exp[ti]
            if shape == 'missing':
                if proc is None:
                    proc = Process(shm, root)
                    procs.append(proc)
                before = snapshot(root)
                proc.call({'text': text, 'folder': os.path.join(root, 'no', 'such'), 'cwd': root, 'shape': shape, 'fault': None})
                ans = proc.wait()
                stats.add('fault.missing folder')
                after = snapshot(root)
                if ans == 'killed' or ans['kind'] == 'ok' and (not name or after.get('no/such/' + name) != new):
                    raise Violation('returned without the complete module', 'step %d: the folder did not exist: %s' % (k, ans))
                self.judge_state(after, before, None, None, 'after compiling into a missing folder', k, ans['kind'] == 'ok')
                shutil.rmtree(os.path.join(root, 'no'), ignore_errors=True)
                continue
            folder, cwd = {'absolute': (out_dir, root), 'slash': (out_dir + '/', root), 'relative': ('out', root), 'dot': ('.', out_dir),
                           'path': (out_dir, root), 'nested': (os.path.join(out_dir, 'sub', 'deep'), root)}[shape]
            where = os.path.join(cwd, folder)
            before = snapshot(out_dir)
            rel = lambda n: os.path.relpath(os.path.join(where, n), out_dir)
            real = None
            if fault and fault[0] == 'fs':
                real = ['fs', 1 + int(fault[1] * max(ops, 1)), fault[2], fault[3]]
            elif fault:
                real = ['abort', 1 + int(fault[1] * lines), fault[2]]
            if proc is None:
                proc = Process(shm, root)
                procs.append(proc)
            req = {'text': text, 'folder': folder, 'cwd': cwd, 'shape': shape, 'fault': real}
            proc.call(req)
            ans = proc.wait()
            allowed = {before.get(rel(name)) if name else None, new} if name else None
            also, finals = {}, {new}
            while ans == 'stopped':
                beat()
                self.judge_state(snapshot(out_dir), before, name and rel(name), allowed, 'while the call was running', k, True)
                oname, onew = exp[other][:2]
                if not reader and oname:
                    p2 = Process(mmap.mmap(-1, 4096), root)
                    procs.append(p2)
                    p2.call({'text': scn['texts'][other], 'folder': folder, 'cwd': cwd, 'shape': shape, 'fault': None})
                    a2 = p2.wait()
                    procs.remove(p2)
                    p2.end()
                    stats.add('fault.another process writes meanwhile')
                    now = snapshot(out_dir)
                    if a2 == 'killed' or a2['kind'] != 'ok' or now.get(rel(oname)) != onew:
                        raise Violation('module not written', 'step %d: a second process compiling meanwhile: %s, file %s' % (k, a2, self.what(now.get(rel(oname)))))
                    if name == oname:
                        allowed.add(onew)
                        finals.add(onew)
                    else:
                        also[rel(oname)] = onew
                        before[rel(oname)] = onew
                else:
                    stats.add('fault.a reader looks meanwhile')
                proc.go_on()
                ans = proc.wait()
            fired, op = struct.unpack_from('ii', shm, 20)
            trace = shm[28:28 + 200].split(b'\0')[0].decode()
            after = snapshot(out_dir)
            label = 'no fault'
            if fault and fault[0] == 'fs' and fired:
                label = ACTIONS[fault[2]] + (' ' + errno.errorcode.get(fault[3], '?') if fault[2] <= 2 else '')
                stats.add('fault.' + label)
            elif ans != 'killed' and ans['aborted']:
                label = fault[2]
                stats.add('fault.%s at a line' % label)
            stats.add('sim.file operations', len(trace))
            stats.add('compilations into a folder')
            if fired:
                stats.seen('operations hit', trace + chr(op))
            stats.seen('distinct', [trace, label, op, scn['old'], name is None, shape])
            if ans == 'killed':
                if not fired:
                    raise Violation('process died', 'step %d: the process died by itself' % k)
                proc.end()
                procs.remove(proc)
                proc = None
                self.judge_state(after, before, name and rel(name), allowed, 'after the process was %s (%s)' % (label, trace), k, True)
                stats.add('processes killed')
            else:
                faulty = label != 'no fault'
                if ans['kind'] == 'ok':
                    if name is None:
                        raise Violation('refused schema accepted', 'step %d: %s' % (k, text[:300]))
                    if label != 'no fault' and ans['aborted']:
                        raise Violation('fault swallowed', 'step %d: %s did not reach the caller' % (k, label))
                    if after.get(rel(name)) not in finals:
                        raise Violation('returned without the complete module', 'step %d, %s (%s): file is %s'
                                        % (k, label, trace, self.what(after.get(rel(name)))))
                    self.judge_state(after, before, rel(name), allowed, 'after a successful call, %s (%s)' % (label, trace), k, False)
                else:
                    if not faulty and name:
                        raise Violation('refused without a fault', 'step %d: %s raised for %s' % (k, ans['exc'], text[:300]))
                    self.judge_state(after, before, name and rel(name), allowed, 'after %s was raised, %s (%s)' % (ans['exc'], label, trace), k,
                                     'u' in trace and (chr(op) == 'u' or fault[0] == 'abort') if fired or faulty else False)
                    stats.add('failures reported')
            if label not in ('no fault',) and name:
                # the same call again, nothing failing
                if proc is None:
                    proc = Process(shm, root)
                    procs.append(proc)
                left = snapshot(out_dir)
                proc.call(dict(req, fault=None))
                ans = proc.wait()
                after = snapshot(out_dir)
                if ans == 'killed' or ans['kind'] != 'ok' or after.get(rel(name)) != new:
                    raise Violation('repeating the call fails', 'step %d, after %s (%s): %s, file %s' % (k, label, trace, ans, self.what(after.get(rel(name)))))
                self.judge_state(after, left, rel(name), {new}, 'after the repetition', k, True)
            # temporary files of killed processes may stay; they are not part of the model of the next step
            for n in after:
                if n not in before and n not in also and (not name or n != rel(name)) and not n.endswith('/'):
                    os.remove(os.path.join(out_dir, n))
            if not stats.samples and label != 'no fault':
                stats.samples.append({'text': text[:100], 'operations': trace, 'fault': label, 'at': real, 'outcome': str(ans)[:100]})

    @staticmethod
    def what(b):
        return 'missing' if b is None else '%d bytes: %r' % (len(b), b[:80])

    def judge_state(self, after, before, target, allowed, when, k, leftovers):
        for n in before:
            if n != target and after.get(n) != before[n]:
                raise Violation('another file was changed', 'step %d %s: %s is %s' % (k, when, n, self.what(after.get(n))))
        if target is not None and after.get(target) not in allowed:
            raise Violation('module neither old nor new', 'step %d %s: %s is %s' % (k, when, target, self.what(after.get(target))))
        extra = sorted(n for n in after if n not in before and n != target)
        if extra and not leftovers:
            raise Violation('files left behind', 'step %d %s: %s' % (k, when, extra))

    def shrink(self, scn):
        for cand in drop_each(scn['steps'], 1):
            yield dict(scn, steps=cand)
        if scn['old'] not in ('none', 'other version'):
            yield dict(scn, old='other version')
        used = sorted(set(s[0] for s in scn['steps']) | set(s[3] for s in scn['steps']))
        if len(used) < len(scn['texts']):
            m = {u: j for j, u in enumerate(used)}
            yield dict(scn, texts=[scn['texts'][u] for u in used], steps=[[m[s[0]], s[1], s[2], m[s[3]], s[4]] for s in scn['steps']])
        for j, s in enumerate(scn['steps']):
            for cand in ([s[0], 'absolute', s[2], s[3], s[4]], [s[0], s[1], None, s[3], s[4]], [s[0], s[1], s[2], s[0], True]):
                if cand != s:
                    yield dict(scn, steps=scn['steps'][:j] + [cand] + scn['steps'][j + 1:])
        for j, t in enumerate(scn['texts']):
            lines = t.split('\n')
            if len(lines) > 4:
                for body in drop_each(lines[1:-2], 1):
                    yield dict(scn, texts=scn['texts'][:j] + ['\n'.join(lines[:1] + body + lines[-2:])] + scn['texts'][j + 1:])
