"""
Updates of obsolete programs by the updater of the library, on a simulated
disk with faults and crashes.

The files are real ones, in a scratch directory that is created and removed by
each run; the file operations of the updater go through the functions below,
which can fail, or stop everything at any point (crash).
"""

import builtins
import contextlib
import copy
import errno
import hashlib
import io
import os
import random
import re
import shutil
import sys
import tempfile
import traceback
import warnings

from . import execute, runner, userfuncs
from . import world as world_module
from .kernel import Kernel, Task, SimStop
from .world import Problem


class SimCrash(BaseException):
    "Sudden end of the process"


ERRORS = {'ENOSPC': errno.ENOSPC, 'EIO': errno.EIO, 'EACCES': errno.EACCES,
          'EROFS': errno.EROFS, 'EMFILE': errno.EMFILE}


class Disk(object):
    """
    File operations on a directory, with faults: mapping from the number of
    the operation to the fault.
    """

    def __init__(self, root, faults):
        self.root = root
        self.faults = dict(faults)
        self.n = 0
        self.dead = False
        self.log = []
        self.fired = {}
        self.saved = []
        self.active = False

    def mine(self, path):
        try:
            return (self.active and isinstance(path, (str, bytes))
                    and os.path.abspath(os.fsdecode(path)).startswith(
                        self.root))
        except Exception:
            return False

    def event(self, what, path, partial=None):
        "Called before each operation"
        if self.dead:
            raise SimCrash()
        n = self.n
        self.n += 1
        rel = os.path.relpath(os.fsdecode(path), self.root)
        self.log.append('%s %s' % (what, rel))
        fault = self.faults.get(n)
        if fault is None:
            return
        kind = fault['kind']
        if kind in ERRORS and self.stopped_by_rename:
            return
        if what == 'read' and kind == 'ENOSPC':
            kind = 'EIO'
        self.fired[kind+' '+what] = self.fired.get(kind+' '+what, 0)+1
        if kind == 'crash':
            if partial:
                partial(fault.get('part', 0.))
            self.dead = True
            raise SimCrash()
        if kind in ERRORS:
            if partial:
                partial(fault.get('part', 0.))
            if what == 'rename':
                # The updater continues without backup: no other fault
                self.stopped_by_rename = True
            raise OSError(ERRORS[kind], 'simulated '+kind,
                          os.fsdecode(path))
        if kind == 'KI':
            if partial:
                partial(fault.get('part', 0.))
            raise KeyboardInterrupt

    stopped_by_rename = False

    # -- installation ------------------------------------------------------

    def patch(self, module, name, new):
        self.saved.append((module, name, getattr(module, name)))
        setattr(module, name, new)

    def install(self):
        self.active = True
        for name in ('rename', 'replace', 'link', 'symlink'):
            self.patch(os, name, self.two_paths(name, getattr(os, name)))
        for name in ('remove', 'unlink', 'mkdir', 'rmdir', 'truncate',
                     'chmod'):
            self.patch(os, name, self.one_path(name, getattr(os, name)))
        for module in (io, builtins):
            self.patch(module, 'open', self.opener(module.open))

    def uninstall(self):
        self.active = False
        for (module, name, old) in reversed(self.saved):
            setattr(module, name, old)
        self.saved = []

    def one_path(self, name, real):
        def f(path, *args, **kwargs):
            if self.mine(path):
                self.event(name, path)
            return real(path, *args, **kwargs)
        return f

    def two_paths(self, name, real):
        def f(src, dst, *args, **kwargs):
            if self.mine(src) or self.mine(dst):
                self.event(name, src)
            return real(src, dst, *args, **kwargs)
        return f

    def opener(self, real):
        disk = self

        def open(file, mode='r', *args, **kwargs):
            if not disk.mine(file):
                return real(file, mode, *args, **kwargs)
            if any(c in mode for c in 'wax+'):
                disk.event('create', file)
                f = real(file, mode, *args, **kwargs)
                return Written(disk, f, file)
            disk.event('read', file)
            return real(file, mode, *args, **kwargs)
        return open


class Written(object):
    "File opened for writing: nothing is on the disk before flush() or close()"

    def __init__(self, disk, f, path):
        self.disk = disk
        self.f = f
        self.path = path
        self.pending = []

    def write(self, data):
        if self.disk.dead:
            raise SimCrash()
        self.pending.append(data)
        return len(data)

    def writelines(self, lines):
        for line in lines:
            self.write(line)

    def flush(self):
        if not self.pending:
            return
        data = self.pending[0][:0].join(self.pending)
        self.pending = []

        def partial(part):
            self.f.write(data[:int(len(data)*part)])
            self.f.flush()
        self.disk.event('write', self.path, partial)
        self.f.write(data)
        self.f.flush()

    def close(self):
        try:
            self.flush()
        finally:
            self.f.close()

    def __enter__(self):
        return self

    def __exit__(self, *args):
        if self.disk.dead:
            self.f.close()
        else:
            self.close()

    def __getattr__(self, name):
        return getattr(self.f, name)


# -- updater ---------------------------------------------------------------

def run_updater(args, disk=None, kernel=None, uid=None):
    """
    Runs the program uncertainties/1to2.py in this process.  Returns the exit
    status, or the exception that stopped it.
    """
    path = os.path.join(runner.REPO, 'uncertainties', '1to2.py')
    source = SOURCES.get(path)
    if source is None:
        with open(path) as f:
            source = SOURCES[path] = compile(f.read(), path, 'exec')
    if not STATE:
        STATE.append(FreshState())
    STATE[0].restore()
    saved = (sys.argv, sys.stdout, sys.stderr)
    sys.argv = [path]+list(args)
    sys.stdout = io.StringIO()
    sys.stderr = LOG
    if disk:
        disk.install()
    try:
        if kernel:
            kernel.op_begin(uid)
        try:
            exec(source, {'__name__': '__main__', '__file__': path})
            return 0
        except SystemExit as exc:
            return exc.code or 0
        except BaseException as exc:
            if isinstance(exc, SimStop):
                raise
            return exc
        finally:
            if kernel:
                kernel.op_end()
    finally:
        if disk:
            disk.uninstall()
        (sys.argv, sys.stdout, sys.stderr) = saved


class FreshState(object):
    """
    State of the fixers, put back before each run of the updater (which is
    normally executed by a new process).
    """

    def __init__(self):
        self.saved = []
        for (name, mod) in sorted(sys.modules.items()):
            if mod is None or not name.startswith('uncertainties.lib1to2'):
                continue
            objs = [mod]+[obj for obj in vars(mod).values()
                          if isinstance(obj, type)
                          and getattr(obj, '__module__', '') == name]
            for obj in objs:
                self.saved.append((obj, dict(
                    (k, (v, self.contents(v)))
                    for (k, v) in vars(obj).items())))

    @staticmethod
    def contents(value):
        if type(value) in (list, dict, set):
            return copy.copy(value)
        return None

    def restore(self):
        for (obj, saved) in self.saved:
            for k in list(vars(obj)):
                if k not in saved:
                    delattr(obj, k)
            for (k, (value, contents)) in saved.items():
                if vars(obj).get(k) is not value:
                    setattr(obj, k, value)
                if contents is not None and value != contents:
                    if type(value) is list:
                        value[:] = contents
                    else:
                        value.clear()
                        value.update(contents)


STATE = []
SOURCES = {}
LOG = io.StringIO()


# -- files -----------------------------------------------------------------

def write_files(root, files):
    for (name, data) in sorted(files.items()):
        path = os.path.join(root, name)
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, 'wb') as f:
            f.write(data)


def read_files(root):
    result = {}
    for (folder, _, names) in os.walk(root):
        for name in names:
            path = os.path.join(folder, name)
            with open(path, 'rb') as f:
                result[os.path.relpath(path, root)] = f.read()
    return result


LEFT = re.compile(r'\.std_devs?\s*\(\s*\)\s*(\*\*|\.|\[)')


def execute_program(data, name):
    "Results of a program, and exception that stopped it, if any"
    namespace = {'__name__': 'user_program', 'out': []}
    with warnings.catch_warnings(record=True) as caught:
        warnings.simplefilter('always')
        stdout = sys.stdout
        sys.stdout = io.StringIO()
        failure = None
        try:
            exec(compile(data, name, 'exec'), namespace)
        except Exception as exc:
            failure = exc
        finally:
            sys.stdout = stdout
    lines = text(data).splitlines()
    obsolete = set()
    for w in caught:
        if w.filename == name and 0 < w.lineno <= len(lines):
            line = lines[w.lineno-1]
            # (The updater leaves x.std_dev()**2 and x.std_dev().method().)
            if str(w.message).startswith('Obsolete') and not LEFT.search(line):
                obsolete.add('%s: %s' % (line, w.message))
    return ([repr(x) for x in namespace['out']], failure, obsolete)


class UpdateRun(object):

    def __init__(self, plan):
        self.plan = plan
        self.problem = None
        self.stats = {'ops': 0, 'checks': 0, 'fired': {}, 'disk_events': 0,
                      'updated_files': 0, 'crashes': 0, 'recovered_files': 0}
        self.kernel = Kernel(plan, random.Random('sched %s' % plan['seed']))
        self.log = []

    def fail(self, msg):
        if self.problem is None:
            self.problem = msg

    def run(self):
        top = tempfile.mkdtemp(prefix='sim-update-')
        try:
            self._run(top)
        except Problem as exc:
            self.fail(str(exc))
        except Exception as exc:
            error = execute.library_error(exc)
            if error is None:
                raise
            self.fail('unexpected exception, in %s' % error)
        finally:
            shutil.rmtree(top)
        k = self.kernel
        for (kind, n) in k.fired.items():
            self.stats['fired'][kind] = self.stats['fired'].get(kind, 0)+n
        self.stats['steps'] = k.step
        self.stats['sig'] = hashlib.sha1(repr(
            (self.log, [ev[3:] for ev in k.trace])).encode()).hexdigest()[:16]
        self.stats['nontrivial'] = bool(self.stats['fired'])
        return {'problem': self.problem, 'trace': k.trace,
                'stats': self.stats}

    def check(self, ok, msg):
        self.stats['checks'] += 1
        if not ok:
            raise Problem(msg)

    def update(self, root, options, disk=None, uid=None, only=None):
        self.stats['ops'] += 1
        kernel = self.kernel if uid else None
        args = ['-w']+[o for o in options]
        if only:
            targets = [os.path.join(root, only)]
        elif self.plan.get('by_name'):
            targets = [os.path.join(root, name)
                       for name in sorted(self.files)
                       if name.endswith('.py')]
        else:
            targets = [root]
        res = run_updater(args+targets, disk, kernel, uid)
        if kernel and kernel.problem:
            raise Problem('the updater does not finish: %s' % kernel.problem)
        return res

    def _run(self, top):
        plan = self.plan
        task = Task(0)
        task.prio = 0
        self.kernel.tasks = [task]
        self.kernel.cur = task
        self.kernel.install()
        files = self.files = dict(
            (f['name'], program_bytes(f)) for f in plan['tasks'][0])
        if not files:
            return
        # 1. Uninterrupted update:
        ref = os.path.join(top, 'ref')
        write_files(ref, files)
        status = self.update(ref, plan.get('options', []))
        self.check(status == 0, 'uninterrupted update: status %r %s' % (
            status, describe(status)))
        after = read_files(ref)
        updated = {}
        for name in files:
            self.check(name in after, 'file %s disappeared' % name)
            updated[name] = after[name]
            if updated[name] != files[name]:
                self.stats['updated_files'] += 1
                self.check(name.endswith('.py'),
                           'modified file: %s' % name)
                self.check(after.get(name+'.bak') == files[name],
                           'no backup of %s' % name)
        # The updated programs:
        for f in plan['tasks'][0]:
            name = f['name']
            if f.get('module'):
                continue
            if not name.endswith('.py'):
                continue
            (before, _) = self.results(files[name], name)
            (now, obsolete) = self.results(updated[name], name)
            self.check(not obsolete, 'obsolete code in %s after the update:'
                       ' %s' % (name, sorted(obsolete)[:3]))
            self.check(now == before, 'the results of %s are different after'
                       ' the update: %r instead of %r; program:\n%s' % (
                           name, diff(now, before), diff(before, now),
                           text(updated[name])[-800:]))
        # Each file is updated as if it were alone:
        alone = plan.get('alone')
        if alone in files and alone.endswith('.py') and len(files) > 1:
            folder = os.path.join(top, 'alone')
            write_files(folder, files)
            status = self.update(folder, plan.get('options', []), only=alone)
            self.check(status == 0, 'update of %s: status %r %s' % (
                alone, status, describe(status)))
            res = read_files(folder)
            for name in files:
                wanted = updated[name] if name == alone else files[name]
                self.check(res.get(name) == wanted,
                           'file %s after an update of %s alone:\n%s\n'
                           'instead of:\n%s' % (
                               name, alone,
                               text(res.get(name, b'(missing)'))[-600:],
                               text(wanted)[-600:]))
        # 2. Up-to-date code is not changed:
        status = self.update(ref, plan.get('options', []))
        again = read_files(ref)
        for name in files:
            self.check(again.get(name) == updated[name],
                       'up-to-date file %s changed by the updater:\n%s' % (
                           name, text(again.get(name, b''))[-800:]))
        # 3. Interrupted updates, each followed by a recovery:
        work = os.path.join(top, 'work')
        write_files(work, files)
        for (i, event) in enumerate(plan['events']):
            if event['kind'] == 'async':
                disk = Disk(work, {})
                uid = 'update%d' % i
            else:
                disk = Disk(work, {event['n']: event})
                uid = None
            res = self.update(work, plan.get('options', []), disk, uid)
            self.stats['disk_events'] += disk.n
            for (kind, n) in disk.fired.items():
                self.stats['fired'][kind] = self.stats['fired'].get(
                    kind, 0)+n
            self.log.append((disk.log, sorted(disk.fired)))
            if isinstance(res, BaseException):
                self.stats['crashes'] += 1
                injected = (isinstance(res, (SimCrash, OSError,
                                             KeyboardInterrupt))
                            or any(res is e for e in task.injected))
                self.check(injected and (disk.fired or uid),
                           'unexpected exception: %s' % describe(res))
            self.recover(work, files, updated)
        # 4. The updater is run again:
        status = self.update(work, plan.get('options', []))
        self.check(status == 0, 'update after an interruption: status %r %s'
                   % (status, describe(status)))
        final = read_files(work)
        for name in files:
            self.check(final.get(name) == updated[name],
                       'file %s after an interrupted update, and another'
                       ' update:\n%s\ninstead of:\n%s' % (
                           name, text(final.get(name, b'(missing)'))[-600:],
                           text(updated[name])[-600:]))
        if self.plan.get('thorough'):
            return

    def results(self, data, name):
        (res, exc, obsolete) = execute_program(data, name)
        if exc is not None:
            self.stats['failing_programs'] = self.stats.get(
                'failing_programs', 0)+1
            res = res+['%s: %s' % (type(exc).__name__, exc)]
        return (res, obsolete)

    def recover(self, work, files, updated):
        "Each file is intact, or can be restored from its backup"
        now = read_files(work)
        for name in sorted(files):
            data = now.get(name)
            if data in (files[name], updated[name]):
                self.stats['checks'] += 1
                continue
            backup = now.get(name+'.bak')
            self.check(backup == files[name],
                       'file %s is damaged, and its backup is not intact:'
                       ' %r, backup %r' % (name, data and data[:200],
                                           backup and backup[:200]))
            self.stats['recovered_files'] += 1
            os.replace(os.path.join(work, name+'.bak'),
                       os.path.join(work, name))
        extra = set(now)-set(files)-set(n+'.bak' for n in files)
        self.stats['checks'] += 1
        if extra:
            raise Problem('unexpected files: %r' % sorted(extra))


def describe(exc):
    if isinstance(exc, BaseException):
        return ''.join(traceback.format_exception(
            type(exc), exc, exc.__traceback__))[-900:]
    return LOG.getvalue()[-600:]


def diff(a, b):
    return [x for (i, x) in enumerate(a) if i >= len(b) or b[i] != x][:5]


def text(data):
    return data.decode('utf-8', 'replace')


def program_bytes(f):
    if 'raw' in f:
        return f['raw'].encode('latin-1')
    lines = f['head']+f['lines']
    nl = f.get('newline', '\n')
    data = nl.join(lines)
    if not f.get('no_end'):
        data += nl
    return data.encode(f.get('encoding', 'utf-8'))


def run_update(plan):
    return UpdateRun(plan).run()


# -- programs --------------------------------------------------------------

class ProgramGen(object):
    "Random programs, with obsolete and up-to-date constructs"

    def __init__(self, rng):
        self.rng = rng
        self.n = 0
        style = rng.choice(['names', 'unc', 'full'])
        self.head = []
        if style == 'names':
            self.p = ''
            self.up = ''
            self.head = ['from uncertainties import ufloat, ufloat_fromstr',
                         'from uncertainties.unumpy import (',
                         '    uarray, umatrix, nominal_values, std_devs)']
        elif style == 'unc':
            self.p = 'unc.'
            self.up = 'unp.'
            self.head = ['import uncertainties as unc',
                         'from uncertainties import unumpy as unp']
        else:
            self.p = 'uncertainties.'
            self.up = 'unumpy.'
            self.head = ['import uncertainties',
                         'from uncertainties import unumpy']
        self.head.append('import numpy')
        self.head.append('import uncertainties.umath as um')
        self.numbers = []
        self.arrays = []
        self.matrices = []
        self.tuples = []

    def name(self, base):
        self.n += 1
        return '%s%d' % (base, self.n)

    def f(self):
        return repr(round(self.rng.uniform(.5, 9), 2))

    def s(self):
        return repr(round(self.rng.uniform(.01, .5), 3))

    def value(self):
        "Expression with a float value"
        r = self.rng.random()
        if r < .6 or not self.numbers:
            return self.f()
        x = self.rng.choice(self.numbers)
        if r < .7:
            return '%s.nominal_value' % x
        if r < .9:
            return '%s.std_dev()' % x
        return 'abs(%s.std_dev())' % x

    def std(self):
        r = self.rng.random()
        if r < .7 or not self.numbers:
            return self.s()
        x = self.rng.choice(self.numbers)
        return self.rng.choice(['%s.std_dev()', '2*%s.std_dev()',
                                '%s.std_dev()+0.1']) % x

    def pair(self):
        sep = self.rng.choice([', ', ',', ' , '])
        return self.value()+sep+self.std()

    def tag(self):
        return self.rng.choice(['"tag%d"', "'t%d'", 'tag="v%d"',
                                "tag='w%d'"]) % self.n

    def new_number(self):
        rng = self.rng
        p = self.p
        r = rng.random()
        if r < .3:
            e = '%sufloat((%s))' % (p, self.pair())
        elif r < .45:
            e = '%sufloat((%s), %s)' % (p, self.pair(), self.tag())
        elif r < .6:
            q = rng.choice('\'"')
            e = '%sufloat(%s%s+/-%s%s)' % (p, q, self.f(), self.s(), q)
        elif r < .68:
            e = '%sufloat("%s(%d)", %s)' % (p, self.f(), rng.randint(1, 30),
                                            self.tag())
        elif r < .74:
            e = '%sufloat( (%s) )' % (p, self.pair())
        elif r < .8:
            e = '%sufloat(\n    (%s)  # Comment\n)' % (p, self.pair())
        elif r < .88:
            e = '%sufloat(%s)' % (p, self.pair())
        elif r < .94:
            e = '%sufloat(%s, %s)' % (p, self.pair(), self.tag())
        else:
            e = '%sufloat_fromstr("%s+/-%s")' % (p, self.f(), self.s())
        r = rng.random()
        if r < .06:
            e += '**2'
        elif r < .1:
            e = '-'+e
        elif r < .16:
            e = '2*'+e
        elif r < .22:
            e = 'um.sqrt(%s)' % e
            e = e.replace('sqrt(-', 'sqrt(')
        return e

    def statement(self):
        rng = self.rng
        r = rng.random()
        lines = []
        if r < .35 or not self.numbers:
            e = self.new_number()
            x = self.name('x')
            lines.append('%s = %s' % (x, e))
            # (names of independent variables only)
            self.numbers.append(x)
            lines.append('out.append(%s)' % x)
        elif r < .55:
            x = rng.choice(self.numbers)
            lines.append(rng.choice([
                'out.append(%s.std_dev())', 'out.append(%s.std_dev()*2)',
                'out.append(%s.std_dev()**2)', 'out.append((%s*2).std_dev())',
                'out.append([%s][0].std_dev())',
                'out.append(um.cos(%s).std_dev())',
                'out.append(%s.std_dev( ))', 'out.append(%s.std_dev)',
                'out.append(max(%s.std_dev(), 0.))',
                'out.append({"a": %s.std_dev()})',
                'out.append("%%.5f" %% %s.std_dev())',
                'out.append(%s.std_dev(\n    # No argument\n))',
                'out.append(repr(%s))']) % x)
        elif r < .68:
            y = self.name('v')
            lines.append('%s = %sufloat((%s))' % (y, self.p, self.pair()))
            how = rng.choice(['%s.set_std_dev(%s)', '%s.set_std_dev( %s )',
                              '%s.std_dev = %s',
                              'if True:\n    %s.set_std_dev(%s)',
                              'for _ in range(2):\n    %s.set_std_dev(%s)'])
            lines.append(how % (y, self.std()))
            lines.append('out.append(%s.std_dev())' % y)
            self.numbers.append(y)
        elif r < .9:
            lines += self.array_statement()
        elif r < .95:
            x = rng.choice(self.numbers)
            f = self.name('func')
            lines.append('def %s(x):\n    "Function"\n    y = x+%sufloat(('
                         '%s))\n    return y.std_dev()' % (
                             f, self.p, self.pair()))
            lines.append('out.append(%s(%s))' % (f, x))
        else:
            lines.append(rng.choice([
                '# ufloat((1, 0.1)) and x.std_dev() in a comment',
                'out.append("ufloat((1, 0.1)).std_dev()")',
                '"""\nx = ufloat((1, 0.1))\n"""',
                'class C(object):\n    std_dev = 3.',
                'def std_dev(x):\n    return x.std_dev()',
                'class D(object):\n    def std_dev(self):\n        return 3.',
                'class E(object):\n    def set_std_dev(self, s):\n'
                '        self.s = s',
                'def std_devs(x):\n    return [y.std_dev() for y in x]'
                if self.up else 'def devs(x):\n    return x.std_devs()',
                'def set_std_dev(x, s):\n    x.set_std_dev(s)\n'
                '    return x.std_dev()',
                'std_dev = 0.5',
                'import os.path',
                'def f(ufloat=None, uarray=None):\n    return ufloat',
                'out.append(len("uarray(t)"))']))
        return lines

    def numbers_list(self):
        return '[%s]' % ', '.join(self.f() for _ in range(2))

    def stds_list(self):
        return '[%s]' % ', '.join(self.std() for _ in range(2))

    def matrix_lists(self):
        return ('[%s, %s]' % (self.numbers_list(), self.numbers_list()),
                '[%s, %s]' % (self.stds_list(), self.stds_list()))

    def array_statement(self):
        rng = self.rng
        lines = []
        r = rng.random()
        if r < .3:
            a = self.name('a')
            r = rng.random()
            if r < .4:
                e = '%suarray((%s, %s))' % (
                    self.up, self.numbers_list(), self.stds_list())
            elif r < .7:
                t = self.name('t')
                lines.append('%s = (%s, %s)' % (
                    t, self.numbers_list(), self.stds_list()))
                e = '%suarray(%s)' % (self.up, t)
            elif r < .8 and self.arrays:
                b = rng.choice(self.arrays)
                e = '%suarray((%snominal_values(%s), %sstd_devs(%s)))' % (
                    self.up, self.up, b, self.up, b)
            else:
                e = '%suarray(%s, %s)' % (
                    self.up, self.numbers_list(), self.stds_list())
            if rng.random() < .15:
                e += '*2'
            lines.append('%s = %s' % (a, e))
            lines.append('out.append(list(%s))' % a)
            self.arrays.append(a)
        elif r < .55 or not self.matrices:
            m = self.name('m')
            (v, s) = self.matrix_lists()
            r = rng.random()
            if r < .45:
                e = '%sumatrix((%s, %s))' % (self.up, v, s)
            elif r < .7:
                t = self.name('t')
                lines.append('%s = (%s, %s)' % (t, v, s))
                e = '%sumatrix(%s)' % (self.up, t)
            else:
                e = '%sumatrix(%s, %s)' % (self.up, v, s)
            lines.append('%s = %s' % (m, e))
            self.matrices.append(m)
        else:
            m = rng.choice(self.matrices)
            lines.append(rng.choice([
                'out.append(%s.std_devs().tolist())',
                'out.append(%s.std_devs()[0, 0])',
                'out.append(%s.std_devs.tolist())',
                'out.append((2*%s).std_devs().sum())',
                'out.append(%s.T.std_devs().tolist())',
                'out.append(%s.std_devs())', 'out.append((%s*2).std_devs( ))',
                'out.append(numpy.sum(%s.std_devs()))',
                'out.append([%s.std_devs(), 1])']) % m)
        return lines


def make_file(rng, i):
    g = ProgramGen(rng)
    lines = []
    if rng.random() < .92:
        for _ in range(rng.randint(1, 9)):
            lines += ['\n'.join(g.statement())]
    folder = rng.choice(['', '', '', 'pkg/', 'pkg/sub/'])
    f = {'name': '%sprog%d.py' % (folder, i), 'head': list(g.head),
         'lines': lines}
    r = rng.random()
    if r < .1:
        f['head'].insert(0, '# -*- coding: latin-1 -*-')
        f['head'].insert(1, '# caf\xe9')
        f['encoding'] = 'latin-1'
    elif r < .2:
        f['head'].insert(0, '# \u03c3 = \xe9cart-type')
    elif r < .28:
        f['newline'] = '\r\n'
        f['lines'] = [line.replace('\n', '\r\n') for line in lines]
    if rng.random() < .15:
        f['no_end'] = True
    return f


def make_plan(prop, seed):
    rng = random.Random('plan %s %s' % (prop, seed))
    files = [make_file(rng, i) for i in range(rng.choice([1, 1, 2, 2, 3]))]
    if rng.random() < .25:
        # Other version of a program (copy, longer or shorter one):
        old = rng.choice(files)
        new = make_file(rng, len(files))
        k = rng.choice([len(old['lines']), rng.randint(0, len(old['lines']))])
        new.update(head=list(old['head']), lines=old['lines'][:k])
        if 'encoding' in old:
            new['encoding'] = old['encoding']
        else:
            new.pop('encoding', None)
        files.append(new)
    if rng.random() < .2:
        files.append({'name': 'empty.py', 'raw': ''})
    if rng.random() < .3:
        files.append({'name': rng.choice(['notes.txt', 'data.dat',
                                          'pkg/script']),
                      'raw': 'x = ufloat((1, 0.1))\nx.std_dev()\n'})
    events = []
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        r = rng.random()
        if r < .2:
            events.append({'kind': 'async'})
        else:
            kind = rng.choice(['crash']*5+sorted(ERRORS)+['KI', 'ENOSPC'])
            events.append({'kind': kind, 'n': rng.randint(0, 22),
                           'part': rng.choice([0., rng.random(), 1.])})
    plan = {'seed': seed, 'kind': 'update', 'prop': prop, 'tasks': [files],
            'events': events, 'options': rng.choice([[], ['--no-diffs']]),
            'by_name': rng.random() < .3,
            'sched': {'fault_mean': rng.choice([50, 300, 1500]),
                      'fault_kinds': ['KI', 'ME', 'TO'], 'max_faults': 1},
            'shrink': [['events'], ['tasks', 0]]}
    plan['alone'] = rng.choice(files)['name']
    for (i, f) in enumerate(files):
        if 'lines' in f:
            plan['shrink'].append(['tasks', 0, i, 'lines'])
    return plan
