"""C04: library calls leave process-wide settings and the file system alone."""
import ast
import re
from ..framework import Result
from ..project import walk_local

SETTERS = {
    'numpy.seterr': 'numpy error handling', 'numpy.seterrcall': 'numpy error handling',
    'numpy.set_printoptions': 'numpy print options', 'numpy.setbufsize': 'numpy buffer size',
    'numpy.set_string_function': 'numpy print options',
    'warnings.simplefilter': 'warning filters', 'warnings.filterwarnings': 'warning filters',
    'warnings.resetwarnings': 'warning filters',
    'os.chdir': 'working directory', 'os.putenv': 'environment', 'os.unsetenv': 'environment',
    'os.umask': 'file mode mask', 'os.environ.update': 'environment', 'os.environ.setdefault': 'environment',
    'os.environ.pop': 'environment', 'os.environ.clear': 'environment',
    'sys.setrecursionlimit': 'recursion limit', 'sys.settrace': 'trace function', 'sys.path.append': 'import path',
    'sys.path.insert': 'import path', 'sys.exit': 'the process', 'os._exit': 'the process', 'os.abort': 'the process',
    'locale.setlocale': 'locale', 'logging.basicConfig': 'logging', 'logging.disable': 'logging',
    'signal.signal': 'signal handlers', 'signal.alarm': 'signal handlers', 'gc.disable': 'garbage collection',
    'matplotlib.use': 'matplotlib backend', 'matplotlib.rc': 'matplotlib settings',
    'matplotlib.rcParams.update': 'matplotlib settings', 'matplotlib.style.use': 'matplotlib settings',
    'matplotlib.pyplot.rc': 'matplotlib settings', 'matplotlib.pyplot.rcParams.update': 'matplotlib settings',
    'matplotlib.pyplot.rcdefaults': 'matplotlib settings', 'matplotlib.rcdefaults': 'matplotlib settings',
    'matplotlib.pyplot.style.use': 'matplotlib settings', 'matplotlib.pyplot.switch_backend': 'matplotlib backend',
    'matplotlib.pyplot.ion': 'interactive mode', 'matplotlib.pyplot.ioff': 'interactive mode',
    'decimal.setcontext': 'decimal context', 'time.tzset': 'time zone', 'faulthandler.enable': 'fault handler',
    'socket.setdefaulttimeout': 'socket timeout', 'multiprocessing.set_start_method': 'process start method',
    'os.remove': 'files', 'os.unlink': 'files', 'os.rename': 'files', 'os.replace': 'files', 'os.rmdir': 'files',
    'os.removedirs': 'files', 'os.mkdir': 'files', 'os.makedirs': 'files', 'shutil.rmtree': 'files',
    'shutil.move': 'files', 'shutil.copy': 'files', 'shutil.copyfile': 'files', 'os.system': 'processes',
    'subprocess.call': 'processes', 'subprocess.run': 'processes', 'subprocess.Popen': 'processes',
    'subprocess.check_call': 'processes', 'subprocess.check_output': 'processes', 'os.popen': 'processes',
    'os.kill': 'processes', 'numpy.save': 'files', 'numpy.savetxt': 'files', 'numpy.savez': 'files',
    'numpy.savez_compressed': 'files', 'pickle.dump': 'files', 'urllib.request.urlopen': 'network',
    'urllib.request.urlretrieve': 'network',
    'scipy.special.seterr': 'special function error handling', 'numpy.geterrobj_': '', 'numpy.seterrobj': 'numpy error handling',
    'matplotlib.interactive': 'interactive mode', 'matplotlib.pyplot.interactive': 'interactive mode',
    'matplotlib.pyplot.set_cmap': 'matplotlib settings', 'matplotlib.pyplot.savefig': 'files', 'matplotlib.pyplot.imsave': 'files',
    'matplotlib.rc_file': 'matplotlib settings', 'matplotlib.rc_file_defaults': 'matplotlib settings',
    'matplotlib.pyplot.rc_file': 'matplotlib settings', 'matplotlib.rcParams.setdefault': 'matplotlib settings',
    'atexit.register': 'exit handlers', 'atexit.unregister': 'exit handlers', 'tempfile.mkdtemp': 'files', 'tempfile.mkstemp': 'files',
    'tempfile.NamedTemporaryFile': 'files', 'tempfile.TemporaryFile': 'files', 'os.symlink': 'files', 'os.link': 'files',
    'os.truncate': 'files', 'os.chmod': 'files', 'os.utime': 'files', 'os.execv': 'the process', 'os.fork': 'processes',
    'os.nice': 'process priority', 'os.setpgid': 'processes', 'os.startfile': 'processes', 'sys.setswitchinterval': 'thread switching',
    'sys.setprofile': 'trace function', 'sys.setdefaultencoding': 'default encoding', 'sys.set_int_max_str_digits': 'integer conversion',
    'sys.stdout.close': 'standard output', 'sys.stderr.close': 'standard error', 'sys.stdin.close': 'standard input',
    'gc.enable': 'garbage collection', 'gc.freeze': 'garbage collection', 'gc.set_threshold': 'garbage collection',
    'gc.set_debug': 'garbage collection', 'threading.stack_size': 'thread settings', 'threading.settrace': 'trace function',
    'numba.set_num_threads': 'number of threads', 'mkl.set_num_threads': 'number of threads', 'scipy.fft.set_workers_': '',
    'scipy.fft.set_global_backend': 'fft backend', 'resource.setrlimit': 'resource limits', 'logging.addLevelName': 'logging',
    'logging.captureWarnings': 'logging', 'logging.setLoggerClass': 'logging', 'logging.shutdown': 'logging',
    'decimal.getcontext_': '', 'pickle.Pickler': 'files', 'shelve.open': 'files', 'sqlite3.connect': 'files', 'dbm.open': 'files',
    'shutil.copytree': 'files', 'shutil.copy2': 'files', 'shutil.make_archive': 'files', 'shutil.unpack_archive': 'files',
    'scipy.io.savemat': 'files', 'scipy.io.wavfile.write': 'files', 'json.dump': 'files', 'os.spawnl': 'processes',
    'multiprocessing.Process': 'processes', 'multiprocessing.Pool': 'processes', 'os.write': 'files', 'os.mkfifo': 'files',
    'os.open': 'files', 'socket.socket': 'network', 'webbrowser.open': 'processes', 'importlib.reload': 'loaded modules',
    'numpy.core.multiarray.set_string_function': 'numpy print options', 'locale.resetlocale': 'locale', 'os.setuid': 'the process',
    'signal.setitimer': 'signal handlers', 'sys.excepthook_': '', 'matplotlib.pyplot.xkcd': 'matplotlib settings',
    'matplotlib.pyplot.autumn': 'matplotlib settings', 'matplotlib.pyplot.bone': 'matplotlib settings',
    'matplotlib.pyplot.cool': 'matplotlib settings', 'matplotlib.pyplot.gray': 'matplotlib settings',
    'matplotlib.pyplot.hot': 'matplotlib settings', 'matplotlib.pyplot.hsv': 'matplotlib settings',
    'matplotlib.pyplot.jet': 'matplotlib settings', 'matplotlib.pyplot.viridis': 'matplotlib settings',
    'matplotlib.pyplot.winter': 'matplotlib settings', 'matplotlib.pyplot.copper': 'matplotlib settings',
}
SETTERS = {k: v for k, v in SETTERS.items() if v}
# methods that write files or change shared state, whatever the object (path, array, figure, logger)
METHODS = {'tofile': 'files', 'write_text': 'files', 'write_bytes': 'files', 'savefig': 'files', 'setLevel': 'logging',
           'addHandler': 'logging', 'removeHandler': 'logging', 'unlink': 'files', 'rmdir': 'files', 'mkdir': 'files', 'touch': 'files',
           'to_csv': 'files', 'to_pickle': 'files', 'to_hdf': 'files', 'print_figure': 'files', 'disabled_': ''}
# settings reached by assignment
OBJECTS = {'os.environ': 'environment', 'sys.path': 'import path', 'sys.stdout': 'standard output',
           'sys.stderr': 'standard error', 'sys.argv': 'arguments', 'matplotlib.rcParams': 'matplotlib settings',
           'matplotlib.pyplot.rcParams': 'matplotlib settings', 'warnings.filters': 'warning filters',
           'warnings.showwarning': 'warning display', 'sys.modules': 'loaded modules',
           'numpy.random': 'numpy.random', 'pylab.rcParams': 'matplotlib settings', 'matplotlib.pylab.rcParams': 'matplotlib settings',
           'matplotlib.rcParamsDefault': 'matplotlib settings', 'sys.meta_path': 'import path', 'sys.path_hooks': 'import path',
           'sys.stdin': 'standard input', 'logging.root': 'logging', 'os.environb': 'environment', 'sys.excepthook': 'exception hook',
           'sys.displayhook': 'display hook', 'builtins.__dict__': 'builtins', 'matplotlib.units.registry': 'matplotlib settings'}
MODULES = {'numpy', 'scipy', 'matplotlib', 'matplotlib.pyplot', 'warnings', 'sys', 'os', 'builtins', 'math', 'random', 'logging',
           'numpy.random', 'scipy.special', 'scipy.stats', 'scipy.optimize', 'scipy.integrate', 'scipy.linalg', 'numpy.linalg', 'numpy.fft',
           'scipy.interpolate', 'scipy.signal', 'scipy.fftpack', 'scipy.sparse', 'numba', 'time', 'datetime', 'json', 'pickle', 'copy',
           'functools', 'itertools', 'operator', 'collections', 'os.path', 'io', 're', 'string', 'inspect', 'types', 'pylab', 'numdifftools',
           'matplotlib.mlab', 'matplotlib.cm', 'matplotlib.colors', 'scipy.ndimage', 'scipy.misc', 'numpy.lib', 'numpy.ma', 'locale'}
MUTATING = {'append', 'insert', 'extend', 'remove', 'pop', 'clear', 'update', 'setdefault', 'sort', '__setitem__'}
SCOPED = {'warnings.simplefilter': 'warnings.catch_warnings', 'warnings.filterwarnings': 'warnings.catch_warnings',
          'warnings.resetwarnings': 'warnings.catch_warnings'}
# scopes that restore everything of the same kind on exit
SCOPE_KIND = {'warnings.catch_warnings': {'warning filters', 'warning display'}, 'numpy.errstate': {'numpy error handling'},
              'numpy.printoptions': {'numpy print options'}, 'matplotlib.pyplot.rc_context': {'matplotlib settings'},
              'matplotlib.rc_context': {'matplotlib settings'}, 'matplotlib.style.context': {'matplotlib settings'},
              'matplotlib.pyplot.style.context': {'matplotlib settings'},
              'matplotlib.pyplot.ioff': {'interactive mode'}, 'matplotlib.pyplot.ion': {'interactive mode'}}
# settings that a finally clause restores only with a remembered value
SAVED = dict.fromkeys(('numpy error handling', 'numpy print options', 'working directory', 'recursion limit', 'interactive mode',
                       'matplotlib settings', 'environment', 'locale', 'special function error handling', 'file mode mask'), True)
UNUSED = {'_cov2mmtpdfexe': 'never called: driver of an external Fortran program',
          '_cleanup': 'only called by the never-called driver of an external Fortran program',
          'compare_methods': 'demonstration that shows a figure'}
ALLOWED = {
    ('wafo.plotbackend (import)', 'interactive mode'): 'the documented place where the plotting backend is configured',
    ('wafo.dctpack:example_dct2', 'matplotlib settings'): 'demonstration that shows figures with a colour map',
}


def run(ctx, selftest=False):
    proj = ctx.proj
    r = Result(
        rule='every call of a function that changes process-wide state (numpy error handling, warning filters, matplotlib '
             'settings, environment, working directory, import path, signal handlers, files, processes) and every '
             'assignment to such state lies inside a context manager that restores it, or in a try/finally that does',
        explanation='all call sites of the package are resolved to dotted names and looked up in the table of setters; '
                    'scopes are the enclosing with/try-finally statements')
    st = {'calls': 0, 'settings': 0, 'scoped': 0}
    for q, f in sorted(proj.funcs.items()):
        if f.parent is not None:
            continue
        if _skip(f):
            continue
        V(proj, f.module, q, f, r, st, ctx.effects.sites).stmts(f.body)
    for m in proj.modules.values():
        body = [s for s in m.tree.body if not isinstance(s, (ast.FunctionDef, ast.ClassDef)) and not proj._is_main(s)]
        V(proj, m, m.name + ' (import)', None, r, st).stmts(body)
    r.coverage = {'call_sites': st['calls'], 'setting_calls_and_assignments': st['settings'], 'restored_by_scope': st['scoped'],
                  'functions': len(proj.funcs), 'modules': len(proj.modules)}
    r.assumptions = ['the table of state-changing functions lists %d names' % len(SETTERS),
                     'doctest/demo drivers (test_*, main) and the never-called external-program driver are not library calls']
    return r


def _skip(f):
    name = re.split('[.:]', f.module.proj.origin(f.qual))[-1]
    return name.startswith(('test', '_test', 'demo', '_demo')) or name in ('main',) or name in UNUSED


class V(object):
    def __init__(self, proj, module, q, func, r, st, sites=None):
        self.proj, self.m, self.q, self.f, self.r, self.st = proj, module, q, func, r, st
        self.scope = []
        self.sites = sites
        self.locals = {}
        self.alias = {}
        self.scopes = {}
        if func is not None:
            for n in walk_local(func.node, into_nested=True):
                if isinstance(n, ast.Import):
                    for a in n.names:
                        self.locals[a.asname or a.name.split('.')[0]] = a.name if a.asname else a.name.split('.')[0]
                elif isinstance(n, ast.ImportFrom) and not n.level:
                    for a in n.names:
                        self.locals[a.asname or a.name] = '%s.%s' % (n.module, a.name)
                elif isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) \
                        and isinstance(n.value, (ast.Attribute, ast.Name)):
                    d = self.dotted(n.value)
                    if d and (d in SETTERS or d in OBJECTS or d in MODULES):
                        self.alias[n.targets[0].id] = d
                elif isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) \
                        and isinstance(n.value, ast.Call) and self.dotted(n.value.func) in SCOPE_KIND:
                    self.scopes[n.targets[0].id] = sorted(SCOPE_KIND[self.dotted(n.value.func)])[0]

    def dotted(self, e):
        if isinstance(e, ast.Name):
            if e.id in self.alias:
                return self.alias[e.id]
            if e.id in self.locals:
                return self.locals[e.id]
            if self.f is not None and e.id in self.f.all_params():
                return None
            x = self.proj.lookup(self.m, e.id)
            if x is None:
                return 'builtins.' + e.id if e.id in ('open',) else None
            return x[1] if x[0] in ('ext', 'mod') else None
        if isinstance(e, ast.Attribute):
            b = self.dotted(e.value)
            return b + '.' + e.attr if b else None
        return None

    def where(self, n):
        return '%s:%d' % (self.m.rel, n.lineno)

    def hit(self, n, kind, text):
        self.st['settings'] += 1
        if any(kind in s for s in self.scope):
            self.st['scoped'] += 1
            self.r.samples.append('%s %s: restored by the enclosing scope' % (self.where(n), text))
            return
        if (self.q, kind) in ALLOWED:
            self.r.samples.append('%s %s: allowed, %s' % (self.where(n), text, ALLOWED[self.q, kind]))
            return
        self.r.add('%s: %s' % (self.q, kind), '%s (%s) changes %s for the whole process: %s'
                   % (self.q, self.where(n), kind, text), self.where(n))

    def exprs(self, node):
        for n in ast.walk(node):
            if isinstance(n, ast.Call):
                self.st['calls'] += 1
                d = self.dotted(n.func)
                if isinstance(n.func, ast.Attribute) and d not in SETTERS:
                    a, base = n.func.attr, n.func.value
                    if a == '__enter__' and isinstance(base, ast.Call) and self.dotted(base.func) in SCOPE_KIND:
                        self.hit(n, sorted(SCOPE_KIND[self.dotted(base.func)])[0], ast.unparse(n)[:80])
                        continue
                    if a == '__enter__' and isinstance(base, ast.Name) and base.id in self.scopes:
                        self.hit(n, self.scopes[base.id], ast.unparse(n)[:80])
                        continue
                    if METHODS.get(a) and not self.own(n):
                        self.hit(n, METHODS[a], ast.unparse(n)[:80])
                        continue
                    if a == 'dump' and len(n.args) == 1 and isinstance(n.args[0], (ast.Constant, ast.Name)) and not d and not self.own(n):
                        self.hit(n, 'files', ast.unparse(n)[:80])
                        continue
                if isinstance(n.func, ast.Name) and n.func.id in ('setattr', 'delattr') and n.args:
                    self.module_attr(n.args[0], n.args[1] if len(n.args) > 1 else None, n)
                if not d:
                    continue
                if d == 'numpy.memmap' or d == 'numpy.lib.format.open_memmap':
                    mode = next((k.value for k in n.keywords if k.arg == 'mode'), n.args[2] if len(n.args) > 2 else None)
                    if mode is None or not (isinstance(mode, ast.Constant) and mode.value in ('r', 'c')):
                        self.hit(n, 'files', ast.unparse(n)[:80])
                if d == 'matplotlib.pyplot.close' and any(isinstance(a, ast.Constant) and a.value == 'all' for a in n.args):
                    self.hit(n, 'open figures', ast.unparse(n)[:80])
                if d in SETTERS and id(n) not in self.cm:
                    self.hit(n, SETTERS[d], ast.unparse(n)[:80])
                elif d in ('builtins.open', 'io.open', 'codecs.open') or d.endswith('.fromfile_'):
                    mode = n.args[1] if len(n.args) > 1 else next((k.value for k in n.keywords if k.arg == 'mode'), None)
                    if mode is not None and not (isinstance(mode, ast.Constant) and isinstance(mode.value, str)
                                                 and not set(mode.value) & set('wax+')):
                        self.hit(n, 'files', ast.unparse(n)[:80])
                else:
                    b, _, meth = d.rpartition('.')
                    if b in OBJECTS and meth in MUTATING:
                        self.hit(n, OBJECTS[b], ast.unparse(n)[:80])

    cm = frozenset()

    def own(self, n):
        """a method of a class of this package"""
        return any(k == 'fn' for k, _ in self.sites.get(id(n), ())) if self.sites else False

    def module_attr(self, e, attr, n):
        """an attribute of a module of another package is assigned"""
        if not isinstance(e, (ast.Name, ast.Attribute)):
            return False
        d = self.dotted(e)
        if d and self.is_module(d):
            self.hit(n, 'module ' + d, ast.unparse(n)[:80])
            return True
        return False

    def is_module(self, d):
        return d in MODULES

    def target(self, t, n):
        if isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                self.target(x, n)
            return
        b = t.value if isinstance(t, ast.Subscript) else t
        if isinstance(b, ast.Attribute) or (isinstance(t, ast.Subscript) and isinstance(b, ast.Name)):
            d = self.dotted(b)
            if d in OBJECTS:
                self.hit(n, OBJECTS[d], ast.unparse(n)[:80])
            elif b is t and isinstance(b, ast.Attribute):
                self.module_attr(b.value, None, n)

    def stmts(self, body):
        for i, s in enumerate(body):
            if isinstance(s, ast.With):
                kinds = set()
                self.cm = frozenset(id(x.context_expr) for x in s.items)
                for it in s.items:
                    if isinstance(it.context_expr, ast.Call):
                        d = self.dotted(it.context_expr.func)
                        kinds |= SCOPE_KIND.get(d, set())
                    elif isinstance(it.context_expr, ast.Name) and it.context_expr.id in self.scopes:
                        kinds |= {self.scopes[it.context_expr.id]}
                    self.exprs(it.context_expr)
                self.cm = frozenset()
                self.scope.append(kinds)
                self.stmts(s.body)
                self.scope.pop()
            elif isinstance(s, ast.Try):
                kinds = self.restores(s.finalbody)
                self.scope.append(kinds)
                self.stmts(s.body)
                for h in s.handlers:
                    self.stmts(h.body)
                self.stmts(s.orelse)
                self.stmts(s.finalbody)
                self.scope.pop()
            elif isinstance(s, (ast.If, ast.While)):
                self.exprs(s.test)
                self.stmts(s.body)
                self.stmts(s.orelse)
            elif isinstance(s, ast.For):
                self.exprs(s.iter)
                self.stmts(s.body)
                self.stmts(s.orelse)
            elif isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                sc, self.scope = self.scope, []
                self.stmts(s.body)
                self.scope = sc
            elif isinstance(s, ast.ClassDef):
                self.stmts(s.body)
            else:
                # a setting changed right before the try/finally that restores it
                nxt = next((x for x in body[i + 1:i + 4] if isinstance(x, ast.Try)), None)
                kinds = self.restores(nxt.finalbody) if nxt is not None else set()
                self.scope.append(kinds)
                if isinstance(s, ast.Assign):
                    for t in s.targets:
                        self.target(t, s)
                elif isinstance(s, ast.AugAssign):
                    self.target(s.target, s)
                elif isinstance(s, ast.Delete):
                    for t in s.targets:
                        self.target(t, s)
                self.exprs(s)
                self.scope.pop()

    def saved(self, n):
        """puts back a value remembered before, not one written here"""
        return any(not isinstance(y, ast.Constant) for a in list(n.args) + [k.value for k in n.keywords] for y in [a])

    def restores(self, final):
        kinds = set()
        for s in final:
            for n in ast.walk(s):
                if isinstance(n, ast.Call):
                    d = self.dotted(n.func)
                    if d in SETTERS:
                        if not SAVED.get(SETTERS[d]) or self.saved(n):
                            kinds.add(SETTERS[d])
                    elif d and d.rpartition('.')[0] in OBJECTS:
                        kinds.add(OBJECTS[d.rpartition('.')[0]])
                elif isinstance(n, ast.Assign):
                    for t in n.targets:
                        b = t.value if isinstance(t, ast.Subscript) else t
                        d = self.dotted(b) if isinstance(b, (ast.Attribute, ast.Name)) else None
                        if d in OBJECTS and not isinstance(n.value, ast.Constant):
                            kinds.add(OBJECTS[d])
                        elif isinstance(b, ast.Attribute) and not isinstance(n.value, ast.Constant) and self.dotted(b.value) in MODULES:
                            kinds.add('module ' + self.dotted(b.value))
        return kinds
