"""P06: the library computes; it does not touch the world outside the process."""
import ast
from ..common import *
from ._effects import effect_of_api, module_effects, chain_text, import_time_nodes

LEVEL = 'other'
EXPLANATION = ('Context-sensitive effect analysis as for P05, over a blacklist of effectful builtins, modules and attributes: '
               'writing to or reading from standard streams, files, processes, network, environment, interpreter-wide '
               'settings, dynamic code execution.  Optional diagnostic output is analysed switched off (parameter verbose).  '
               'File access is allowed in the two graph loaders only, and there only opening for reading.  The statements '
               'that run when a module is imported are analysed in the same way.')
RULES = ['console-output', 'console-input', 'file-access: a file operation outside the two documented loaders',
         'file-write: the loaders open their file in a mode other than reading', 'process-or-system: environment, processes, network, interpreter settings, exit',
         'dynamic-code: exec/eval/compile/__import__', 'import-effect: importing the package does any of these']
ASSUMPTIONS = ['functions passed in by the caller are not part of the analysed code']
MINIMUM = {'entry_points': 340, 'effects_attributed': 1000, 'modules_checked_at_import': 60}

LOADERS = ['rosemary/graphs/graphs.py:load_graph', 'rosemary/graphs/graphs.py:load_dimacs_graph']
MODS = {'os', 'subprocess', 'shutil', 'socket', 'urllib', 'http', 'tempfile', 'pathlib', 'io', 'logging', 'warnings', 'signal', 'threading',
        'multiprocessing', 'asyncio', 'ctypes', 'gc', 'atexit', 'pickle', 'shelve', 'sqlite3', 'glob', 'fileinput', 'pdb', 'traceback', 'faulthandler',
        'locale', 'importlib', 'builtins', 'resource', 'mmap', 'webbrowser', 'concurrent', 'pprint', 'json', 'csv', 'site', 'runpy', 'time'}
SAFE_ATTR = {('os', 'path'), ('sys', 'maxsize'), ('sys', 'version_info'), ('sys', 'float_info'), ('sys', 'getsizeof'), ('sys', 'version'), ('sys', 'hash_info'),
             ('sys', 'byteorder'), ('sys', 'int_info'), ('pprint', 'pformat'), ('json', 'dumps'), ('json', 'loads'), ('traceback', 'format_exc'),
             ('io', 'StringIO'), ('io', 'BytesIO'), ('time', 'time'), ('time', 'perf_counter'), ('time', 'monotonic'), ('time', 'process_time'), ('pickle', 'dumps'), ('pickle', 'loads'),
             ('decimal', 'Decimal')}
GLOBAL_SETTERS = {('decimal', 'getcontext'), ('decimal', 'setcontext'), ('random', 'seed'), ('random', 'setstate')}
BUILT = {'print': 'console-output', 'input': 'console-input', 'open': 'file-access', 'exec': 'dynamic-code', 'eval': 'dynamic-code', 'compile': 'dynamic-code',
         '__import__': 'dynamic-code', 'breakpoint': 'console-input', 'exit': 'process-or-system', 'quit': 'process-or-system', 'globals': 'process-or-system'}


def classify(e):
    if e[0] == 'builtin':
        if e[1] in BUILT:
            return BUILT[e[1]], e[1]
    elif e[0] == 'ext':
        mod, attr = e[1], e[2]
        top = mod.split('.')[0]
        if (mod, attr) in SAFE_ATTR or mod.startswith('os.path'):
            return None
        if (mod, attr) in GLOBAL_SETTERS:
            return 'process-or-system', '%s.%s' % (mod, attr)
        if top == 'sys':
            r = 'console-output' if attr in ('stdout', 'stderr') or mod in ('sys.stdout', 'sys.stderr') else \
                'console-input' if attr == 'stdin' or mod == 'sys.stdin' else 'process-or-system'
            return r, 'sys.%s' % (mod.split('.')[1] if '.' in mod else attr)
        if top in ('logging', 'warnings', 'pprint', 'traceback'):
            return 'console-output', '%s.%s' % (mod, attr)
        if mod == 'os' and attr in ('open', 'fdopen') or top in ('io', 'pathlib', 'tempfile', 'shutil'):
            return 'file-access', '%s.%s' % (mod, attr)
        if top in MODS:
            return 'process-or-system', '%s.%s' % (mod, attr)
    return None


def run(ctx, fixture=False):
    res = Result()
    loaders = {ctx.find(x) for x in (['rosemary/things.py:ok_load', 'rosemary/things.py:bad_load'] if fixture else LOADERS)}
    for f, effects in effect_of_api(ctx, fixture):
        res.count('entry_points')
        res.count('effects_attributed', len(effects))
        clean = True
        for e, chain in sorted(effects.items(), key=str):
            c = classify(e)
            if c is None:
                continue
            clean = False
            if f in loaders and e == ('builtin', 'open'):
                res.count('documented_file_readers')
                continue
            site = chain[-1][0]
            res.add(Finding(c[0], f, c[1], 'reaches %s (in %s)' % (c[1], site.fq), chain[-1][1].lineno, chain_text(chain)))
        if clean:
            res.count('functions_without_external_effect')
    modes(ctx, res)
    for m in ctx.proj.modules.values():
        res.count('modules_checked_at_import')
        res.count('import_time_nodes', sum(1 for _ in import_time_nodes(m.tree)))
    for m, e, node, chain in module_effects(ctx):
        c = classify(e)
        if c:
            res.add(Finding('import-effect', '%s:<module>' % m.relpath, c[1], 'importing the module reaches %s' % c[1], node.lineno, chain_text(chain)))
    return res


def modes(ctx, res):
    """every open() anywhere in the library opens for reading"""
    def hk(kind, I, node, kw):
        if kind != 'builtin' or kw['name'] != 'open':
            return
        res.count('open_sites_visited')
        a = kw['kwargs'].get('mode') or (kw['args'][1] if len(kw['args']) > 1 else None)
        if a is None:
            return
        s = a.s
        if a.u or s is True or s is None or any(c in x for x in s for c in 'wax+'):
            res.add(Finding('file-write', I.run.frame.fn, 'open', 'opens a file with mode %s' % ('unknown' if s is None or s is True else sorted(s)), node.lineno))
    I = ctx.interp(hooks=[hk])
    ctx.run_all(I)


FIXTURE = 'p06'
EXPECT = [('console-output', 'bad_print'), ('console-output', 'bad_stderr'), ('console-output', 'bad_warn'), ('file-access', 'bad_open'), ('file-write', 'bad_open'),
          ('file-write', 'bad_load'), ('process-or-system', 'bad_env'), ('process-or-system', 'bad_limit'), ('process-or-system', 'bad_exit'),
          ('dynamic-code', 'bad_eval'), ('import-effect', '<module>'), ('console-output', '_log')]
