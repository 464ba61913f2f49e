"""Classification of external calls by their effect on the world outside the process."""
import ast
from .common import is_driver

WRITE_METHODS = {'export', 'save', 'saveas', 'savefig', 'to_file', 'tofile', 'dump', 'unlink', 'mkdir', 'rename',
                 'touch', 'write_text', 'write_bytes', 'rmdir', 'symlink_to', 'hardlink_to', 'chmod', 'rmtree',
                 'to_csv', 'to_pickle', 'encode', 'write', 'writelines', 'truncate'}
PATH_WRITE = {'unlink', 'mkdir', 'rename', 'touch', 'write_text', 'write_bytes', 'rmdir', 'symlink_to',
              'hardlink_to', 'chmod', 'replace', 'open', 'lchmod'}
WRITE_FUNCS = {'numpy.save', 'numpy.savez', 'numpy.savetxt', 'numpy.savez_compressed', 'pickle.dump', 'json.dump',
               'logging.FileHandler', 'matplotlib.pyplot.savefig', 'ezdxf.addons.r12writer', 'marshal.dump',
               'pylab.savefig', 'io.open', 'codecs.open', 'gzip.open', 'zipfile.ZipFile', 'tarfile.open', 'shelve.open',
               'os.open', 'os.mkdir', 'os.makedirs', 'os.remove', 'os.unlink', 'os.rename', 'os.replace', 'os.rmdir',
               'os.removedirs', 'os.symlink', 'os.link', 'os.truncate', 'os.chmod', 'os.chown', 'os.mkfifo', 'os.utime',
               'sqlite3.connect', 'dbm.open', 'logging.handlers.RotatingFileHandler', 'trimesh.exchange.export.export_mesh'}
WORLD_PREFIX = ('subprocess.', 'socket.', 'urllib.', 'http.', 'requests.', 'shutil.', 'tempfile.', 'multiprocessing.',
                'ftplib.', 'smtplib.', 'telnetlib.', 'xmlrpc.', 'asyncio.create_subprocess', 'os.system', 'os.popen',
                'os.exec', 'os.spawn', 'os.fork', 'os.kill', 'os.posix_spawn', 'pty.', 'webbrowser.', 'ctypes.',
                'concurrent.futures.ProcessPool', 'signal.pthread_kill')
NOT_FILES = ('logger.', 'sys.stdout.', 'sys.stderr.', 'ext:sys.stdout.', 'ext:sys.stderr.')


def open_mode(info):
    """True: certainly reads only; False: may write."""
    for i in info.get('all', [info]):
        args, kw = i.get('args') or [], i.get('kwargs') or {}
        m = args[1] if len(args) > 1 else kw.get('mode')
        if m is None:
            continue
        for a in m[0]:
            if a[0] == 's' and a[1] and a[1][0] == 'c':
                if any(c in a[1][1] for c in 'wax+'):
                    return False
            else:
                return False
    return True


def effect(name, info):
    """None, 'file' (writes or changes a file) or 'world' (process, network, other files)."""
    if any(name.startswith(p) for p in WORLD_PREFIX):
        return 'world'
    if name in ('builtins.open', 'io.open', 'codecs.open', 'gzip.open', 'pathlib.Path.open'):
        return None if open_mode(info) else 'file'
    if name in WRITE_FUNCS:
        return 'file'
    if name == 'logging.basicConfig' and 'filename' in str(info.get('kwargs')):
        return 'file'
    if name.startswith('pathlib.Path.'):
        return 'file' if name.split('.')[-1] in PATH_WRITE else None
    if any(name.startswith(p) for p in NOT_FILES):
        return None
    head, _, last = name.rpartition('.')
    if last in WRITE_METHODS and not head.startswith(('builtins', 'numpy', 'math')):
        return 'file'
    return None


def all_calls(I):
    out = [(k, v) for k, v in I.log.items() if k[0] == 'extcall' and not is_driver(k[1])]
    out += [(('extcall',) + k, v) for k, v in I.import_calls.items() if not is_driver(k[0])]
    return sorted(out, key=lambda x: str(x[0]))


def file_writes(I):
    """Notes of every call that writes or changes a file."""
    saves = {(k[1], k[2], k[3]): (k, v) for k, v in I.log.items() if k[0] == 'save' and not is_driver(k[1])}
    out = list(saves.values())
    for k, v in all_calls(I):
        if effect(v['name'], v) == 'file' and (v['file'], v['line']) not in {(s[0], s[1]) for s in saves}:
            v.setdefault('all', [v])
            v.setdefault('allctx', [None])
            out.append((k, v))
    return out


def sheets_len_test(t):
    """The operand X if `t` is true exactly when X is empty: not X, len(X) == 0, len(X) < 1, not len(X)."""
    if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
        x = t.operand
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ('len', 'bool', 'any', 'list', 'tuple', 'sorted') and x.args:
            return x.args[0]
        if isinstance(x, ast.Compare):
            y = nonempty_test(x)
            return y
        return x
    if isinstance(t, ast.Compare) and len(t.ops) == 1:
        l, op, r = t.left, type(t.ops[0]).__name__, t.comparators[0]
        if is_len(r) and isinstance(l, ast.Constant):
            l, r = r, l
            op = {'Lt': 'Gt', 'Gt': 'Lt', 'LtE': 'GtE', 'GtE': 'LtE'}.get(op, op)
        if is_len(l) and isinstance(r, ast.Constant) and (op, r.value) in (('Eq', 0), ('Lt', 1), ('LtE', 0), ('Is', 0)):
            return l.args[0]
    return None


def nonempty_test(t):
    if isinstance(t, ast.Compare) and len(t.ops) == 1:
        l, op, r = t.left, type(t.ops[0]).__name__, t.comparators[0]
        if is_len(r) and isinstance(l, ast.Constant):
            l, r = r, l
            op = {'Lt': 'Gt', 'Gt': 'Lt', 'LtE': 'GtE', 'GtE': 'LtE'}.get(op, op)
        if is_len(l) and isinstance(r, ast.Constant) and (op, r.value) in (('Gt', 0), ('GtE', 1), ('NotEq', 0)):
            return l.args[0]
    if is_len(t):
        return t.args[0]
    if isinstance(t, (ast.Name, ast.Attribute)):
        return t
    return None


def is_len(n):
    return isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'len' and len(n.args) == 1


def empty_run(R):
    """Analyse a run whose model has no sheets; returns the file-writing calls it can still reach."""
    from .. import drive
    from ..absint import V
    I = drive.build(['main'], root=R.root, kg=1, km=1 if False else 2, tracked=())

    def over(I, node):
        return {'sheets': V(I.alloc(node, 'pmap', 'no sheets', n=0))}

    I.construct_override['SheetPlex'] = over
    keys = drive.start(I, 'main')
    I.run()
    I.finish()
    return file_writes(I), I.sums[keys['run_main']].returns, len(I.sums)
