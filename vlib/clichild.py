"""Child process: runs the real command and reports what it saw.

Reads a JSON list of actions on stdin, writes a JSON list of outcomes on the
file named on its command line.  Only files below the scratch directory given
by its parent are ever written.
"""
import hashlib
import json
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.dont_write_bytecode = True
from vlib import run  # noqa: E402  (import path, no stale byte code)


class InjectedFault(Exception):
    pass


class Faults:
    """Counts calls of functions of the code under test and makes the n-th
    fail.  Also watches which files are opened for writing."""

    TOOL = 3

    def __init__(self):
        self.on = False
        self.n = 0
        self.at = None
        self.where = None
        self.leaf = None
        self.opened = []
        self.calls_at_open = None
        self.target = None
        self.root = os.path.realpath(run.REPO) + os.sep

    def start(self, at=None, target=None):
        self.n = 0
        self.at = at
        self.where = None
        self.leaf = None
        self.opened = []
        self.calls_at_open = None
        self.target = target
        self.seen = {}
        self.on = True

    def count(self, at=None):
        m = sys.monitoring
        m.use_tool_id(self.TOOL, 'faults')
        self.start(at, self.target)

        def on_start(code, offset):
            if not code.co_filename.startswith(self.root):
                return m.DISABLE
            self.n += 1
            s = self.seen.setdefault(code.co_qualname, [self.n, self.n])
            s[1] = self.n
            if self.at is not None and self.n == self.at:
                self.where = code.co_qualname
                self.leaf = '/geometry/' in code.co_filename
                raise InjectedFault('injected in %s' % code.co_qualname)
        m.register_callback(self.TOOL, m.events.PY_START, on_start)
        m.set_events(self.TOOL, m.events.PY_START)

    def stop(self):
        m = sys.monitoring
        self.on = False
        if m.get_tool(self.TOOL):
            m.set_events(self.TOOL, 0)
            m.register_callback(self.TOOL, m.events.PY_START, None)
            m.free_tool_id(self.TOOL)
            m.restart_events()

    def audit(self, event, args):
        if not self.on or event != 'open':
            return
        path, mode, flags = args
        if not isinstance(path, (str, bytes)):
            return
        path = os.fsdecode(path)
        w = (isinstance(mode, str) and any(c in mode for c in 'wax+')) or \
            (isinstance(flags, int) and flags & (
                os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC))
        if w:
            self.opened.append(os.path.realpath(path))
            if self.calls_at_open is None and self.target and \
                    os.path.realpath(path) == os.path.realpath(self.target):
                self.calls_at_open = self.n


FAULTS = Faults()


def digest(path):
    try:
        with open(path, 'rb') as f:
            return hashlib.sha256(f.read()).hexdigest()
    except OSError:
        return None


def main():
    out = sys.argv[1]
    actions = json.load(sys.stdin)
    run._quiet()
    real_out = os.dup(1)
    null = os.open(os.devnull, os.O_WRONLY)
    os.dup2(null, 1)
    sys.argv = ['plycutter'] + actions[0].get('argv', [])
    from plycutter import command_line
    sys.addaudithook(FAULTS.audit)
    import numpy as np
    import random
    res = []
    for a in actions:
        r = dict(outcome='ok', error=None)
        if 'pollute' in a:          # other things the process did before
            np.random.seed(a['pollute'])
            np.random.rand(5)
            random.seed(a['pollute'])
        if 'cwd' in a:
            os.chdir(a['cwd'])
        hooked = {}
        undo = []
        if a.get('hook'):
            from plycutter import canned, create_sheetplex, writer

            def wrap(mod, name, keep):
                f = getattr(mod, name, None)
                if f is None:
                    return

                def w(*args, **kw):
                    hooked.setdefault(name, []).append(keep(args, kw))
                    return f(*args, **kw)
                setattr(mod, name, w)
                undo.append((mod, name, f))

            def show(v):
                return '%s:%s' % (type(v).__name__, v)

            def keep(args, kw):
                p = args[1] if len(args) > 1 else kw.get('params')
                try:
                    return {k: show(p[k]) for k in p}
                except Exception:
                    return None
            wrap(create_sheetplex, 'create_sheetplex', keep)
            wrap(canned, 'canned_1', keep)
            wrap(writer, 'write_dxf', lambda args, kw: show(
                args[0] if args else kw.get('filename')))
        FAULTS.target = a.get('target')
        if 'fault' in a or a.get('count'):
            FAULTS.count(a.get('fault'))
        else:
            FAULTS.start(target=a.get('target'))
        try:
            if a.get('default'):        # as the console script does it
                command_line.main()
            else:
                command_line.main(a['argv'])
        except SystemExit as e:
            r['outcome'] = 'exit'
            r['error'] = repr(e.code)
        except BaseException as e:
            r['outcome'] = 'raised'
            r['type'] = type(e).__name__
            r['error'] = str(e)[:300]
            chain = []
            x = e
            while x is not None:
                chain.append(type(x).__name__)
                x = x.__cause__ or x.__context__
            r['chain'] = chain
            r['trace'] = traceback.format_exc()[-1500:]
        finally:
            FAULTS.stop()
            for mod, name, f in undo:
                setattr(mod, name, f)
        r['calls'] = FAULTS.n
        r['where'] = FAULTS.where
        r['leaf'] = FAULTS.leaf
        if a.get('count'):
            r['functions'] = FAULTS.seen
        r['calls_at_open'] = FAULTS.calls_at_open
        r['opened'] = sorted(set(FAULTS.opened))
        r['hooked'] = hooked
        if a.get('target'):
            r['digest'] = digest(a['target'])
        res.append(r)
    os.dup2(real_out, 1)
    with open(out, 'w') as f:
        json.dump(res, f)
    sys.stdout.flush()
    os._exit(0)


if __name__ == '__main__':
    main()
