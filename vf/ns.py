"""Places user code can live in: what dill can import back differs in each."""
import builtins, importlib, linecache, os, sys, types

MAIN = sys.modules['__main__']
_base = None
# what a namespace may call itself; none of them can be imported
ODD = ['', '.', '..', '.x', 'x.', 'os.', 'os.path.', 'a..b', 'a b', 'vfm\0', '\xe9.x', 'os.path.nope', '__runtime__.x', 'x' * 3000, '<string>', 'vfm\n', ' ', '__main__.', '..os', 'sys.modules', 'json.dumps']


def main_reset():
    """__main__ as the worker started it"""
    global _base
    d = MAIN.__dict__
    if _base is None:
        _base = dict(d)
    d.clear()
    d.update(_base)


class Space:
    """kind: main | nowhere | noname | module | sub | local-main | local-module | runtime"""
    count = 0

    def __init__(self, kind, scratch, tag=''):
        self.kind = kind
        self.scratch = scratch
        Space.count += 1
        self.id = Space.count
        self.name = {'main': '__main__', 'local-main': '__main__'}.get(kind, 'vfm_%s%d' % (tag, self.id))
        if kind == 'sub':
            self.pkg = 'vfp_%s%d' % (tag, self.id)
            self.name = self.pkg + '.sub'
        self.mod = None
        self.dict = None

    def run(self, src, extra=None):
        k = self.kind
        if k.startswith('local'):
            body = '\n'.join('    ' + l if l.strip() else l for l in src.splitlines())
            src = 'def _factory_():\n' + body + '\n    return locals()\n'
        fname = '<vf-%s-%d>' % (k, self.id)
        if k in ('main', 'local-main'):
            main_reset()
            d = MAIN.__dict__
        elif k in ('nowhere',):
            d = {'__name__': self.name, '__builtins__': builtins}
        elif k == 'noname':
            d = {}
        elif k in ('module', 'local-module', 'sub'):
            base = os.path.join(self.scratch, 'mods')
            if base not in sys.path:
                sys.path.insert(0, base)
            if k == 'sub':
                os.makedirs(os.path.join(base, self.pkg), exist_ok=True)
                open(os.path.join(base, self.pkg, '__init__.py'), 'w').close()
                path = os.path.join(base, self.pkg, 'sub.py')
            else:
                os.makedirs(base, exist_ok=True)
                path = os.path.join(base, self.name + '.py')
            with open(path, 'w', encoding='utf-8', errors='surrogatepass') as f:
                f.write(src)
            importlib.invalidate_caches()
            sys.modules.pop(self.name, None)
            self.mod = importlib.import_module(self.name)
            d = self.mod.__dict__
            if extra:
                d.update(extra)
            self.dict = d
            return d['_factory_']() if k.startswith('local') else d
        elif k == 'runtime':
            self.mod = types.ModuleType(self.name)
            d = self.mod.__dict__
        else:
            raise ValueError(k)
        if extra:
            d.update(extra)
        exec(compile(src, fname, 'exec', dont_inherit=True), d)
        self.dict = d
        return d['_factory_']() if k.startswith('local') else d

    def close(self):
        if self.kind in ('main', 'local-main'):
            main_reset()
        elif self.kind in ('module', 'sub', 'local-module'):
            sys.modules.pop(self.name, None)
            base = os.path.join(self.scratch, 'mods')
            if self.kind == 'sub':
                sys.modules.pop(self.pkg, None)
                for f in (os.path.join(base, self.pkg, 'sub.py'),):
                    if os.path.exists(f):
                        os.unlink(f)
            else:
                p = os.path.join(base, self.name + '.py')
                if os.path.exists(p):
                    os.unlink(p)
