"""Index of the real source: parsed afresh from the repository on every run."""
import ast
import os

REPO = os.environ.get('VERIF_REPO', '/repo')


class Mod:
    def __init__(self, path, tree, src):
        self.path, self.tree, self.src = path, tree, src
        self.defs, self.classes, self.imports, self.consts = {}, {}, {}, {}
        for n in tree.body:
            self._top(n)

    def _top(self, n):
        if isinstance(n, (ast.FunctionDef,)):
            self.defs[n.name] = n
        elif isinstance(n, ast.ClassDef):
            self.classes[n.name] = n
        elif isinstance(n, ast.ImportFrom):
            for a in n.names:
                self.imports[a.asname or a.name] = (n.module, a.name, n.level)
        elif isinstance(n, ast.Import):
            for a in n.names:
                self.imports[a.asname or a.name] = (a.name, None, 0)
        elif isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
            self.consts[n.targets[0].id] = n.value
        elif isinstance(n, (ast.If, ast.Try)):
            for b in n.body:
                self._top(b)


class Source:
    def __init__(self, root=None):
        self.root = root or REPO
        self.mods = {}

    def mod(self, path):
        if path not in self.mods:
            p = os.path.join(self.root, path)
            with open(p) as f:
                src = f.read()
            self.mods[path] = Mod(path, ast.parse(src), src)
        return self.mods[path]

    def modpath(self, dotted, frm=None, level=0):
        if level and frm:
            base = os.path.dirname(frm)
            for _ in range(level - 1):
                base = os.path.dirname(base)
            p = os.path.join(base, *(dotted.split('.') if dotted else []))
        else:
            p = os.path.join(*dotted.split('.'))
        if os.path.isfile(os.path.join(self.root, p + '.py')):
            return p + '.py'
        if os.path.isfile(os.path.join(self.root, p, '__init__.py')):
            return os.path.join(p, '__init__.py')
        return None

    def resolve(self, path, name, depth=0):
        """('def'|'class'|'const'|'mod', path, node) of a global name seen from module `path`, or None"""
        m = self.mod(path)
        if name in m.defs:
            return ('def', path, m.defs[name])
        if name in m.classes:
            return ('class', path, m.classes[name])
        if name in m.consts:
            return ('const', path, m.consts[name])
        if name in m.imports and depth < 8:
            mod, orig, level = m.imports[name]
            if orig is None:
                return ('extmod', mod, None)
            mp = self.modpath(mod or '', path, level)
            if mp is None:
                return ('ext', mod, orig)
            r = self.resolve(mp, orig, depth + 1)
            if r is None:
                sub = self.modpath((mod + '.' if mod else '') + orig, path, level)
                if sub:
                    return ('mod', sub, None)
            return r
        if '*' in m.imports and depth < 8:
            pass
        return None

    def find(self, key):
        """'path.py::Qual.name' -> (path, classnode or None, fnode)"""
        path, qual = key.split('::')
        m = self.mod(path)
        parts = qual.split('.')
        if len(parts) == 1:
            if parts[0] in m.defs:
                return path, None, m.defs[parts[0]]
            return None
        if parts[0] in m.defs:          # nested function
            node = m.defs[parts[0]]
            cls = None
        elif parts[0] in m.classes:
            cls = (path, m.classes[parts[0]])
            r = self.method(path, m.classes[parts[0]], parts[1])
            if r is None:
                return None
            path, c, node = r
            cls = (path, c)
            parts = parts[1:]
        else:
            return None
        for p in parts[1:]:
            nxt = None
            for x in ast.walk(node):
                if isinstance(x, ast.FunctionDef) and x.name == p and x is not node:
                    nxt = x
                    break
            if nxt is None:
                return None
            node = nxt
        return path, cls, node

    def bases(self, path, cnode):
        out = []
        for b in cnode.bases:
            if isinstance(b, ast.Subscript):
                b = b.value
            if isinstance(b, ast.Name):
                r = self.resolve(path, b.id)
                if r and r[0] == 'class':
                    out.append((r[1], r[2]))
        return out

    def method(self, path, cnode, name):
        for n in cnode.body:
            if isinstance(n, ast.FunctionDef) and n.name == name:
                return path, cnode, n
        for bp, bc in self.bases(path, cnode):
            r = self.method(bp, bc, name)
            if r:
                return r
        return None

    def classattr(self, path, cnode, name):
        for n in cnode.body:
            if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == name for t in n.targets):
                return path, n.value
            if isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name) and n.target.id == name and n.value is not None:
                return path, n.value
        for bp, bc in self.bases(path, cnode):
            r = self.classattr(bp, bc, name)
            if r:
                return r
        return None
