"""Project loader: parses every module below <repo>/do_mpc and resolves names,
imports, classes, methods, properties and attribute types.  Nothing of the
project is imported or executed; only `ast` is used."""
import ast
import json
import os
import warnings


class FuncInfo:
    def __init__(self, node, mod, cls=None, outer=None):
        self.node, self.mod, self.cls, self.outer = node, mod, cls, outer
        self.name = getattr(node, 'name', '<lambda>')
        self.qual = (mod.name + '.' + (cls.name + '.' if cls else '') + self.name)
        self.decorators = [dotted(d) or dotted(getattr(d, 'func', None)) or '' for d in getattr(node, 'decorator_list', [])]

    @property
    def loc(self):
        return '%s:%d' % (self.mod.rel, self.node.lineno)


class PropInfo:
    """property / IndexedProperty on a class"""
    def __init__(self, name, kind):
        self.name, self.kind = name, kind   # kind: 'property' | 'indexed'
        self.fget = self.fset = None


SETOPS = {'add': ast.BitOr, 'discard': ast.Sub, 'remove': ast.Sub, 'update': ast.BitOr, 'difference_update': ast.Sub}


def setlike(v, name):
    if isinstance(v, (ast.Set, ast.SetComp)) or isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == 'set':
        return True
    return isinstance(v, ast.BinOp) and isinstance(v.op, (ast.BitOr, ast.Sub, ast.BitAnd)) and (setlike(v.left, name) or isinstance(v.left, ast.Name) and v.left.id == name)


def set_updates(tree):
    """s.add(x), s.discard(x) of a local set are assignments s |= {x}, s -= {x}"""
    for f in ast.walk(tree):
        if not isinstance(f, (ast.FunctionDef, ast.AsyncFunctionDef)):
            continue
        stores, good = {}, {}
        for n in ast.walk(f):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                stores[n.id] = stores.get(n.id, 0) + 1
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and setlike(n.value, n.targets[0].id) \
                    or isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name) and isinstance(n.op, (ast.BitOr, ast.Sub, ast.BitAnd)):
                t = n.targets[0] if isinstance(n, ast.Assign) else n.target
                good.setdefault(t.id, []).append(isinstance(n, ast.Assign))
        local = {k for k, v in good.items() if any(v) and len(v) == stores[k]}
        if not local:
            continue
        for n in ast.walk(f):
            for fld in ('body', 'orelse', 'finalbody'):
                b = getattr(n, fld, None)
                if not isinstance(b, list):
                    continue
                for i, s in enumerate(b):
                    c = s.value if isinstance(s, ast.Expr) else None
                    if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and isinstance(c.func.value, ast.Name) and c.func.value.id in local \
                            and c.func.attr in SETOPS and len(c.args) == 1 and not c.keywords and not isinstance(c.args[0], ast.Starred):
                        v = ast.Set([c.args[0]]) if c.func.attr in ('add', 'discard', 'remove') else ast.Call(ast.Name('set', ast.Load()), [c.args[0]], [])
                        b[i] = ast.fix_missing_locations(ast.copy_location(ast.AugAssign(ast.Name(c.func.value.id, ast.Store()), SETOPS[c.func.attr](), ast.copy_location(v, s)), s))
    return tree


class ClassInfo:
    def __init__(self, node, mod):
        self.node, self.mod, self.name = node, mod, node.name
        self.qual = mod.name + '.' + node.name
        self.methods, self.props, self.classvars, self.annots = {}, {}, {}, {}
        self.bases = []
        self.decorators = [dotted(d) or dotted(getattr(d, 'func', None)) or '' for d in node.decorator_list]
        self.attr_types = {}

    @property
    def is_dataclass(self):
        return any(d.split('.')[-1] == 'dataclass' for d in self.decorators)

    def __repr__(self):
        return '<class %s>' % self.qual


class ModInfo:
    def __init__(self, name, path, rel, tree, src):
        self.name, self.path, self.rel, self.tree, self.src = name, path, rel, tree, src
        self.names = {}      # global name -> binding
        self.stars = []
        self.is_pkg = os.path.basename(path) == '__init__.py'


def dotted(n):
    parts = []
    while isinstance(n, ast.Attribute):
        parts.append(n.attr)
        n = n.value
    if isinstance(n, ast.Name):
        parts.append(n.id)
        return '.'.join(reversed(parts))
    return None


EXT_ALIASES = [('casadi.tools.structure3.', 'casadi.structure3.'), ('casadi.tools.', 'casadi.')]


def norm_ext(n):
    for a, b in EXT_ALIASES:
        if n.startswith(a):
            n = b + n[len(a):]
    if n == 'casadi.tools':
        n = 'casadi'
    return n


class Project:
    def __init__(self, root):
        self.root = root
        self.mods = {}
        base = os.path.join(root, 'do_mpc')
        for r, ds, fs in sorted(os.walk(base)):
            ds.sort()
            for f in sorted(fs):
                if not f.endswith('.py'):
                    continue
                p = os.path.join(r, f)
                rel = os.path.relpath(p, root)
                name = rel[:-3].replace(os.sep, '.')
                if name.endswith('.__init__'):
                    name = name[:-9]
                with open(p, encoding='utf-8') as fh:
                    src = fh.read()
                with warnings.catch_warnings():
                    warnings.simplefilter('ignore')
                    tree = set_updates(ast.parse(src, p))
                self.mods[name] = ModInfo(name, p, rel, tree, src)
        self.funcs = []
        self.classes = {}
        for m in self.mods.values():
            self._bind(m, m.tree.body)
        for c in self.classes.values():
            self._class_body(c)
        self._renames()
        for c in self.classes.values():
            c.bases = []
            for b in c.node.bases:
                d = dotted(b)
                t = self.resolve(c.mod, d) if d else None
                c.bases.append(t[1] if t and t[0] == 'class' else ('ext', d))
        for c in self.classes.values():
            self._attr_types(c)

    # -- binding ---------------------------------------------------------
    def _bind(self, m, body):
        for n in body:
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                fi = FuncInfo(n, m)
                m.names[n.name] = ('func', fi)
                self.funcs.append(fi)
            elif isinstance(n, ast.ClassDef):
                ci = ClassInfo(n, m)
                m.names[n.name] = ('class', ci)
                self.classes[ci.qual] = ci
            elif isinstance(n, ast.Import):
                for a in n.names:
                    if a.asname:
                        m.names[a.asname] = ('modref', a.name)
                    else:
                        m.names[a.name.split('.')[0]] = ('modref', a.name.split('.')[0])
            elif isinstance(n, ast.ImportFrom):
                base = n.module or ''
                if n.level:
                    parts = m.name.split('.')
                    if not m.is_pkg:
                        parts = parts[:-1]
                    parts = parts[:len(parts) - (n.level - 1)]
                    base = '.'.join(parts + ([n.module] if n.module else []))
                for a in n.names:
                    if a.name == '*':
                        m.stars.append(base)
                    else:
                        m.names[a.asname or a.name] = ('from', base, a.name)
            elif isinstance(n, ast.Assign):
                for t in n.targets:
                    for nm in ast.walk(t):
                        if isinstance(nm, ast.Name):
                            self._const(m, nm.id, n.value if len(n.targets) == 1 and isinstance(t, ast.Name) else None)
            elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name):
                self._const(m, n.target.id, n.value)
            elif isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name):
                m.names[n.target.id] = ('const', None)
            elif isinstance(n, ast.If):
                self._bind(m, n.orelse)
                self._bind(m, n.body)
            elif isinstance(n, ast.Try):
                self._bind(m, n.body)
                for h in n.handlers:
                    self._bind(m, h.body)
                self._bind(m, n.orelse)
                self._bind(m, n.finalbody)
            elif isinstance(n, (ast.With, ast.For, ast.While)):
                self._bind(m, n.body)

    def _renames(self):
        """a private method that was renamed is analysed under the name the rules use"""
        f = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'names.json')
        if not os.path.exists(f):
            return
        for q, ms in json.load(open(f)).items():
            c = self.classes.get(q)
            if c is None:
                continue
            new = sorted((x for n, x in c.methods.items() if n not in ms), key=lambda x: x.node.lineno)
            gone = [n for n in ms if n.startswith('_') and not n.startswith('__') and n not in c.methods and n not in c.props]
            for k in sorted(set(ms[n] for n in gone)):
                old, cand = [n for n in gone if ms[n] == k], [x for x in new if len(x.node.args.args) == k]
                if len(old) == len(cand):       # in order of definition
                    for n, x in zip(old, cand):
                        x.name, x.qual = n, c.qual + '.' + n
                        c.methods[n] = x

    @staticmethod
    def _const(m, name, value):
        old = m.names.get(name)
        if old is not None and old[0] == 'const' and (old[1] is None or value is None or ast.dump(old[1]) != ast.dump(value)):
            value = None        # bound more than once: depends on the environment
        m.names[name] = ('const', value)

    def _class_body(self, c):
        for n in c.node.body:
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                fi = FuncInfo(n, c.mod, c)
                self.funcs.append(fi)
                last = [d.split('.')[-1] for d in fi.decorators]
                if 'property' in last or 'cached_property' in last or 'IndexedProperty' in last:
                    p = PropInfo(n.name, 'indexed' if 'IndexedProperty' in last else 'property')
                    p.fget = fi
                    c.props[n.name] = p
                    c.methods.pop(n.name, None)
                elif any(d.endswith('.setter') for d in fi.decorators):
                    src = [d for d in fi.decorators if d.endswith('.setter')][0].rsplit('.', 1)[0].split('.')[-1]
                    if src in c.props:
                        p = c.props[src]
                        q = PropInfo(n.name, p.kind)
                        q.fget, q.fset = p.fget, fi
                        c.props[n.name] = q
                elif any(d.endswith('.getter') or d.endswith('.deleter') for d in fi.decorators):
                    pass
                else:
                    c.methods[n.name] = fi
                    c.props.pop(n.name, None)
            elif isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        v = n.value
                        # x = property(getx, setx)
                        if isinstance(v, ast.Call) and (dotted(v.func) or '').split('.')[-1] in ('property', 'IndexedProperty'):
                            p = PropInfo(t.id, 'indexed' if (dotted(v.func) or '').endswith('IndexedProperty') else 'property')
                            args = list(v.args) + [None, None]
                            kw = {k.arg: k.value for k in v.keywords}
                            g = kw.get('fget', args[0])
                            s = kw.get('fset', args[1])
                            p.fget = c.methods.get(dotted(g)) if g is not None else None
                            p.fset = c.methods.get(dotted(s)) if s is not None else None
                            c.props[t.id] = p
                        else:
                            c.classvars[t.id] = v
            elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name):
                c.annots[n.target.id] = n
                if n.value is not None:
                    c.classvars[n.target.id] = n.value

    # -- resolution ------------------------------------------------------
    def resolve(self, mod, name, _seen=None):
        """dotted name in a module -> ('class',ci)|('func',fi)|('mod',name)|('ext',dotted)|('const',mod,expr)|None"""
        if name is None:
            return None
        parts = name.split('.')
        cur = self._lookup(mod, parts[0], _seen or set())
        for p in parts[1:]:
            if cur is None:
                return None
            if cur[0] == 'mod':
                m = self.mods[cur[1]]
                nxt = self._lookup(m, p, set())
                if nxt is None and cur[1] + '.' + p in self.mods:
                    nxt = ('mod', cur[1] + '.' + p)
                cur = nxt
            elif cur[0] == 'ext':
                cur = ('ext', norm_ext(cur[1] + '.' + p))
            elif cur[0] == 'class':
                f = self.find_method(cur[1], p)
                if f:
                    cur = ('func', f)
                elif self.find_classvar(cur[1], p):
                    cur = ('classvar', cur[1], p)
                else:
                    return None
            else:
                return None
        return cur

    def _lookup(self, m, n, seen):
        key = (m.name, n)
        if key in seen:
            return None
        seen.add(key)
        b = m.names.get(n)
        if b is None:
            if m.name + '.' + n in self.mods and m.is_pkg:
                return ('mod', m.name + '.' + n)
            for s in m.stars:
                if s in self.mods:
                    r = self._lookup(self.mods[s], n, seen)
                    if r:
                        return r
            return None
        if b[0] in ('func', 'class'):
            return b
        if b[0] == 'const':
            return ('const', m, b[1], n)
        if b[0] == 'modref':
            if b[1] in self.mods:
                return ('mod', b[1])
            return ('ext', norm_ext(b[1]))
        if b[0] == 'from':
            base, nm = b[1], b[2]
            if base in self.mods:
                r = self._lookup(self.mods[base], nm, seen)
                if r:
                    return r
                if base + '.' + nm in self.mods:
                    return ('mod', base + '.' + nm)
                return None
            return ('ext', norm_ext(base + '.' + nm))

    def text_fields(self):
        """fields that every class declaring them declares as text"""
        if not hasattr(self, '_text_fields'):
            d = {}
            for c in self.classes.values():
                for x in c.node.body:
                    if isinstance(x, ast.AnnAssign) and isinstance(x.target, ast.Name):
                        d.setdefault(x.target.id, set()).add(ast.unparse(x.annotation))
            self._text_fields = {k for k, v in d.items() if v == {'str'}}
        return self._text_fields

    def mro(self, c):
        # C3 linearisation over project classes
        def merge(seqs):
            out = []
            seqs = [list(s) for s in seqs if s]
            while seqs:
                for s in seqs:
                    h = s[0]
                    if not any(h in t[1:] for t in seqs):
                        break
                else:
                    h = seqs[0][0]
                out.append(h)
                seqs = [[x for x in s if x is not h] for s in seqs]
                seqs = [s for s in seqs if s]
            return out
        bs = [b for b in c.bases if isinstance(b, ClassInfo)]
        return [c] + merge([self.mro(b) for b in bs] + [bs])

    def has_ext_base(self, c):
        for k in self.mro(c):
            for b in k.bases:
                if not isinstance(b, ClassInfo) and b[1] not in ('object',):
                    return True
        return False

    def find_method(self, c, name, after=None):
        ms = self.mro(c)
        if after is not None:
            ms = ms[ms.index(after) + 1:] if after in ms else []
        for k in ms:
            if name in k.methods:
                return k.methods[name]
        return None

    def find_prop(self, c, name):
        for k in self.mro(c):
            if name in k.props:
                return k.props[name]
            if name in k.methods:
                return None
        return None

    def find_classvar(self, c, name):
        for k in self.mro(c):
            if name in k.classvars:
                return k
        return None

    # -- attribute types -------------------------------------------------
    def ann_classes(self, mod, ann):
        out = []
        if ann is None:
            return out
        if isinstance(ann, ast.Constant) and isinstance(ann.value, str):
            try:
                ann = ast.parse(ann.value, mode='eval').body
            except SyntaxError:
                return out
        if isinstance(ann, ast.Subscript):
            for x in ast.walk(ann.slice):
                if isinstance(x, (ast.Name, ast.Attribute)):
                    r = self.resolve(mod, dotted(x))
                    if r and r[0] == 'class' and r[1] not in out:
                        out.append(r[1])
            return out
        d = dotted(ann)
        r = self.resolve(mod, d) if d else None
        if r and r[0] == 'class':
            out.append(r[1])
        return out

    def _members(self, c):
        return list(c.methods.values()) + [x for p in c.props.values() for x in (p.fget, p.fset) if x]

    def value_types(self, c, f, e, depth=0, at=None):
        """classes an expression of method f may be an instance of (locals, helpers and parameters followed)"""
        if depth > 6:
            return []
        out = []

        def add(ts):
            out.extend(t for t in ts if t not in out)
        a = f.node.args
        allargs = a.posonlyargs + a.args + a.kwonlyargs
        selfname = allargs[0].arg if allargs else None
        if isinstance(e, ast.IfExp):
            add(self.value_types(c, f, e.body, depth + 1, at))
            add(self.value_types(c, f, e.orelse, depth + 1, at))
        elif isinstance(e, ast.Call):
            r = self.resolve(f.mod, dotted(e.func)) if dotted(e.func) else None
            if r and r[0] == 'class':
                return [r[1]]
            cs = self.class_values(f, e.func, at)
            if cs:
                return cs
            g = None
            if r and r[0] == 'func':
                g = r[1]
            elif isinstance(e.func, ast.Attribute) and isinstance(e.func.value, ast.Name) and e.func.value.id == selfname:
                g = c.methods.get(e.func.attr)
            if g is not None and g is not f:
                for n in ast.walk(g.node):
                    if isinstance(n, ast.Return) and n.value is not None:
                        add(self.value_types(c, g, n.value, depth + 1, n))
        elif isinstance(e, ast.Name):
            for x in allargs:
                if x.arg == e.id:
                    cs = self.ann_classes(f.mod, x.annotation)
                    if cs:
                        return cs[:1]
                    # what the methods of the class pass for this parameter
                    pos = [y.arg for y in a.posonlyargs + a.args].index(e.id) if e.id in [y.arg for y in a.posonlyargs + a.args] else None
                    for m in self._members(c):
                        ma = m.node.args.posonlyargs + m.node.args.args
                        if not ma or m is f:
                            continue
                        for n in ast.walk(m.node):
                            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == f.name and isinstance(n.func.value, ast.Name) and n.func.value.id == ma[0].arg:
                                v = next((k.value for k in n.keywords if k.arg == e.id), None)
                                if v is None and pos is not None and 0 <= pos - 1 < len(n.args):
                                    v = n.args[pos - 1]
                                if v is not None:
                                    add(self.value_types(c, m, v, depth + 1, next((q for q in ast.walk(m.node) if isinstance(q, ast.stmt) and not isinstance(q, (ast.FunctionDef, ast.If, ast.For, ast.While, ast.With, ast.Try)) and any(y is n for y in ast.walk(q))), None)))
            for n in self.reaching(f.node, e.id, at):
                add(self.value_types(c, f, n.value, depth + 1, n))
        return out

    def class_values(self, f, e, at, depth=0):
        """classes an expression may denote (a choice, a table of classes)"""
        if depth > 4:
            return []
        out = []
        d = dotted(e)
        r = self.resolve(f.mod, d) if d else None
        if r and r[0] == 'class':
            return [r[1]]
        subs = []
        if isinstance(e, ast.IfExp):
            subs = [e.body, e.orelse]
        elif isinstance(e, ast.Subscript):
            subs = [e.value]
        elif isinstance(e, ast.Dict):
            subs = e.values
        elif isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr == 'get':
            subs = [e.func.value]
        elif isinstance(e, ast.Name):
            subs = [n.value for n in self.reaching(f.node, e.id, at)]
        for x in subs:
            for k in self.class_values(f, x, at, depth + 1):
                if k not in out:
                    out.append(k)
        return out

    @staticmethod
    def reaching(fn, name, at):
        """assignments to a local name that may reach statement `at` (the nearest unconditional one before it hides earlier ones)"""
        def assigns(s):
            return [n for n in ast.walk(s) if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == name for t in n.targets)]
        if at is None:
            return assigns(fn)
        path = []

        def find(n):
            for fld in ('body', 'orelse', 'finalbody', 'handlers'):
                b = getattr(n, fld, None)
                if isinstance(b, list):
                    for i, s in enumerate(b):
                        if s is at or find(s):
                            path.append((b, i))
                            return True
            return False
        if not find(fn):
            return assigns(fn)
        out = []
        for b, i in path:
            for s in reversed(b[:i]):
                out += assigns(s)
                if isinstance(s, ast.Assign) and assigns(s):
                    return out
        return out

    def _attr_types(self, c):
        for f in self._members(c):
            a = f.node.args
            allargs = a.posonlyargs + a.args + a.kwonlyargs
            if not allargs:
                continue
            selfname = allargs[0].arg
            for n in ast.walk(f.node):
                if isinstance(n, ast.Assign):
                    for t in n.targets:
                        if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == selfname:
                            ts = self.value_types(c, f, n.value, at=n)
                            if ts:
                                c.attr_types.setdefault(t.attr, []).append(ts[0])
        for n, an in c.annots.items():
            cs = self.ann_classes(c.mod, an.annotation)
            if cs:
                c.attr_types.setdefault(n, []).append(cs[0])

    def attr_type(self, c, name):
        for k in self.mro(c):
            ts = k.attr_types.get(name)
            if ts:
                return ts[0]
        return None

    def cls(self, name):
        """class by public dotted name from do_mpc root, e.g. 'controller.MPC'"""
        r = self.resolve(self.mods['do_mpc'], 'do_mpc.' + name) if False else None
        parts = name.split('.')
        cur = ('mod', 'do_mpc')
        for p in parts:
            if cur is None or cur[0] != 'mod':
                return None
            m = self.mods[cur[1]]
            nxt = self._lookup(m, p, set())
            if nxt is None and cur[1] + '.' + p in self.mods:
                nxt = ('mod', cur[1] + '.' + p)
            cur = nxt
        return cur[1] if cur and cur[0] == 'class' else None

    def func(self, name):
        parts = name.split('.')
        cur = ('mod', 'do_mpc')
        for p in parts:
            if cur is None or cur[0] != 'mod':
                return None
            m = self.mods[cur[1]]
            nxt = self._lookup(m, p, set())
            if nxt is None and cur[1] + '.' + p in self.mods:
                nxt = ('mod', cur[1] + '.' + p)
            cur = nxt
        return cur[1] if cur and cur[0] == 'func' else None
