"""Index of the Python source under /repo/richard: read again from the working tree on every run."""
import ast, os, hashlib

REPO = os.environ.get("VERIF_REPO", "/repo")


class FuncInfo:
    def __init__(self, qual, node, module, cls=None):
        self.qual, self.node, self.module, self.cls = qual, node, module, cls

    @property
    def params(self):
        a = self.node.args
        return [x.arg for x in a.posonlyargs + a.args]

    def is_static(self):
        return any(isinstance(d, ast.Name) and d.id in ("staticmethod",) for d in self.node.decorator_list)

    def is_classmethod(self):
        return any(isinstance(d, ast.Name) and d.id == "classmethod" for d in self.node.decorator_list)

    def is_property(self):
        return any(isinstance(d, ast.Name) and d.id == "property" for d in self.node.decorator_list)

    def loc(self):
        return f"{self.module.rel}:{self.node.lineno}"


class ClassInfo:
    def __init__(self, name, node, module):
        self.name, self.node, self.module = name, node, module
        self.methods, self.annots, self.consts = {}, {}, {}
        self.dataclass = any("dataclass" in ast.dump(d) for d in node.decorator_list)
        self.frozen = any("frozen" in ast.dump(d) for d in node.decorator_list)
        self.bases = [ast.unparse(b).split("[")[0].split(".")[-1] for b in node.bases]
        self.defaults = {}
        for s in node.body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.methods[s.name] = FuncInfo(f"{name}.{s.name}", s, module, self)
            elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
                self.annots[s.target.id] = s.annotation
                if s.value is not None:
                    self.defaults[s.target.id] = s.value
            elif isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
                self.consts[s.targets[0].id] = s.value

    def own_fields(self):
        """fields in constructor order: dataclass annotations, else every self.x that __init__ or an annotation names"""
        names = []
        if self.dataclass:
            return list(self.annots)
        for n in self.annots:
            if n not in self.consts:
                names.append(n)
        for m in self.methods.values():
            for s in ast.walk(m.node):
                t = None
                if isinstance(s, ast.Assign):
                    t = s.targets
                elif isinstance(s, (ast.AugAssign, ast.AnnAssign)):
                    t = [s.target]
                for x in t or []:
                    if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == "self":
                        if x.attr not in names:
                            names.append(x.attr)
        return names


class ModuleInfo:
    def __init__(self, rel, name, tree, text):
        self.rel, self.name, self.tree, self.text = rel, name, tree, text
        self.classes, self.funcs, self.imports, self.consts = {}, {}, {}, {}
        self.scan(tree.body)

    def scan(self, body):
        for s in body:
            if isinstance(s, ast.ClassDef):
                self.classes[s.name] = ClassInfo(s.name, s, self)
            elif isinstance(s, ast.FunctionDef):
                self.funcs[s.name] = FuncInfo(s.name, s, self)
            elif isinstance(s, ast.Import):
                for a in s.names:
                    self.imports[a.asname or a.name.split(".")[0]] = ("mod", a.name if a.asname else a.name.split(".")[0])
            elif isinstance(s, ast.ImportFrom):
                m = s.module or ""
                if s.level:
                    base = self.name.split(".")[: -s.level]
                    m = ".".join(base + ([m] if m else []))
                for a in s.names:
                    self.imports[a.asname or a.name] = ("from", m, a.name)
            elif isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
                self.consts[s.targets[0].id] = s.value
            elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and s.value is not None:
                self.consts[s.target.id] = s.value


class Repo:
    def __init__(self, root=None):
        self.root = root or REPO
        self.modules = {}
        self.classes = {}
        h = hashlib.sha256()
        for d, ds, fs in sorted(os.walk(os.path.join(self.root, "richard"))):
            ds[:] = sorted(x for x in ds if x != "__pycache__")
            for f in sorted(fs):
                if f.endswith(".py"):
                    p = os.path.join(d, f)
                    rel = os.path.relpath(p, self.root)
                    name = rel[:-3].replace("/", ".")
                    text = open(p, encoding="utf-8").read()
                    h.update(text.encode())
                    import warnings
                    with warnings.catch_warnings():
                        warnings.simplefilter("ignore")
                        tree = ast.parse(text, p)
                    m = ModuleInfo(rel, name, tree, text)
                    self.modules[name] = m
                    for c in m.classes.values():
                        self.classes.setdefault(c.name, c)
        self.digest = h.hexdigest()[:16]

    def mro(self, cname):
        out, todo = [], [cname]
        while todo:
            c = todo.pop(0)
            if c in self.classes and self.classes[c] not in out:
                out.append(self.classes[c])
                todo += self.classes[c].bases
        return out

    def method(self, cname, m):
        for c in self.mro(cname):
            if m in c.methods:
                return c.methods[m]
        return None

    def fields(self, cname):
        out = []
        for c in reversed(self.mro(cname)):
            for f in c.own_fields():
                if f not in out:
                    out.append(f)
        return out

    def annotation(self, cname, f):
        for c in self.mro(cname):
            if f in c.annots:
                return c.annots[f]
        return None

    def resolve(self, module, name):
        """what a global name means in a module"""
        seen = set()
        while True:
            if (module.name, name) in seen:
                return None
            seen.add((module.name, name))
            if name in module.classes:
                return ("class", module.classes[name])
            if name in module.funcs:
                return ("func", module.funcs[name])
            if name in module.consts:
                return ("const", module, module.consts[name])
            if name in module.imports:
                i = module.imports[name]
                if i[0] == "mod":
                    return ("module", i[1])
                full = i[1] + "." + i[2]
                if i[1] in self.modules:
                    module, name = self.modules[i[1]], i[2]
                    continue
                if full in self.modules:
                    return ("module", full)
                return ("ext", full)
            return None

    def find(self, path, qual):
        """function by file and qualified name; falls back to a search by name when the file was moved"""
        name = path[:-3].replace("/", ".")
        m = self.modules.get(name)
        parts = qual.split(".")
        if m:
            if len(parts) == 1 and parts[0] in m.funcs:
                return m.funcs[parts[0]]
            if len(parts) == 2 and parts[0] in m.classes:
                f = self.method(parts[0], parts[1])
                if f:
                    return f
        if len(parts) == 2 and parts[0] in self.classes:
            return self.method(parts[0], parts[1])
        for mm in self.modules.values():
            if len(parts) == 1 and parts[0] in mm.funcs:
                return mm.funcs[parts[0]]
        return None
