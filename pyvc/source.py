"""Mechanical extraction: the functions under contract are parsed from /repo's current source on every run."""
import ast, os, hashlib

REPO = os.environ.get("PYVC_REPO", "/repo")


class Module:
    def __init__(self, name, repo=None):
        self.name = name
        self.path = os.path.join(repo or REPO, "ticdat", name + ".py")
        with open(self.path, encoding="utf-8") as f:
            self.text = f.read()
        self.sha = hashlib.sha256(self.text.encode()).hexdigest()
        self.tree = ast.parse(self.text)
        self.defs, self.imports, self.assigns = {}, {}, {}
        self._collect(self.tree.body)

    def _collect(self, body):
        for n in body:
            if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                self.defs[n.name] = n
            elif isinstance(n, ast.Import):
                for a in n.names:
                    if a.asname: self.imports[a.asname] = (a.name, None)
                    else: self.imports[a.name.split(".")[0]] = (a.name.split(".")[0], None)
            elif isinstance(n, ast.ImportFrom):
                for a in n.names:
                    self.imports[a.asname or a.name] = (n.module, a.name)
            elif isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                self.assigns[n.targets[0].id] = n.value
            elif isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Tuple) and isinstance(n.value, ast.Tuple) \
                    and len(n.targets[0].elts) == len(n.value.elts):
                for t, v in zip(n.targets[0].elts, n.value.elts):
                    if isinstance(t, ast.Name): self.assigns[t.id] = v
            elif isinstance(n, ast.Try):       # optional dependencies: the installed path of the try
                self._collect(n.body)

    def find(self, qual):
        """node of 'Class.method' / 'function' / 'outer.inner' (nested functions and classes by name)"""
        node = None
        body = None
        for i, part in enumerate(qual.split(".")):
            if i == 0:
                node = self.defs.get(part)
            else:
                node = _find_in(node, part)
            if node is None:
                return None
        return node


def _find_in(node, name):
    todo = list(ast.iter_child_nodes(node))
    while todo:
        n = todo.pop(0)
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            if n.name == name: return n
            continue
        todo.extend(ast.iter_child_nodes(n))
    for n in ast.walk(node):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n.name == name and n is not node:
            return n
    return None


_cache = {}


def module(name):
    if name not in _cache:
        _cache[name] = Module(name)
    return _cache[name]
