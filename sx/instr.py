"""Import hook that instruments modules: AST rewriting of calls, operators and displays (see ops.py)."""
import ast
import copy
import importlib.abc
import importlib.machinery
import sys

from . import ops, sched

SKIP_CALLS = ('super', 'locals', 'globals', 'eval', 'exec', 'vars', 'dir')


def name(n):
    return ast.Name(id=n, ctx=ast.Load())


def call(n, *args):
    return ast.Call(func=name(n), args=list(args), keywords=[])


class Instrument(ast.NodeTransformer):

    def visit_Call(self, node):
        self.generic_visit(node)
        if isinstance(node.func, ast.Name) and (node.func.id in SKIP_CALLS or node.func.id.startswith('_sx_')):
            return node
        node.func = call('_sx_pick', node.func)
        return node

    BIN = {ast.Mod: '_sx_mod', ast.Sub: '_sx_sub', ast.BitAnd: '_sx_and', ast.BitOr: '_sx_or', ast.BitXor: '_sx_xor'}
    CMP = {ast.Eq: '_sx_eq', ast.NotEq: '_sx_ne', ast.In: '_sx_in', ast.NotIn: '_sx_notin',
           ast.LtE: '_sx_le', ast.Lt: '_sx_lt', ast.GtE: '_sx_ge', ast.Gt: '_sx_gt'}

    def visit_BinOp(self, node):
        self.generic_visit(node)
        h = self.BIN.get(type(node.op))
        if h is None:
            return node
        return call(h, node.left, node.right)

    def visit_AugAssign(self, node):
        self.generic_visit(node)
        h = self.BIN.get(type(node.op))
        if h == '_sx_mod' and isinstance(node.target, ast.Name):
            return ast.Assign(targets=[node.target], value=call(h, name(node.target.id), node.value))
        return node

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1:
            h = self.CMP.get(type(node.ops[0]))
            if h is not None:
                return call(h, node.left, node.comparators[0])
            return node
        if any(isinstance(n, (ast.Yield, ast.YieldFrom, ast.Await, ast.NamedExpr)) for n in ast.walk(node)):
            return node
        return self.chain(node.left, node.ops, node.comparators)

    def compare(self, left, op, right):
        h = self.CMP.get(type(op))
        return call(h, left, right) if h is not None else ast.Compare(left=left, ops=[op], comparators=[right])

    def chain(self, left, ops, rights):
        """a < b < c, evaluating b only once, and c only if it is needed."""
        if len(ops) == 1:
            return self.compare(left, ops[0], rights[0])
        if isinstance(rights[0], (ast.Name, ast.Constant)):
            return ast.BoolOp(op=ast.And(), values=[self.compare(left, ops[0], rights[0]),
                                                    self.chain(copy.deepcopy(rights[0]), ops[1:], rights[1:])])
        if self.class_body:  # names of the class are not seen from a lambda
            return ast.Compare(left=left, ops=ops, comparators=rights)
        body = ast.BoolOp(op=ast.And(), values=[self.compare(name('_sx_a'), ops[0], name('_sx_b')),
                                                self.chain(name('_sx_b'), ops[1:], rights[1:])])
        arguments = ast.arguments(posonlyargs=[], args=[ast.arg(arg='_sx_a'), ast.arg(arg='_sx_b')], vararg=None,
                                  kwonlyargs=[], kw_defaults=[], kwarg=None, defaults=[])
        return ast.Call(func=ast.Lambda(args=arguments, body=body), args=[left, rights[0]], keywords=[])

    class_body = False

    def scoped(self, node, class_body):
        before, self.class_body = self.class_body, class_body
        node = self.generic_visit(node)
        self.class_body = before
        return node

    def visit_ClassDef(self, node):
        return self.scoped(node, True)

    def visit_FunctionDef(self, node):
        return self.scoped(node, False)

    def visit_Lambda(self, node):
        return self.scoped(node, False)

    def visit_JoinedStr(self, node):
        parts = []
        for v in node.values:
            if isinstance(v, ast.FormattedValue):
                parts.append(self.formatted(v))
            else:
                parts.append(v)
        return call('_sx_fstr', *parts)

    def formatted(self, v):
        conv = {-1: None, 115: 's', 114: 'r', 97: 'a'}[v.conversion]
        spec = ast.Constant(value='') if v.format_spec is None else self.visit(v.format_spec)
        return ast.Tuple(elts=[self.visit(v.value), ast.Constant(value=conv), spec], ctx=ast.Load())

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if isinstance(node.slice, ast.Slice) or (isinstance(node.slice, ast.Tuple) and any(
                isinstance(e, ast.Slice) for e in node.slice.elts)):
            return node
        index = node.slice
        if isinstance(index, ast.Index):      # python < 3.9
            index = index.value
        if isinstance(node.ctx, ast.Load):
            return call('_sx_getitem', node.value, index)
        node.value = call('_sx_store', node.value)
        return node

    def visit_Dict(self, node):
        self.generic_visit(node)
        if not node.keys:
            return node
        if all(isinstance(k, ast.Constant) for k in node.keys):
            return node
        entries = [ast.Tuple(elts=[v] if k is None else [k, v], ctx=ast.Load()) for k, v in zip(node.keys, node.values)]
        return call('_sx_displaydict', *entries)

    def visit_Set(self, node):
        self.generic_visit(node)
        return call('_sx_displayset', *node.elts)

    def visit_DictComp(self, node):
        self.generic_visit(node)
        gen = ast.GeneratorExp(elt=ast.Tuple(elts=[node.key, node.value], ctx=ast.Load()), generators=node.generators)
        return call('_sx_mkdict', gen)

    def visit_SetComp(self, node):
        self.generic_visit(node)
        return call('_sx_mkset', ast.GeneratorExp(elt=node.elt, generators=node.generators))

    def visit_AnnAssign(self, node):
        if node.value is not None:
            node.value = self.visit(node.value)
        return node


class Steps(ast.NodeTransformer):
    """A call of the scheduler before each statement of each function (or at the start of the function)."""

    def __init__(self, statements):
        self.statements = statements
        self.inside = False

    def step(self, at):
        return ast.copy_location(ast.Expr(value=ast.copy_location(ast.Call(
            func=ast.copy_location(name('_sx_step'), at), args=[], keywords=[]), at)), at)

    def block(self, body):
        out = []
        for i, n in enumerate(body):
            if self.inside and self.statements and not (
                    isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)) and not isinstance(n, (ast.Global, ast.Nonlocal)):
                out.append(self.step(n))
            out.append(self.visit(n))
        return out

    def visit_FunctionDef(self, node):
        inside, self.inside = self.inside, True
        node = self.generic_visit(node)
        self.inside = inside
        if not self.statements:
            start = 1 if isinstance(node.body[0], ast.Expr) and isinstance(node.body[0].value, ast.Constant) else 0
            node.body.insert(start, self.step(node.body[0]))
        return node

    def visit_ClassDef(self, node):
        inside, self.inside = self.inside, False
        node = self.generic_visit(node)
        self.inside = inside
        return node

    def generic_visit(self, node):
        for field in ('body', 'orelse', 'finalbody', 'handlers'):
            old = getattr(node, field, None)
            if isinstance(old, list) and not isinstance(node, ast.Lambda):
                setattr(node, field, [self.visit(h) for h in old] if field == 'handlers' else self.block(old))
        return node


class Functions(ast.NodeTransformer):
    """A note of each function that runs."""

    def __init__(self, module):
        self.names = [module]

    def inner(self, node):
        self.names.append(node.name)
        node = self.generic_visit(node)
        self.names.pop()
        return node

    visit_ClassDef = inner

    def visit_FunctionDef(self, node):
        self.inner(node)
        first = node.body[0]
        start = 1 if isinstance(first, ast.Expr) and isinstance(first.value, ast.Constant) else 0
        note = ast.Expr(value=call('_sx_seen', ast.Constant(value='.'.join(self.names + [node.name]))))
        for n in ast.walk(note):
            ast.copy_location(n, first)
        node.body.insert(start, note)
        return node


STEPS = []      # the packages with steps
SEEN = set()    # the functions that did run


def with_steps(tree, fullname):
    top = fullname.split('.')[0]
    return Steps(top == 'whatami').visit(tree) if top in STEPS else tree


def instrument_source(source, filename, fullname=''):
    tree = with_steps(ast.parse(source, filename), fullname)
    if fullname.split('.')[0] == 'whatami':
        tree = Functions(fullname).visit(tree)
    tree = Instrument().visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, filename, 'exec', dont_inherit=True)


class Loader(importlib.machinery.SourceFileLoader):

    def get_code(self, fullname):
        path = self.get_filename(fullname)
        source = self.get_data(path)
        INSTRUMENTED[fullname] = path
        if PLAIN:
            tree = with_steps(ast.parse(source, path), fullname)
            return compile(ast.fix_missing_locations(tree), path, 'exec', dont_inherit=True)
        return instrument_source(source, path, fullname)

    def exec_module(self, module):
        module.__dict__.update({} if PLAIN else ops.HELPERS)
        module.__dict__['_sx_seen'] = SEEN.add
        if STEPS:
            module.__dict__['_sx_step'] = sched.point if self.name.split('.')[0] == 'whatami' else sched.library_point
        super(Loader, self).exec_module(module)


INSTRUMENTED = {}


class Finder(importlib.abc.MetaPathFinder):

    def __init__(self, prefixes, excludes=()):
        self.prefixes = prefixes
        self.excludes = excludes

    def find_spec(self, fullname, path, target=None):
        if not any(fullname == p or fullname.startswith(p + '.') for p in self.prefixes):
            return None
        if any(fullname == p or fullname.startswith(p + '.') for p in self.excludes):
            return None
        spec = importlib.machinery.PathFinder.find_spec(fullname, path)
        if spec is None or not isinstance(spec.loader, importlib.machinery.SourceFileLoader):
            return spec
        spec.loader = Loader(spec.loader.name, spec.loader.path)
        return spec


PLAIN = []      # nothing but steps


def install(prefixes, excludes=(), steps=(), plain=False):
    sys.dont_write_bytecode = True
    STEPS[:] = steps
    PLAIN[:] = [True] if plain else []
    sys.meta_path.insert(0, Finder(tuple(prefixes), tuple(excludes)))
