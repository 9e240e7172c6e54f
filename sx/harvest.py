"""Constants of the code under test: sizes and texts worth trying besides the default bounds."""
import ast
import glob
import os
import re
import warnings

REPO = os.environ.get('WHATAMI_REPO', '/repo')


def _files():
    for p in sorted(glob.glob(os.path.join(REPO, 'whatami', '**', '*.py'), recursive=True)):
        if os.sep + 'tests' + os.sep not in p and 'what_sklearn' not in p:
            yield p


def _docstrings(tree):
    for n in ast.walk(tree):
        if isinstance(n, (ast.Module, ast.FunctionDef, ast.ClassDef)) and n.body and isinstance(n.body[0], ast.Expr) \
                and isinstance(n.body[0].value, ast.Constant):
            yield id(n.body[0].value)


def constants():
    ints, large, strs = set(), set(), set()
    for p in _files():
        try:
            with open(p, encoding='utf-8') as f:
                with warnings.catch_warnings():
                    warnings.simplefilter('ignore')
                    tree = ast.parse(f.read())
        except (OSError, SyntaxError, UnicodeError):
            continue
        docs = set(_docstrings(tree))
        inside = set()
        for fn in ast.walk(tree):
            if isinstance(fn, ast.FunctionDef):
                for n in ast.walk(fn):
                    if isinstance(n, ast.Constant) and id(n) not in docs:
                        inside.add(n)
        for n in tree.body + [m for c in ast.walk(tree) if isinstance(c, ast.ClassDef) for m in c.body]:
            if isinstance(n, (ast.Assign, ast.AnnAssign)) and isinstance(n.value, ast.Constant) and type(n.value.value) is int:
                inside.add(n.value)
        for n in inside:
            v = n.value
            if type(v) is str:      # e.g. those of regular expressions
                ints.update(i for i in map(int, [x for m in re.findall(r'(?<=[\])\w.])\{(\d*),?(\d*)\}', v) for x in m if x]) if 3 <= i <= 4096)
            if type(v) is int and 3 <= abs(v) <= 2 ** 18:
                (ints if abs(v) <= 4096 else large).add(abs(v))
            elif type(v) is str and v.isidentifier() and len(v) <= 16:
                strs.add(v)
    return sorted(ints), sorted(large), sorted(strs)


INTS, LARGE, STRS = constants()


def lengths(lo=4, hi=400):
    """Lengths around the integer constants, and those of the words."""
    r = set()
    for i in INTS:
        r.update((i - 1, i, i + 1))
    return sorted(x for x in r if lo <= x <= hi)


def large():
    """Lengths around the larger constants."""
    return sorted({j for i in LARGE for j in (i - 1, i, i + 1)})


def word_lengths(lo=1, hi=16):
    return sorted({len(s) for s in STRS if lo <= len(s) <= hi})


def sizes(hi=130):
    return [n for n in lengths(3, hi)]
