"""C23: scikit-learn objects are identified by their parameters."""
import inspect
import json
import os
import warnings

warnings.simplefilter('ignore')
warnings.showwarning = lambda *args, **kwargs: None     # sklearn resets the filters
import logging
logging.disable(logging.WARNING)

from whatami import What
from whatami.wrappers import what_sklearn as W
from sklearn.base import BaseEstimator

from sx.job import Job
from .common import render, sorted_keys, insertion_sort

ASSUMPTIONS = ['Parameters hold scalars, estimators or lists and tuples of them (arrays and functions are rendered by other '
               'plugins). scikit-learn itself runs natively (get_params).',
               'c23_registry.json lists the short names and the parameters that are known not to change results, per class: '
               'registering other parameters as non-id is reported, registering less of them is not.',
               'Classes that cannot be made without arguments are made without calling their constructor, and all their '
               'parameters are set.']

W.whatamize_sklearn()
with open(os.path.join(os.path.dirname(__file__), 'c23_registry.json')) as f:
    KNOWN = json.load(f)
CLASSES = [(n, m.object) for n, m in W._SKLRegistry.items()]


class MyEstimator(BaseEstimator):
    """Not registered."""

    def __init__(self, b=1, a=None, _c=3, d_=4, verbose=0, n_jobs=1, random_state=None, copy=True):
        self.b = b
        self.verbose = verbose
        self.n_jobs = n_jobs
        self.random_state = random_state
        self.copy = copy
        self.a = a
        self._c = _c
        self.d_ = d_
        self.fitted_ = 1
        self.other = 2


class Sub(BaseEstimator):
    """Not registered, with its own parameter access."""

    def __init__(self, x=1):
        self.x = x

    def get_params(self, deep=True):
        return {'x': self.x, 'more': 3} if not deep else {'x': self.x, 'x__deep': 4}


def params_of(cls):
    args = inspect.getfullargspec(cls.__init__)[0] if cls.__init__ is not object.__init__ else []
    return [a for a in args if a != 'self']


def make(cls):
    """An object with all its constructor parameters."""
    try:
        return cls()
    except TypeError:
        x = cls.__new__(cls)
        for p in params_of(cls):
            setattr(x, p, None)
        return x


def scalar(c):
    return c.scalar(strlen=1, floats=False)


def expected_conf(x):
    """Parameters of an object."""
    if hasattr(x, 'get_params'):
        return x.get_params(deep=False)
    return {k: v for k, v in vars(x).items() if not k.startswith('_') and not k.endswith('_')}


def name_of(x, short=True):
    n = x.__class__.__name__
    return KNOWN[n][0] if short and n in KNOWN else n


def nonids(x):
    """Non-id parameters: the registered ones, which have to be among the known ones."""
    n = x.__class__.__name__
    meta = W._SKLRegistry.get(n)
    return tuple(meta.non_id_params) if meta is not None else ()


def as_what(x, short=True):
    """The configuration an object should have, with nested ones converted."""
    if isinstance(x, (list, tuple)):
        return type(x)([as_what(y) for y in x])
    if not hasattr(x, 'what'):
        return x
    return What(name_of(x, short), {k: as_what(v) for k, v in expected_conf(x).items()}, non_id_keys=nonids(x))


def check(c, x, nested=False, short=True):
    w = x.what() if short else x.what(use_short=False)
    conf = expected_conf(x)
    c.check_same(w.name, name_of(x, short), 'the name is the registered one')
    c.check(w.out_name is None, 'there is no output name')
    c.check_same(insertion_sort(list(w.conf.keys())), insertion_sort(list(conf.keys())), 'exactly the parameters are described')
    for k, v in conf.items():
        c.check(w.conf[k] is v, 'parameters have their current values')
    allowed = KNOWN.get(x.__class__.__name__, (None, ()))[1]
    shown = w.id()
    c.check_same(shown, render(as_what(x, short)), 'the id shows all the parameters but the registered ones')
    for k in conf:
        c.check(k in allowed or k not in w.non_id_keys, 'parameters that change results are part of the id')
        c.check(k not in nonids(x) or k in w.non_id_keys, 'registered non-id parameters are out of the id')


def fill(c, x, n):
    """Sets all the parameters; n of them to any value."""
    keys = sorted_keys(expected_conf(x))
    for k in keys:
        setattr(x, k, 1)
    for i in range(min(n, len(keys))):
        setattr(x, keys[(c.choose(len(keys), 'parameter') if n == 1 else i)], scalar(c))


def registered(part, parts):
    def harness(c):
        mine = [nc for i, nc in enumerate(CLASSES) if i % parts == part]
        name, cls = mine[c.choose(len(mine), 'class')]
        x = make(cls)
        fill(c, x, 1)
        c.show(name, {k: v for k, v in vars(x).items()})
        check(c, x, short=not c.bool('long'))
    return harness


def known(c):
    """All the classes that were registered still are."""
    n = c.pick(sorted(KNOWN), 'class')
    c.show(n)
    c.check(n in W._SKLRegistry, 'known classes are registered')
    c.check_same(W._SKLRegistry[n].short_name, KNOWN[n][0], 'with their short names')


def values(c):
    """Several values of any kind at once, changed afterwards."""
    cls = c.pick([dict(CLASSES)[n] for n in ('RandomForestClassifier', 'Ridge', 'KFold', 'RBF', 'StratifiedShuffleSplit',
                                              'Pipeline')] + [MyEstimator, Sub])
    x = make(cls)
    if cls is Sub:
        x.x = scalar(c)
    else:
        fill(c, x, 3)
    c.show(cls.__name__, vars(x))
    check(c, x)
    keys = [k for k in sorted_keys(expected_conf(x)) if hasattr(x, k)]
    setattr(x, c.pick(keys, 'changed'), c.int(0, 9))
    check(c, x)


def texts(c):
    """Longer texts, and names of parameters, of unregistered estimators."""
    n = c.choose(14, 'length') + 2
    k = c.choose(4, 'class')
    if k == 0:
        x = MyEstimator(a=c.str(n, n), b=c.int(0, 9))
    elif k == 1:
        x = Sub(c.str(n, n))
    elif k == 2:
        x = make(dict(CLASSES)['RandomForestClassifier'])
        fill(c, x, 0)
        x.criterion = c.str(n, n)
    else:
        x = make(dict(CLASSES)['KFold'])
        fill(c, x, 0)
        x.shuffle = c.str(n, n)
    c.show(vars(x))
    check(c, x)


def inner(c, depth):
    classes = dict(CLASSES)
    k = c.choose(5 if depth else 3, 'inner')
    x = classes[('Ridge', 'KFold', 'PCA', 'BaggingClassifier', 'Pipeline')[k]]
    x = make(x)
    fill(c, x, 0)
    for p in list(expected_conf(x)):
        if p in ('copy', 'alpha', 'n_splits', 'n_jobs'):
            setattr(x, p, c.int(0, 9))
    if k == 3:
        x.base_estimator = inner(c, depth - 1)
    elif k == 4:
        x.steps = [('a', inner(c, depth - 1)), (c.ident(1, 1), inner(c, depth - 1))]
    return x


def nested(c):
    x = inner(c, 2)
    c.show(x.what())
    check(c, x)


def unregistered(c):
    """Objects without parameter access, registered or not, are described by their public attributes."""
    classes = dict(CLASSES)
    base = classes[c.pick(['KFold', 'ShuffleSplit', 'LeaveOneOut', 'RepeatedStratifiedKFold'], 'base')]
    if c.bool('subclass'):
        cls = type('Mine', (base,), {})
    else:
        cls = base
    x = make(cls)
    fill(c, x, 0)
    name = c.ident(1, 2)
    setattr(x, 'p_' + name, scalar(c))
    setattr(x, 'n', c.int(0, 9))
    x._private = 5
    x.learned_ = 6
    c.show(cls.__name__, vars(x))
    if 'p_' + name != 'what' and not ('p_' + name).endswith('_'):
        check(c, x)


def own(c):
    """Classes with their own what are left alone."""
    from whatami.whatutils import whatamize_object

    class A(object):
        def what(self):
            return 'mine'

    class B(object):
        pass
    v = c.int()
    force = c.bool('force')
    whatamize_object(A, lambda s: v, force=force)
    whatamize_object(B, lambda s: v, force=force)
    c.show(force, v)
    c.check_same(A().what(), v if force else 'mine', 'classes with their own what are only replaced when forced')
    c.check_same(B().what(), v, 'classes without what get it')


def jobs(tier):
    return [Job('registered%d' % i, registered(i, 4), 'a quarter of the registered classes, one parameter with any scalar, '
                'short and long names', 2) for i in range(4)] + \
           [Job('known', known, 'all the known classes', .5),
            Job('values', values, '8 classes, three parameters with any scalar, one changed afterwards', 2),
            Job('texts', texts, '4 classes, one parameter with a text of 2..15 characters', .7),
            Job('nested', nested, 'estimators nested up to depth 3', 2),
            Job('unregistered', unregistered, '4 classes and subclasses, attributes of any names'),
            Job('own', own, 'two classes', .5)]
