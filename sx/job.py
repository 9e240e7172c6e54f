"""Jobs: a harness with its bounds."""


class Job(object):

    def __init__(self, name, fn, bounds, weight=1., run_timeout=20., conc_cap=6):
        self.name = name
        self.fn = fn
        self.bounds = bounds
        self.weight = weight
        self.run_timeout = run_timeout
        self.conc_cap = conc_cap


def load(prop):
    """The jobs of a property for the tier, from its module."""
    import importlib
    return importlib.import_module('sx.props.%s' % prop.lower())
