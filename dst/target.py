"""Imports the library under test from the working tree of the repository, never from cached bytecode."""

import os
import sys
import warnings

from . import core


class _Target:
    pass


T = _Target()


def load():
    if hasattr(T, 'pydtmc'):
        return T
    warnings.simplefilter('ignore')
    import numpy, numpy.linalg, numpy.random, numpy.random.mtrand  # noqa
    import scipy, scipy.sparse, scipy.stats, scipy.optimize, scipy.integrate  # noqa
    import networkx  # noqa
    import matplotlib, matplotlib.pyplot, matplotlib.colors, matplotlib.cm, matplotlib.image, matplotlib.patches, matplotlib.ticker  # noqa
    import xml.etree.ElementTree, csv, json, inspect, threading, subprocess  # noqa
    for name in ('defusedxml.ElementTree', 'pandas', 'pydot', 'numpydoc.docscrape'):
        try:
            __import__(name)
        except Exception:  # noqa
            pass
    from . import sched
    sched.install()
    prefix = sys.pycache_prefix
    sys.pycache_prefix = os.path.join(core.HOME, 'build', 'no-bytecode')
    sys.path.insert(0, core.REPO)
    try:
        import pydtmc
        import pydtmc.exceptions  # noqa
    finally:
        sys.pycache_prefix = prefix
    where = os.path.realpath(os.path.dirname(pydtmc.__file__))
    if where != os.path.realpath(os.path.join(core.REPO, 'pydtmc')):
        raise RuntimeError(f'the library was imported from {where}')
    T.pydtmc = pydtmc
    T.np = numpy
    T.MC = pydtmc.MarkovChain
    T.HMM = pydtmc.HiddenMarkovModel
    T.ValidationError = pydtmc.ValidationError if hasattr(pydtmc, 'ValidationError') else __import__('pydtmc.exceptions', fromlist=['x']).ValidationError
    T.prefix = os.path.join(where, '')
    import copy
    T.traced = (T.prefix, copy.copy.__code__.co_filename)      # where threads may be pre-empted
    return T
