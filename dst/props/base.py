from ..target import T  # noqa


class Base:
    id = None
    episodes = {'quick': 100, 'thorough': 2000}
    rule = ''
    measure = ''
    real = ['the whole pydtmc package from the working tree', 'NumPy, SciPy, NetworkX, CPython']
    stub = []
    assumptions = []

    def generate(self, rng, i, tier):
        raise NotImplementedError

    def execute(self, ep, ctx):
        raise NotImplementedError

    def shrinkable(self, ep):
        return []
