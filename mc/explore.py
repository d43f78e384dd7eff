"""Stateless explorer: enumerates every sequence of answers the environment can give.

An execution is a call of ``body(ctx)``.  Whenever the code under test asks the environment for
something we own (a permutation, a gamma draw, the next task of the dask bag ...) the stand-in calls
``ctx.choose(n, tag)``.  The explorer replays a prefix of choices and takes answer 0 afterwards, then
branches on every later choice point (depth-first), optionally bounding the number of choices that
depart from the default answer 0 (deviation bound).  Out-of-range replays and diverging prefixes are
hard errors.
"""


class Divergence(RuntimeError):
    pass


class Ctx:
    __slots__ = ("prefix", "choices", "points", "cap")

    def __init__(self, prefix=(), cap=100000):
        self.prefix = prefix
        self.choices = []
        self.points = []       # (n, tag)
        self.cap = cap

    def choose(self, n, tag=""):
        if n < 1:
            raise Divergence("choice point %r without alternatives" % (tag,))
        i = len(self.choices)
        if i >= self.cap:
            raise Divergence("horizon of %d choice points exceeded" % self.cap)
        if i < len(self.prefix):
            c = self.prefix[i][0] if isinstance(self.prefix[i], tuple) else self.prefix[i]
            if c >= n:
                raise Divergence("replayed choice %d out of range %d at point %d (%r)" % (c, n, i, tag))
            if isinstance(self.prefix[i], tuple) and self.prefix[i][1] != (n, tag):
                raise Divergence("replay diverged at point %d: %r != %r" % (i, (n, tag), self.prefix[i][1]))
        else:
            c = 0
        self.choices.append(c)
        self.points.append((n, tag))
        return c


class Stats:
    def __init__(self):
        self.executions = 0
        self.points = 0
        self.max_depth = 0
        self.pruned = 0       # branches cut by the deviation bound
        self.outcomes = set()

    def merge(self, o):
        self.executions += o.executions
        self.points += o.points
        self.max_depth = max(self.max_depth, o.max_depth)
        self.pruned += o.pruned
        self.outcomes |= o.outcomes


def explore(body, bound=None, stats=None, max_exec=None):
    """Yield (ctx, result) for every execution of body within the deviation bound."""
    stats = stats if stats is not None else Stats()
    stack = [()]
    while stack:
        prefix = stack.pop()
        ctx = Ctx(prefix)
        res = body(ctx)
        stats.executions += 1
        stats.points += len(ctx.points)
        stats.max_depth = max(stats.max_depth, len(ctx.points))
        if len(ctx.choices) < len(prefix):
            raise Divergence("execution ended before its prefix was replayed")
        yield ctx, res
        if max_exec is not None and stats.executions >= max_exec:
            raise Divergence("execution cap %d reached: the exploration would not be exhaustive" % max_exec)
        rec = tuple(zip(ctx.choices, ctx.points))
        dev = sum(1 for c in ctx.choices[:len(prefix)] if c)
        for i in range(len(ctx.points) - 1, len(prefix) - 1, -1):
            n = ctx.points[i][0]
            if bound is not None and dev + 1 > bound:
                stats.pruned += n - 1
                continue
            for alt in range(n - 1, 0, -1):
                stack.append(rec[:i] + ((alt, ctx.points[i]),))
