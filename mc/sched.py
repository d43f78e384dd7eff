"""A dask scheduler owned by the explorer.

Every ``.compute()`` the code under test issues ends here.  At each step the explorer picks which of
the ready tasks runs next (all orders are enumerated; tasks that merely carry data are executed
eagerly, they contain no code of the program and commute with everything).  In ``isolated`` mode every
task runs on its own pickled copy of its closure and returns a pickled result, as in dask's process
pool; in ``shared`` mode all tasks see the same objects, as in the threaded/synchronous schedulers.
"""
import contextlib

import cloudpickle
import dask
from dask._task_spec import Alias, DataNode, convert_legacy_graph


class Sched:
    def __init__(self, ctx, isolated=False):
        self.ctx = ctx
        self.isolated = isolated
        self.tasks = 0
        self.graphs = 0

    def get(self, dsk, keys, **kw):
        if not isinstance(dsk, dict):
            dsk = dsk.__dask_graph__()
        graph = convert_legacy_graph(dict(dsk))
        self.graphs += 1
        done = {}
        todo = dict(graph)
        while todo:
            ready = [k for k, n in todo.items() if all(d in done for d in n.dependencies)]
            if not ready:
                raise RuntimeError("dask graph has a cycle")
            eager = [k for k in ready if isinstance(todo[k], (DataNode, Alias))]
            if eager:
                k = eager[0]
            else:
                ready.sort(key=str)
                k = ready[self.ctx.choose(len(ready), "task%d" % len(ready)) if len(ready) > 1 else 0]
            node = todo.pop(k)
            if self.isolated and not isinstance(node, (DataNode, Alias)):
                node = cloudpickle.loads(cloudpickle.dumps(node))
                v = node({d: done[d] for d in node.dependencies})
                v = cloudpickle.loads(cloudpickle.dumps(v))
            else:
                v = node({d: done[d] for d in node.dependencies})
            self.tasks += 1
            done[k] = v

        def pick(ks):
            if isinstance(ks, list):
                return [pick(x) for x in ks]
            return done[ks]
        return pick(keys)


@contextlib.contextmanager
def controlled(sched):
    with dask.config.set(scheduler=sched.get):
        yield sched
