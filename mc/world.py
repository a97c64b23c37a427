"""A controlled process group: every rank is a thread, exactly one of them runs at a
time, and a scheduler decides at each collective which rank continues.

Collectives are matched in the order in which each rank issues them, as real process
groups do. A mismatch in kind, shape, data type or reduction and ranks that wait forever
are violations.
"""

import threading

import torch
import torch.distributed as dist

from mc.core import Violation


class Abort(Exception):
    """Ends the threads of an execution that is given up."""


class Post:
    """A collective issued by one rank."""

    def __init__(self, kind, tensor, op, extra=None):
        self.kind, self.tensor, self.op, self.extra = kind, tensor, op, extra
        self.done = False
        self.result = None

    def signature(self):
        t = self.tensor
        shape = None if t is None else (tuple(t.shape), t.dtype)
        return self.kind, shape, self.op, self.extra


class Handle:
    """What an asynchronous collective returns."""

    def __init__(self, world, post, late):
        self.world, self.post, self.late = world, post, late

    def wait(self, *args, **kwargs):
        self.world.block_until(lambda: self.post.done)
        if self.late and self.post.result is not None:
            self.post.tensor.data.copy_(self.post.result)
            self.post.result = None
        return True

    def is_completed(self):
        return self.post.done

    def get_future(self):
        return self

    def value(self):
        self.wait()
        return [self.post.tensor]


class World:
    """`choose(options)` picks the position of the next rank among the runnable ones."""

    def __init__(self, size, choose, late=True):
        self.size, self.choose, self.late = size, choose, late
        self.local = threading.local()
        self.posts = [[] for _ in range(size)]
        self.completed = 0
        self.waiting = [None] * size
        self.finished = [False] * size
        self.errors = [None] * size
        self.go = [threading.Semaphore(0) for _ in range(size)]
        self.back = threading.Semaphore(0)
        self.aborting = False
        self.collectives = 0

    # ------------------------------------------------------------- called by ranks
    def block_until(self, cond):
        r = self.local.rank
        self.waiting[r] = cond
        self.back.release()
        self.go[r].acquire()
        self.waiting[r] = None
        if self.aborting:
            raise Abort()

    def issue(self, kind, tensor, op, async_op, extra=None):
        r = self.local.rank
        if tensor is not None and not tensor.is_contiguous():
            raise ValueError("Tensors must be contiguous")
        post = Post(kind, tensor, op, extra)
        self.posts[r].append(post)
        if async_op:
            return Handle(self, post, self.late)
        self.block_until(lambda: post.done)
        if post.result is not None:
            tensor.data.copy_(post.result)
            post.result = None
        return None

    def all_reduce(self, tensor, op=dist.ReduceOp.SUM, group=None, async_op=False):
        return self.issue("all_reduce", tensor, op, async_op)

    def barrier(self, group=None, async_op=False, device_ids=None):
        return self.issue("barrier", None, None, async_op)

    def broadcast(self, tensor, src=0, group=None, async_op=False):
        return self.issue("broadcast", tensor, None, async_op, src)

    def all_gather(self, tensor_list, tensor, group=None, async_op=False):
        parts = torch.zeros((self.size,) + tuple(tensor.shape), dtype=tensor.dtype)
        parts[self.local.rank] = tensor
        self.issue("all_reduce", parts, dist.ReduceOp.SUM, False)
        for out, part in zip(tensor_list, parts):
            out.copy_(part)
        return Handle(self, Post("none", None, None), False) if async_op else None

    # --------------------------------------------------------------- the scheduler
    def match(self):
        """Complete all collectives that every rank has issued."""
        while all(len(p) > self.completed for p in self.posts):
            group = [p[self.completed] for p in self.posts]
            sigs = [p.signature() for p in group]
            if any(s != sigs[0] for s in sigs):
                raise Violation(
                    f"collective {self.completed} does not match between ranks: {sigs}"
                )
            self.completed += 1
            self.collectives += 1
            if group[0].kind == "all_reduce":
                total = group[0].tensor.data.clone()
                for p in group[1:]:
                    total = total + p.tensor.data
                op = group[0].op
                if op == dist.ReduceOp.AVG:
                    total = total / self.size
                elif op != dist.ReduceOp.SUM:
                    raise Violation(f"unexpected reduction {op}")
                for p in group:
                    p.result = total.clone()
            elif group[0].kind == "broadcast":
                for p in group:
                    p.result = group[p.extra].tensor.data.clone()
            for p in group:
                p.done = True
                if not self.late and p.result is not None:
                    p.tensor.data.copy_(p.result)
                    p.result = None

    def _thread(self, r, fn):
        self.local.rank = r
        self.go[r].acquire()
        try:
            if not self.aborting:
                fn(r)
        except Abort:
            pass
        except BaseException as e:  # handed over to the scheduler
            self.errors[r] = e
        finally:
            self.finished[r] = True
            self.back.release()

    def run(self, fn):
        """Run `fn(rank)` on all ranks."""
        fakes = {
            "is_available": lambda: True,
            "is_initialized": lambda: True,
            "get_world_size": lambda group=None: self.size,
            "get_rank": lambda group=None: self.local.rank,
            "get_backend": lambda group=None: "nccl",
            "all_reduce": self.all_reduce,
            "barrier": self.barrier,
            "broadcast": self.broadcast,
            "all_gather": self.all_gather,
        }
        saved = {name: getattr(dist, name) for name in fakes}
        threads = [
            threading.Thread(target=self._thread, args=(r, fn), daemon=True)
            for r in range(self.size)
        ]
        try:
            for name, fake in fakes.items():
                setattr(dist, name, fake)
            for t in threads:
                t.start()
            while not all(self.finished):
                runnable = [
                    r
                    for r in range(self.size)
                    if not self.finished[r]
                    and (self.waiting[r] is None or self.waiting[r]())
                ]
                if not runnable:
                    stuck = [r for r in range(self.size) if not self.finished[r]]
                    counts = [len(p) for p in self.posts]
                    raise Violation(
                        f"ranks {stuck} wait forever (collectives issued: {counts})"
                    )
                r = runnable[self.choose(len(runnable))]
                self.go[r].release()
                self.back.acquire()
                if self.errors[r] is not None:
                    raise self.errors[r]
                self.match()
            if len({len(p) for p in self.posts}) > 1:
                raise Violation(
                    f"ranks issue different numbers of collectives: "
                    f"{[len(p) for p in self.posts]}"
                )
        finally:
            self.aborting = True
            for r, t in enumerate(threads):
                while t.is_alive():
                    self.go[r].release()
                    t.join(0.05)
            for name, value in saved.items():
                setattr(dist, name, value)


def all_schedules(execute, prefix=()):
    """Depth-first enumeration of all schedules that begin with `prefix`.

    `execute(choose)` performs one complete execution.
    """
    stack = list(prefix)
    fixed = len(prefix)
    while True:
        trace = []

        def choose(n):
            i = len(trace)
            c = stack[i] if i < len(stack) else 0
            trace.append((c, n))
            return min(c, n - 1)

        execute(choose)
        yield [c for c, _ in trace]
        # next schedule
        while len(trace) > fixed and trace[-1][0] + 1 >= trace[-1][1]:
            trace.pop()
        if len(trace) <= fixed:
            return
        stack = [c for c, _ in trace]
        stack[-1] += 1
