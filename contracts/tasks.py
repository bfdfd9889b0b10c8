"""Contracts of Process.py and ThreadPool.py (C25), one thread."""
from engine.api import *

QUEUE = "queue.Queue by a stand-in: first in, first out; get takes the oldest, empty/qsize report what is queued"


class Empty(Exception):
    pass


class SymQueue:
    """queue.Queue, one thread: a list; waiting for ever is reported"""

    def __init__(self, maxsize=0):
        self.items = VList()
        self.unfinished = 0

    def put(self, x, block=True, timeout=None):
        self.items.append(x)
        self.unfinished = self.unfinished + 1

    put_nowait = put

    def get(self, block=True, timeout=None):
        if bool(core.E.eq(core.E.len(self.items), 0)):
            if not block or timeout is not None:
                raise Empty()
            core.E.check("C25 no waiting for ever on an empty queue", False)
            raise PathEnd()
        return self.items.pop(0)

    def get_nowait(self):
        return self.get(False)

    def qsize(self):
        return core.E.len(self.items)

    def empty(self):
        return bool(core.E.eq(core.E.len(self.items), 0))

    def task_done(self):
        core.E.check("C25 a task is not finished twice", self.unfinished > 0)
        self.unfinished = self.unfinished - 1

    def join(self):
        pass


LIB = {"queue": Namespace(Queue=SymQueue, Empty=Empty, SimpleQueue=SymQueue)}


def filled_queue(E, q, name="queued"):
    """any number of tasks in the queue; running one may queue others"""
    L0 = E.objlist(name, nonone=True)
    E.assume(E.forall("int", lambda k: E.implies(E.and_(k >= 0, k < E.len(L0)), SBool(TRUTHY(L0.at(k.t))))))
    n = E.len(L0)
    q.items = E.copylist(L0)
    extra = E.int("unfinished")
    E.assume(extra >= 0)
    q.unfinished = n + extra
    return L0, n


@contract("C25", "Process.TaskQueue.perform_tasks", [QUEUE])
def queue_perform(E):
    P = E.load("Process", lib=LIB)
    q = P.TaskQueue()
    L0, n = filled_queue(E, q)
    added = VList()
    g = E.ghost(ran=0, added=0)

    def call(o, a, k):
        E.check("C25 the queued tasks run in order, each once", E.eq(o, L0.elem(g.ran)), g.ran < n, not a and not k)
        g.ran = g.ran + 1
        if E.choose(2, "queues"):
            x = E.obj("new")
            E.assume(SBool(TRUTHY(x.t)), E.not_(E.eq(x, None)))
            q.put(x)
            added.append(x)
        return E.obj("result")
    E.call_handlers.append(call)
    E.hints.append(lambda L: E.eq(g.ran, L.i))
    E.hints.append(lambda L: L.i <= n)
    E.hints.append(lambda L: E.eq(E.len(q.items), n - L.i + E.len(added)))
    E.hints.append(lambda L: E.forall_in(n - L.i, lambda k: E.eq(q.items.elem(k), L0.elem(k + L.i))))
    E.hints.append(lambda L: E.forall_in(E.len(added), lambda k: E.eq(q.items.elem(k + n - L.i), added.elem(k))))
    E.hints.append(lambda L: q.unfinished >= n - L.i)
    E.int_hints.append(lambda L, x: E.eq(x, n - L.i))
    q.perform_tasks()
    E.check("C25 every task that was queued ran", E.eq(g.ran, n))
    E.check("C25 tasks queued meanwhile stay queued, in order", E.same_list(q.items, added))


@contract("C25", "Process.TaskQueue.clear_tasks", [QUEUE])
def queue_clear(E):
    P = E.load("Process", lib=LIB)
    q = P.TaskQueue()
    L0, n = filled_queue(E, q)

    def call(o, a, k):
        E.check("C25 discarding runs no task", False)
        return None
    E.call_handlers.append(call)
    E.hints.append(lambda L: L.i <= n)
    E.hints.append(lambda L: E.eq(E.len(q.items), n - L.i))
    E.hints.append(lambda L: q.unfinished >= n - L.i)
    E.int_hints.append(lambda L, x: E.eq(x, n - L.i))
    q.clear_tasks()
    E.check("C25 the queued tasks are discarded", E.eq(E.len(q.items), 0))


def task_dict(E, name="tasks"):
    """any tasks under any keys"""
    has, get = E.fresh_fn(name + "_has", Obj, BoolS), E.fresh_fn(name + "_get", Obj, Obj)
    E.assume(Quant(["obj"], lambda k: SBool(z3.And(get(k.t) != NONE, TRUTHY(get(k.t))))))
    d = VDict.symbolic(has, lambda k: E.lower(get(k)))
    d.havoc_ok = True
    return d, has, get


def dict_is(E, d, has, get):
    if not d.sym:
        d = VDict(d)
        pairs = [(obj_term(k), obj_term(v)) for k, v in d.d]
        h = lambda k: z3.Or([k == p for p, _ in pairs] or [z3.BoolVal(False)])

        def gt(k):
            r = NONE
            for p, v in pairs:
                r = z3.If(k == p, v, r)
            return r
    else:
        h, gt = d.has, lambda k: obj_term(d.get_(k))
    return Quant(["obj"], lambda k: SBool(z3.And(h(k.t) == has(k.t), z3.Implies(has(k.t), gt(k.t) == get(k.t)))))


@contract("C25", ["Process.TaskSet.add_task", "Process.TaskSet.clear_task"])
def set_edit(E):
    P = E.load("Process")
    s = P.TaskSet()
    D, has, get = task_dict(E)
    E.setp(s, "TaskSet", "task_dict", D)
    key, task = E.obj("key"), E.obj("task")
    if E.choose(2):
        s.add_task(key, task)
        E.check("C25 the latest task of a key replaces the earlier one, the others stay",
                dict_is(E, E.getp(s, "TaskSet", "task_dict"), lambda k: z3.Or(k == key.t, has(k)), lambda k: z3.If(k == key.t, task.t, get(k))))
    else:
        s.clear_task(key)
        E.check("C25 clearing removes the task of that key only", dict_is(E, E.getp(s, "TaskSet", "task_dict"), lambda k: z3.And(k != key.t, has(k)), get))


@contract("C25", "Process.TaskSet.perform_tasks")
def set_perform(E):
    P = E.load("Process")
    s = P.TaskSet()
    D, has, get = task_dict(E)
    E.setp(s, "TaskSet", "task_dict", D)
    # a different task under each key, so that runs can be told apart; one of them is followed
    KEY = E.fresh_fn("key_of", Obj, Obj)
    E.assume(Quant(["obj"], lambda k: SBool(z3.Implies(has(k.t), KEY(get(k.t)) == k.t))))
    k0 = E.obj("a_key")
    E.assume(SBool(has(k0.t)))
    keys = D.key_list()
    n, p0 = E.len(keys), SInt(keys.pos(k0.t))
    late = VDict()
    E.havoc_dicts = True
    g = E.ghost(ran=0, of0=0)

    def call(o, a, k):
        E.check("C25 only tasks of the set are run", SBool(z3.And(has(KEY(o.t)), get(KEY(o.t)) == o.t)), not a and not k)
        E.assume(SBool(z3.And(has(KEY(o.t)), get(KEY(o.t)) == o.t)))
        g.ran = g.ran + 1
        if bool(E.eq(o, SObj(get(k0.t)))):
            g.of0 = g.of0 + 1
        if E.choose(2, "adds"):
            x, y = E.obj("key"), E.obj("task")
            s.add_task(x, y)
            late[x] = y
        return None
    E.call_handlers.append(call)
    E.hints.append(lambda L: E.eq(g.ran, L.i))
    E.hints.append(lambda L: E.eq(g.of0, E.ite(p0 < L.i, 1, 0)))
    cur = lambda: E.getp(s, "TaskSet", "task_dict")
    E.hints.append(lambda L: dict_is(E, cur(), *fns(late)))
    s.perform_tasks()
    E.check("C25 each task of the set is run exactly once", E.eq(g.of0, 1))
    E.check("C25 as many runs as keys", E.eq(g.ran, n))
    E.check("C25 tasks added meanwhile are kept for the next run, the others are not", dict_is(E, cur(), *fns(late)))


def fns(d):
    if d.sym:
        return d.has, lambda k: obj_term(d.get_(k))
    pairs = [(obj_term(k), obj_term(v)) for k, v in d.d]

    def gt(k):
        r = NONE
        for p, v in pairs:
            r = z3.If(k == p, v, r)
        return r
    return (lambda k: z3.Or([k == p for p, _ in pairs] or [z3.BoolVal(False)])), gt


# ---- ThreadPool.py, driven without threads

QUIET = Namespace(print_exc=lambda *a, **k: None, print_stack=lambda *a, **k: None, format_exc=lambda *a, **k: "")
POOL_LIB = dict(LIB, traceback=QUIET)


@contract("C25", ["ThreadPool.ThreadPoolTask.cancel", "ThreadPool.ThreadPoolTask.execute"])
def pool_task(E):
    P = E.load("ThreadPool", lib=POOL_LIB)
    g = E.ghost(ran=0, finished=0, cancelled=False)
    box = []

    def meddle(depth):
        # the task's own functions may use the task again
        w = E.choose(3)
        if w == 1:
            box[0].cancel()
            g.cancelled = True
        elif w == 2:
            box[0].execute()

    def fn(*a, **k):
        E.check("C25 the function of a task runs at most once, and not once it is cancelled or finished", g.ran == 0, g.finished == 0, not g.cancelled, not a and not k)
        g.ran += 1
        meddle(1)
        if E.choose(2):
            raise [ValueError, KeyError, OSError][E.choose(3)]("task")

    def finished(*a):
        E.check("C25 a task reports its end once, itself, after running", g.finished == 0, len(a) == 1 and a[0] is box[0])
        g.finished += 1
        if g.finished == 1:
            meddle(2)
    t = P.ThreadPoolTask(fn, finished, [None, "text"][E.choose(2)])
    box.append(t)
    first = E.choose(2)
    if first:
        t.execute()
        E.check("C25 executing runs the function and reports the end", g.ran == 1, g.finished == 1)
    else:
        t.cancel()
        g.cancelled = True
        E.check("C25 cancelling reports the end without running", g.ran == 0, g.finished == 1)
    ran = g.ran
    was = dict(vars(t))
    if E.choose(2):
        t.execute()
    else:
        t.cancel()
    E.check("C25 a task that has ended does nothing more", g.ran == ran, g.finished == 1)
    E.check("C25 and stays ended", all(vars(t)[k] is was[k] for k in was) and set(was) == set(vars(t)))


RANK = "the tasks of a pool are numbered in the order they were queued"
TASK = "ThreadPoolTask by its contract (proved in pool_task): execute runs the function of a pending task once and reports its end, cancel only reports it"


def pool_state(E, closed=False):
    """a pool with any number of tasks queued and none running"""
    P = E.load("ThreadPool", lib=POOL_LIB)
    rank = E.fresh_fn("rank", Obj, IntS)
    g = E.ghost(ran=0, total=0, cancelled=0)
    st = Namespace(P=P, rank=rank, g=g, finish=None, runs=[], allowed=True)

    def make(fn, finished_fn, description=None):
        st.finish = finished_fn
        x = E.obj("task")
        E.assume(SBool(z3.And(x.t != NONE, TRUTHY(x.t))), E.eq(SInt(rank(x.t)), g.total))
        g.total = g.total + 1
        st.made = (fn, x)
        return x
    P.ThreadPoolTask = make
    pool = P.ThreadPool()
    pool.queue_fn(lambda: None)      # learns how the pool forgets a task
    if st.finish is None:
        raise Unsupported("the pool's tasks are not ThreadPoolTask objects")
    g.total = 0
    tasks = E.objlist("tasks", distinct=False, nonone=True)
    n = E.len(tasks)
    E.assume(E.forall("int", lambda k: E.implies(E.and_(k >= 0, k < n), SBool(z3.And(TRUTHY(tasks.at(k.t)), rank(tasks.at(k.t)) == k.t)))))
    g.total = n
    q = E.getp(pool, "ThreadPool", "queue")
    q.items = E.copylist(tasks)
    q.unfinished = n
    E.setp(pool, "ThreadPool", "tasks", tasks)
    E.rep(pool)
    st.pool, st.q, st.n = pool, q, n
    st.tasks = lambda: E.getp(pool, "ThreadPool", "tasks")
    st.before = E.copylist(tasks)
    st.closed = False

    def attr(o, name):
        if name == "execute":
            def execute():
                E.check("C25 the queued functions run in order, each once", E.eq(SInt(rank(o.t)), g.ran), g.ran < g.total)
                E.check("C25 nothing runs after close", not st.closed)
                g.ran = g.ran + 1
                w = E.choose(3, "fn")
                if w == 1:
                    before = g.total
                    pool.queue_fn(lambda: None)
                    E.check("C25 a function queued by a task is accepted", E.eq(g.total, before + 1))
                elif w == 2 and st.close:
                    st.close()
                else:
                    pass
                st.finish(o)
            return execute
        if name == "cancel":
            def cancel():
                E.check("C25 only tasks that are still pending are cancelled", SInt(rank(o.t)) >= g.ran, st.closing)
                E.check("C25 each pending task is cancelled once", E.eq(SInt(rank(o.t)), g.ran + g.cancelled))
                g.cancelled = g.cancelled + 1
                st.finish(o)
            return cancel
        return NotImplemented
    E.attr_handlers.append(attr)
    st.close = None
    st.closing = False
    return st


def in_step(E, st, ran=None):
    """what is queued is what is known, numbered from the next to run"""
    g, q, t = st.g, st.q, st.tasks()
    rank = lambda l, k: SInt(st.rank(obj_term(l.elem(k))))
    left = g.total - g.ran
    return [E.eq(E.len(q.items), left), E.eq(E.len(t), left),
            E.forall_in(left, lambda k: E.eq(rank(q.items, k), g.ran + k)),
            E.forall_in(left, lambda k: E.eq(t.elem(k), q.items.elem(k))),
            E.forall_in(left, lambda k: SBool(TRUTHY(obj_term(q.items.elem(k)))))]


@contract("C25", "ThreadPool.ThreadPool.queue_fn", [QUEUE, RANK])
def pool_queue(E):
    st = pool_state(E)
    f = E.obj("fn")
    st.pool.queue_fn(f, [None, "text"][E.choose(2)])
    E.check("C25 one task is made, for that function", E.eq(st.g.total, st.n + 1), E.eq(st.made[0], f))
    E.check("C25 the new task is last, the others are unchanged", E.eq(st.q.items.elem(st.n), st.made[1]),
            E.forall_in(st.n, lambda k: E.eq(st.q.items.elem(k), st.before.elem(k))), *in_step(E, st))


@contract("C25", "ThreadPool.ThreadPool.run_all", [QUEUE, RANK, TASK])
def pool_run_all(E):
    st = pool_state(E)
    g = st.g
    for i in range(5):
        E.hints.append(lambda L, i=i: in_step(E, st)[i])
    E.hints.append(lambda L: g.ran <= g.total)
    E.hints.append(lambda L: g.ran >= 0)
    E.hints.append(lambda L: E.eq(st.q.unfinished, g.total - g.ran))
    st.pool.run_all()
    E.check("C25 every queued function ran", E.eq(g.ran, g.total))
    E.check("C25 none is left queued or known", *in_step(E, st))


@contract("C25", "ThreadPool.ThreadPool.run_one", [QUEUE, RANK, TASK])
def pool_run_one(E):
    st = pool_state(E)
    st.pool.run_one()
    E.check("C25 the oldest ran, if there was one", E.eq(st.g.ran, E.ite(st.n > 0, 1, 0)))
    E.check("C25 it is forgotten, the others stay", *in_step(E, st))


@contract("C25", ["ThreadPool.ThreadPool.close", "ThreadPool.ThreadPool.queue_fn", "ThreadPool.ThreadPool.run_all", "ThreadPool.ThreadPool.run_one"], [QUEUE, RANK, TASK])
def pool_close(E):
    st = pool_state(E)
    g, pool = st.g, st.pool
    st.closing = True
    E.hints.append(lambda L: E.eq(g.cancelled, L.i))
    E.hints.append(lambda L: E.eq(E.len(st.tasks()), st.n - L.i))
    E.hints.append(lambda L: E.forall_in(st.n - L.i, lambda k: E.eq(st.tasks().elem(k), st.before.elem(k + L.i))))
    pool.close()
    st.closed, st.closing = True, False
    E.check("C25 close ends every pending task, each once, and forgets them", E.eq(g.cancelled, st.n), E.eq(E.len(st.tasks()), 0))
    E.hints.clear()
    E.hints.append(lambda L: E.eq(st.q.unfinished, E.len(st.q.items)))
    w = E.choose(3)
    if w == 0:
        total = g.total
        pool.queue_fn(E.obj("fn"))
        E.check("C25 after close nothing is accepted", E.eq(g.total, total), E.eq(E.len(st.tasks()), 0), E.eq(E.len(st.q.items), st.n))
    elif w == 1:
        pool.run_one()
    else:
        pool.run_all()
    E.check("C25 after close nothing runs", E.eq(g.ran, 0))


@contract("C25", ["ThreadPool.ThreadPool.close", "ThreadPool.ThreadPool.run_all", "ThreadPool.ThreadPool.run_one"], [QUEUE])
def pool_close_inside(E):
    """the pool is closed by the function it runs (real tasks, four of them)"""
    P = E.load("ThreadPool", lib=POOL_LIB)
    pool = P.ThreadPool()
    ran = []

    def closing():
        ran.append(0)
        pool.close()
        pool.queue_fn(lambda: ran.append(9))
    pool.queue_fn(closing)
    pool.queue_fn(lambda: ran.append(1))
    pool.queue_fn(lambda: ran.append(2))
    pool.queue_fn(lambda: ran.append(3))
    w = E.choose(3)
    if w == 0:
        pool.run_all()
    elif w == 1:
        pool.run_one()
        pool.run_one()
    else:
        closing()
    E.check("C25 nothing runs after the pool was closed", ran == [0])
    E.check("C25 all tasks are forgotten", E.eq(E.len(E.getp(pool, "ThreadPool", "tasks")), 0))
