import contextlib
import io
from rt.base import check
from nion.utils import Process, ThreadPool


def gen_queue(rng):
    # a task: a list of what it does when run (put n new ones, clear, nothing)
    ops = []
    for _ in range(rng.randint(1, 10)):
        op = rng.choice(["put", "put", "put", "perform", "clear"])
        ops.append([op, rng.choice(["", "", "", "put", "put2", "clear"])])
    return {"ops": ops + [["perform", ""]] * 3}


def fixed_queue():
    for n in range(4):
        for k in range(n):
            for what in ("put", "put2", "clear"):
                yield {"ops": [["put", what if i == k else ""] for i in range(n)] + [["perform", ""], ["put", ""], ["perform", ""]]}
        yield {"ops": [["put", ""]] * n + [["clear", ""], ["put", ""], ["perform", ""], ["perform", ""]]}


@check("C25", gen_queue, fixed_queue)
def queue_histories(t, d):
    q = Process.TaskQueue()
    queued, ran, n = [], [], [0]

    def add(what):
        i = n[0]
        n[0] += 1

        def task():
            ran.append(i)
            if what in ("put", "put2"):
                for _ in range(1 if what == "put" else 2):
                    add("")
            elif what == "clear":
                q.clear_tasks()
                queued.clear()
        queued.append(i)
        meanings[i] = what
        q.put(task)
    meanings = {}

    def expect():
        # the tasks queued now, each once, in order; those cleared meanwhile do not run
        exp, rest = [], list(queued)
        new = n[0]
        added = []
        while rest:
            i = rest.pop(0)
            exp.append(i)
            if meanings[i] in ("put", "put2"):
                k = 1 if meanings[i] == "put" else 2
                added += list(range(new, new + k))
                new += k
            elif meanings[i] == "clear":
                # TaskQueue.clear_tasks discards as many tasks as are queued at that moment
                rest, added = [], []
        return exp, added
    for op, what in d["ops"]:
        if op == "put":
            add(what)
        elif op == "perform":
            exp, left = expect()
            ran.clear()
            q.perform_tasks()
            t.eq("C25", ran, exp, "tasks run")
            queued[:] = left
            t.eq("C25", q.qsize(), len(left), "tasks left")
        else:
            ran.clear()
            q.clear_tasks()
            queued.clear()
            t.ok("C25", not ran and q.qsize() == 0, "clear_tasks")


def gen_set(rng):
    return {"ops": [[rng.choice(["add", "add", "add", "clear", "perform"]), rng.randint(0, 3), rng.choice(["", "", "add", "clear", "self", "self2"]), rng.randint(0, 3)] for _ in range(rng.randint(1, 12))] + [["perform", 0, "", 0]] * 2}


def fixed_set():
    for what in ("", "add", "clear", "self", "self2"):
        for k in range(3):
            for k2 in range(3):
                yield {"ops": [["add", 0, "", 0], ["add", k, what, k2], ["add", 2, "", 0]] + [["perform", 0, "", 0]] * 3}
                yield {"ops": [["add", k, what, k2]] + [["perform", 0, "", 0]] * 3}


@check("C25", gen_set, fixed_set)
def set_histories(t, d):
    s = Process.TaskSet()
    model, ran, n = {}, [], [0]
    KEYS = ["a", 1, (1, 2), None]
    total = []

    def add(k, what, k2):
        i = n[0]
        n[0] += 1

        def task():
            ran.append(i)
            if what == "add":
                add(k2, "", 0)
            elif what == "clear":
                s.clear_task(KEYS[k2])
                model.pop(k2, None)
            elif what in ("self", "self2") and ran.count(i) + total.count(i) < 3:
                # the same task again, under its own key or another one
                k3 = k if what == "self" else k2
                model[k3] = i
                s.add_task(KEYS[k3], task)
        model[k] = i
        s.add_task(KEYS[k], task)
    for op, k, what, k2 in d["ops"]:
        if op == "add":
            add(k, what, k2)
        elif op == "clear":
            s.clear_task(KEYS[k])
            model.pop(k, None)
        else:
            exp = sorted(model.values())
            model.clear()
            total.extend(ran)
            ran.clear()
            s.perform_tasks()
            t.eq("C25", sorted(ran), exp, "tasks run")


def gen_pool(rng):
    ops = []
    for _ in range(rng.randint(1, 12)):
        ops.append([rng.choice(["queue", "queue", "queue", "all", "one", "close" if rng.random() < 0.3 else "one"]), rng.choice(["", "", "", "raise", "queue", "close", "all", "one"])])
    return {"ops": ops + [["all", ""], ["queue", ""], ["close", ""], ["queue", ""], ["one", ""], ["all", ""]]}


@check("C25", gen_pool)
def pool_histories(t, d):
    pool = ThreadPool.ThreadPool()
    order, ran, n, st = [], [], [0], {"closed": False}

    def add(what):
        i = n[0]
        n[0] += 1

        def fn():
            t.ok("C25", not st["closed"], "a function runs after close")
            ran.append(i)
            if what == "raise":
                raise ValueError("task")
            if what == "queue":
                add("")
            elif what == "close":
                pool.close()
                st["closed"] = True
            elif what == "all":
                pool.run_all()
            elif what == "one":
                pool.run_one()
        if not st["closed"]:
            order.append(i)
        pool.queue_fn(fn, [None, "d"][i % 2])
    with contextlib.redirect_stderr(io.StringIO()):
        for op, what in d["ops"]:
            if op == "queue":
                add(what)
            elif op == "all":
                pool.run_all()
                if not st["closed"]:
                    t.eq("C25", ran, order, "functions run")
                    t.eq("C25", len(pool._ThreadPool__tasks) if hasattr(pool, "_ThreadPool__tasks") else 0, 0, "tasks remembered")
            elif op == "one":
                before = len(ran)
                pool.run_one()
                t.ok("C25", before == len(order) or st["closed"] or len(ran) > before, "run_one runs one")
            else:
                pool.close()
                st["closed"] = True
            t.eq("C25", ran, order[:len(ran)], "order of the functions run")


def gen_task(rng):
    return {"ops": [rng.choice(["execute", "cancel"]) for _ in range(rng.randint(1, 5))], "in": rng.choice(["", "raise", "cancel", "execute"]), "fin": rng.choice(["", "cancel", "execute"])}


@check("C25", gen_task)
def task_histories(t, d):
    log = []

    def fn():
        log.append("run")
        if d["in"] == "raise":
            raise KeyError("x")
        if d["in"]:
            getattr(task, d["in"])()

    def fin(x):
        log.append("end")
        t.ok("C25", x is task, "finished callback")
        if d["fin"] and log.count("end") == 1:
            getattr(task, d["fin"])()
    task = ThreadPool.ThreadPoolTask(fn, fin, None)
    with contextlib.redirect_stderr(io.StringIO()):
        for op in d["ops"]:
            getattr(task, op)()
    t.eq("C25", log, ["run", "end"] if d["ops"][0] == "execute" else ["end"], "task events")
