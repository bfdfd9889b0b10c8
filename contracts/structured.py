"""Contracts of StructuredModel.py (C29)."""
from engine.api import *
from engine.loader import deepcopy

EV = "Event.Event.fire (contract C05)"
ELEM = "elements that are records or arrays, and the models of fields: the property itself (induction on the depth of the schema)"
SIMPLE = ["string", "boolean", "int", "float", "double"]


def counter(E, ev, log=None):
    """counts the firings of an event; the listener must be kept"""
    g = E.ghost(n=0)

    def heard(*a, **k):
        g.n = g.n + 1
        if log is not None:
            log.append(a)
    return g, ev.listen(heard)


# ---- fields

@contract("C29", ["StructuredModel.build_model", "StructuredModel.FieldPropertyModel", "StructuredModel.build_value"], [EV])
def simple_fields(E):
    M = E.load("StructuredModel")
    t = SIMPLE[E.choose(len(SIMPLE), "type")]
    schema = t if E.choose(2) else VDict({"type": t})
    v, d = E.obj("value"), E.obj("default")
    f = M.build_model(schema, default_value=d, value=v)
    want = E.ite(E.eq(v, None), d, v)
    E.check("C29 a field holds the given value, or its default when none is given", isinstance(f, M.FieldPropertyModel), E.eq(f.value, want))
    E.check("C29 the value of the field and its dict value", E.eq(f.field_value, want), E.eq(f.to_dict_value(), want))
    E.check("C29 the value of a simple element is the value", E.eq(M.build_value(schema, value=v), v))
    names = []
    g, keep = counter(E, f.model_changed_event)
    h, keep2 = counter(E, f.field_value_changed_event, names)
    w = E.obj("new")
    before = f.value
    if E.choose(2):
        f.value = w
    else:
        f.from_dict_value(w)
    same = E.eq(w, before)
    E.check("C29 setting a field sets its value", E.eq(f.value, w))
    E.check("C29 a change is announced once, none is not", E.eq(g.n, E.ite(same, 0, 1)), E.eq(h.n, E.ite(same, 0, 1)), *[a == ("value",) for a in names])


@contract("C29", ["StructuredModel.define_field", "StructuredModel.define_record", "StructuredModel.define_array", "StructuredModel.define_string", "StructuredModel.define_boolean",
                  "StructuredModel.define_int", "StructuredModel.define_float"])
def schemas(E):
    M = E.load("StructuredModel")
    d = E.obj("default")
    kinds = [M.define_string(), M.define_boolean(), M.define_int(), M.define_float()]
    E.check("C29 the simple types can be built", all(isinstance(M.build_model(k, value=d), M.FieldPropertyModel) for k in kinds), len(set(kinds)) == 4)
    k = kinds[E.choose(4)]
    f = M.define_field("name", k, default=d)
    E.check("C29 the description of a field", f["name"] == "name", f["type"] == k, E.eq("default" in f, E.not_(E.eq(d, None))))
    fields = VList([f])
    r = M.define_record("rec", fields)
    E.check("C29 the description of a record", r["type"] == "record", r["name"] == "rec", r["fields"] is fields)
    a = M.define_array(r)
    E.check("C29 the description of an array", a["type"] == "array", a["items"] is r)
    E.check("C29 records and arrays are built as such", isinstance(M.build_model(r), M.RecordModel), isinstance(M.build_model(a), M.ArrayModel), isinstance(M.build_value(r), M.RecordModel), isinstance(M.build_value(a), M.ArrayModel))


# ---- records

class Part:
    """the model of a field, known by its contract"""

    def __init__(self, E, M, schema, default, value):
        ev = M.Event.Event
        self.field_value_changed_event, self.array_item_inserted_event, self.array_item_removed_event, self.model_changed_event = ev(), ev(), ev(), ev()
        self.schema, self.default, self.given = schema, default, value
        self.content = E.obj("content")
        self.field_value = E.obj("field value")
        self.got = []

    def to_dict_value(self):
        return self.content

    def from_dict_value(self, v):
        self.got.append(v)


def record_of_parts(E, n, values=True):
    M = E.load("StructuredModel")
    parts = {}
    real = M.build_model

    def build(schema, *, default_value=None, value=None):
        p = Part(E, M, schema, default_value, value)
        parts[schema] = p
        return p
    M.build_model = build
    names = ["f%d" % i for i in range(n)]
    types = ["type%d" % i for i in range(n)]
    defaults = [E.obj("default") if i or E.choose(2, "default") else None for i in range(n)]
    fields = VList([VDict({"name": a, "type": b, **({"default": d} if d is not None else {})}) for a, b, d in zip(names, types, defaults)])
    schema = VDict({"type": "record", "name": "rec", "fields": fields})
    given = {a: E.obj("given") for i, a in enumerate(names) if E.choose(2, "given")} if values else {}
    rec = M.RecordModel(schema, values=VDict(given) if values else None)
    return M, rec, names, types, defaults, given, parts, schema


@contract("C29", ["StructuredModel.RecordModel.__init__", "StructuredModel.RecordModel.to_dict_value", "StructuredModel.RecordModel.from_dict_value", "StructuredModel.RecordModel.copy_from",
                  "StructuredModel.RecordModel.__getattr__", "StructuredModel.RecordModel.__deepcopy__", "StructuredModel.RecordModel.field_value"], [EV, ELEM, "records of up to three fields (bounded)"])
def record_contents(E):
    E.deepcopy_hook = lambda o: o      # the copy of a default is the same value
    M, rec, names, types, defaults, given, parts, schema = record_of_parts(E, E.choose(4, "fields"))
    E.check("C29 each field is built once from its type", len(parts) == len(names), all(t in parts for t in types))
    for n, t, d in zip(names, types, defaults):
        p = parts[t]
        E.check("C29 a field is built from its default and the value given under its name", E.eq(p.default, d), E.eq(p.given, given.get(n)))
        E.check("C29 a field is read by its name", E.eq(getattr(rec, n), p.field_value), getattr(rec, n + "_model") is p)
    raised, _ = E.raises(AttributeError, lambda: rec.unknown)
    E.check("C29 an unknown field is an attribute error", raised)
    E.check("C29 the field value of a record is the record", rec.field_value is rec)
    d = rec.to_dict_value()
    for n, t in zip(names, types):
        E.check("C29 the dict value has exactly the fields that have a value", E.eq(n in d, E.not_(E.eq(parts[t].content, None))))
        if n in d:
            E.check("C29 with their dict values", E.eq(d[n], parts[t].content))
    E.check("C29 and nothing else", all(k in names for k in d.keys_native()))
    what = E.choose(3, "what")
    if what == 0:
        src = VDict({n: E.obj("new") for n in names if E.choose(2, "in")})
        rec.from_dict_value(src)
        for n, t in zip(names, types):
            got = parts[t].got
            E.check("C29 reading a dict gives each field in it its value, and leaves the others alone", len(got) == (1 if n in src else 0), E.eq(got[0], src[n]) if got and n in src else True)
    elif what == 1:
        mine = dict(parts)
        other = M.RecordModel(schema, values=None)
        new = dict(parts)
        other.copy_from(rec)
        for n, t in zip(names, types):
            got = new[t].got
            E.check("C29 copying from a record gives each field its dict value", E.eq(len(got), E.ite(E.eq(mine[t].content, None), 0, 1)), *[E.eq(x, mine[t].content) for x in got])
    else:
        mine = dict(parts)
        copy_ = deepcopy(rec)
        new = dict(parts)
        E.check("C29 a deep copy is another record", copy_ is not rec, type(copy_) is type(rec))
        E.check("C29 which shares not even the schema", copy_.schema is not schema, copy_.schema["fields"] is not schema["fields"])
        for n, t in zip(names, types):
            E.check("C29 its fields are built anew from the dict values", new[t] is not mine[t], E.eq(new[t].given, mine[t].content))


@contract("C29", ["StructuredModel.RecordModel.__init__"], [EV, ELEM, "records of up to three fields (bounded)"])
def record_events(E):
    M, rec, names, types, defaults, given, parts, schema = record_of_parts(E, 1 + E.choose(3, "fields"), values=False)
    props, ins, rem = [], [], []
    c = [counter(E, rec.model_changed_event), counter(E, rec.property_changed_event, props), counter(E, rec.item_inserted_event, ins), counter(E, rec.item_removed_event, rem)]
    import gc
    k = E.choose(len(names), "which")
    p, n = parts[types[k]], names[k]
    e = E.choose(4, "event")
    v, i = E.obj("v"), E.int("i")
    if e == 0:
        p.model_changed_event.fire()
        E.check("C29 a change inside a field is a change of the record", E.eq(c[0][0].n, 1), not props and not ins and not rem)
    elif e == 1:
        p.field_value_changed_event.fire("value")
        E.check("C29 a change of a field is announced once by its name", props == [(n,)], E.eq(c[0][0].n, 0), not ins and not rem)
    elif e == 2:
        p.array_item_inserted_event.fire("items", v, i)
        E.check("C29 an insertion is announced once with field name, element and index", len(ins) == 1 and ins[0][0] == n and len(ins[0]) == 3, E.eq(ins[0][1], v) if ins else False, E.eq(ins[0][2], i) if ins else False, not props and not rem)
    else:
        p.array_item_removed_event.fire("items", v, i)
        E.check("C29 a removal is announced once with field name, element and index", len(rem) == 1 and rem[0][0] == n and len(rem[0]) == 3, E.eq(rem[0][1], v) if rem else False, E.eq(rem[0][2], i) if rem else False, not props and not ins)


def real_record(E, n, defaults=None):
    """a record of n real fields"""
    M = E.load("StructuredModel")
    names = ["f%d" % i for i in range(n)]
    defaults = [E.obj("default") for i in range(n)]
    fields = VList([M.define_field(a, M.define_string(), default=d) for a, d in zip(names, defaults)])
    values = [E.obj("given") for a in names]
    return M, names, defaults, M.define_record("rec", fields), values


@contract("C29", ["StructuredModel.RecordModel.__init__", "StructuredModel.RecordModel.__getattr__", "StructuredModel.build_model"], [EV, "records of up to three fields (bounded)"])
def record_init(E):
    M, names, defaults, schema, values = real_record(E, 1 + E.choose(3, "fields"))
    given = VDict(dict(zip(names, values)))
    how = E.choose(4, "how")
    if how == 3:
        # a record given partly by a default and partly by a value
        dv = E.obj("dv")
        k = E.choose(len(names), "k")
        part = VDict({a: v for i, (a, v) in enumerate(zip(names, values)) if i != k})
        hidden = {a: (dv if i == k else E.obj("hidden")) for i, a in enumerate(names)}
        dd = VDict(dict(hidden))
        rec = M.build_model(schema, default_value=dd, value=part)
        E.check("C29 building a record does not change its default", sorted(dd.keys_native()) == names, *[E.eq(dd[a], hidden[a]) for a in names if a in dd])
        values = [dv if i == k else v for i, v in enumerate(values)]
    else:
        rec = M.RecordModel(schema, values=given) if how == 0 else M.build_model(schema, value=given) if how == 1 else M.build_model(schema, default_value=given)
    E.check("C29 each field holds the given value, or its default", *[E.eq(getattr(rec, a), E.ite(E.eq(v, None), d, v)) for a, v, d in zip(names, values, defaults)])


@contract("C29", ["StructuredModel.RecordModel.__setattr__", "StructuredModel.RecordModel.__getattr__", "StructuredModel.RecordModel.close", "StructuredModel.build_model"], [EV, "records of up to three fields (bounded)"])
def record_fields(E):
    """real fields"""
    M, names, defaults, schema, values = real_record(E, 1 + E.choose(3, "fields"))
    n = len(names)
    E.assume(*[E.not_(E.eq(d, None)) for d in defaults])
    rec = M.RecordModel(schema)
    want = list(defaults)
    props = []
    g, keep = counter(E, rec.model_changed_event)
    h, keep2 = counter(E, rec.property_changed_event, props)
    k = E.choose(n, "which")
    w = E.obj("new")
    same = bool(E.eq(w, getattr(rec, names[k])))
    if E.choose(2, "route"):
        setattr(rec, names[k], w)
    else:
        getattr(rec, names[k] + "_model").value = w
    E.check("C29 setting a field changes only that field", *[E.eq(getattr(rec, a), w if i == k else v) for i, (a, v) in enumerate(zip(names, want))])
    E.check("C29 a different value is announced once by the name of the field", props == ([] if same else [(names[k],)]), E.eq(g.n, 0 if same else 1))
    d = rec.to_dict_value()
    now = [w if i == k else v for i, v in enumerate(want)]
    for a, v in zip(names, now):
        E.check("C29 the dict value has exactly the fields that have a value", E.eq(a in d, E.not_(E.eq(v, None))), E.eq(d[a], v) if a in d else True)
    rec.close()
    g.n = 0
    props.clear()
    setattr(rec, names[0], E.obj("later"))
    E.check("C29 a closed record announces nothing", E.eq(g.n, 0), not props)


# ---- arrays

class Elements:
    """the elements of an array: simple values, or models known by their contract"""

    def __init__(self, E, M, kind):
        """kind: 0 simple values, 1 records, 2 arrays"""
        models = bool(kind)
        self.E, self.M, self.models, self.kind = E, M, models, kind
        self.ev, self.built, self.dict = E.fresh_fn("changed_event", Obj, Obj), E.fresh_fn("built", Obj, Obj), E.fresh_fn("dict_value", Obj, Obj)
        self.src = E.fresh_fn("listens_to", Obj, Obj)
        self.g = E.ghost(listened=0, closed=0, updated=0)
        self.of, self.on_close, self.on_update = {}, None, None
        E.attr_handlers.append(self.attr)
        E.isinstance_handlers.append(self.inst)
        if models:
            E.assume(Quant(["obj"], lambda v: SBool(z3.And(self.built(v.t) != NONE, TRUTHY(self.built(v.t)), self.dict(self.built(v.t)) == v.t))))

        def build(schema, *, value=None):
            return SObj(self.built(obj_term(value))) if models else value
        M.build_value = build
        self.schema = VDict({"type": "array", "items": "string" if not models else VDict({"type": "record", "name": "r", "fields": VList()})})

    def inst(self, o, cls):
        names = [getattr(c, "__name__", "") for c in (cls if isinstance(cls, (tuple, list)) else [cls])]
        if isinstance(o, SObj) and any(n in ("RecordModel", "ArrayModel", "Observable", "ListModel") for n in names):
            return self.models and any(n in ("Observable", "RecordModel" if self.kind == 1 else "ArrayModel", "Observable" if self.kind == 1 else "ListModel") for n in names)
        return NotImplemented

    def attr(self, o, name):
        E = self.E
        if name == "model_changed_event":
            t = self.ev(o.t)
            self.of[t.get_id()] = (t, o.t)
            return SObj(t)
        if name == "listen":
            def listen(fn, **k):
                self.g.listened = self.g.listened + 1
                t = E.obj("listener")
                E.assume(SBool(z3.And(t.t != NONE, TRUTHY(t.t), self.ev(self.src(t.t)) == o.t)))
                if o.t.get_id() in self.of:
                    E.assume(SBool(self.src(t.t) == self.of[o.t.get_id()][1]))
                self.fn = fn
                if self.on_listen:
                    self.on_listen(fn)
                return t
            return listen
        if name == "close":
            def close():
                self.g.closed = self.g.closed + 1
                if self.on_close:
                    self.on_close(o)
            return close
        if name == "to_dict_value":
            return lambda: SObj(self.dict(o.t))
        if name == "from_dict_value":
            def f(v):
                self.g.updated = self.g.updated + 1
                self.on_update(o, v)
            return f
        return NotImplemented
    on_listen = None


def array(E, models, n=None):
    M = E.load("StructuredModel")
    X = Elements(E, M, models)
    a = M.ArrayModel(X.schema, values=VList())
    I0 = E.objlist("items", nonone=True, distinct=bool(models))
    E.assume(E.forall("int", lambda k: E.implies(E.and_(k >= 0, k < E.len(I0)), SBool(TRUTHY(I0.at(k.t)))))) if models else None
    E.setp(a, "ListModel", "items", I0)
    T0 = E.objlist("listeners", nonone=False)
    E.assume(E.eq(E.len(T0), E.len(I0)))
    if models:
        E.assume(E.forall("int", lambda k: E.implies(E.and_(k >= 0, k < E.len(I0)), SBool(z3.And(T0.at(k.t) != NONE, TRUTHY(T0.at(k.t)), X.src(T0.at(k.t)) == I0.at(k.t))))))
    else:
        E.assume(E.forall("int", lambda k: E.implies(E.and_(k >= 0, k < E.len(I0)), SBool(T0.at(k.t) == NONE))))
    E.setp(a, "ArrayModel", "model_changed_listeners", T0)
    E.rep(a)
    return M, a, X, E.copylist(I0), E.copylist(T0)


def connected(E, a, X):
    """each element that is a model is listened to, by the listener at its place"""
    items, ls = E.getp(a, "ListModel", "items"), E.getp(a, "ArrayModel", "model_changed_listeners")
    el = lambda k: obj_term(items.elem(k))
    lt = lambda k: obj_term(ls.elem(k))
    if X.models:
        f = lambda k: SBool(z3.And(lt(k) != NONE, TRUTHY(lt(k)), X.src(lt(k)) == el(k)))
    else:
        f = lambda k: SBool(lt(k) == NONE)
    return [E.eq(E.len(ls), E.len(items)), E.forall_in(E.len(items), f)]


@contract("C29", ["StructuredModel.ArrayModel.__init__", "StructuredModel.ArrayModel.to_dict_value"], [EV, ELEM])
def array_init(E):
    M = E.load("StructuredModel")
    X = Elements(E, M, E.choose(3, "kind"))
    vals = E.objlist("values", nonone=True)
    E.list_hints.append(lambda L, l, l0: E.eq(E.len(l), L.i))
    E.list_hints.append(lambda L, l, l0: E.forall_in(L.i, lambda k: E.eq(l.elem(k), SObj(X.built(obj_term(vals.elem(k)))) if X.models else vals.elem(k))))
    E.list_hints.append(lambda L, l, l0: E.forall_in(L.i, lambda k: E.eq(l.elem(k), vals.elem(k))))
    if X.models:
        E.list_hints.append(lambda L, l, l0: E.forall_in(L.i, lambda k: SBool(z3.And(obj_term(l.elem(k)) != NONE, TRUTHY(obj_term(l.elem(k))), X.src(obj_term(l.elem(k))) == X.built(obj_term(vals.elem(k)))))))
    else:
        E.list_hints.append(lambda L, l, l0: E.forall_in(L.i, lambda k: E.eq(l.elem(k), None)))
    none = E.choose(2, "none")
    a = M.ArrayModel(X.schema) if none else M.ArrayModel(X.schema, values=vals) if E.choose(2) else M.build_model(X.schema, value=vals) if E.choose(2) else M.build_model(X.schema, default_value=vals)
    if none:
        E.check("C29 an array without values is empty", E.eq(E.len(a.items), 0), *connected(E, a, X))
        return
    n = E.len(vals)
    E.check("C29 an array has an element for each value, in order", E.eq(E.len(a.items), n),
            E.forall_in(n, lambda k: E.eq(a.items.elem(k), SObj(X.built(obj_term(vals.elem(k)))) if X.models else vals.elem(k))))
    E.check("C29 each element that is a model is listened to", *connected(E, a, X))
    d = a.to_dict_value()
    E.check("C29 the dict value of an array lists those of its elements", E.eq(E.len(d), n), E.forall_in(n, lambda k: E.eq(d.elem(k), vals.elem(k))))
    E.check("C29 which is not the array's own list", d is not a.items)


def heard(E, a):
    ins, rem = [], []
    return ins, rem, [counter(E, a.model_changed_event), counter(E, a.array_item_inserted_event, ins), counter(E, a.array_item_removed_event, rem)]


@contract("C29", ["StructuredModel.ArrayModel.notify_insert_item", "StructuredModel.ArrayModel.notify_remove_item", "ListModel.ListModel.insert_item", "ListModel.ListModel.remove_item",
                  "StructuredModel.ItemsSequence", "StructuredModel.ArrayModel.field_value"], [EV, ELEM])
def array_edit(E):
    M, a, X, I0, T0 = array(E, E.choose(3, "kind"))
    ins, rem, cs = heard(E, a)
    changed = cs[0][0]
    n, i = E.len(I0), E.int("index")
    seq = a.field_value
    E.check("C29 the elements are seen through the field", E.eq(len_of(E, seq), n))
    if E.choose(2, "insert"):
        E.assume(i >= 0, i <= n)
        v = E.obj("element")
        E.assume(E.not_(E.eq(v, None)), SBool(TRUTHY(v.t)))
        if X.models:
            E.assume(E.forall_in(n, lambda k: E.not_(E.eq(I0.elem(k), v))))
        w = E.choose(2, "route")
        if w == 0:
            a.insert_item(i, v)
        else:
            seq.insert(i, v)
        now = a.items
        E.check("C29 the element is at the index, the others keep their order", E.eq(E.len(now), n + 1), E.eq(now.elem(i), v), E.forall_in(i, lambda k: E.eq(now.elem(k), I0.elem(k))),
                E.forall("int", lambda k: E.implies(E.and_(k > i, k <= n), E.eq(now.elem(k), I0.elem(k - 1)))))
        E.check("C29 an insertion is announced once with element and index", len(ins) == 1 and not rem, E.and_(ins[0][0] == "items", E.eq(ins[0][1], v), E.eq(ins[0][2], i)) if len(ins) == 1 and len(ins[0]) == 3 else False)
        E.check("C29 the new element is listened to, if it is a model", E.eq(X.g.listened, 1 if X.models else 0), E.eq(X.g.closed, 0))
        if X.models and E.choose(2, "later"):
            before = changed.n
            X.fn()
            E.check("C29 a change in an element inserted is a change of the array", E.eq(changed.n, before + 1))
            return
    else:
        E.assume(i >= 0, i < n)
        E.check("C29 an element is read by its index", E.eq(seq[i], I0.elem(i)))
        X.on_close = lambda t: E.check("C29 only the listener of the removed element is closed", E.eq(t, T0.elem(i)))
        if E.choose(2, "route"):
            a.remove_item(i)
        else:
            del seq[i]
        now = a.items
        E.check("C29 the element is gone, the others keep their order", E.eq(E.len(now), n - 1), E.forall("int", lambda k: E.implies(E.and_(k >= 0, k < n - 1), E.eq(now.elem(k), I0.elem(E.ite(k < i, k, k + 1))))))
        E.check("C29 a removal is announced once with element and index", len(rem) == 1 and not ins, E.and_(rem[0][0] == "items", E.eq(rem[0][1], I0.elem(i)), E.eq(rem[0][2], i)) if len(rem) == 1 and len(rem[0]) == 3 else False)
        E.check("C29 a removed element is not listened to any more", E.eq(X.g.closed, 1 if X.models else 0), E.eq(X.g.listened, 0))
    E.check("C29 each change fires model_changed once", E.eq(changed.n, 1))
    E.check("C29 each element that is a model is listened to", *connected(E, a, X))


def len_of(E, seq):
    return type(seq).__len__(seq)


@contract("C29", ["StructuredModel.ArrayModel.close"], [EV, ELEM])
def array_close(E):
    M, a, X, I0, T0 = array(E, E.choose(3, "kind"))
    n = E.len(I0)
    X.on_close = lambda t: E.check("C29 closing an array closes each listener once", E.eq(t, T0.elem(X.g.closed - 1)))
    E.hints.append(lambda L: E.eq(X.g.closed, L.i))
    E.hints.append(lambda L: E.eq(X.g.closed, 0))
    a.close()
    E.check("C29 a closed array listens to no element", E.eq(X.g.closed, n if X.models else 0))


@contract("C29", ["StructuredModel.ArrayModel.from_dict_value", "StructuredModel.ArrayModel.copy_from", "StructuredModel.ArrayModel.__deepcopy__", "StructuredModel.ArrayModel.to_dict_value"], [EV, ELEM], timeout=60.0)
def array_from_dict(E):
    M, a, X, I0, T0 = array(E, E.choose(3, "kind"))
    vals = E.objlist("values", nonone=True)
    n0, m = E.len(I0), E.len(vals)
    n1 = E.ite(n0 < m, n0, m)
    items = lambda: E.getp(a, "ListModel", "items")

    def update(o, v):
        k = X.g.updated - 1
        E.check("C29 each element kept is given the value at its index", E.eq(o, items().elem(k)), E.eq(v, vals.elem(k)), k < n1)
    X.on_update = update
    ins, rem, cs = heard(E, a)
    changed = cs[0][0]
    E.hints.append(lambda L: E.implies(E.eq(changed.n, 0), E.and_(E.eq(E.len(items()), E.ite(n0 < L.i, L.i, n0)), L.i <= n0)))
    E.hints.append(lambda L: E.implies(E.eq(changed.n, 0), E.eq(E.len(items()), n0)))
    E.hints.append(lambda L: E.forall_in(n0, lambda k: E.implies(E.eq(changed.n, 0), E.eq(items().elem(k), I0.elem(k)))))
    E.hints.append(lambda L: changed.n >= 0)
    for j in (0, 1):
        E.hints.append(lambda L, j=j: connected(E, a, X)[j])
    ln = lambda: E.len(items())
    # while removing
    E.hints.append(lambda L: E.and_(ln() <= n0, E.or_(ln() >= m, E.eq(ln(), n0))))
    E.hints.append(lambda L: E.forall_in(ln(), lambda k: E.eq(items().elem(k), I0.elem(k))))
    # while assigning
    E.hints.append(lambda L: E.eq(ln(), E.ite(n1 < L.i, L.i, n1)))
    E.hints.append(lambda L: E.forall("int", lambda k: E.implies(E.and_(k >= L.i, k < n1), E.eq(items().elem(k), I0.elem(k)))))
    if X.models:
        E.hints.append(lambda L: E.eq(X.g.updated, E.ite(n1 < L.i, n1, L.i)))
        E.hints.append(lambda L: E.eq(X.g.updated, 0))
        E.hints.append(lambda L: E.forall("int", lambda k: E.implies(E.and_(k >= 0, k < L.i), E.eq(items().elem(k), E.ite(k < n1, I0.elem(k), SObj(X.built(obj_term(vals.elem(k)))))))))
    else:
        E.hints.append(lambda L: E.forall_in(L.i, lambda k: E.eq(items().elem(k), vals.elem(k))))
    a.from_dict_value(vals)
    now = a.items
    E.check("C29 as many elements as values", E.eq(E.len(now), m))
    E.check("C29 a change of the elements is announced", E.implies(E.eq(changed.n, 0), E.eq(E.len(now), n0)), E.forall_in(n0, lambda k: E.implies(E.eq(changed.n, 0), E.eq(now.elem(k), I0.elem(k)))))
    if X.models:
        E.check("C29 every element kept is given its value, the others are made from theirs", E.eq(X.g.updated, n1),
                E.forall_in(m, lambda k: E.eq(now.elem(k), E.ite(k < n1, I0.elem(k), SObj(X.built(obj_term(vals.elem(k))))))))
    else:
        E.check("C29 the elements are the values", E.forall_in(m, lambda k: E.eq(now.elem(k), vals.elem(k))))
    E.check("C29 each element that is a model is listened to", *connected(E, a, X))
