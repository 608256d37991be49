"""C06-C11: method graphs."""
from .common import harness, Universe, Hostile, deep_stack


def wrap(ctx, x):
    return Hostile(x) if ctx.params.get("hostile") and x is not None else x


def unwrap(x):
    return x.v if isinstance(x, Hostile) else x


HASH = (lambda k: 40 + k, lambda k: 90 - k, lambda k: 7)


def method_class(ctx):
    """methods whose results are uninterpreted functions of their inputs: any behaviour"""
    variant = ctx.choice("method hash", 3) if ctx.params.get("method_hash") else 0
    declines = ctx.params.get("declines", False)

    class UFMethod(ctx.m.method.Method):
        def __init__(self, k, inputs, outputs, nouts=None):
            super(UFMethod, self).__init__("uf", inputs, outputs)
            self.k = k
            self.runs = 0
            self.given = {}

        def __hash__(self):
            return HASH[variant](self.k)

        def __eq__(self, o):
            return self is o

        def execute(self, inmap):
            self.runs += 1
            out = self.results([unwrap(inmap[v]) for v in self.inputs])
            if not ctx.params.get("reused"):
                return out
            # the same object again, changed
            for v in out:
                if v not in self.given:
                    self.given[v] = Hostile(None)
                self.given[v].v = unwrap(out[v])
            return {v: self.given[v] for v in out}

        def results(self, args):
            out = {}
            for i, v in enumerate(self.outputs):
                if declines and ctx.pred("gives%d_%d" % (self.k, i), *args):
                    if ctx.params.get("gives_none"):
                        out[v] = None
                    continue
                out[v] = wrap(ctx, ctx.uf("f%d_%d" % (self.k, i), *args))
            return out
    return UFMethod


class Net(object):
    """the network as it should be: methods by output, values of undetermined variables"""

    def __init__(self, ctx, mg, names):
        self.ctx, self.mg, self.names = ctx, mg, names
        self.present = set()
        self.value = {}           # undetermined variables (also leftovers)
        self.methods = []         # (method, input ixs, output ixs)

    def det(self, j):
        for m, ins, outs in self.methods:
            if j in outs:
                return m, ins, outs
        return None

    def want(self, j, seen=()):
        """the value variable j should have"""
        d = self.det(j)
        if d is None:
            return self.value.get(j)
        m, ins, outs = d
        args = [self.want(i) for i in ins]
        if any(a is None for a in args):
            return None
        r = m.results(args).get(m.outputs[outs.index(j)])
        return unwrap(r)

    def add(self, m, ins, outs):
        self.methods.append((m, ins, outs))
        self.present |= set(ins) | set(outs)

    def check(self, what):
        ctx = self.ctx
        for j in sorted(self.present):
            got = unwrap(self.mg.get(self.names[j]))
            want = self.want(j)
            ctx.check(what + ": value present exactly when it should be", (got is None) == (want is None))
            if got is not None and want is not None:
                ctx.check_same(what + ": value", got, want)
                ctx.observe(j, got)
        ctx.check(what + ": methods", same_ids(self.mg.methods(), [m for m, _, _ in self.methods]))

    def check_vars(self, what):
        u = Universe()
        u.names = list(self.names)
        self.ctx.check(what + ": variables", sorted(u.find(v) for v in self.mg.variables()) ==
                       sorted(self.present))


def same_ids(got, want):
    got = list(got)
    return len(got) == len(want) and all(any(g is w for g in got) for w in want)


def wirings(ctx, n, fixed=None, sources=False):
    """any acyclic wiring over n variables: for each variable the inputs of its method, or None"""
    if fixed is not None:
        return dict(fixed)
    w = {}
    for j in range(0 if sources else 1, n):
        if ctx.flag("det%d" % j):
            w[j] = [i for i in range(j) if ctx.flag("in%d%d" % (i, j))]
    return w


def permutation(ctx, tag, items):
    items = list(items)
    out = []
    while items:
        out.append(items.pop(ctx.choice("%s%d" % (tag, len(items)), len(items))))
    return out


DIAMONDS = {
    "pair": {2: [0, 1]},
    # variable -> inputs of its method
    "diamond": {1: [0], 2: [0], 3: [1, 2]},
    "double read": {1: [0], 2: [0, 1], 3: [1, 2]},
    "chain and skip": {1: [0], 2: [1], 3: [0, 2], 4: [3, 1]},
    "two sources": {2: [0, 1], 3: [1, 2], 4: [2, 3]},
    "fan": {1: [0], 2: [0], 3: [0], 4: [1, 2, 3]},
    "constant": {0: [], 1: [0], 2: [0, 1]},
}


def assign(ctx, net, tag, j, prop=True):
    if ctx.flag("none" + tag):
        v = None
    else:
        v = ctx.int("x" + tag)
    net.mg.set(net.names[j], wrap(ctx, v), **({} if prop else {"prop": False}))
    net.value[j] = v


@harness(witnesses=("determined", "free"))
def network(ctx):
    """any wiring, any order of building it, then assignments; all values after every step"""
    n = ctx.params["n"]
    names = ctx.atoms("v", n, distinct=True)
    M = method_class(ctx)
    fixed = ctx.params.get("wiring")
    w = wirings(ctx, n, DIAMONDS[fixed] if fixed else None)
    mg = ctx.m.method.MethodGraph()
    net = Net(ctx, mg, names)
    free = [j for j in range(n) if j not in w]
    mode = ctx.choice("mode", 3)
    if mode == 0:
        # values given when the variables are declared
        for j in range(n):
            v = None
            if j in free and not ctx.flag("unset%d" % j):
                v = ctx.int("i%d" % j)
            mg.add_variable(names[j], wrap(ctx, v))
            net.present.add(j)
            net.value[j] = v
    elif mode == 1:
        # declared in the opposite order, without values
        for j in reversed(range(n)):
            mg.add_variable(names[j])
            net.present.add(j)
    for j in permutation(ctx, "method", sorted(w)):
        ins = w[j]
        m = M(j, [names[i] for i in ins], [names[j]])
        mg.add_method(m)
        net.add(m, ins, [j])
        net.check("after adding a method")
    if w:
        ctx.reach("determined")
    todo = [j for j in free if j in net.present]
    if todo:
        ctx.reach("free")
    if mode != 0:
        for j in (todo if mode == 2 else reversed(todo)):
            v = ctx.int("i%d" % j)
            mg.set(names[j], wrap(ctx, v))
            net.value[j] = v
            net.check("after assigning each")
    for k in range(ctx.params.get("sets", 1)):
        if todo:
            assign(ctx, net, "s%d" % k, ctx.pick("which%d" % k, todo))
            net.check("after assigning one")
    net.check_vars("at the end")


@harness(witnesses=("two outputs",))
def several_outputs(ctx):
    """methods with one or two outputs, in any wiring and building order"""
    n = 5
    names = ctx.atoms("v", n, distinct=True)
    M = method_class(ctx)
    mg = ctx.m.method.MethodGraph()
    net = Net(ctx, mg, names)
    # variable 0 and 4 are sources; 1, 2 and 3 are outputs
    shape = ctx.pick("shape", [
        [([0], [1, 2]), ([1, 2], [3])],
        [([0, 4], [1, 2]), ([2], [3])],
        [([0], [1]), ([1, 4], [2, 3])],
        [([0], [1]), ([0, 1], [2, 3])],
        [([0, 4], [3, 2, 1])],
        [([4], [1, 2]), ([0, 1], [3])],
        [([], [1, 2]), ([0, 2], [3])],
    ])
    for k in permutation(ctx, "method", range(len(shape))):
        ins, outs = shape[k]
        m = M(k, [names[i] for i in ins], [names[i] for i in outs])
        mg.add_method(m)
        net.add(m, ins, outs)
        net.check("after adding a method")
    ctx.reach("two outputs")
    todo = [j for j in (0, 4) if j in net.present]
    for k in range(ctx.params.get("sets", 3)):
        assign(ctx, net, "s%d" % k, ctx.pick("which%d" % k, todo))
        net.check("after assigning one")


# ------------------------------------------------------------------ C07
@harness(witnesses=("both",))
def two_graphs(ctx):
    """the same methods in two method graphs: neither knows of the other"""
    n = 4
    names = ctx.atoms("v", n, distinct=True)
    M = method_class(ctx)
    w = DIAMONDS["diamond"]
    ms = dict((j, M(j, [names[i] for i in w[j]], [names[j]])) for j in w)
    values = [ctx.int("x%d" % i) for i in range(2)] + [None]
    nets = []
    for k in range(2):
        mg = ctx.m.method.MethodGraph()
        net = Net(ctx, mg, names)
        v = ctx.pick("start%d" % k, values)
        mg.add_variable(names[0], v)
        net.present.add(0)
        net.value[0] = v
        nets.append(net)
    if ctx.flag("one after the other"):
        order = [(k, j) for k in (0, 1) for j in sorted(w)]
    else:
        order = [(k, j) for j in sorted(w) for k in (0, 1)]
    for k, j in order:
        nets[k].mg.add_method(ms[j])
        nets[k].add(ms[j], w[j], [j])
        nets[k].check("after adding a method")
    for s in range(ctx.params["steps"]):
        k = ctx.choice("graph%d" % s, 2)
        net = nets[k]
        what = ctx.pick("step%d" % s, ("set", "remove and add"))
        if what == "set":
            v = ctx.pick("value%d" % s, values)
            net.mg.set(names[0], v)
            net.value[0] = v
        elif net.methods:
            m, ins, outs = net.methods.pop()
            net.mg.rem_method(m)
            net.mg.rem_variable(names[outs[0]])
            net.mg.add_method(m)
            net.add(m, ins, outs)
        for other in nets:
            other.check("after a step")
    if all(net.value[0] is not None for net in nets):
        ctx.reach("both")


@harness(witnesses=("deferred", "immediate"))
def batching(ctx):
    """the same steps deferred in any pattern and order, then one propagation, against immediate steps"""
    n = ctx.params["n"]
    names = ctx.atoms("v", n, distinct=True)
    M = method_class(ctx)
    fixed = ctx.params.get("wiring")
    w = wirings(ctx, n, DIAMONDS[fixed] if fixed else None)
    free = [j for j in range(n) if j not in w]
    vals = {}
    for j in free:
        vals[j] = None if ctx.params.get("nones") and ctx.flag("none%d" % j) else ctx.int("x%d" % j)
    steps = [("set", j) for j in free] + [("add", j) for j in sorted(w)]
    if not ctx.params.get("any_order"):
        # some variables before the methods, some after
        late = [s for s in steps if s[0] == "set" and ctx.flag("late%d" % s[1])]
        order = [s for s in steps if s[0] == "set" and s not in late]
        order += permutation(ctx, "m", [s for s in steps if s[0] == "add"])
        order += permutation(ctx, "l", late)
    else:
        order = permutation(ctx, "s", steps)

    def build(deferred):
        mg = ctx.m.method.MethodGraph()
        net = Net(ctx, mg, names)
        for j in range(n):
            mg.add_variable(names[j])
            net.present.add(j)
        for k, (what, j) in enumerate(order):
            prop = not (deferred and ctx.flag("deferred%d" % k))
            if what == "set":
                mg.set(names[j], wrap(ctx, vals[j]), prop=prop)
                net.value[j] = vals[j]
            else:
                m = M(j, [names[i] for i in w[j]], [names[j]])
                mg.add_method(m, prop=prop)
                net.add(m, w[j], [j])
            if deferred:
                ctx.reach("immediate" if prop else "deferred")
        mg.propagate()
        return net
    net = build(True)
    net.check("after one propagation")
    if ctx.params.get("again", True) and free:
        # once more: two assignments deferred, in either order
        a = ctx.pick("again", free)
        net.mg.set(names[a], wrap(ctx, ctx.int("y")), prop=False)
        net.value[a] = ctx.int("y")
        b = ctx.pick("and", free)
        net.mg.set(names[b], wrap(ctx, ctx.int("z")), prop=False)
        net.value[b] = ctx.int("z")
        net.mg.propagate()
        net.check("after another batch")


@harness(witnesses=("quiet", "pending"))
def history(ctx):
    """any short history of assignments (fresh values, values used before, none), propagations and executions;
    all values whenever nothing is pending"""
    n = ctx.params["n"]
    names = ctx.atoms("v", n, distinct=True)
    M = method_class(ctx)
    fixed = ctx.params.get("wiring")
    w = wirings(ctx, n, DIAMONDS[fixed] if fixed else None)
    mg = ctx.m.method.MethodGraph()
    net = Net(ctx, mg, names)
    free = [j for j in range(n) if j not in w]
    objs = []
    now = {}
    for j in range(n):
        v = ctx.int("i%d" % j) if j in free and not (ctx.params.get("unset") and ctx.flag("unset%d" % j)) else None
        o = wrap(ctx, v)
        mg.add_variable(names[j], o)
        net.present.add(j)
        net.value[j] = v
        now[j] = o
        if v is not None:
            objs.append(o)
    for j in sorted(w):
        m = M(j, [names[i] for i in w[j]], [names[j]])
        mg.add_method(m)
        net.add(m, w[j], [j])
    ops = ctx.params.get("ops", ("set", "later", "propagate", "execute", "declare", "present"))
    pending = False
    last = None
    for k in range(ctx.params["steps"]):
        op = ctx.pick("op%d" % k, ops)
        if op in ("set", "later"):
            j = ctx.pick("which%d" % k, free)
            kind = ctx.pick("value%d" % k, ("same", "other", "fresh", "none"))
            if kind == "same":
                o = now[j]
            elif kind == "other":
                # an object given before, possibly to another variable
                if last is None:
                    return
                o = last
            else:
                o = wrap(ctx, ctx.int("x%d" % k)) if kind == "fresh" else None
            mg.set(names[j], o, **({"prop": False} if op == "later" else {}))
            net.value[j] = unwrap(o)
            now[j] = o
            if o is not None:
                last = o
            pending = op == "later"
        elif op == "propagate":
            mg.propagate()
            pending = False
        elif op == "execute":
            if not net.methods:
                return
            mg.execute(ctx.pick("method%d" % k, net.methods)[0])
            pending = False
        elif op == "present":
            # a method that is there already: no effect
            if not net.methods:
                return
            mg.add_method(ctx.pick("offered%d" % k, net.methods)[0], prop=ctx.flag("now%d" % k))
        else:
            # already there: no effect
            mg.add_variable(names[ctx.pick("again%d" % k, range(n))], wrap(ctx, ctx.int("d%d" % k)))
        if not pending:
            ctx.reach("quiet")
            net.check("with nothing pending")
        else:
            ctx.reach("pending")
    mg.propagate()
    net.check("after propagating")


POOL = (([0], [1]), ([0, 1], [2]), ([2], [0]), ([3], [1]), ([1], [3]), ([], [2]))


def closes_cycle(methods, ins, outs):
    """would a method from ins to outs close a cycle?"""
    after, todo = set(), list(outs)
    while todo:
        x = todo.pop()
        for _, i, o in list(methods) + [(None, ins, outs)]:
            if x in i:
                todo += [y for y in o if y not in after]
                after |= set(o)
    return bool(after & set(outs))


@harness(witnesses=lambda p: tuple(x for x, op in (("assigned", "set"), ("added", "add"), ("refused", "add"), ("removed", "remove")) if op in p["ops"]))
def mixed(ctx):
    """any short history of assigning, adding, removing and propagating, each deferred or not;
    all values whenever nothing is pending"""
    n = 4
    names = ctx.atoms("v", n, distinct=True)
    M = method_class(ctx)
    mm = ctx.m.method
    mg = mm.MethodGraph()
    net = Net(ctx, mg, names)
    pool = [POOL[k] for k in ctx.params["pool"]]
    ms = [M(k, [names[i] for i in ins], [names[o] for o in outs]) for k, (ins, outs) in enumerate(pool)]
    for j in range(n):
        v = None if ctx.params.get("unset") and ctx.flag("unset%d" % j) else ctx.int("i%d" % j)
        mg.add_variable(names[j], wrap(ctx, v))
        net.present.add(j)
        net.value[j] = v
    for k in ctx.params.get("start", ()):
        mg.add_method(ms[k])
        net.add(ms[k], *pool[k])
    pending = False
    never = set(range(len(ms))) - set(ctx.params.get("start", ()))
    for k in range(ctx.params["steps"]):
        op = ctx.pick("op%d" % k, ctx.params["ops"])
        here = [x[0] for x in net.methods]
        if op == "set":
            free = [j for j in sorted(net.present) if not net.det(j)]
            if not free:
                return
            j = ctx.pick("which%d" % k, free)
            now = not ctx.flag("later%d" % k)
            v = None if ctx.params.get("nones") and ctx.flag("none%d" % k) else ctx.int("x%d" % k)
            mg.set(names[j], wrap(ctx, v), prop=now)
            net.value[j] = v
            pending = not now
            ctx.reach("assigned")
        elif op == "add":
            j = ctx.choice("method%d" % k, len(ms))
            ins, outs = pool[j]
            now = not ctx.flag("later%d" % k)
            if ms[j] in here:
                mg.add_method(ms[j], prop=now)
                continue
            twice, cycle = any(net.det(o) for o in outs), closes_cycle(net.methods, ins, outs)
            e = ctx.raises(mg.add_method, ms[j], prop=now)
            if twice or cycle:
                ctx.check("the refusal names a reason that holds", isinstance(e, mm.MethodGraphCycleException) and cycle or
                          isinstance(e, mm.MethodGraphDetermineException) and twice)
                for i in ins + outs:
                    # a variable named for the first time may stay, without value
                    if i not in net.present and names_in(mg.variables(), names[i]):
                        net.present.add(i)
                        net.value[i] = None
                ctx.reach("refused")
            else:
                ctx.check("an acyclic singly determined method is accepted", e is None)
                for o in ins + outs:
                    if o not in net.present:
                        net.value[o] = None
                net.add(ms[j], ins, outs)
                never.discard(j)
                pending = not now
                ctx.reach("added")
        elif op == "propagate":
            mg.propagate()
            pending = False
        elif op == "execute":
            if not here:
                return
            mg.execute(ctx.pick("run%d" % k, here))
            pending = False
        elif op == "remove method":
            if not here:
                return
            m = ctx.pick("gone%d" % k, here)
            vals = {j: unwrap(mg.get(names[j])) for j in sorted(net.present)}
            mg.rem_method(m)
            for x in net.methods:
                if x[0] is m:
                    for o in x[2]:
                        net.value[o] = vals[o]
            net.methods = [x for x in net.methods if x[0] is not m]
            for j in vals:
                ctx.check_same("removal leaves every value in place", unwrap(mg.get(names[j])), vals[j])
            ctx.reach("removed")
        elif op == "remove":
            if not net.present:
                return
            i = ctx.pick("lost%d" % k, sorted(net.present))
            vals = {j: unwrap(mg.get(names[j])) for j in sorted(net.present) if j != i}
            mg.rem_variable(names[i])
            net.present.discard(i)
            net.value.pop(i, None)
            for x in list(net.methods):
                if i in x[1] or i in x[2]:
                    net.methods.remove(x)
                    for o in x[2]:
                        if o != i:
                            net.value[o] = vals[o]
            for j in vals:
                ctx.check_same("removal leaves every value in place", unwrap(mg.get(names[j])), vals[j])
            ctx.reach("removed")
        else:
            # declare all variables there are not, again
            v = ctx.int("d%d" % k)
            for j in range(n):
                mg.add_variable(names[j], wrap(ctx, v))
                if j not in net.present:
                    net.value[j] = v
                    net.present.add(j)
        if not pending:
            net.check("with nothing pending")
    mg.propagate()
    net.check("after propagating")
    net.check_vars("at the end")
    for j in never:
        ctx.check("a method never accepted is never executed", ms[j].runs == 0)


# ------------------------------------------------------------------ C08
@harness(witnesses=("accepted", "cycle", "determined twice"))
def refusal(ctx):
    """any small network, any method offered, any assignment afterwards"""
    n = ctx.params["n"]
    names = ctx.atoms("v", n, distinct=True)
    M = method_class(ctx)
    w = wirings(ctx, n - ctx.params.get("new", 1))
    mm = ctx.m.method
    mg = mm.MethodGraph()
    net = Net(ctx, mg, names)
    old = n - ctx.params.get("new", 1)
    for j in range(old):
        v = ctx.int("i%d" % j)
        mg.add_variable(names[j], v if j not in w else None)
        net.present.add(j)
        if j not in w:
            net.value[j] = v
    for j in permutation(ctx, "method", sorted(w)):
        m = M(j, [names[i] for i in w[j]], [names[j]])
        mg.add_method(m)
        net.add(m, w[j], [j])
    ins = [j for j in range(n) if ctx.flag("offer in%d" % j)]
    outs = [j for j in range(n) if ctx.flag("offer out%d" % j)]
    if not outs:
        return
    if ctx.params.get("reverse_outs") and ctx.flag("outs reversed"):
        outs.reverse()
    prop = True
    if ctx.params.get("pending"):
        free = [j for j in range(old) if j not in w]
        j = ctx.pick("pending", free)
        v = ctx.int("p")
        mg.set(names[j], v, prop=False)
        net.value[j] = v
        prop = not ctx.flag("offer deferred")
    m = M(9, [names[i] for i in ins], [names[i] for i in outs])
    twice = any(net.det(j) for j in outs)
    # would the offered method close a cycle?
    dep = {(i, j) for j in w for i in w[j]} | {(i, j) for i in ins for j in outs}
    clo = set(dep)
    for k in range(n):
        for i in range(n):
            for j in range(n):
                if (i, k) in clo and (k, j) in clo:
                    clo.add((i, j))
    cycle = any((j, j) in clo for j in outs)
    e = ctx.raises(mg.add_method, m, prop)
    if twice or cycle:
        ctx.reach("cycle" if cycle and not twice else "determined twice")
        ctx.check("the refusal names a reason that holds",
                  isinstance(e, mm.MethodGraphCycleException) and cycle or
                  isinstance(e, mm.MethodGraphDetermineException) and twice)
        ctx.check("a refused method is not executed", m.runs == 0)
        if ctx.params.get("pending"):
            mg.propagate()
    else:
        ctx.reach("accepted")
        ctx.check("an acyclic singly determined method is accepted", e is None)
        net.add(m, ins, outs)
        if ctx.params.get("pending"):
            mg.propagate()
    net.check("after the offer")
    known = set(net.present)
    for j in range(n):
        if j not in known and names_in(mg.variables(), names[j]):
            ctx.check("only variables the method names may appear", j in ins or j in outs)
            ctx.check("a variable named by a refused method has no value", mg.get(names[j]) is None)
    free = [j for j in sorted(net.present) if not net.det(j)]
    if free:
        j = ctx.pick("set", free)
        v = ctx.int("after")
        mg.set(names[j], v)
        net.value[j] = v
        net.check("after a later assignment")
    if twice or cycle:
        ctx.check("a refused method is never executed", m.runs == 0)
        if ctx.params.get("then"):
            # the network can be extended as if nothing had been offered
            for j in range(n):
                if not net.det(j) and j not in w:
                    k = M(8, [], [names[j]])
                    mg.add_method(k)
                    net.add(k, [], [j])
                    net.check("after a later method")
                    break


def names_in(seq, a):
    return any(a == b for b in seq)


@harness(witnesses=("set", "remove", "execute"))
def absent(ctx):
    """assigning to, removing or executing what is not there is refused and changes nothing"""
    n = ctx.params["n"]
    names = ctx.atoms("v", n, distinct=True)
    other = ctx.atom("other")
    M = method_class(ctx)
    w = wirings(ctx, n)
    mg = ctx.m.method.MethodGraph()
    net = Net(ctx, mg, names)
    for j in range(n):
        v = ctx.int("i%d" % j) if j not in w else None
        mg.add_variable(names[j], v)
        net.present.add(j)
        net.value[j] = v
    for j in sorted(w):
        m = M(j, [names[i] for i in w[j]], [names[j]])
        mg.add_method(m)
        net.add(m, w[j], [j])
    known = names_in(names, other)
    what = ctx.choice("what", 5)
    stranger = M(7, [names[0]], [other])
    if what == 0:
        if known:
            return
        e = ctx.raises(mg.set, other, 5)
        ctx.reach("set")
    elif what == 1:
        if known:
            return
        e = ctx.raises(mg.rem_variable, other)
    elif what == 2:
        e = ctx.raises(mg.rem_method, stranger)
        ctx.reach("remove")
    elif what == 3:
        e = ctx.raises(mg.execute, stranger)
        ctx.reach("execute")
    else:
        if known:
            return
        e = ctx.raises(mg.set, other, 5, False)
    ctx.check("refused", e is not None)
    ctx.check("nothing executed", stranger.runs == 0)
    net.check("after the refusal")
    net.check_vars("after the refusal")
    free = [j for j in range(n) if j not in w]
    j = ctx.pick("set", free)
    v = ctx.int("after")
    e = ctx.raises(mg.set, names[j], v)
    ctx.check("still usable", e is None)
    net.value[j] = v
    net.check("after a later assignment")


# ------------------------------------------------------------------ C09
@harness(witnesses=("method removed", "variable removed", "added again", "cleared"))
def removal(ctx):
    """any small network, a removal, assignments, adding again"""
    n = ctx.params["n"]
    names = ctx.atoms("v", n, distinct=True)
    M = method_class(ctx)
    fixed = ctx.params.get("wiring")
    w = wirings(ctx, n, DIAMONDS[fixed] if fixed else None)
    mg = ctx.m.method.MethodGraph()
    net = Net(ctx, mg, names)
    for j in range(n):
        v = ctx.int("i%d" % j) if j not in w else None
        mg.add_variable(names[j], wrap(ctx, v))
        net.present.add(j)
        net.value[j] = v
    ms = {}
    for j in permutation(ctx, "method", sorted(w)) if not fixed else sorted(w):
        ms[j] = M(j, [names[i] for i in w[j]], [names[j]])
        mg.add_method(ms[j])
        net.add(ms[j], w[j], [j])
    pend = None
    if ctx.params.get("pending") and ctx.flag("pending"):
        free = [j for j in range(n) if j not in w]
        pend = ctx.pick("pending var", free)
        v = ctx.int("p")
        mg.set(names[pend], wrap(ctx, v), prop=False)
    now = {j: unwrap(mg.get(names[j])) for j in range(n)}
    gone = []
    for r in range(ctx.params.get("removals", 1)):
        kinds = ["var"] + (["met"] if net.methods else [])
        if ctx.pick("kind%d" % r, kinds) == "met":
            j = ctx.pick("which%d" % r, sorted(o for _, _, os in net.methods for o in os))
            m = ms[j]
            mg.rem_method(m)
            net.methods = [x for x in net.methods if x[0] is not m]
            gone.append((m, m.runs))
            net.value[j] = now[j]
            ctx.reach("method removed")
        else:
            left = sorted(net.present)
            if not left:
                return
            j = ctx.pick("which%d" % r, left)
            mg.rem_variable(names[j])
            net.present.discard(j)
            for x in list(net.methods):
                if j in x[1] or j in x[2]:
                    net.methods.remove(x)
                    gone.append((x[0], x[0].runs))
                    for o in x[2]:
                        net.value[o] = now[o]
            net.value.pop(j, None)
            ctx.reach("variable removed")
    for j in sorted(net.present):
        ctx.check_same("removal leaves every value in place", unwrap(mg.get(names[j])), now[j])
    ctx.check("removal removes exactly the methods concerned",
              same_ids(mg.methods(), [m for m, _, _ in net.methods]))
    net.check_vars("after removal")
    if pend is not None:
        mg.propagate()
        net.value[pend] = now[pend]
        if pend not in net.present:
            net.value.pop(pend)
    # what was computed from removed parts stays as it is: outputs of removed methods are free now
    net.check("after removal")
    free = [j for j in sorted(net.present) if not net.det(j)]
    if free:
        j = ctx.pick("set", free)
        v = ctx.int("after")
        mg.set(names[j], wrap(ctx, v))
        net.value[j] = v
        net.check("after a later assignment")
    if ctx.flag("clear"):
        if free and ctx.params.get("pending") and ctx.flag("pending when cleared"):
            mg.set(names[ctx.pick("last", free)], wrap(ctx, ctx.int("late")), prop=False)
        mg.clear()
        mg.propagate()
        ctx.check("cleared: variables", len(list(mg.variables())) == 0)
        ctx.check("cleared: methods on variables", all(not m.inputs and not m.outputs for m in mg.methods()))
        ctx.reach("cleared")
        net.present, net.methods, net.value = set(), [], {}
        gone = [(m, m.runs) for m in ms.values()]
    # add something again
    ok = [j for j in sorted(ms) if not net.det(j) and not any(ms[j] is x[0] for x in net.methods)]
    for m, runs in gone:
        ctx.check("a removed method is not executed", m.runs == runs)
    if ok:
        j = ctx.pick("again", ok)
        mg.add_method(ms[j])
        net.add(ms[j], w[j], [j])
        ctx.reach("added again")
        net.check("after adding again")
        free = [i for i in w[j] if not net.det(i)]
        if free:
            i = ctx.pick("feed", free)
            v = ctx.int("fed")
            mg.set(names[i], wrap(ctx, v))
            net.value[i] = v
            net.check("after feeding it")
    for m, runs in gone:
        if not any(m is x[0] for x in net.methods):
            ctx.check("a removed method is never executed", m.runs == runs)


# ------------------------------------------------- larger networks of given wirings
LARGE = {
    "long chain": {j: [j - 1] for j in range(1, 8)},
    "wide fan": dict([(j, [0]) for j in range(1, 7)] + [(7, [1, 2, 3, 4, 5, 6])]),
    "ladder": dict([(1, [0])] + [(j, [j - 1, j - 2]) for j in range(2, 7)]),
    "comb": {1: [0], 3: [2, 1], 5: [4, 3], 7: [6, 5]},
    "stacked": {1: [0], 2: [0], 3: [1, 2], 4: [3], 5: [3], 6: [4, 5], 7: [6]},
    "repeated": {1: [0, 0], 2: [1, 0, 1], 3: [2, 2, 0]},
    "many inputs": {5: [0, 1, 2, 3, 4], 6: [5, 4, 3, 2, 1, 0]},
}


def orders(ctx, items):
    """some building orders: onwards, backwards, from both ends"""
    items = sorted(items)
    k = ctx.choice("order", 3)
    if k == 1:
        items.reverse()
    elif k == 2:
        items = items[::2] + items[1::2][::-1]
    return items


def built(ctx, prop=True):
    """a larger network with values for all undetermined variables but at most one"""
    wiring = ctx.pick("wiring", ctx.params.get("wirings", tuple(LARGE)))
    w = LARGE[wiring]
    n = max(w) + 1
    names = ctx.atoms("v", n + 1, distinct=True)    # one more than used
    M = method_class(ctx)
    mg = ctx.m.method.MethodGraph()
    net = Net(ctx, mg, names)
    free = [j for j in range(n) if j not in w]
    late = ctx.pick("late", [None] + free)
    for j in range(n):
        v = ctx.int("i%d" % j) if j in free and j != late else None
        mg.add_variable(names[j], wrap(ctx, v))
        net.present.add(j)
        net.value[j] = v
    ms = {}
    for j in orders(ctx, w):
        ms[j] = M(j, [names[i] for i in w[j]], [names[j]])
        mg.add_method(ms[j], **({} if prop else {"prop": False}))
        net.add(ms[j], w[j], [j])
    return w, n, names, M, mg, net, free, ms


@harness(witnesses=("assigned",))
def large_network(ctx):
    """assignments in a larger network, deferred or not"""
    deferred = ctx.flag("deferred")
    w, n, names, M, mg, net, free, ms = built(ctx, not deferred)
    if deferred:
        mg.propagate()
    net.check("when built")
    for k in range(ctx.params.get("sets", 2)):
        j = ctx.pick("which%d" % k, free)
        v = ctx.int("x%d" % k)
        later = ctx.flag("later%d" % k)
        mg.set(names[j], wrap(ctx, v), prop=not later)
        net.value[j] = v
        if not later:
            net.check("after assigning")
    mg.propagate()
    ctx.reach("assigned")
    net.check("at the end")


@harness(witnesses=("accepted", "cycle", "determined twice"))
def large_refusal(ctx):
    """a method from any variable to any other offered to a larger network"""
    w, n, names, M, mg, net, free, ms = built(ctx)
    i, o = ctx.choice("from", n), ctx.choice("to", n + 1)
    m = M(20, [names[i]], [names[o]])
    twice = net.det(o) is not None
    after, todo = set(), [o]
    while todo:
        x = todo.pop()
        for j in w:
            if x in w[j] and j not in after:
                after.add(j)
                todo.append(j)
    cycle = i == o or i in after
    e = ctx.raises(mg.add_method, m)
    if twice or cycle:
        ctx.reach("determined twice" if twice else "cycle")
        mm = ctx.m.method
        ctx.check("the refusal names a reason that holds", isinstance(e, mm.MethodGraphCycleException) and cycle or
                  isinstance(e, mm.MethodGraphDetermineException) and twice)
    else:
        ctx.reach("accepted")
        ctx.check("an acyclic singly determined method is accepted", e is None)
        net.add(m, [i], [o])
    net.check("after the offer")
    todo = [j for j in sorted(net.present) if not net.det(j)]
    if todo:
        j = ctx.pick("set", todo)
        net.value[j] = ctx.int("after")
        mg.set(names[j], ctx.int("after"))
        net.check("after a later assignment")
    ctx.check("a refused method is never executed", not (twice or cycle) or m.runs == 0)


@harness(witnesses=("method removed", "variable removed"))
def large_removal(ctx):
    """removing any variable or method of a larger network, then an assignment"""
    w, n, names, M, mg, net, free, ms = built(ctx)
    now = {j: unwrap(mg.get(names[j])) for j in range(n)}
    if ctx.flag("method"):
        j = ctx.pick("which", sorted(w))
        mg.rem_method(ms[j])
        net.methods = [x for x in net.methods if x[0] is not ms[j]]
        net.value[j] = now[j]
        ctx.reach("method removed")
    else:
        j = ctx.choice("which variable", n)
        mg.rem_variable(names[j])
        net.present.discard(j)
        net.value.pop(j, None)
        for x in list(net.methods):
            if j in x[1] or j in x[2]:
                net.methods.remove(x)
                for o in x[2]:
                    if o != j:
                        net.value[o] = now[o]
        ctx.reach("variable removed")
    net.check("after removal")
    net.check_vars("after removal")
    runs = {k: m.runs for k, m in ms.items()}
    for i, j in enumerate(j for j in sorted(net.present) if not net.det(j)):
        net.value[j] = ctx.int("after%d" % i)
        mg.set(names[j], ctx.int("after%d" % i))
    net.check("after later assignments")
    for k, m in ms.items():
        ctx.check("a removed method is not executed", any(m is x[0] for x in net.methods) or m.runs == runs[k])


# ------------------------------------------------------------------ C10
class Op(object):
    """a value of an additive type: + and - are uninterpreted (order matters)"""

    def __init__(self, ctx, v):
        self.ctx, self.v = ctx, v

    def __add__(self, o):
        return Op(self.ctx, self.ctx.uf("plus", self.v, o.v))

    def __sub__(self, o):
        return Op(self.ctx, self.ctx.uf("minus", self.v, o.v))

    def _no(self, *a):
        raise ValueError("values need not be comparable")
    __eq__ = __ne__ = __bool__ = _no
    __hash__ = None


def raw(x):
    return x.v if isinstance(x, Op) else x


@harness(witnesses=("add", "sub", "set", "assign", "missing", "none", "aliased"))
def builtin_alone(ctx):
    """execute() of the built-in methods on any input map"""
    mm = ctx.m.method
    names = [ctx.atom("a"), ctx.atom("b"), ctx.atom("c"), ctx.atom("other")]
    ctx.hashing("hash", (0, 2))
    additive = ctx.flag("any additive type")

    def val(tag):
        v = ctx.int(tag)
        return Op(ctx, v) if additive else v
    kind = ctx.pick("kind", ("add", "sub", "set", "assign"))
    ctx.reach(kind)
    a, b, c, o = names
    inmap = {}
    have = {}
    for k, nm in (("a", a), ("b", b), ("c", c), ("o", o)):
        st = ctx.choice("state " + k, 3) if k in ("a", "b") else ctx.choice("state " + k, 2)
        if st == 1:
            inmap[nm] = val(k)
        elif st == 2:
            inmap[nm] = None
            ctx.reach("none")
        else:
            ctx.reach("missing")
    before = list(inmap.items())
    const = val("const")
    if kind == "add":
        m = mm.AddMethod(a, b, c)
    elif kind == "sub":
        m = mm.SubMethod(a, b, c)
    elif kind == "set":
        m = mm.SetMethod(c, const)
    else:
        m = mm.AssignMethod(c, b)
    out = m.execute(inmap)
    after = list(inmap.items())
    ctx.check("the input map is not changed", len(before) == len(after) and
              all(x[0] is y[0] and x[1] is y[1] for x, y in zip(before, after)))
    if a == b:
        ctx.reach("aliased")
    va, vb = inmap.get(a), inmap.get(b)
    if kind == "set":
        want = const
    elif kind == "assign":
        want = vb
    elif va is None or vb is None:
        want = None
    else:
        want = va + vb if kind == "add" else va - vb
    if additive and want is not None and kind in ("set", "assign"):
        ctx.check("the very object", all(x is want for x in out.values()))
    if want is None:
        ctx.check("no operand, no output", isinstance(out, dict) and len(out) == 0)
    else:
        keys = list(out)
        ctx.check("one output", len(keys) == 1)
        ctx.check("under the output's name", len(keys) == 1 and keys[0] == c)
        if len(keys) == 1:
            ctx.check_same("result", raw(out[keys[0]]), raw(want))
            ctx.observe(raw(out[keys[0]]))


@harness(witnesses=("value", "no value"))
def builtin_in_graph(ctx):
    """the built-in methods in a method graph, values assigned before or after"""
    mm = ctx.m.method
    additive = ctx.flag("any additive type")

    def val(tag):
        v = ctx.int(tag)
        return Op(ctx, v) if additive else v
    names = ctx.atoms("v", 5, distinct=True)
    a, b, c, d, e = names
    mg = mm.MethodGraph()
    vals = [None, None]
    late = ctx.flag("late")
    for k, nm in ((0, a), (1, b)):
        if ctx.flag("given%d" % k):
            vals[k] = val("x%d" % k)
        mg.add_variable(nm, None if late else vals[k])
    kinds = [ctx.pick("kind0", ("add", "sub", "assign", "set")), ctx.pick("kind1", ("add", "sub", "assign"))]
    const = val("const")

    def make(kind, x, y, z):
        if kind == "add":
            return mm.AddMethod(x, y, z)
        if kind == "sub":
            return mm.SubMethod(x, y, z)
        if kind == "set":
            return mm.SetMethod(z, const)
        return mm.AssignMethod(z, x)

    def calc(kind, x, y):
        if kind == "set":
            return const
        if kind == "assign":
            return x
        if x is None or y is None:
            return None
        return x + y if kind == "add" else x - y
    first, second = make(kinds[0], a, b, c), make(kinds[1], c, b, d)
    for m in ((first, second) if ctx.flag("in order") else (second, first)):
        mg.add_method(m)
    if late:
        for k, nm in ((0, a), (1, b)):
            mg.set(nm, vals[k])

    def check(what):
        wc = calc(kinds[0], vals[0], vals[1])
        wd = calc(kinds[1], wc, vals[1])
        for nm, want in ((c, wc), (d, wd)):
            got = mg.get(nm) if names_in(mg.variables(), nm) else None
            ctx.reach("value" if want is not None else "no value")
            ctx.check(what + ": has a value", (got is None) == (want is None))
            if got is not None and want is not None:
                ctx.check_same(what + ": value", raw(got), raw(want))
    check("built")
    k = ctx.choice("change", 2)
    vals[k] = None if ctx.flag("to none") else val("y")
    mg.set(names[k], vals[k])
    check("changed")


@harness(theory="real", witnesses=("vectors",))
def builtin_vectors(ctx):
    """sums and differences of vectors in a method graph"""
    mm, ge = ctx.m.method, ctx.m.geometry
    p = [ge.Vector(ctx.real("x%d" % k), ctx.real("y%d" % k)) for k in range(3)]
    mg = mm.MethodGraph()
    a, b, c, d, e = ctx.atoms("v", 5, distinct=True)
    mg.add_variable(a, p[0])
    mg.add_variable(b, p[1])
    mg.add_method(mm.AddMethod(a, b, c))
    mg.add_method(mm.SubMethod(c, b, d))
    mg.add_method(mm.AssignMethod(e, d))
    mg.set(a, p[2])
    ctx.reach("vectors")
    ctx.check("sum", ctx.all(ctx.close(mg.get(c).x, p[2].x + p[1].x), ctx.close(mg.get(c).y, p[2].y + p[1].y)))
    ctx.check("difference", ctx.close_point(mg.get(d), p[2]))
    ctx.check("assignment", ctx.close_point(mg.get(e), p[2]))
    ctx.check("assignment keeps the value itself", mg.get(e) is mg.get(d))


@harness(witnesses=("propagated", "refused"))
def very_long(ctx):
    """a chain of methods longer than Python's stack is deep"""
    with deep_stack():
        _very_long(ctx)


def _very_long(ctx):
    n = ctx.params["n"]
    mm = ctx.m.method
    mg = mm.MethodGraph()
    x = [ctx.int("x%d" % k) for k in range(4)]
    ms = [mm.AssignMethod(k + 1, k) for k in range(n)]
    early = ctx.flag("value first")
    if early:
        mg.add_variable(0, x[0])
    for m in ms:
        if early or not ctx.flag("deferred"):
            mg.add_method(m)
        else:
            mg.add_method(m, prop=False)
    if not early:
        mg.set(0, x[0])

    def check(what, value, upto=n):
        got = [mg.get(k) for k in range(upto + 1)]
        ctx.check(what + ": a value each", all(v is not None for v in got))
        ctx.check(what, ctx.all(*[ctx.same(v, value) for v in got]) if None not in got else False)
    check("built", x[0])
    ctx.reach("propagated")
    mg.set(0, x[1], prop=False)
    mg.set(0, x[2], prop=False)
    mg.propagate()
    check("assigned later", x[2])
    back = ctx.pick("back to", (0, 1, n // 2))
    e = ctx.raises(mg.add_method, mm.AssignMethod(back, n))
    ctx.reach("refused")
    ctx.check("closing the chain is refused", isinstance(e, (mm.MethodGraphCycleException, mm.MethodGraphDetermineException)))
    check("after the refusal", x[2])
    cut = ctx.pick("cut", (0, n // 2, n - 1))
    mg.rem_method(ms[cut])
    mg.set(0, x[3])
    check("before the cut", x[3], cut)
    ctx.check("behind the cut", ctx.all(*[ctx.same(mg.get(k), x[2]) for k in range(cut + 1, n + 1)]))
    mg.set(cut + 1, x[1])
    ctx.check("set behind the cut", ctx.all(*[ctx.same(mg.get(k), x[1]) for k in range(cut + 1, n + 1)]))
    mg.clear()
    ctx.check("cleared", len(list(mg.variables())) == 0 and len(list(mg.methods())) == 0)


@harness(witnesses=("propagated",))
def wide(ctx):
    """many variables changed at once, a method that reads them all and one that writes many"""
    n = ctx.params["n"]
    mm = ctx.m.method
    M = method_class(ctx)
    mg = mm.MethodGraph()
    src, mid, ends = list(range(n)), list(range(n, 2 * n)), list(range(2 * n + 1, 3 * n + 1))
    x = [ctx.int("x%d" % k) for k in range(n)]
    moves = [mm.AssignMethod(mid[k], src[k]) for k in range(n)]
    total, spread = M(0, mid, [2 * n]), M(1, [2 * n], ends)
    ms = moves + [total, spread]
    if ctx.flag("backwards"):
        ms.reverse()
    late = ctx.flag("deferred")
    early = ctx.flag("values first")
    opts = {"prop": False} if late else {}

    def give():
        for k in range(n):
            if late or not early:
                mg.add_variable(src[k])
                mg.set(src[k], x[k], **opts)
            else:
                mg.add_variable(src[k], x[k])
    if early:
        give()
    for m in ms:
        mg.add_method(m, **opts)
    if not early:
        give()
    mg.propagate()

    def check(what, x):
        want = [[v] for v in x + x]
        t = None if any(v is None for v in x) else unwrap(total.results(x)[2 * n])
        want.append([t])
        want += [[None if t is None else unwrap(spread.results([t])[v])] for v in ends]
        for k, (w,) in enumerate(want):
            got = unwrap(mg.get(k))
            ctx.check(what + ": value present exactly when it should be", (got is None) == (w is None))
            if got is not None and w is not None:
                ctx.check_same(what + ": value", got, w)
    ctx.reach("propagated")
    check("built", x)
    k = ctx.pick("changed", (0, n // 2, n - 1))
    x[k] = ctx.int("y") if ctx.flag("a value") else None
    mg.set(src[k], x[k])
    check("one changed", x)
    for j in range(n):
        x[j] = None if j % 5 else ctx.int("w%d" % j)
        mg.set(src[j], x[j], prop=False)
    mg.propagate()
    check("most taken away", x)
    for j in reversed(range(n)):
        x[j] = ctx.int("z%d" % j)
        mg.set(src[j], x[j], prop=False)
    mg.propagate()
    check("all changed", x)
    k = ctx.pick("removed", (0, n - 1))
    mg.rem_method(moves[k])
    old = x[k]
    for j in range(n):
        mg.set(src[j], x[(j + 1) % n])
    x = [x[(j + 1) % n] for j in range(n)]
    got = [unwrap(mg.get(mid[j])) for j in range(n)]
    for j in range(n):
        ctx.check_same("one method less", got[j], old if j == k else x[j])
    t = unwrap(total.results([old if j == k else x[j] for j in range(n)])[2 * n])
    ctx.check_same("one method less", unwrap(mg.get(2 * n)), t)
    for v in ends:
        ctx.check_same("one method less", unwrap(mg.get(v)), unwrap(spread.results([t])[v]))


# ------------------------------------------------------------------ C35
JUNK = object()


def recording_class(ctx, M, box):
    """methods that look at what they are given, and then spoil it"""
    spoil = ctx.pick("spoil", ("nothing", "values", "keys"))

    class Recording(M):
        state = None          # something outside the graph the results depend on

        def execute(self, inmap):
            mg = box[0]
            names = []
            for v in list(self.inputs) + list(self.outputs):
                if not any(v is x for x in names):
                    names.append(v)
            ctx.check("given its inputs and outputs, nothing else", len(inmap) == len(names) and all(v in inmap for v in names))
            for v in names:
                if v not in inmap:
                    continue
                got, want = inmap[v], mg.get(v)
                isin = any(v is x for x in self.inputs)
                ctx.check("executed only with all inputs present", not isin or got is not None)
                ctx.check("given the values of the moment", (got is None) == (want is None))
                if got is not None and want is not None:
                    ctx.check_same("given the values of the moment", unwrap(got), unwrap(want))
                    if ctx.params.get("hostile"):
                        ctx.check("given the very objects", got is want)
                ctx.reach("previous output" if got is not None and not isin else "input")
            before = [mg.get(v) for v in names]
            self.runs += 1
            out = self.results([unwrap(inmap[v]) for v in self.inputs])
            if spoil == "values":
                for v in names:
                    inmap[v] = JUNK
            elif spoil == "keys":
                inmap.clear()
                inmap["another"] = JUNK
            ctx.check("the map is the method's own", all(mg.get(v) is x for v, x in zip(names, before)))
            return out

        def results(self, args):
            # only as many results as without the state
            if self.state is not None:
                args = args + [self.state]
            out = {}
            for i, v in enumerate(self.outputs):
                tag = "%d_%d_%d" % (self.k, i, self.state is not None)
                if ctx.params.get("declines") and ctx.pred("gives" + tag, *args):
                    continue
                out[v] = wrap(ctx, ctx.uf("f" + tag, *args))
            return out
    return Recording


WIDE = {
    # methods of several inputs and outputs: (inputs, outputs)
    "one": [([0], [1])],
    "none": [([], [0]), ([0], [1])],
    "chain": [([0], [1]), ([1], [2])],
    "join": [([0, 1], [2]), ([2, 0], [3])],
    "split": [([0], [1, 2]), ([2, 1], [3])],
    "diamond": [([0], [1]), ([0], [2]), ([1, 2], [3])],
    "twice": [([0, 0], [1]), ([1, 0, 1], [2])],
    "many": [([3, 0, 1], [2, 4])],
}


@harness(witnesses=("input", "previous output", "asked for"))
def given(ctx):
    """what methods are given whenever they are executed, and executing them on request"""
    shape = WIDE[ctx.pick("shape", ctx.params.get("shapes", tuple(sorted(WIDE))))]
    n = 1 + max(i for ins, outs in shape for i in ins + outs)
    names = ctx.atoms("v", n, distinct=True)
    mg = ctx.m.method.MethodGraph()
    box = [mg]
    M = recording_class(ctx, method_class(ctx), box)
    net = Net(ctx, mg, names)
    determined = set(j for _, outs in shape for j in outs)
    free = [j for j in range(n) if j not in determined]
    early = ctx.flag("values first")
    for j in range(n):
        v = None
        if early and j in free:
            v = ctx.int("i%d" % j)
        elif j not in free and ctx.flag("old value"):
            v = ctx.int("o%d" % j)       # an output with a value of its own, before it is determined
        mg.add_variable(names[j], wrap(ctx, v))
        net.present.add(j)
        net.value[j] = v
    order = permutation(ctx, "method", range(len(shape)))
    late = ctx.flag("propagated later")
    for k in order:
        ins, outs = shape[k]
        m = M(k, [names[i] for i in ins], [names[i] for i in outs])
        if late:
            mg.add_method(m, prop=False)
        else:
            mg.add_method(m)
        net.add(m, ins, outs)
    if late:
        mg.propagate()
    net.check("built")
    if not early:
        for j in free:
            v = ctx.int("i%d" % j)
            mg.set(names[j], wrap(ctx, v))
            net.value[j] = v
        net.check("values given")
    asked = 0
    for s in range(ctx.params["steps"]):
        what = ctx.pick("step%d" % s, ("set", "set none", "later", "ask")[0 if free else 3:])
        if what == "ask":
            m, ins, outs = net.methods[ctx.choice("method %d" % s, len(net.methods))]
            # what the method depends on besides its inputs is not what it was
            m.state = ctx.int("state%d" % s)
            runs = m.runs
            mg.execute(m)
            if all(net.want(i) is not None for i in ins):
                ctx.reach("asked for")
                ctx.check("executed when asked to", m.runs > runs)
            asked += 1
        else:
            j = ctx.pick("which%d" % s, free)
            v = None if what == "set none" else ctx.int("x%d" % s)
            if what == "later":
                mg.set(names[j], wrap(ctx, v), prop=False)
            else:
                mg.set(names[j], wrap(ctx, v))
            net.value[j] = v
            if what == "later":
                if ctx.flag("never mind%d" % s):
                    continue
                mg.propagate()
        net.check("after a step")
    mg.propagate()
    net.check("at the end")


# ------------------------------------------------------------------ C11
def value_sets(ctx, tag, n):
    """a multi-value of 0..n symbolic values (equal ones collapse)"""
    return set(ctx.int("%s%d" % (tag, i)) for i in range(ctx.choice("size " + tag, n + 1)))


def distinct_in(ctx, xs):
    out = []
    for x in xs:
        if not any(ctx.decided(ctx.same(x, y)) for y in out):
            out.append(x)
    return out


@harness(witnesses=("mixed", "multi only", "single only"))
def multi(ctx):
    """execute() of a multi-method: any mixture of inputs, any evaluation function"""
    mm = ctx.m.method
    n = ctx.params["inputs"]
    nres = ctx.params.get("results", 1)
    ins, vals = [], []
    singles = 0
    for i in range(n):
        if ctx.flag("multi%d" % i):
            ins.append(mm.MultiVariable("m%d" % i) if ctx.flag("named%d" % i) else mm.MultiVariable())
            k = ctx.choice("size%d" % i, ctx.params["values"] + 1)
            vals.append(distinct_in(ctx, [ctx.int("x%d_%d" % (i, q)) for q in range(k)]))
        else:
            ins.append(ctx.atom("s%d" % i))
            vals.append(ctx.int("y%d" % i))
            singles += 1
    ctx.reach("single only" if singles == n else "multi only" if singles == 0 else "mixed")
    for i in range(n):
        for j in range(i):
            if not isinstance(ins[i], mm.MultiVariable) and not isinstance(ins[j], mm.MultiVariable):
                if ins[i] == ins[j]:
                    vals[i] = vals[j]
    outv = mm.MultiVariable("out")

    class Eval(mm.MultiMethod):
        def multi_execute(self, inmap):
            args = [inmap[v] for v in self.inputs]
            return [ctx.uf("g%d" % q, *args) for q in range(nres) if not fewer or ctx.pred("gives%d" % q, *args)]
    fewer = ctx.params.get("fewer")
    m = Eval("eval", list(ins), [outv])
    inmap = {}
    for v, x in zip(ins, vals):
        inmap[v] = set(x) if isinstance(x, list) else x
    sizes = [len(x) if isinstance(x, list) else -1 for x in vals]
    if ctx.flag("previous output given"):
        inmap[outv] = set([ctx.int("old")])
    out = m.execute(inmap)
    keys = list(out)
    ctx.check("one output under the output variable", len(keys) == 1 and keys[0] is outv)
    if len(keys) != 1:
        return
    got = list(out[keys[0]])
    # the full Cartesian product
    combos = [[]]
    for x in vals:
        combos = [c + [v] for c in combos for v in (x if isinstance(x, list) else [x])]
    want = [ctx.uf("g%d" % q, *c) for c in combos for q in range(nres) if not fewer or ctx.pred("gives%d" % q, *c)]
    for x in want:
        ctx.check("no combination is skipped", ctx.any(*[ctx.same(x, y) for y in got]))
    for y in got:
        ctx.check("nothing else is produced", ctx.any(*[ctx.same(x, y) for x in want]))
    for i in range(len(got)):
        for j in range(i):
            ctx.check("each value once", ctx.neg(ctx.same(got[i], got[j])))
    for v, x, k in zip(ins, vals, sizes):
        if k >= 0:
            ctx.check("the input values are not changed", len(inmap[v]) == k)


class Held(object):
    """a value told from others by which object it is"""

    def __init__(self, x):
        self.x = x

    def __eq__(self, o):
        return isinstance(o, Held) and self.x is o.x

    def __hash__(self):
        return 11


@harness(witnesses=("mixed", "multi only", "single only"))
def large_multi(ctx):
    """many values: different opaque values, an evaluation that keeps its operands apart"""
    mm = ctx.m.method
    sizes = ctx.pick("sizes", ctx.params["sizes"])      # None: single-valued
    ctx.hashing("hash", (0, 2))
    total = sum(1 if k is None else k for k in sizes)
    pool = ctx.atoms("x", total, distinct=True)
    single = ctx.atoms("s", len(sizes), distinct=True)
    ins, vals = [], []
    # a single-valued input may hold any value, collections as well
    # the values of a multi-valued input may be in any collection, the variable of any derived class
    keep = ctx.pick("kept in", (set, list, frozenset, tuple))

    class Own(mm.MultiVariable):
        pass
    Multi = Own if keep in (frozenset, list) else mm.MultiVariable
    held = ctx.pick("held", (lambda x: x, lambda x: Held(set([x])), lambda x: Held([x, x]), lambda x: Held({x: x}))) if None in sizes else None
    for i, k in enumerate(sizes):
        ins.append(single[i] if k is None else Multi("m%d" % i))
        vals.append(held(pool.pop()) if k is None else [pool.pop() for _ in range(k)])
    ctx.reach("single only" if all(k is None for k in sizes) else "mixed" if None in sizes else "multi only")
    results = ctx.choice("results", 3)
    outv = Multi("out")

    class Eval(mm.MultiMethod):
        def multi_execute(self, inmap):
            args = tuple(Held(inmap[v]) for v in self.inputs)
            return [(q,) + args for q in range(results)]
    m = Eval("eval", list(ins), [outv])
    inmap = dict((v, keep(x) if isinstance(x, list) else x.x if isinstance(x, Held) else x) for v, x in zip(ins, vals))
    if ctx.flag("in a graph"):
        mg = mm.MethodGraph()
        for v in ins:
            mg.add_variable(v)
        mg.add_method(m)
        order = list(zip(ins, vals))
        if ctx.flag("backwards"):
            order.reverse()
        for v, x in order:
            mg.set(v, inmap[v])
        got = mg.get(outv)
    else:
        out = m.execute(inmap)
        ctx.check("one output under the output variable", len(out) == 1 and outv in out)
        got = out[outv]
    combos = [()]
    for x in vals:
        combos = [c + (v,) for c in combos for v in (x if isinstance(x, list) else [x])]
    def key(t):
        return (t[0],) + tuple(id(x.x if isinstance(x, Held) else x) for x in t[1:])
    want = sorted(key((q,) + c) for c in combos for q in range(results))
    got = sorted(key(t) for t in got)
    ctx.check("no combination is skipped", set(want) <= set(got))
    ctx.check("nothing else is produced", set(got) <= set(want))
    ctx.check("each value once", len(got) == len(set(got)))
    for v, x in zip(ins, vals):
        ctx.check("the input values are not changed", not isinstance(x, list) or
                  sorted(map(id, inmap[v])) == sorted(map(id, x)))
    ctx.observe(len(got))


@harness(witnesses=("propagated", "no value"))
def multi_in_graph(ctx):
    """multi-methods in a method graph, chained, with values changed afterwards"""
    mm = ctx.m.method

    class Pair(mm.MultiMethod):
        def __init__(self, k, a, b, c):
            super(Pair, self).__init__("pair", [a, b], [c])
            self.k = k

        def __hash__(self):
            return 50 + self.k

        def __eq__(self, o):
            return self is o

        def multi_execute(self, inmap):
            return [ctx.uf("g%d" % self.k, inmap[self.inputs[0]], inmap[self.inputs[1]])]
    x, z, t = mm.MultiVariable("x"), mm.MultiVariable("z"), mm.MultiVariable("t")
    y, s = ctx.atoms("y", 2, distinct=True)
    mg = mm.MethodGraph()
    n = ctx.params.get("values", 2)
    X = distinct_in(ctx, [ctx.int("x%d" % i) for i in range(n)])
    Y, S = ctx.int("y"), ctx.int("s")
    given = [ctx.flag("have x"), ctx.flag("have y"), ctx.flag("have s")]
    first = ctx.flag("values first")

    def assign():
        for k, (v, val) in enumerate(((x, set(X)), (y, Y), (s, S))):
            if given[k]:
                if first:
                    mg.add_variable(v, val)
                else:
                    mg.set(v, val)
    if first:
        assign()
    swap = ctx.flag("operands swapped")
    ms = [Pair(0, y, x, z) if swap else Pair(0, x, y, z), Pair(1, z, s, t)]
    for m in (ms if ctx.flag("in order") else reversed(ms)):
        mg.add_method(m)
    if not first:
        assign()

    def check(what, X, Y, S):
        wz = None if X is None or Y is None else [ctx.uf("g0", *((Y, v) if swap else (v, Y))) for v in X]
        wt = None if wz is None or S is None else [ctx.uf("g1", v, S) for v in wz]
        for v, want in ((z, wz), (t, wt)):
            got = mg.get(v)
            ctx.check(what + ": has a value", (got is None) == (want is None))
            if want is None or got is None:
                ctx.reach("no value")
                continue
            ctx.reach("propagated")
            for p in want:
                ctx.check(what + ": nothing skipped", ctx.any(*[ctx.same(p, q) for q in got]))
            for q in got:
                ctx.check(what + ": nothing else", ctx.any(*[ctx.same(p, q) for p in want]))
    X0, Y0, S0 = (X if given[0] else None), (Y if given[1] else None), (S if given[2] else None)
    check("built", X0, Y0, S0)
    which = ctx.choice("change", 3)
    if which == 0:
        X0 = [ctx.int("x9")]
        mg.set(x, set(X0))
    elif which == 1:
        Y0 = ctx.int("y9")
        mg.set(y, Y0)
    else:
        S0 = ctx.int("s9")
        mg.set(s, S0)
    check("changed", X0, Y0, S0)


@harness(witnesses=("refused", "accepted"))
def multi_shapes(ctx):
    """a multi-method needs exactly one output, which must be multi-valued"""
    mm = ctx.m.method

    class Eval(mm.MultiMethod):
        def multi_execute(self, inmap):
            return []

    class Own(mm.MultiVariable):
        pass
    derived = ctx.flag("derived")
    outs = []
    k = ctx.choice("outputs", 4)
    kinds = [ctx.flag("multi%d" % i) for i in range(k)]
    for i in range(k):
        outs.append((Own if derived else mm.MultiVariable)() if kinds[i] else ctx.atom("o%d" % i))
    ins = [(Own if derived else mm.MultiVariable)() if ctx.flag("in%d" % i) else ctx.atom("i%d" % i) for i in range(ctx.choice("inputs", 3))]
    e = ctx.raises(Eval, "eval", ins, outs)
    good = k == 1 and kinds[0]
    ctx.reach("accepted" if good else "refused")
    ctx.check("refused exactly when there is not one multi-valued output", (e is None) == good)


@harness(witnesses=("sumprod",))
def sumprod(ctx):
    mm = ctx.m.method
    both = ctx.choice("kinds", 4)
    X = distinct_in(ctx, [ctx.int("x%d" % i) for i in range(2)])
    Y = distinct_in(ctx, [ctx.int("y%d" % i) for i in range(2)])
    a = mm.MultiVariable("a") if both & 1 else "a"
    b = mm.MultiVariable("b") if both & 2 else "b"
    if not both & 1:
        X = X[:1]
    if not both & 2:
        Y = Y[:1]
    c = mm.MultiVariable("c")
    m = mm.SumProdMethod(a, b, c)
    out = m.execute({a: set(X) if both & 1 else X[0], b: set(Y) if both & 2 else Y[0]})
    got = list(out[c])
    ctx.reach("sumprod")
    want = [v for x in X for y in Y for v in (x + y, x * y)]
    for p in want:
        ctx.check("every sum and product", ctx.any(*[ctx.same(p, q) for q in got]))
    for q in got:
        ctx.check("only sums and products", ctx.any(*[ctx.same(p, q) for p in want]))
    for i in range(len(got)):
        for j in range(i):
            ctx.check("each value once", ctx.neg(ctx.same(got[i], got[j])))
