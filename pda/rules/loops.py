"""C20: termination.  Every loop has an exit test on a counter that advances on every path; the call graph has no cycle."""
import ast

from ..check import Report
from .state import analysis, scopes, walk_scope
from .common import Fn

INFINITE = {"itertools.count", "itertools.cycle"}


def plus(a, b):
    """net change of two consecutive changes"""
    if a == "0":
        return b
    if b == "0":
        return a
    if a == b and a in "+-":
        return a
    return "?" if "R" not in (a, b) else "R"


def seq(xs, ys):
    return {plus(x, y) for x in xs for y in ys}


def change_of(v, st):
    """change of variable v by one simple statement: 0 + - ? (unknown arithmetic) R (reset / computed)"""
    if isinstance(st, ast.AugAssign) and isinstance(st.target, ast.Name) and st.target.id == v:
        s = sign(st.value)
        if isinstance(st.op, ast.Add):
            return s
        if isinstance(st.op, ast.Sub):
            return {"+": "-", "-": "+"}.get(s, s)
        return "?"
    if isinstance(st, (ast.Assign, ast.AnnAssign)):
        ts = st.targets if isinstance(st, ast.Assign) else [st.target]
        for t in ts:
            for z in ast.walk(t):
                if isinstance(z, ast.Name) and z.id == v and isinstance(z.ctx, ast.Store):
                    if not isinstance(t, ast.Name):
                        if isinstance(t, (ast.Tuple, ast.List)) and isinstance(st.value, (ast.Tuple, ast.List)) and len(t.elts) == len(st.value.elts):
                            for a, b in zip(t.elts, st.value.elts):
                                if isinstance(a, ast.Name) and a.id == v:
                                    return rhs_change(v, b)
                        return "?" if by_helper(v, st.value) else "R"
                    return rhs_change(v, st.value)
    for z in ast.walk(st):
        if isinstance(z, ast.NamedExpr) and z.target.id == v:
            return rhs_change(v, z.value)
    return "0"


def by_helper(v, e):
    """the new value comes from a function of the package that is given the old one"""
    return isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and any(isinstance(z, ast.Name) and z.id == v for a in list(e.args) + [k.value for k in e.keywords]
                                                                             for z in ast.walk(a))


def rhs_change(v, e):
    if by_helper(v, e) and e.func.id not in ("float", "abs", "round", "sum"):
        return "?"
    if isinstance(e, ast.BinOp):
        if isinstance(e.op, ast.Add):
            for a, b in ((e.left, e.right), (e.right, e.left)):
                if isinstance(a, ast.Name) and a.id == v:
                    return sign(b)
        if isinstance(e.op, ast.Sub) and isinstance(e.left, ast.Name) and e.left.id == v:
            return {"+": "-", "-": "+"}.get(sign(e.right), sign(e.right))
    if isinstance(e, ast.Name) and e.id == v:
        return "0"
    names = {z.id for z in ast.walk(e) if isinstance(z, ast.Name)}
    calls = [z for z in ast.walk(e) if isinstance(z, ast.Call)]
    if v in names and all(isinstance(c.func, ast.Name) and c.func.id in ("min", "max", "int", "len", "abs") for c in calls):
        if isinstance(e, ast.Call) and e.args and isinstance(e.args[0], ast.BinOp) and e.func.id == "int":
            return rhs_change(v, e.args[0])
        return "?"
    return "R"


def sign(e):
    if isinstance(e, ast.Constant) and isinstance(e.value, (int, float)) and not isinstance(e.value, bool):
        return "+" if e.value > 0 else ("-" if e.value < 0 else "0")
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.USub):
        return {"+": "-", "-": "+"}.get(sign(e.operand), sign(e.operand))
    if isinstance(e, ast.BinOp) and isinstance(e.op, (ast.Add, ast.Mult)):
        a, b = sign(e.left), sign(e.right)
        if a == b == "+":
            return "+"
    if isinstance(e, ast.IfExp):
        a, b = sign(e.body), sign(e.orelse)
        return a if a == b else ("0" if "0" in (a, b) else "?")
    if isinstance(e, ast.Compare) or (isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not)):
        return "0"
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ("int", "bool", "float") and len(e.args) == 1:
        return sign(e.args[0])
    calls = [z for z in ast.walk(e) if isinstance(z, ast.Call)]
    if calls and not all(isinstance(c.func, ast.Name) and c.func.id in ("min", "max", "int", "len", "abs", "round") for c in calls):
        return "R"
    return "?"


def paths(v, body):
    """(net changes when control falls out of the block, net changes when it continues with the next iteration, may leave)"""
    cur = {"0"}
    cont = set()
    for st in body:
        if not cur:
            break
        if isinstance(st, (ast.Break, ast.Return, ast.Raise)):
            cur = set()
        elif isinstance(st, ast.Continue):
            cont |= cur
            cur = set()
        elif isinstance(st, ast.If):
            f1, c1 = paths(v, st.body)
            f2, c2 = paths(v, st.orelse)
            t = test_change(v, st.test)
            cur = seq(cur, t)
            cont |= seq(cur, c1 | c2) if (c1 | c2) else set()
            cur = seq(cur, f1 | f2) if (f1 | f2) else set()
        elif isinstance(st, (ast.For, ast.While, ast.AsyncFor)):
            f1, c1 = paths(v, [strip_break(z) for z in st.body])
            inner = {"0"} | f1 | c1
            if "+" in inner and "-" in inner:
                inner.add("?")
            if isinstance(st, ast.For) and v in {z.id for z in ast.walk(st.target) if isinstance(z, ast.Name)}:
                inner = {"R"}
            cur = seq(cur, inner)
            if st.orelse:
                f2, c2 = paths(v, st.orelse)
                cont |= seq(cur, c2) if c2 else set()
                cur = seq(cur, f2) if f2 else set()
        elif isinstance(st, (ast.With, ast.AsyncWith)):
            f1, c1 = paths(v, st.body)
            cont |= seq(cur, c1) if c1 else set()
            cur = seq(cur, f1) if f1 else set()
        elif isinstance(st, ast.Try):
            f1, c1 = paths(v, st.body + st.orelse)
            start = cur
            cont |= seq(cur, c1) if c1 else set()
            out = seq(cur, f1) if f1 else set()
            part = partial(v, st.body)
            for h in st.handlers:
                f2, c2 = paths(v, h.body)
                pre = seq(start, part)
                cont |= seq(pre, c2) if c2 else set()
                out |= seq(pre, f2) if f2 else set()
            if st.finalbody:
                f3, c3 = paths(v, st.finalbody)
                cont = seq(cont, f3) if cont and f3 else cont
                out = seq(out, f3) if out and f3 else out
            cur = out
        elif isinstance(st, (ast.FunctionDef, ast.ClassDef)):
            continue
        else:
            cur = seq(cur, {change_of(v, st)})
    return cur, cont


def partial(v, body):
    """changes after any prefix of the block"""
    out = {"0"}
    cur = {"0"}
    for st in body:
        f, c = paths(v, [st])
        cur = seq(cur, f | c) if (f | c) else set()
        out |= cur
        if not cur:
            break
    return out


def test_change(v, test):
    for z in ast.walk(test):
        if isinstance(z, ast.NamedExpr) and z.target.id == v:
            return {rhs_change(v, z.value)}
    return {"0"}


def strip_break(st):
    """break inside an inner loop ends that loop only"""
    class T(ast.NodeTransformer):
        def visit_Break(self, n):
            return ast.copy_location(ast.Pass(), n)

        def visit_Continue(self, n):
            return ast.copy_location(ast.Pass(), n)

        def visit_For(self, n):
            return n
        visit_While = visit_For
        visit_FunctionDef = visit_For
    import copy
    return T().visit(copy.copy(st) if not isinstance(st, (ast.If, ast.With, ast.Try)) else copy.deepcopy(strip_parent(st)))


def strip_parent(st):
    import pickle  # noqa: F401
    return ast.parse(ast.unparse(st)).body[0]


def conjuncts(t):
    if isinstance(t, ast.BoolOp) and isinstance(t.op, ast.And):
        for z in t.values:
            yield from conjuncts(z)
    else:
        yield t


def disjuncts(t):
    if isinstance(t, ast.BoolOp) and isinstance(t.op, ast.Or):
        for z in t.values:
            yield from disjuncts(z)
    else:
        yield t


FLIP = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}
NEG = {ast.Lt: ast.GtE, ast.Gt: ast.LtE, ast.LtE: ast.Gt, ast.GtE: ast.Lt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq}


def stay(test):
    """elementary conditions that must all hold for the loop to go on: list of (node, negated)"""
    out = []
    for c in conjuncts(test):
        neg = False
        while isinstance(c, ast.UnaryOp) and isinstance(c.op, ast.Not):
            neg, c = not neg, c.operand
        if neg and isinstance(c, ast.BoolOp) and isinstance(c.op, ast.Or):
            for z in disjuncts(c):
                out.append((z, True))
        else:
            out.append((c, neg))
    return out


def leave(test):
    """conditions each of which makes an exit 'if test: break' happen: negations are the stay conditions"""
    out = []
    for c in disjuncts(test):
        neg = True
        while isinstance(c, ast.UnaryOp) and isinstance(c.op, ast.Not):
            neg, c = not neg, c.operand
        out.append((c, neg))
    return out


def classify(cond, neg, body, loop):
    """('ok'|'unknown'|'bad', why): does the condition 'cond' (negated: not cond) fail after finitely many iterations?"""
    if isinstance(cond, ast.Compare) and len(cond.ops) == 1:
        op = type(cond.ops[0])
        if op not in FLIP:
            return "bad", "%s is not a counter test" % ast.unparse(cond)
        if neg:
            op = NEG[op]
        best = ("bad", "%s: no counter advances towards the bound on every path" % ast.unparse(cond))
        for left, right, o in ((cond.left, cond.comparators[0], op), (cond.comparators[0], cond.left, FLIP[op])):
            for v, off in counter_vars(left):
                r = advance(v, o, right, body, loop)
                if off == "-":
                    r = advance(v, FLIP[o], right, body, loop)
                if off == "?" and r[0] == "ok":
                    r = ("unknown", r[1])
                if r[0] == "ok":
                    return r
                if r[0] == "unknown":
                    best = r
                elif best[0] == "bad" and r[1]:
                    best = r
        return best
    if isinstance(cond, ast.Name):
        f, c = paths(cond.id, body)
        ch = f | c
        if not neg and ch and ch <= {"-"}:
            return "ok", "counts %s down to zero" % cond.id
        if mutates_list(cond.id, body):
            return "unknown", "work list %s" % cond.id
        if "?" in ch and "R" not in ch:
            return "unknown", "%s" % cond.id
        return "bad", "%s is computed, not counted" % cond.id
    if isinstance(cond, ast.Call) and isinstance(cond.func, ast.Name) and cond.func.id == "len" and cond.args and isinstance(cond.args[0], ast.Name):
        return ("unknown", "length of %s" % cond.args[0].id) if mutates_list(cond.args[0].id, body) else ("bad", "len(%s) does not change" % cond.args[0].id)
    if isinstance(cond, ast.BoolOp) and isinstance(cond.op, ast.Or) and not neg:
        rs = [classify(z, False, body, loop) for z in cond.values]
        if all(r[0] == "ok" for r in rs):
            return rs[0]
        if any(r[0] == "bad" for r in rs):
            return [r for r in rs if r[0] == "bad"][0]
        return rs[0]
    return "bad", "%s is not a counter test" % ast.unparse(cond)


def mutates_list(name, body):
    for st in body:
        for z in ast.walk(st):
            if isinstance(z, ast.Call) and isinstance(z.func, ast.Attribute) and isinstance(z.func.value, ast.Name) and z.func.value.id == name and z.func.attr in (
                    "pop", "popleft", "remove", "popitem"):
                return True
            if isinstance(z, ast.Delete) and name in ast.unparse(z):
                return True
            if isinstance(z, ast.Assign) and any(isinstance(t, ast.Name) and t.id == name for t in z.targets) and isinstance(z.value, ast.Subscript):
                return True
    return False


def counter_vars(e):
    if isinstance(e, ast.Name):
        yield e.id, "+"
    elif isinstance(e, ast.BinOp) and isinstance(e.op, (ast.Add, ast.Sub)):
        for z in (e.left, e.right):
            for v, o in counter_vars(z):
                yield v, (o if not (isinstance(e.op, ast.Sub) and z is e.right) else {"+": "-", "-": "+"}.get(o, "?"))
    elif isinstance(e, ast.BinOp) and isinstance(e.op, ast.Mult):
        for z in (e.left, e.right):
            for v, _ in counter_vars(z):
                yield v, "?"
    elif isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "len" and e.args and isinstance(e.args[0], ast.Name):
        yield "len:" + e.args[0].id, "+"
    elif isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name):
        yield "attr:" + ast.unparse(e), "+"


def advance(v, op, bound, body, loop):
    if v.startswith("len:"):
        n = v[4:]
        app = appends_every(n, body)
        if op in (ast.Lt, ast.LtE):
            return ("ok", "%s grows by one element each time" % n) if app else ("unknown" if grows(n, body) else "bad", "length of %s" % n)
        return ("unknown", "length of %s" % n) if mutates_list(n, body) else ("bad", "length of %s" % n)
    if v.startswith("attr:"):
        return "unknown", "attribute %s" % v[5:]
    f, c = paths(v, body)
    ch = f | c
    if not ch:
        return "ok", "the body always leaves the loop"
    bn = {z.id for z in ast.walk(bound) if isinstance(z, ast.Name)}
    bch = set()
    for b in bn:
        f2, c2 = paths(b, body)
        bch |= f2 | c2
    want = "+" if op in (ast.Lt, ast.LtE) else ("-" if op in (ast.Gt, ast.GtE) else None)
    if op is ast.Eq:
        return "bad", "waits until %s changes" % v
    if op is ast.NotEq:
        if ch <= {"+"} or ch <= {"-"}:
            return "unknown", "%s runs until it equals %s" % (v, ast.unparse(bound))
        return "bad", "%s does not advance on every path" % v
    if ch <= {want}:
        if bch <= {"0"} or bch <= {"0", "-" if want == "+" else "+"}:
            return "ok", "%s advances on every path towards %s" % (v, ast.unparse(bound))
        if bch and bch <= {want}:
            return "bad", "the bound %s moves along with %s" % (ast.unparse(bound), v)
        return "unknown", "bound %s changes in the loop" % ast.unparse(bound)
    if "R" in ch:
        return "bad", "%s is computed anew or reset, not counted" % v
    if "?" in ch and "0" not in ch and not ({"+", "-"} - {want}) & ch:
        return "unknown", "step of %s is not a constant" % v
    if "0" in ch:
        return "bad", "%s does not advance on every path through the loop" % v
    return "bad", "%s moves away from %s" % (v, ast.unparse(bound))


def appends_every(n, body):
    for st in body:
        if isinstance(st, ast.Expr) and isinstance(st.value, ast.Call) and isinstance(st.value.func, ast.Attribute) and st.value.func.attr in ("append",) \
                and isinstance(st.value.func.value, ast.Name) and st.value.func.value.id == n:
            return not any(isinstance(z, ast.Continue) for s in body for z in ast.walk(s))
    return False


def grows(n, body):
    for st in body:
        for z in ast.walk(st):
            if isinstance(z, ast.Call) and isinstance(z.func, ast.Attribute) and z.func.attr in ("append", "extend", "insert") and isinstance(z.func.value, ast.Name) \
                    and z.func.value.id == n:
                return True
            if isinstance(z, (ast.Assign, ast.AugAssign)) and n in ast.unparse(z):
                return True
    return False


def exits(body):
    """tests of the 'if test: leave' statements every iteration passes, before anything can skip them"""
    for st in body:
        if isinstance(st, ast.If):
            if leaves(st.body):
                yield st.test, False
            if st.orelse and leaves(st.orelse):
                yield st.test, True
            if any(isinstance(z, ast.Continue) for z in ast.walk(st)):
                return
        elif isinstance(st, (ast.With,)):
            yield from exits(st.body)
        elif isinstance(st, ast.Try):
            yield from exits(st.body)
            if any(isinstance(z, ast.Continue) for z in ast.walk(st)):
                return
        elif isinstance(st, (ast.Break, ast.Return, ast.Raise)):
            yield ast.Constant(True), False
            return
        elif isinstance(st, ast.Continue):
            return


def leaves(body):
    return bool(body) and isinstance(body[-1], (ast.Break, ast.Return, ast.Raise)) and not any(
        isinstance(z, ast.Continue) for s in body for z in ast.walk(s))


def judge_while(n):
    res = []
    for c, neg in stay(n.test):
        if isinstance(c, ast.Constant):
            if not c.value if not neg else c.value:
                return "ok", "never entered"
            continue
        res.append(classify(c, neg, n.body, n))
    for t, inv in exits(n.body):
        if isinstance(t, ast.Constant) and t.value is True and not inv:
            return "ok", "the body leaves the loop"
        conds = stay(t) if inv else leave(t)
        # one disjunct that becomes true suffices for 'if a or b: break'
        for c, neg in conds:
            if isinstance(c, ast.BoolOp) and isinstance(c.op, ast.And) and neg:
                rs = [classify(z, True, n.body, n) for z in c.values]
                if all(r[0] == "ok" for r in rs):
                    res.append(("unknown", "several counters"))
                else:
                    res.append([r for r in rs if r[0] != "ok"][0])
            elif not isinstance(c, ast.Constant):
                res.append(classify(c, neg, n.body, n))
    for k in ("ok", "unknown"):
        for r in res:
            if r[0] == k:
                return r
    return "bad", "; ".join(sorted({r[1] for r in res})) or "no exit"


def judge_for(n, N, m):
    it = n.iter
    while isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id in ("enumerate", "iter", "list", "map") and it.args:
        if it.func.id == "iter" and len(it.args) == 2:
            break
        it = it.args[-1] if it.func.id == "map" else it.args[0]
    inf = False
    if isinstance(it, ast.Call):
        d = N.dotted(m, it.func)
        if d in INFINITE or (d == "itertools.repeat" and len(it.args) == 1 and not it.keywords):
            inf = True
        if isinstance(it.func, ast.Name) and it.func.id == "iter" and len(it.args) == 2:
            inf = True
    if inf:
        res = []
        if isinstance(n.target, ast.Name) and isinstance(it, ast.Call) and (N.dotted(m, it.func) == "itertools.count") or isinstance(n.target, ast.Tuple):
            body = list(n.body)
            v = n.target.id if isinstance(n.target, ast.Name) else (n.target.elts[0].id if isinstance(n.target.elts[0], ast.Name) else None)
            for t, inv in exits(body):
                for c, neg in (stay(t) if inv else leave(t)):
                    if isinstance(c, ast.Compare) and v in {z.id for z in ast.walk(c) if isinstance(z, ast.Name)}:
                        return "ok", "left through the test on %s" % v
        for t, inv in exits(n.body):
            for c, neg in (stay(t) if inv else leave(t)):
                if not isinstance(c, ast.Constant):
                    res.append(classify(c, neg, n.body, n))
        for k in ("ok", "unknown"):
            for r in res:
                if r[0] == k:
                    return r
        return "bad", "endless iterator without a counted exit"
    if isinstance(it, ast.Name):
        for st in n.body:
            for z in ast.walk(st):
                if isinstance(z, ast.Call) and isinstance(z.func, ast.Attribute) and z.func.attr in ("append", "extend", "insert") and isinstance(z.func.value, ast.Name) \
                        and z.func.value.id == it.id:
                    top = any(isinstance(s, ast.Expr) and s.value is z for s in n.body)
                    return ("bad" if top else "unknown"), "the loop extends the list %s it runs over" % it.id
    return "ok", "runs over a finite collection"


def call_graph(an):
    N = an.N
    edges = {}
    for m, name, body, f in scopes(an):
        if f is None:
            continue
        out = edges.setdefault(name, {})
        local = {g.name: g.full for g in N.fns.values() if g.outer is f}
        up = f
        while up is not None:
            for g in N.fns.values():
                if g.outer is up:
                    local.setdefault(g.name, g.full)
            up = up.outer
        for n in walk_scope(body):
            if isinstance(n, ast.Call):
                tgt = None
                if isinstance(n.func, ast.Name) and n.func.id in local:
                    tgt = local[n.func.id]
                elif isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id in ("self", "cls") and owner_class(f):
                    g = N.method(owner_class(f), n.func.attr)
                    tgt = g.full if g else None
                elif isinstance(n.func, ast.Name) and n.func.id in bound_names(f):
                    tgt = None
                else:
                    d = N.dotted(m, n.func)
                    if d in N.fns:
                        tgt = d
                    elif d in N.classes:
                        g = N.method(d, "__init__")
                        tgt = g.full if g else None
                if tgt:
                    out.setdefault(tgt, "%s:%d" % (m.rel, n.lineno))
                # functions handed over for calling
                for a in list(n.args) + [k.value for k in n.keywords]:
                    if isinstance(a, ast.Name) and a.id in local:
                        out.setdefault(local[a.id], "%s:%d" % (m.rel, n.lineno))
                    elif isinstance(a, (ast.Name, ast.Attribute)) and not (isinstance(a, ast.Name) and a.id in bound_names(f)):
                        d = N.dotted(m, a)
                        if d in N.fns:
                            out.setdefault(d, "%s:%d" % (m.rel, n.lineno))
    return edges


def owner_class(f):
    while f is not None:
        if f.cls:
            return f.cls
        f = f.outer
    return None


def bound_names(f):
    if not hasattr(f, "_bound"):
        s = set(f.params())
        for n in walk_scope(f.body()):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                s.add(n.id)
        f._bound = s
    return f._bound


def cycles(edges):
    out, state = [], {}

    def visit(x, path):
        state[x] = 1
        for y in edges.get(x, ()):
            if state.get(y) == 1:
                k = path.index(y) if y in path else 0
                out.append(path[k:] + [y])
            elif y not in state:
                visit(y, path + [y])
        state[x] = 2
    for x in list(edges):
        if x not in state:
            visit(x, [x])
    return out


def c20(project, tier):
    an = analysis(project)
    N = an.N
    R = Report()
    R.rule = ("for every while loop: some exit test reached on every iteration compares a counter with a bound that does not move away, and the counter advances by a "
              "constant on every path through the body (including continue); for loops run over finite collections; the call graph is acyclic; no call waits without limit")
    for m, name, body, f in scopes(an):
        if f is not None:
            R.functions.add(name)
        for n in walk_scope(body):
            where = "%s:%d" % (m.rel, getattr(n, "lineno", 0))
            if isinstance(n, ast.While):
                r = judge_while(n)
            elif isinstance(n, (ast.For, ast.AsyncFor)):
                r = judge_for(n, N, m)
            elif isinstance(n, ast.comprehension):
                r = judge_for(ast.For(target=n.target, iter=n.iter, body=[], orelse=[]), N, m)
            elif isinstance(n, ast.Call) and (N.dotted(m, n.func) in ("time.sleep", "signal.pause") or (isinstance(n.func, ast.Name) and n.func.id == "input" and
                                                                                                     "input" not in m.defs)):
                r = ("bad", "%s waits for something outside the program" % ast.unparse(n.func)) if isinstance(n.func, ast.Name) or N.dotted(m, n.func) == "signal.pause" else ("ok", "")
            else:
                continue
            R.obligations += 1
            R.samples.append({"scope": name, "where": where, "kind": type(n).__name__, "verdict": r[0], "why": r[1]})
            if r[0] == "bad":
                R.decided += 1
                R.viol("%s|%s" % (name, ast.unparse(n.test) if isinstance(n, ast.While) else type(n).__name__), where, "loop in %s may not end: %s" % (name, r[1]))
            elif r[0] == "ok":
                R.decided += 1
            else:
                R.undecided.append("%s %s: %s" % (where, name, r[1]))
    edges = call_graph(an)
    for c in cycles(edges):
        R.viol("recursion|" + c[0], edges[c[0]].get(c[1], c[0]) if len(c) > 1 else c[0], "recursion: %s" % " -> ".join(c))
    R.obligations += len(edges)
    R.decided += len(edges)
    R.extra["call_edges"] = sum(len(v) for v in edges.values())
    R.floor = 80
    return R
