"""C21: worker pools are released on every path and parallel results keep their order."""
import ast

from ..check import Report, run_cases
from ..project import AnchorMissing
from .state import analysis, scopes, walk_scope

CREATE = {"multiprocessing.Pool", "multiprocessing.pool.Pool", "multiprocessing.pool.ThreadPool", "multiprocessing.dummy.Pool", "multiprocessing.Process",
          "concurrent.futures.ProcessPoolExecutor", "concurrent.futures.ThreadPoolExecutor", "concurrent.futures.process.ProcessPoolExecutor", "multiprocessing.Manager",
          "multiprocessing.managers.SyncManager", "threading.Thread", "subprocess.Popen", "concurrent.futures.thread.ThreadPoolExecutor", "multiprocessing.context.Process"}
RELEASE = {"close", "terminate", "shutdown", "join", "__exit__", "kill", "wait"}
STRONG = {"close", "terminate", "shutdown", "__exit__", "kill"}
UNORDERED = {"imap_unordered"}
AS_COMPLETED = {"concurrent.futures.as_completed"}
LAZY = {"imap", "imap_unordered"}


def is_creation(n, N, m, makers):
    """call that starts workers"""
    if not isinstance(n, ast.Call):
        return None
    d = N.dotted(m, n.func)
    if d in CREATE:
        return d
    if d in makers:
        return d
    if isinstance(n.func, ast.Attribute) and n.func.attr in ("Pool", "Process", "ThreadPool", "Manager"):
        # context objects: multiprocessing.get_context(...).Pool(...)
        if isinstance(n.func.value, ast.Call) and (N.dotted(m, n.func.value.func) or "").endswith("get_context"):
            return "context.%s" % n.func.attr
        if d is None and isinstance(n.func.value, ast.Name):
            return "%s.%s" % (n.func.value.id, n.func.attr)
    if isinstance(n.func, ast.Name) and n.func.id in ("Pool", "ThreadPool", "ProcessPoolExecutor", "ThreadPoolExecutor") and d is None:
        return n.func.id
    return None


def parents(n):
    while hasattr(n, "_parent"):
        n = n._parent
        yield n


def statement(n):
    if isinstance(n, ast.stmt):
        return n
    for p in parents(n):
        if isinstance(p, ast.stmt):
            return p
    return None


def block_of(st):
    p = st._parent
    for f in ("body", "orelse", "finalbody"):
        b = getattr(p, f, None)
        if isinstance(b, list) and st in b:
            return p, b
    for h in getattr(p, "handlers", []) or []:
        if st in h.body:
            return h, h.body
    return p, []


def released_in(name, body):
    """a releasing method of `name` is called on every normal path of the block"""
    for st in body:
        if isinstance(st, ast.Expr) and isinstance(st.value, ast.Call) and isinstance(st.value.func, ast.Attribute) and st.value.func.attr in STRONG \
                and ast.unparse(st.value.func.value) == name:
            return True
        if isinstance(st, ast.With) and released_in(name, st.body):
            return True
        if isinstance(st, ast.Try) and (released_in(name, st.finalbody) or (released_in(name, st.body))):
            return True
        if isinstance(st, ast.If):
            # 'if pool is not None: pool.close()' releases every pool that was started
            t = ast.unparse(st.test)
            if t in (name, "%s is not None" % name, "not %s is None" % name, "%s != None" % name) and released_in(name, st.body):
                return True
            if released_in(name, st.body) and released_in(name, st.orelse):
                return True
    return False


def harmless(st):
    """statement that cannot fail between start and protection"""
    return isinstance(st, (ast.Pass, ast.Import, ast.ImportFrom)) or (isinstance(st, ast.Assign) and isinstance(st.value, (ast.Constant, ast.Name))) or (
        isinstance(st, ast.Expr) and isinstance(st.value, ast.Constant)) or (isinstance(st, ast.Assign) and isinstance(st.value, ast.Attribute))


def judge(n, what, N, m):
    """('ok'|'bad'|'unknown', why) for one creation site"""
    par = getattr(n, "_parent", None)
    # with Pool() as p   /  with closing(Pool()) as p
    for p in [n] + list(parents(n)):
        q = getattr(p, "_parent", None)
        if isinstance(q, ast.withitem) and q.context_expr is p:
            if p is n or (isinstance(p, ast.Call) and (N.dotted(m, p.func) or "").split(".")[-1] in ("closing",)) or isinstance(p, ast.IfExp):
                return "ok", "context manager"
            return "unknown", "inside a context expression"
        if isinstance(p, ast.stmt):
            break
    if isinstance(par, ast.Call):
        f = par.func
        if isinstance(f, ast.Attribute) and f.attr in ("enter_context", "callback"):
            return "ok", "exit stack"
        if (N.dotted(m, f) or "").split(".")[-1] == "closing":
            return follow(par, n, N, m)
    return follow(n, n, N, m)


def follow(expr, n, N, m):
    st = statement(n)
    if isinstance(st, ast.Return) and st.value is expr:
        return "escapes", "returned"
    if isinstance(st, ast.Assign) and st.value is expr and len(st.targets) == 1 and isinstance(st.targets[0], ast.Name):
        name = st.targets[0].id
        owner, body = block_of(st)
        k = body.index(st)
        # the creation is inside a try whose finally releases it
        for p in parents(st):
            if isinstance(p, ast.Try) and released_in(name, p.finalbody) and (st in ast.walk(ast.Module(body=p.body, type_ignores=[])) or inside(st, p.body)):
                return "ok", "released in finally"
            if isinstance(p, (ast.FunctionDef, ast.Lambda)):
                break
        cur, blk = st, body
        for _ in range(6):
            k = blk.index(cur)
            for z in blk[k + 1:]:
                if isinstance(z, ast.Try):
                    if released_in(name, z.finalbody):
                        return "ok", "released in finally"
                    hs = z.handlers
                    if hs and all(catches_all(h) and released_in(name, h.body) for h in hs) and (released_in(name, z.body) or released_in(name, z.orelse)):
                        return "ok", "released on both paths"
                    return "bad", "%s is not released when the work fails" % name
                if isinstance(z, ast.With) and any(isinstance(i.context_expr, ast.Name) and i.context_expr.id == name or
                                                   (isinstance(i.context_expr, ast.Call) and name in [ast.unparse(a) for a in i.context_expr.args] and
                                                    (N.dotted(m, i.context_expr.func) or "").endswith("closing")) for i in z.items):
                    return "ok", "context manager"
                if isinstance(z, ast.Return) and z.value is not None and any(isinstance(q, ast.Name) and q.id == name for q in ast.walk(z.value)):
                    if isinstance(z.value, ast.Name):
                        return "escapes", "returned"
                    return "bad", "%s is still open when the result is handed out" % name
                if isinstance(z, ast.If) and any(isinstance(q, (ast.Try, ast.With)) for q in ast.walk(z)):
                    return "unknown", "released conditionally"
                if not harmless(z):
                    rel = any(isinstance(q, ast.Call) and isinstance(q.func, ast.Attribute) and q.func.attr in STRONG and ast.unparse(q.func.value) == name
                              for y in blk[k + 1:] for q in ast.walk(y))
                    return "bad", ("%s is not released when line %d fails" if rel else "%s is never released (line %d)") % (name, z.lineno)
            up = getattr(cur, "_parent", None)
            if not isinstance(up, (ast.If, ast.With, ast.For, ast.While, ast.Try)):
                break
            cur = up
            _, blk = block_of(cur)
            if cur not in blk:
                break
        return "bad", "%s is never released" % name
    if isinstance(st, ast.Assign) and any(isinstance(t, ast.Attribute) for t in st.targets):
        return "bad", "kept in %s and not released by this call" % ast.unparse(st.targets[0])
    if isinstance(st, ast.Assign) and isinstance(st.value, ast.IfExp) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Name):
        return "unknown", "conditional start"
    p = getattr(n, "_parent", None)
    if isinstance(p, ast.Attribute):
        return "bad", "the workers are started and used without anything that can release them"
    return "unknown", "flow of the pool object is not followed"


def inside(st, body):
    for p in [st] + list(parents(st)):
        if p in body:
            return True
    return False


def catches_all(h):
    return h.type is None or ast.unparse(h.type).split(".")[-1] in ("Exception", "BaseException")


def reorders(n, N, m):
    """results are put in order again: tagged with an index, sorted"""
    for p in parents(n):
        if isinstance(p, ast.Call) and isinstance(p.func, ast.Name) and p.func.id == "sorted":
            return True
        if isinstance(p, ast.Call) and isinstance(p.func, ast.Name) and p.func.id == "dict":
            return True
        if isinstance(p, ast.For) and isinstance(p.target, ast.Tuple) and not (isinstance(p.iter, ast.Call) and isinstance(p.iter.func, ast.Name) and p.iter.func.id == "enumerate"):
            return True
        if isinstance(p, (ast.ListComp, ast.DictComp, ast.GeneratorExp)) and any(isinstance(g.target, ast.Tuple) and n in list(ast.walk(g.iter)) and not (
                isinstance(g.iter, ast.Call) and isinstance(g.iter.func, ast.Name) and g.iter.func.id == "enumerate") for g in p.generators):
            return True
        if isinstance(p, ast.stmt):
            break
    st = statement(n)
    if isinstance(st, ast.Assign) and isinstance(st.targets[0], ast.Name):
        nm = st.targets[0].id
        for p in parents(st):
            if isinstance(p, ast.FunctionDef):
                for z in ast.walk(p):
                    if isinstance(z, ast.Call) and isinstance(z.func, ast.Attribute) and z.func.attr == "sort" and ast.unparse(z.func.value) == nm:
                        return True
                    if isinstance(z, ast.Call) and isinstance(z.func, ast.Name) and z.func.id == "sorted" and z.args and ast.unparse(z.args[0]) == nm:
                        return True
                break
    return False


def c21(project, tier):
    an = analysis(project)
    N = an.N
    R = run_cases(project, "C21", tier)
    R.rule = ("typestate of every worker pool: started only under a context manager or with a release in a finally that covers every statement after the start; results taken "
              "only through order-preserving methods; lazily produced results consumed before the release; and, by abstract interpretation of the block-wise Monte Carlo with a "
              "pool, the result equals the sequential one")
    makers = {}
    sites = 0
    for rnd in range(3):
        new = {}
        for m, name, body, f in scopes(an):
            if f is None:
                continue
            for n in walk_scope(body):
                w = is_creation(n, N, m, makers)
                if w:
                    r = judge(n, w, N, m)
                    if r[0] == "escapes":
                        new[f.full] = True
        if new == makers:
            break
        makers = new
    for m, name, body, f in scopes(an):
        if f is not None:
            R.functions.add(name)
        for n in walk_scope(body):
            w = is_creation(n, N, m, makers)
            where = "%s:%d" % (m.rel, getattr(n, "lineno", 0))
            if w:
                sites += 1
                R.obligations += 1
                r = judge(n, w, N, m)
                R.samples.append({"scope": name, "where": where, "starts": w, "verdict": r[0], "why": r[1]})
                if r[0] == "bad":
                    R.decided += 1
                    R.viol("%s|%s" % (name, w), where, "%s in %s: %s" % (w, name, r[1]))
                elif r[0] == "ok":
                    R.decided += 1
                elif r[0] == "escapes" and f is not None and f.name.startswith("_") or (r[0] == "escapes" and f is not None and f.full not in N.public()):
                    R.decided += 1
                elif r[0] == "escapes":
                    R.decided += 1
                    R.viol("%s|%s" % (name, w), where, "%s in %s is handed to the caller without being released" % (w, name))
                else:
                    R.undecided.append("%s %s: %s" % (where, name, r[1]))
            if isinstance(n, ast.Attribute) and n.attr in UNORDERED:
                R.obligations += 1
                R.decided += 1
                if reorders(n, N, m):
                    R.undecided.append("%s: %s with reordering" % (where, n.attr))
                else:
                    R.viol("%s|%s" % (name, n.attr), where, "%s in %s hands results back in the order of completion, not of the samples" % (ast.unparse(n), name))
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "getattr" and any(isinstance(a, ast.Constant) and a.value in UNORDERED for a in n.args):
                R.viol("%s|getattr" % name, where, "imap_unordered in %s hands results back in the order of completion" % name)
            if isinstance(n, ast.Call) and N.dotted(m, n.func) in AS_COMPLETED:
                R.obligations += 1
                R.decided += 1
                fn = f.node if f is not None else None
                tagged = False
                for p in parents(n):
                    if isinstance(p, (ast.For, ast.comprehension)) and isinstance(p.target, ast.Name):
                        tagged = any(isinstance(z, ast.Subscript) and isinstance(z.slice, ast.Name) and z.slice.id == p.target.id for z in ast.walk(fn or m.tree))
                if not tagged:
                    R.viol("%s|as_completed" % name, where, "as_completed in %s hands results back in the order of completion" % name)
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("apply_async", "add_done_callback"):
                cbs = [k.value for k in n.keywords if k.arg == "callback"] + (list(n.args[:1]) if n.func.attr == "add_done_callback" else [])
                for c in cbs:
                    R.obligations += 1
                    R.decided += 1
                    if isinstance(c, ast.Attribute) and c.attr == "append":
                        R.viol("%s|callback" % name, where, "results are collected by callback in %s, in the order of completion" % name)
            # lazily produced results used after the pool is gone
            if isinstance(n, ast.With):
                pools = [i.optional_vars.id for i in n.items if isinstance(i.optional_vars, ast.Name) and is_creation(i.context_expr, N, m, makers)]
                if pools:
                    lazy_use(R, n, pools, name, where, m)
    R.extra["start_sites"] = sites
    R.floor = max(R.floor, 3)
    return R


def lazy_use(R, w, pools, name, where, m):
    R.obligations += 1
    R.decided += 1
    held = set()
    for st in w.body:
        for z in ast.walk(st):
            if isinstance(z, ast.Assign) and isinstance(z.value, ast.Call) and isinstance(z.value.func, ast.Attribute) and z.value.func.attr in LAZY | {"map_async", "starmap_async",
                                                                                                                                                    "apply_async"} \
                    and isinstance(z.value.func.value, ast.Name) and z.value.func.value.id in pools:
                held |= {t.id for t in z.targets if isinstance(t, ast.Name)}
            if isinstance(z, ast.Return) and isinstance(z.value, ast.Call) and isinstance(z.value.func, ast.Attribute) and z.value.func.attr in LAZY \
                    and isinstance(z.value.func.value, ast.Name) and z.value.func.value.id in pools:
                R.viol("%s|lazy" % name, where, "%s in %s returns results that are produced only after the pool is gone" % (ast.unparse(z.value.func), name))
    if not held:
        return
    for st in w.body:
        if isinstance(st, (ast.Assign, ast.For, ast.Expr, ast.Return)) and not (isinstance(st, ast.Assign) and isinstance(st.value, ast.Call) and isinstance(
                st.value.func, ast.Attribute) and st.value.func.attr in LAZY):
            for z in ast.walk(st):
                if isinstance(z, ast.Name) and isinstance(z.ctx, ast.Load) and z.id in held:
                    held.discard(z.id)     # consumed inside
    _, blk = block_of(w)
    if w in blk:
        for st in blk[blk.index(w) + 1:]:
            for z in ast.walk(st):
                if isinstance(z, ast.Name) and isinstance(z.ctx, ast.Load) and z.id in held:
                    R.viol("%s|lazy" % name, "%s:%d" % (m.rel, z.lineno), "%s in %s is consumed after the pool is gone" % (z.id, name))
                    held.discard(z.id)
