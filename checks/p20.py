RULE = """
Lock sets over the syntax tree, through every function called. For each callback handed to a parallel loop or algorithm
(tbb::parallel_for, cv::Mat::forEach, execution policies) the accesses to state shared between two iterations are collected
with the locks held: captured variables, members, globals and static locals; thread_local, atomic and const objects are not
shared. A shared place that is written must be the element of the iteration (indexed with its index), or all accesses to it,
reads included, hold one common mutex that is itself shared by the iterations. A locked write that a condition decides must
hold the same acquisition of the lock as the read in that condition. Tasks started with std::async are compared with the other
tasks and with the statements between the start and the wait for the result.
"""
import locks
from harness import where


def run(ctx):
    ctx.group(loops_)
    ctx.group(tasks_)
    ctx.assume("An index table (_cellMap) that is read at the pixel of the iteration has a different entry for each pixel.")
    ctx.assume("Library functions have no unsynchronised shared state of their own; calls through pointers to library classes "
               "(cv::Feature2D) touch only that object.")


def name(path):
    out = ""
    for p in path:
        if isinstance(p, tuple):
            out = str(p[1] if len(p) > 1 else p[0]).split("::")[-1]
        elif p == "[]":
            out += "[]"
        else:
            out += "." + p
    return out.replace("this.", "")


def place_key(f, a, group):
    """names a place independently of how variables and functions are called: class, type, members"""
    root = a.path[0]
    mem = "".join("." + x for x in a.path[1:] if isinstance(x, str) and x not in ("[]", "#size"))
    if isinstance(root, tuple) and root[0] == "v":
        t = next((str(d.get("t")) for d in declared(f, root[2])), "")
        r = locks.ctype(t).rstrip("& ") or root[1]
    else:
        r = root[1] if len(root) > 1 else root[0]
    elem = "element of " if all("[]" in b.path for b in group if b.kind == "w") else ""
    return "%s:%s%s%s" % (f.short.rsplit("::", 1)[0], elem, r, mem)


def declared(f, d):
    for q in f.params:
        if q.get("d") == d:
            yield q
    for x in locks.walk(f.body):
        if x.get("d") == d and x.get("t") and x.get("k") != "ref":
            yield x


def shared_lock(a):
    """mutexes that are one object for all iterations"""
    return {m for m in a.locks if m}


def sid(f):
    return f.short


def conflicts(xs, ys, same):
    """first pair of accesses that may happen at once: one writes, no common lock, not the elements of two iterations"""
    for a in xs:
        for b in ys:
            if a.kind != "w" and b.kind != "w":
                continue
            if same and a.own and b.own:
                continue
            if not locks.overlap(a.path, b.path):
                continue
            if shared_lock(a) & shared_lock(b):
                continue
            return a, b
    return None


def groups(acc):
    """accesses by place, places that contain each other together"""
    out = []
    for a in acc:
        hit = [g for g in out if any(locks.overlap(a.path, b.path) for b in g)]
        if hit:
            g = hit[0]
            g.append(a)
            for h in hit[1:]:
                g += h
                out.remove(h)
        else:
            out.append([a])
    return out


def loops_(ctx):
    ov = locks.overriders(ctx.prog)
    n = 0
    for kind, f, call, lams, cn, ls in locks.regions(ctx.prog):
        if kind != "loop":
            continue
        if not lams:
            ctx.count("callbacks_not_lambdas")
            ctx.notes.append("undecided: the callback of %s at line %s in %s" % (cn, call.get("l"), f.short))
            continue
        for l in lams:
            n += 1
            w = locks.task(ctx.prog, ov, f, l, kind, cn, ls)
            ctx.count("parallel_callbacks")
            ctx.count("calls_followed", w.calls)
            ctx.count("shared_accesses", len(w.acc))
            ctx.count("calls_too_deep", w.cut)
            ctx.item("%s: parallel loop" % f.short)
            for g in groups(w.acc):
                if not any(a.kind == "w" for a in g):
                    continue
                top = min(g, key=lambda a: len(a.path))
                top = min([a for a in g if a.path[0] == top.path[0]], key=lambda a: len(a.path))
                nm = name(top.path)
                ctx.item("%s: %s is written by two iterations only under one lock" % (f.short, nm))
                c = conflicts(g, g, True)
                if c:
                    a, b = c if c[0].kind == "w" else (c[1], c[0])
                    ctx.violation(place_key(f, top, g) + ":race", where(b.fn, b.node),
                                  "%s is %s without the lock that its writing at line %s %s" % (
                                      nm, "written" if b.kind == "w" else "read", a.node.get("l"),
                                      "holds" if a.locks else "lacks too"))
            decided(ctx, f, w)
    ctx.need(n, "parallel loops")


def decided(ctx, f, w):
    """check then act: the read in a condition and the write it decides under one hold of the lock"""
    written = [a for a in w.acc if a.kind == "w" and not a.own]
    for a in written:
        if not a.locks:
            continue
        reads = [(p, h) for c in a.conds for p, h in c if not str(a.t) == "bool"]
        for p, h in reads:
            mine = [b for b in written if locks.overlap(p, b.path) and any(locks.overlap(p, q) for c in b.conds for q, _ in c)]
            if not mine or any(str(b.t) == "bool" for b in mine):
                continue
            ctx.item("%s: what decides that %s is written is read under the same lock" % (f.short, name(a.path)))
            if any(a.locks.get(m) == i for m, i in h.items()):
                continue
            if any(locks.overlap(p, q) and any(a.locks.get(m) == i for m, i in g.items()) for q, g in reads):
                continue         # looked at again under the lock
            ctx.violation("%s:%s:decided" % (f.short, name(a.path)), where(a.fn, a.node),
                          "%s is written because of a value of %s that was read under another hold of the lock: another "
                          "iteration can change it in between" % (name(a.path), name(p)))


def future(f, call):
    """declaration a task is kept in"""
    for x in locks.walk(f.body):
        if x.get("k") == "decl":
            for d in x.get("a") or ():
                i = d.get("init")
                if isinstance(i, dict) and any(y is call for y in locks.walk(i)):
                    return d.get("d")
    return None


def order(f):
    """statements of a body in order of execution (pre-order of the syntax tree), with their number"""
    out = {}

    def go(e):
        if isinstance(e, list):
            for x in e:
                go(x)
        elif isinstance(e, dict):
            if e.get("k") == "lambda":
                out[id(e)] = len(out)
                return
            for k, v in e.items():
                if k not in ("fns", "caps", "ta") and isinstance(v, (dict, list)):
                    go(v)
            out[id(e)] = len(out)
    go(f.body)
    return out


def tasks_(ctx):
    ov = locks.overriders(ctx.prog)
    by = {}
    for kind, f, call, lams, cn, ls in locks.regions(ctx.prog):
        if kind == "tasks":
            by.setdefault(f.id, []).append((f, call, lams, cn, ls))
    for ts in by.values():
        f = ts[0][0]
        pos = order(f)
        run_ = []
        for _, call, lams, cn, ls in ts:
            if any("deferred" in str(x.get("n", "")) for a in call.get("a") or () if isinstance(a, dict) and a.get("k") != "lambda"
                   for x in locks.walk(a)):
                continue
            d = future(f, call) if cn in ("async", "thread", "jthread") else None
            if d is None and cn == "async":
                continue                      # the temporary future waits at once
            waits = [pos[id(x)] for x in locks.walk(f.body) if x.get("k") == "call" and isinstance(x.get("obj"), dict) and
                     x["obj"].get("d") == d and locks.cname(x) in ("get", "wait", "join") and id(x) in pos]
            for l in lams:
                w = locks.task(ctx.prog, ov, f, l, "tasks", cn, ls)
                ctx.count("tasks")
                ctx.count("calls_followed", w.calls)
                ctx.count("shared_accesses", len(w.acc))
                run_.append((pos.get(id(call), 0), min(waits) if waits else 10 ** 9, w, call))
        run_.sort(key=lambda r: r[0])
        for i in range(len(run_)):
            for j in range(i + 1, len(run_)):
                if run_[j][0] > run_[i][1]:
                    continue
                ctx.item("%s: tasks %d and %d touch different state" % (f.short, i + 1, j + 1))
                pairs(ctx, f, run_[i][2], run_[j][2], run_[j][3])
        if run_:
            # what the starting function itself does meanwhile
            w = locks.Walker(ctx.prog, ov)
            w.fn = f
            w.env["this"] = ((("this",),), False)
            for q in f.params:
                w.env.pop(q["d"], None)
            w.st(f.body)
            for s, e, t, call in run_:
                mine = [a for a in w.acc if a.fn is f and s < pos.get(id(a.node), -1) < e]
                ctx.item("%s: nothing that a task uses changes while it runs" % f.short)
                c = conflicts(t.acc, mine, False)
                if c:
                    ctx.violation("%s:%s:task" % (f.short, name(c[1].path)), where(c[1].fn, c[1].node),
                                  "%s is used while the task that uses it in %s still runs" % (name(c[1].path), c[0].fn.short))


def pairs(ctx, f, u, v, call):
    seen = set()
    xs, ys = u.acc, v.acc
    wr = [a for a in xs if a.kind == "w"], [b for b in ys if b.kind == "w"]
    for a, b in [(a, b) for a in wr[0] for b in ys] + [(b, a) for b in wr[1] for a in xs]:
        if a.path[0] != b.path[0] or not locks.overlap(a.path, b.path) or shared_lock(a) & shared_lock(b):
            continue
        nm = name(a.path)
        if nm in seen:
            continue
        seen.add(nm)
        ctx.violation("%s:%s:tasks" % (f.short, nm), where(a.fn, a.node),
                      "%s is written by one task while another uses it (in %s line %s), without a common lock" % (
                          nm, b.fn.short, b.node.get("l")))
