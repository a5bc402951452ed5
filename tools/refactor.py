"""refactor.py [transform...] [-p PNN,...] [-f path part]: development aid. Applies a rewriting that keeps the behaviour everywhere in
a scratch copy of /repo's sources, checks that the files the build compiles still do, and runs the checks on it: none may report."""
import os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def blank(s):
    """same length, comments, strings and preprocessor lines blanked"""
    def b(m):
        return re.sub(r"[^\n]", " ", m.group(0))
    return re.sub(r"//[^\n]*|/\*.*?\*/|\"(?:\\.|[^\"\\\n])*\"|(?m:^[ \t]*#[^\n]*(?:\\\n[^\n]*)*)", b, s, flags=re.S)


def close(t, i):
    """place of the bracket that closes the one at i"""
    o, c = t[i], {"(": ")", "{": "}", "[": "]"}[t[i]]
    d = 0
    for k in range(i, len(t)):
        if t[k] == o:
            d += 1
        elif t[k] == c:
            d -= 1
            if d == 0:
                return k
    return None


def enclosing(t, i):
    d = 0
    for k in range(i - 1, -1, -1):
        if t[k] == "}":
            d += 1
        elif t[k] == "{":
            if d == 0:
                return k
            d -= 1
    return None


def stmt_before(t, i):
    k = i - 1
    while k >= 0 and t[k].isspace():
        k -= 1
    return k < 0 or t[k] in ";{}"


def ifs(t):
    for m in re.finditer(r"\bif \(", t):
        a = m.end() - 1
        b = close(t, a)
        if b is None:
            continue
        k = b + 1
        while k < len(t) and t[k].isspace():
            k += 1
        if k >= len(t) or t[k] != "{":
            continue
        e = close(t, k)
        if e is None or ";" in t[a:b]:
            continue
        j = re.match(r"\s*else\b", t[e + 1:])
        yield m.start(), a, b, k, e, (e + 1 + j.end() if j else None)


def loops(t):
    for m in re.finditer(r"\bfor \(", t):
        a = m.end() - 1
        b = close(t, a)
        k = b + 1
        while k < len(t) and t[k].isspace():
            k += 1
        if k < len(t) and t[k] == "{" and close(t, k):
            yield m.start(), a, b, k, close(t, k)


JUMP = r"\b(return|continue|break|co_return|throw|goto)\b"


def each(s, find):
    """apply the edits from the last to the first, once each"""
    n = 0
    limit = len(s) + 1
    while True:
        t = blank(s)
        best = None
        for e in find(s, t):
            if e[0] < limit and (best is None or e[0] > best[0]):
                best = e
        if best is None:
            return s, n
        at, end, new = best
        s = s[:at] + new + s[end:]
        limit = at
        n += 1


def t_while(s, t):
    for st, a, b, k, e in loops(t):
        p = t[a + 1:b].split(";")
        if len(p) != 3 or re.search(r"\bcontinue\b", t[k:e]) or not stmt_before(t, st):
            continue
        q = s[a + 1:b].split(";")
        yield st, e + 1, "{ %s; while (%s) %s %s; } }" % (q[0], q[1], s[k:e], q[2])


def t_ifelse(s, t):
    for st, a, b, k, e, el in ifs(t):
        if el is None or not stmt_before(t, st) and not re.search(r"else\s*$", t[:st]):
            continue
        x = el
        while t[x].isspace():
            x += 1
        if t[x] != "{":
            continue
        y = close(t, x)
        yield st, y + 1, "if (not (%s)) %s else %s" % (s[a + 1:b], s[x:y + 1], s[k:e + 1])


def t_continue(s, t):
    for st, a, b, k, e, el in ifs(t):
        if el is not None or not re.fullmatch(r"\s*continue;\s*", t[k + 1:e]) or not stmt_before(t, st):
            continue
        o = enclosing(t, st)
        if not any(o == k2 for _, _, _, k2, _ in loops(t)):
            continue
        c = close(t, o)
        yield st, c, "if (not (%s)) { %s }\n" % (s[a + 1:b], s[e + 1:c])


def t_else(s, t):
    for st, a, b, k, e, el in ifs(t):
        if el is not None or not re.search(r"\b(return[^;{}]*|continue);\s*$", t[k + 1:e]) or not stmt_before(t, st):
            continue
        o = enclosing(t, st)
        c = close(t, o)
        if not t[e + 1:c].strip() or "case " in t[o:c] or "#" in s[e + 1:c]:
            continue
        yield e + 1, c, " else { %s }\n" % s[e + 1:c]


def t_ret(s, t):
    for i, m in enumerate(re.finditer(r"\breturn ([^;{}]*);", t)):
        x = m.group(1)
        if not re.search(r" (\+|-|\*|/|and|or|<|>|<=|>=|==) ", x) or "co_" in x or not stmt_before(t, m.start()):
            continue
        yield m.start(), m.end(), "const auto resultToReturn = %s; return resultToReturn;" % s[m.start(1):m.end(1)]


def t_lambda(s, t):
    for st, a, b, k, e, el in ifs(t):
        if re.search(JUMP, t[k:e]) or not t[k + 1:e].strip() or "#" in s[k:e]:
            continue
        yield k, e + 1, "{ [&]() %s(); }" % s[k:e + 1]


def t_body(s, t):
    for st, a, b, k, e in loops(t):
        if re.search(JUMP, t[k:e]) or not t[k + 1:e].strip() or "#" in s[k:e]:
            continue
        yield k, e + 1, "{ const auto oneStep = [&]() %s; oneStep(); }" % s[k:e + 1]


def t_cmp(s, t):
    for m in re.finditer(r"(?<![-+*/%] )(?<![\w.\]>)] )(?<![\w.\]>)])\b([\w.]+) ([<>]=?) ([\w.]+)(?![\w.(\[<:]| [-+*/%<>])", t):
        if re.match(r"^\d+$", m.group(1)) and 0:
            continue
        op = {"<": ">", ">": "<", "<=": ">=", ">=": "<="}[m.group(2)]
        yield m.start(), m.end(), "%s %s %s" % (m.group(3), op, m.group(1))


def t_compound(s, t):
    for m in re.finditer(r"([\w\[\].]+) ([-+*/])= ([^;{}]*);", t):
        if not stmt_before(t, m.start()):
            continue
        yield m.start(), m.end(), "%s = %s %s (%s);" % (m.group(1), m.group(1), m.group(2), s[m.start(3):m.end(3)])


def t_cond(s, t):
    for st, a, b, k, e, el in ifs(t):
        if not stmt_before(t, st) or "static" in t[a:b]:
            continue
        yield st, b + 1, "const bool isSo%d(%s);\nif (isSo%d)" % (st, s[a + 1:b], st)


def split_top(t, a, b, word):
    d, out, last = 0, [], a
    for m in re.finditer(r"[({\[]|[)}\]]|\b%s\b" % word, t[a:b]):
        x = m.group(0)
        if x in "({[":
            d += 1
        elif x in ")}]":
            d -= 1
        elif d == 0:
            out.append((last, a + m.start()))
            last = a + m.end()
    return out + [(last, b)]


def t_demorgan(s, t):
    for st, a, b, k, e, el in ifs(t):
        for w, o in (("or", "and"), ("and", "or")):
            ps = split_top(t, a + 1, b, w)
            if len(ps) > 1 and len(split_top(t, a + 1, b, o)) == 1:
                yield a, b + 1, "(not (%s))" % (" %s " % o).join("not (%s)" % s[x:y].strip() for x, y in ps)


def t_nest(s, t):
    for st, a, b, k, e, el in ifs(t):
        ps = split_top(t, a + 1, b, "and")
        if el is None and len(ps) > 1 and len(split_top(t, a + 1, b, "or")) == 1 and stmt_before(t, st):
            body = s[k:e + 1]
            for x, y in reversed(ps[1:]):
                body = "{ if (%s) %s }" % (s[x:y].strip(), body)
            yield st, e + 1, "if (%s) %s" % (s[ps[0][0]:ps[0][1]].strip(), body)


def t_splitor(s, t):
    for st, a, b, k, e, el in ifs(t):
        ps = split_top(t, a + 1, b, "or")
        if el is None and len(ps) > 1 and re.search(r"\b(return[^;{}]*|continue);\s*$", t[k + 1:e]) and stmt_before(t, st):
            yield st, e + 1, "\n".join("if (%s) %s" % (s[x:y].strip(), s[k:e + 1]) for x, y in ps)


def t_ternary(s, t):
    for m in re.finditer(r"const (double|int|uint|bool|float|size_t) (\w+) = ([^;?{}]*) \? ([^;:]*) : ([^;:]*);", t):
        if not stmt_before(t, m.start()) or m.group(3).count("(") != m.group(3).count(")"):
            continue
        yield m.start(), m.end(), "%s %s;\nif (%s) { %s = %s; } else { %s = %s; }" % (
            m.group(1), m.group(2), m.group(3), m.group(2), m.group(4), m.group(2), m.group(5))


def t_iter(s, t):
    for st, a, b, k, e in loops(t):
        m = re.fullmatch(r"(const auto&|auto&|const [\w:<>]+&|[\w:<>]+&) (\w+): ([\w.]+)", t[a + 1:b].strip())
        if m:
            yield st, k + 1, "for (auto it%d = std::begin(%s); it%d != std::end(%s); ++it%d) { %s %s = *it%d;" % (
                st, m.group(3), st, m.group(3), st, m.group(1), m.group(2), st)


def t_index(s, t):
    for st, a, b, k, e in loops(t):
        m = re.fullmatch(r"(const auto&|auto&|const [\w:<>]+&|[\w:<>]+&) (\w+): ([\w.]+)", t[a + 1:b].strip())
        if m:
            yield st, k + 1, "for (size_t ix%d = 0; ix%d < %s.size(); ++ix%d) { %s %s = %s[ix%d];" % (
                st, st, m.group(3), st, m.group(1), m.group(2), m.group(3), st)


def t_incr(s, t):
    for st, a, b, k, e in loops(t):
        m = re.search(r"\+\+(\w+)$", t[a:b])
        if m:
            yield a + m.start(), b, "%s += 1" % m.group(1)


def t_local(s, t):
    """a value is computed under another name first"""
    for m in re.finditer(r"const (double|int|uint|bool|float|size_t|vector2|vector3|vector4|matrix33|matrix22|matrix44|vector6|matrix66) (\w+) = ([^;{}]*);", t):
        if stmt_before(t, m.start()):
            yield m.start(), m.end(), "const %s %sBefore = %s;\nconst %s %s = %sBefore;" % (
                m.group(1), m.group(2), s[m.start(3):m.end(3)], m.group(1), m.group(2), m.group(2))


def t_helper(s, t):
    """a value is computed by a local helper"""
    for m in re.finditer(r"const (double|int|uint|bool|float|size_t|vector2|vector3|vector4|matrix33|matrix22|matrix44|vector6|matrix66) (\w+) = ([^;{}]*);", t):
        o = enclosing(t, m.start())
        if stmt_before(t, m.start()) and o is not None and not re.search(r"(namespace|class|struct)[^;{}()]*$", t[:o]):
            yield m.start(), m.end(), "const auto compute_%s = [&]() -> %s { return %s; };\nconst %s %s = compute_%s();" % (
                m.group(2), m.group(1), s[m.start(3):m.end(3)], m.group(1), m.group(2), m.group(2))


ALL = {k[2:]: v for k, v in globals().items() if k.startswith("t_")}


def make(name, part, base="/repo"):
    d = tempfile.mkdtemp(prefix="refac")
    r = os.path.join(d, "repo")
    os.makedirs(r)
    subprocess.run("cd %s && git ls-files -z | grep -zvE '^(data|.*\\.(png|gif|jpg))' | xargs -0 cp --parents -t %s" % (base, r), shell=True, check=True)
    done = {}
    for dp, _, fs in os.walk(os.path.join(r, "src")):
        for f in fs:
            p = os.path.join(dp, f)
            if f.endswith((".cpp", ".hpp")) and (not part or any(x in p for x in part)):
                s = open(p).read()
                q, n = each(s, ALL[name])
                if n:
                    open(p, "w").write(q)
                    done[os.path.relpath(p, r)] = n
    return d, r, done


def compiles(r, files):
    """errors of the files of the build that changed"""
    I = " ".join("-I%s/src/%s" % (r, x) for x in "coordinates features/lines features/primitives features/keypoints map_management tracking outputs utils".split())
    cpp = subprocess.run("find %s/src -name '*.cpp'" % r, shell=True, capture_output=True, text=True).stdout.split()
    bad = []

    def one(p):
        q = subprocess.run("clang++ -std=gnu++20 -fsyntax-only -w -ferror-limit=3 -I%s/stubs -I%s/src %s -I%s/third_party -isystem /usr/include/eigen3 -isystem /usr/include/opencv4 %s" % (
            V, r, I, r, p), shell=True, capture_output=True, text=True)
        return p, [l for l in q.stderr.splitlines() if "error:" in l]
    with ThreadPoolExecutor(8) as ex:
        for p, e in ex.map(one, cpp):
            bad += [l.replace(r, "") for l in e]
    return bad


def main():
    args = sys.argv[1:]
    props, part, names, keep = ["P%02d" % i for i in range(1, 27)], [], [], False
    while args:
        a = args.pop(0)
        if a == "-p":
            props = args.pop(0).split(",")
        elif a == "-f":
            part = args.pop(0).split(",")
        elif a == "-k":
            keep = True
        else:
            names.append(a)
    for n in names or list(ALL):
        d, r, done = make(n, part)
        try:
            print("==", n, sum(done.values()), "places in", len(done), "files", r if keep else "")
            e = [x for x in compiles(r, done) if "maximumIterations" not in x and "get_random_subset_with_score" not in x]
            for l in sorted(set(e))[:8]:
                print("   COMPILE", l[:200])

            def one(p):
                env = dict(os.environ, VERIF_REPO=r, VERIF_EVIDENCE=os.path.join(d, "ev"))
                q = subprocess.run([os.path.join(V, "check"), p], env=env, capture_output=True, text=True)
                return p, q
            with ThreadPoolExecutor(6) as ex:
                for p, q in ex.map(one, props):
                    u = sum("undecided" in l for l in q.stdout.splitlines())
                    if q.returncode != 0:
                        print("   %s exit %d" % (p, q.returncode), [l[:260] for l in q.stdout.splitlines() if "[" in l and "note:" not in l][:4], q.stderr[-300:])
                    elif u:
                        print("   %s undecided %d" % (p, u))
            sys.stdout.flush()
        finally:
            if not keep:
                shutil.rmtree(d, ignore_errors=True)


if __name__ == "__main__":
    main()
