"""The front end: texts and expressions through the real compiler, judged by TextTrace."""
import json, random
import re
from lang import *
import core, lang, fam_prog as P

R = core.R
# the surroundings of the expressions, as in spec/TextTrace.tla
AROUND = """func main(x,y){
	var a[] = {x+1,y,7}
	func f(u,v){
		return u-2*v
	}
	func g(){
		return 3
	}
	return addGateConstraint(@,0)
}
"""
AROUND2 = AROUND.replace("	return addGateConstraint(@,0)", "	var zz = @\n	return addGateConstraint(zz,0)")

def expr_record(req, m):
    def mk(rep):
        rp = {k: rep[k] for k in ("crash", "timeout", "err")}
        rp["outs"] = [dict(err=o["err"][:60], vals=o["vals"]) for o in rep.get("outs", [])]
        return dict(kind="exprs", xs=[list(x) for x in req["exprs"]], src=req["exprs"], ins=req["inputs"], inside="(" if req["src"] == AROUND else "", m=str(m), rep=rp)
    return mk

def exprs(rng, xs, m=R, per=150):
    out = []
    for k in range(0, len(xs), per):
        ins = [[str(rng.randrange(1, m)) for _ in range(2)] for _ in range(2)]
        req = dict(cmd="exprs", src=rng.choice([AROUND, AROUND2]), exprs=xs[k:k + per], inputs=ins)
        out.append(core.Case("TextTrace", req, expr_record(req, m), mod=m if m != R else "", weight=lambda rec: sum(5 + len(x) for x in rec["xs"]),
                             timeout=60, sample=dict(expressions=xs[k:k + 12], of=len(xs[k:k + per]))))
    return out

def listed(r, alphabet, bound):
    """all token strings up to the bound, as TLC lists them"""
    rc, o = core.tlc("SyntaxGen", "SyntaxGen.cfg", dict(BOUND=bound, ALPHABET=alphabet), workers="8", work=r.work)
    if rc != 0: raise core.Broken("SyntaxGen: " + core.tail(o))
    g, d = core.stats(o)
    r.states += d; r.transitions += g
    xs = sorted(tuple(x["s"]) for x in core.records(o))
    r.notes.setdefault("models", []).append(dict(module="SyntaxGen", what="all strings of up to %d tokens: %s" % (bound, alphabet), states=d, transitions=g))
    return xs

def glue(rng, toks):
    """some layout; what it means is for TLC to say"""
    mode = rng.random()
    if mode < .4: return "".join(toks)
    if mode < .6: return " ".join(toks)
    return "".join(t + rng.choice(["", "", " ", "\t", "  ", " \t "]) for t in toks)

def tree(rng, d):
    x = rng.random()
    if d <= 0 or x < .15: return rng.choice([var("x"), var("y"), num(rng.choice([0, 1, 2, 3, 5, 10, 17])), idx("a", num(rng.randrange(3)))])
    if x < .3: return call("f", tree(rng, d - 1), tree(rng, d - 1))
    if x < .33: return call("g")
    if x < .38: return idx("a", rng.choice([bn("-", num(2), num(rng.randrange(3))), bn("*", num(1), num(2)), bn("-", call("g"), num(2))]))
    return bn(rng.choice("++--**/"), tree(rng, d - 1), tree(rng, d - 1))

def tokens(e, rng, ctx=0):
    """minimal brackets, and some more"""
    k = e["k"]
    if k == "num": t = [e["v"]]
    elif k == "var": t = [e["n"]]
    elif k == "idx":
        t = [e["n"]]
        for i in e["i"]: t += ["["] + tokens(i, rng) + ["]"]
    elif k == "call":
        t = [e["n"] + "("]
        for j, a in enumerate(e["a"]): t += ([","] if j else []) + tokens(a, rng)
        t += [")"]
    else:
        p = PREC[e["op"]]
        t = tokens(e["l"], rng, p) + [e["op"]] + tokens(e["r"], rng, p + 1)
        if p < ctx: t = ["("] + t + [")"]
    while rng.random() < .06: t = ["("] + t + [")"]
    return t

SOUP = ["x", "y", "2", "0", "+", "-", "*", "/", "(", ")", "[", "]", ",", "f(", "g(", "a", "a[", "==", "<", "&&", "=", "unknown", "h(", ";", "{", "}", "$", "f"]
def spoil(rng, t, soup=SOUP):
    t = list(t)
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        x, i = rng.random(), rng.randrange(len(t) + 1)
        if x < .35 and t: del t[min(i, len(t) - 1)]
        elif x < .6: t.insert(i, rng.choice(soup))
        elif x < .8 and t: t[min(i, len(t) - 1)] = rng.choice(soup)
        elif x < .9 and len(t) > 1:
            j = rng.randrange(len(t) - 1)
            t[j], t[j + 1] = t[j + 1], t[j]
        elif t: t.insert(i, rng.choice(t))
    return t

def random_exprs(rng, n, bad=.35):
    xs = []
    for _ in range(n):
        t = tokens(tree(rng, rng.randrange(1, 5)), rng)
        if rng.random() < bad: t = spoil(rng, t)
        xs.append(glue(rng, t))
    return xs

# ------------------------------------------------------------------- texts
def text_record(req, m, chars):
    def mk(rep):
        rp = {k: rep[k] for k in ("crash", "timeout", "err")}
        rp["err"] = rp["err"][:100]
        rp["inputs"], rp["public"] = rep.get("inputs") or [], rep.get("public") or []
        return dict(kind="text", chars=["\ufffd" if "\udc80" <= c <= "\udcff" else c for c in chars], m=str(m), rep=rp)
    return mk

def text(src, m=R):
    req = dict(cmd="text", src=src)
    if any("\udc80" <= c <= "\udcff" for c in src):       # stands for a byte that is not UTF-8
        raw = src.encode("utf-8", "surrogateescape")
        src = raw.decode("utf-8", "surrogateescape")       # several of them may make up a character
        req = dict(cmd="text", src="", hex=raw.hex())
    return core.Case("TextTrace", req, text_record(req, m, src), mod=m if m != R else "", weight=lambda rec: 20 + len(rec["chars"]), timeout=10,
                     sample=dict(text=src.encode("utf-8", "backslashreplace").decode()), nontrivial=lambda rec: True)

TOKEN = re.compile(r"\s*\n\s*|[ \t\r]+|#[^\n]*|[A-Za-z_][A-Za-z_0-9]*\(?|[0-9]+|==|!=|>=|<=|&&|\|\||>>|<<|[-+*/]=|.", re.S)
def cut(src): return [t for t in TOKEN.findall(src) if t.strip(" \t\r") or t == "\n"]

def programs(rng, n, m=R, w=None, size=(2, 5), depth=3):
    """sources with their syntax trees"""
    out = []
    while len(out) < n:
        g = lang.Gen(rng, m, w, 2, depth)
        top = g.program(rng.randrange(*size))
        try: it = lang.interpret(top, [rng.randrange(1, m) for _ in lang.main_of(top)["p"]], m)
        except (lang.IllFormed, lang.Stop, RecursionError): continue
        if it.gates <= 40: out.append(top)
    return out

WORDS = ["var", "func", "if", "else", "for", "return", "public", "equal(", "main(", "{", "}", "(", ")", "[", "]", ",", ";", "=", "==", "<", "+", "-", "*", "/",
         "\n", "0", "1", "7", "x1", "x2", "zz", "zz(", "&", "!", "$", "%", ":", "+=", "&&", "|", "\xe4", "@", "'", "SPLIT(", "\udcff", "\udce2\udc82", "7\udcf0\udc9f", "\u20ac", "\ufffd"]
def spoiled(rng, n, w=None, m=R):
    out = []
    w = dict(w or dict(loop=.3))
    for top in programs(rng, n, m, w=w):
        t = cut(lang.source(top, rng))
        names = [x for x in t if re.match("[A-Za-z_]", x)]
        src = "".join((x if x == "\n" else x + rng.choice(["", " "]) if not re.match("[A-Za-z_0-9]", x) else x + " " if not x.endswith("(") else x)
                      for x in spoil(rng, t, WORDS + names))
        if rng.random() < .12: src = bytes_in(rng, src)
        out.append(text(src))
    return out

# ------------------------------------------------------- programs as texts
NOTES = ["", " x", " return 1", " }", "{ ( [", " equal(x,y) # twice", ' "quoted', " 5y \t ~ $ %", "#", " var x = 3", "*/", " \xe4\xf6"]
def bytes_in(rng, src):
    """some bytes that are not UTF-8 anywhere"""
    for _ in range(rng.choice([1, 1, 2])):
        i = rng.randrange(len(src) + 1)
        if rng.random() < .4:
            ds = [j for j, c in enumerate(src) if c.isalnum()]
            i = rng.choice(ds) + 1
        src = src[:i] + rng.choice(["\udcff", "\udc80", "\udce2\udc82", "\udcc3", "\udcf0\udc9f\udc98", "# \udcff\n", "# \udce2", "\ufffd", "\U0001f600"]) + src[i:]
    return src
def relaid(src, rng):
    """the same text with other blanks, blank lines and comments; None if it reads differently"""
    mode = rng.random()
    out, ts = "", cut(src)
    for i, t in enumerate(ts):
        if t == "\n":
            if rng.random() < .12: out += rng.choice(["", " ", "\t"]) + "#" + rng.choice(NOTES)
            out += rng.choice(["", "", " ", "\r"]) + "\n"
            while rng.random() < .15: out += rng.choice(["\n", " \n", "\t\n", "# " + rng.choice(NOTES) + "\n", "\r\n"])
            continue
        out += t
        if i + 1 < len(ts) and re.match("[A-Za-z0-9_]", t[-1]) and re.match("[A-Za-z0-9_]", ts[i + 1]): out += rng.choice([" ", " ", "\t", "  "])
        elif mode < .7 and i + 1 < len(ts) and ts[i + 1] != "\n": out += rng.choice(["", "", " ", "\t", "  "])
    return out

def plain(x):
    if isinstance(x, dict): return {k: plain(v) for k, v in x.items() if k != "h"}
    if isinstance(x, list): return [plain(v) for v in x]
    return x

def as_text(case, rng):
    """a program case whose text is laid out anew, judged by what its text says"""
    src = relaid(case.req["src"], rng)
    case.req["src"] = case.key = case.sample["program"] = src
    mk = case.build
    def build(rep):
        rec = mk(rep)
        rec["chars"] = list(src)
        rec["top"] = plain(rec["top"])
        return rec
    case.build = build
    w = case.weight
    case.weight = lambda rec: w(rec) + len(src) / 30
    return case

def unknown(src, m, rng, most=40):
    if m <= 11: most = min(most, 12)
    """a text about which only TLC knows what it means; the driver draws the inputs"""
    req = dict(cmd="prog", src=src, inputs=[], order=rng.choice(["ds", "sd", "apart"]), transpose=True, most=most, vectors=6)
    if m <= 11: req["all"] = m
    req["pool"] = [str(rng.randrange(m) if m <= 101 else P.value(rng)) for _ in range(60)]
    def mk(rep):
        rp = dict(crash=rep["crash"], timeout=rep["timeout"], err=rep["err"][:200], big=rep.get("big", False))
        if not rp["big"]:
            for k in P.KEYS:
                if k in rep: rp[k] = rep[k]
        for r in rp.get("runs", []):
            for f in ("d", "s"): r[f].pop("msg", None)
            r.pop("in", None)
        return dict(chars=list(src), m=str(m), small=m <= 11, share=False, ins=rep.get("ins", []), pool=req["pool"], combos=[], rep=rp)
    return core.Case("ProgTrace", req, mk, mod=(m if m != R else ""), timeout=10,
                     weight=lambda rec: 10 + len(src) / 20 + max(1, len(rec["ins"])) * (4 + len(rec["rep"].get("rows", []))),
                     key=src, sample=dict(program=src, modulus=str(m)))

# -------------------------------------------------- programs with one mistake
def places(x, parent=None, key=None, out=None):
    """all (container, key) pairs of nodes"""
    if out is None: out = []
    if isinstance(x, dict):
        if "k" in x and parent is not None: out.append((parent, key))
        for k in x: places(x[k], x, k, out)
    elif isinstance(x, list):
        for i, v in enumerate(x): places(v, x, i, out)
    return out

def isexpr(c, k):
    v = c[k]
    if v["k"] in ("num", "bin", "idx"): return True
    if v["k"] == "var": return "e" not in v
    return v["k"] == "call" and "a" in v and not (isinstance(c, dict) and c.get("k") == "call" and k == "e")

def blocks(top):
    out = []
    def walk(x):
        if isinstance(x, dict):
            for k, v in x.items():
                if k == "b" and isinstance(v, list): out.append(v)
                walk(v)
        elif isinstance(x, list):
            for v in x: walk(v)
    walk(top)
    return out

def wrong(rng, top, m=R):
    """one change which often, but not always, makes it meaningless"""
    import copy
    top = copy.deepcopy(top)
    ps = places(top)
    ex = [q for q in ps if isexpr(*q)]
    names = sorted({c[k]["n"] for c, k in ps if isinstance(c[k].get("n"), str)})
    anyname = lambda: rng.choice(names + ["nowhere", "x1", "x2", "main", "equal", "addGateConstraint"])
    bs = blocks(top)
    for _ in range(40):
        x = rng.randrange(18)
        c, k = rng.choice(ex) if ex else (None, None)
        if x == 0 and ex: c[k] = var(anyname())
        elif x == 1 and ex: c[k] = call(anyname(), *[copy.deepcopy(rng.choice(ex)[0][rng.choice(ex)[1]]) if False else num(rng.randrange(4)) for _ in range(rng.randrange(4))])
        elif x == 2:
            cs = [q for q in ps if q[0][q[1]]["k"] == "call" and "a" in q[0][q[1]]]
            if not cs: continue
            q = rng.choice(cs); a = q[0][q[1]]["a"]
            y = rng.random()
            if y < .4 and a: del a[rng.randrange(len(a))]
            elif y < .8: a.insert(rng.randrange(len(a) + 1), num(rng.randrange(5)))
            else: q[0][q[1]]["n"] = anyname()
        elif x == 3:
            cs = [q for q in ps if q[0][q[1]]["k"] == "cond"]
            if not cs: continue
            q = rng.choice(cs); d = q[0][q[1]]
            d[rng.choice("lr")] = rng.choice([var(anyname()), num(rng.randrange(9)), bn("-", num(0), num(1)), call(anyname())])
            if rng.random() < .3: d["op"] = rng.choice(["<", "<=", "==", "!=", ">", ">="])
        elif x == 4:
            cs = [q for q in ps if q[0][q[1]].get("i")]
            if not cs: continue
            i = (lambda q: q[0][q[1]]["i"])(rng.choice(cs))
            y = rng.random()
            if y < .2: i.append(num(0))
            elif y < .4 and len(i) > 1: i.pop()
            else: i[rng.randrange(len(i))] = rng.choice([num(rng.randrange(12)), var(anyname()), bn("-", num(0), num(1)), bn("+", num(1), num(1)), num(2**64)])
        elif x == 5 and ex: c[k] = bn("/", c[k], rng.choice([num(0), bn("-", num(3), num(3)), bn("*", num(0), var(anyname())), num(R)]))
        elif x == 6:
            b = rng.choice(bs)
            if not b: continue
            b.insert(rng.randrange(len(b) + 1), copy.deepcopy(rng.choice(b)))
        elif x == 7:
            b, d = rng.choice(bs), rng.choice(bs)
            if not b: continue
            d.insert(rng.randrange(len(d) + 1), copy.deepcopy(rng.choice(b)))
        elif x == 8:
            b = rng.choice(bs)
            if not b: continue
            del b[rng.randrange(len(b))]
        elif x == 9:
            b = rng.choice(bs)
            if len(b) < 2: continue
            i = rng.randrange(len(b) - 1); b[i], b[i + 1] = b[i + 1], b[i]
        elif x == 10 and ex:
            e, f = rng.choice(ex); c[k] = copy.deepcopy(e[f])
        elif x == 11:
            b = rng.choice(bs)
            b.insert(rng.randrange(len(b) + 1), public(rng.sample(names, min(len(names), rng.randrange(1, 3)))))
        elif x == 12:
            cs = [q for q in ps if q[0][q[1]]["k"] == "bin"]
            if not cs: continue
            q = rng.choice(cs); q[0][q[1]]["op"] = rng.choice("+-*/")
        elif x == 13:
            cs = [q for q in ps if isinstance(q[0][q[1]].get("n"), str) and q[0][q[1]]["k"] in ("func", "vfun", "var", "arr", "set", "aset") and ("e" in q[0][q[1]] or "b" in q[0][q[1]])]
            if not cs: continue
            q = rng.choice(cs); q[0][q[1]]["n"] = rng.choice(names + ["nowhere"])
        elif x == 14:
            cs = [q for q in ps if q[0][q[1]]["k"] in ("func", "vfun") and q[0][q[1]]["n"] != "main"]
            if not cs: continue
            f = (lambda q: q[0][q[1]])(rng.choice(cs))
            if rng.random() < .5 and f["p"]: f["p"].pop(rng.randrange(len(f["p"])))
            else: f["p"].append(rng.choice(names + ["extra"]))
            f["h"] = f["p"]
        elif x == 15:
            b = rng.choice(bs)
            b.insert(rng.randrange(len(b) + (0 if b and b[-1]["k"] == "ret" else 1)), rng.choice([split(rng.choice([num(5), var(anyname()), bn("+", var(anyname()), num(1))])), scall(call(anyname())),
                     scall(call("equal", num(1))), scall(call("addGateConstraint", num(1))), scall(call("scalarBaseMultiply", *[num(2)] * (1 if m == R else 2))), seq(var(anyname()), num(3)), svar(anyname(), num(2)),
                     sset(anyname(), num(2)), sarr(anyname(), [num(1), num(2)]), aset(anyname(), [num(rng.randrange(3))], num(4)), svar("fresh", var(anyname())), svar("fresh", call(anyname()))]))
        elif x == 16:
            b = rng.choice(bs)
            if b and b[-1]["k"] == "ret": b.pop()
            elif b is not None: b.append(ret(rng.choice([lang.NONE, num(3), var(anyname())])))
        elif x == 17:
            cs = [q for q in ps if q[0][q[1]]["k"] == "if" and len(q[0][q[1]]["c"]) > 1]
            if not cs: continue
            l = (lambda q: q[0][q[1]]["c"])(rng.choice(cs))
            del l[rng.choice([-1, -1, -1, rng.randrange(len(l) - 1)])]
        else: continue
        return top
    return top

def mistakes(rng, n, m, w=None, most=40):
    out = []
    w = dict(w or dict(fn=1, loop=.4, iff=.6, arr=1))
    for top in programs(rng, n, m, w=w):
        t = top
        for _ in range(rng.choice([1, 1, 1, 2])): t = wrong(rng, t, m)
        src = lang.source(t, rng)
        if rng.random() < .3: src = relaid(src, rng)
        out.append(unknown(src, m, rng, most))
    return out

def garbled(rng, n, m, most=40):
    """token-level changes, judged by what is then there"""
    out = []
    for c in spoiled(rng, n, m=m):
        if c.req["src"]: out.append(unknown(c.req["src"], m, rng, most))
    return out

# ------------------------------------------------------------------ imports
FILES = ["f", "a.prog", "lib/b", "x0", "main", "with blank", "g#1", "./c", "7", "lib/deep/d.txt", "A(", "e\u00e9"]
def balanced(lines):
    d = 0
    for l in lines:
        for c in l:
            if c in "([{": d += 1
            elif c in ")]}":
                d -= 1
                if d < 0: return False
    return d == 0

def split_up(rng, src, files, free, depth=0):
    """moves some ranges of lines into files"""
    lines = src.split("\n")
    for _ in range(rng.choice([1, 1, 2, 3]) if depth == 0 else rng.choice([0, 0, 1])):
        spots = [(i, j) for i in range(len(lines)) for j in range(i + 1, min(len(lines), i + 12) + 1)
                 if lines[i].strip() and balanced(lines[i:j]) and not any("import" in l for l in lines[i:j]) and not lines[i].strip().startswith("else")
                 and not (j < len(lines) and lines[j].strip().startswith("else"))]
        if not spots or not free: break
        i, j = rng.choice(spots)
        name = free.pop()
        body = "\n".join(lines[i:j])
        # what was in this range may move on into another file
        body = split_up(rng, body, files, free, depth + 1) if depth < 3 else body
        files[name] = rng.choice(["", "", "\n", "# a file\n", "\n \n"]) + body + rng.choice(["", "", "\n", "\n\n", " # end", "\n# end"])
        lines[i:j] = [rng.choice(["", "\t", " "]) + rng.choice(["import ", "import", "import  "]) + '"%s"' % name + rng.choice(["", "", " ", " # " + name, "\n"])]
    return "\n".join(lines)

def spoil_imports(rng, src, files):
    x = rng.randrange(9)
    names = sorted(files)
    n = rng.choice(names)
    imp = 'import "%s"' % n
    if x == 0: files[n] += "\n" + imp                                   # imports itself
    elif x == 1:
        q = rng.choice(names)
        files[n] = 'import "%s"\n' % q + files[n]
        files[q] += "\n" + imp + "\n"
    elif x == 2: del files[n]                                           # is missing
    elif x == 3: src = src.replace(imp, imp + "\n" + imp)               # comes twice
    elif x == 4: files[n] = files[n].replace("}", "", 1) if "}" in files[n] else files[n] + "\n}"
    elif x == 5: src = src.replace(imp, imp + rng.choice([" }", " var q = 3", ", ", ' "', " (", imp]))
    elif x == 6: files[n] += rng.choice(["\n~", "\nvar", "\n$x", "\nvar = 3", "\nfunc", '\n"', "\nreturn return", "\nvar zz = import"])
    elif x == 7: src = src.replace(imp, rng.choice(["import", 'import ""', "import " + n, 'import "%s' % n, 'import "%s "' % n, "import 7", "import\n" + imp[7:]]))
    else: src = src + "\n" + imp                                       # at the end, too
    return src

def imported(rng, n, m, bad=.3):
    out = []
    while len(out) < n:
        top = programs(rng, 1, m, dict(fn=2, var=4))[0]
        files, free = {}, list(FILES)
        rng.shuffle(free)
        src = split_up(rng, lang.source(top, rng), files, free)
        if not files: continue
        if rng.random() < bad: src = spoil_imports(rng, src, files)
        c = unknown(src, m, rng)
        c.req["files"] = files
        mk = c.build
        def build(rep, mk=mk, files=files):
            rec = mk(rep)
            rec["files"] = [dict(n=k, t=list(v)) for k, v in sorted(files.items())]
            return rec
        c.build = build
        c.key = json.dumps([src, files], sort_keys=True)
        c.sample = dict(program=src, files=files, modulus=str(m))
        out.append(c)
    return out
