"""Random scripts of calls, one profile per property.

A script is a list of calls of the public API (see harness/), written as the
complete JSON records which the specification reads.  The profiles only decide
where to look; what is right is decided by the specification alone.
"""
import copy
import json
import random

# ------------------------------------------------------------------ records


def V(t, v=""):
    return {"t": t, "v": v}


def frag(raw, args=(), frags=(), prefix="", suffix=""):
    return {"k": "frag", "raw": raw, "args": list(args), "frags": list(frags), "prefix": prefix, "suffix": suffix}


def col(tn, name, ta="", anon=False):
    return {"k": "col", "tn": tn, "ta": ta, "name": name, "anon": anon}


def table(name):
    return {"k": "table", "name": name}


def tablea(name, alias=""):
    return {"k": "tablea", "name": name, "alias": alias}


def expr(f):
    return {"k": "expr", "frag": f}


def cust(*parts):
    return {"k": "cust", "parts": list(parts)}


def ref(id):
    return {"k": "ref", "id": id}


NILFRAG, NILCOL, NILQB, NIL, QB = ({"k": k} for k in ("nilfrag", "nilcol", "nilqb", "nil", "qb"))


def pt(s):
    return {"p": "t", "s": s}


def pa(v):
    return {"p": "a", "v": v}


def pn(n):
    return {"p": "n", "n": n}


def fn(id, in_=(), out=("string",), var=False, beh=None, kind="func"):
    return {"kind": kind, "id": id, "in": list(in_), "var": var, "out": list(out), "beh": beh or {"k": "echo"}}


def named(name, f):
    return {"name": name, "fn": f}


def op(o, **kw):
    kw["op"] = o
    return kw


def query(n, style):
    return op("query", n=n, style=style)


def both(n):
    return op("both", n=n)


# ------------------------------------------------------------------ values

INTS = ["0", "1", "2", "-1", "7", "42", "100"]
TEXTS = ["", "a", "b", "1", "it's", "?", "$1", "x y", "#f1", "é", "\n"]


BIG = ["9007199254740992", "9007199254740993", "9007199254740991"]
BIGS = {"int": BIG + ["9223372036854775807"], "int64": BIG + ["-9007199254740993", "-9007199254740992"], "uint64": BIG + ["18446744073709551615", "18446744073709551614"],
        "uint": BIG, "int32": ["16777216", "16777217"], "uint32": ["16777216", "16777217"], "float64": ["9007199254740992", "16777217", "0.1", "0.30000000000000004", "0.3"],
        "float32": ["16777216", "0.1", "0.3"], "myint": BIG}
# the same instant, and the same wall clock
TIMES = ["2024-05-06T07:08:09Z", "2024-05-06T07:08:09+02:00", "2024-05-06T09:08:09+02:00", "2024-05-06T05:08:09Z", "2024-05-06T07:08:09.5Z"]


def value(r, kind="any"):
    if kind == "int":
        return V("int", str(r.randrange(1, 9)))
    if r.random() < (0.15 if kind == "eq" else 0.07):
        t = r.choice(["int64", "int64", "uint64", "int", "float64", "float32"] if kind == "eq" else list(BIGS))
        return V(t, r.choice(BIGS[t][:2] if kind == "eq" and t != "float64" else BIGS[t][-2:] if kind == "eq" else BIGS[t]))
    if kind == "eq":  # few values, many types: a lot of equal and nearly equal values
        t = r.choice(["int", "int", "int64", "int8", "uint", "uint8", "float64", "float32", "string", "string", "myint",
                      "mystring", "myfloat", "bool", "mybool", "nil", "[]byte", "[]int", "map", "*int", "point", "[2]int",
                      "ustruct", "ifs", "ifc", "func", "arrany", "time", "float64nan", "stringer", "nilptr:int", "**[]int",
                      "[]string", "[]any"])
    else:
        t = r.choice(["int", "int", "int", "string", "string", "bool", "float64", "nil", "int64", "uint8", "myint", "[]byte",
                      "time", "*int", "point", "[]int", "mystring"])
    if t == "float64nan":
        return V("float64", "NaN")
    if t in ("bool", "mybool"):
        return V(t, r.choice(["true", "false"]))
    if t == "nil" or t.startswith("nilptr:"):
        return V(t)
    if t in ("string", "mystring", "stringer"):
        if r.random() < 0.05:  # long, equal up to the end or after the start
            n = r.choice([7, 15, 16, 31, 32, 63, 64, 100, 127, 128, 255, 256])
            return V(t, r.choice(["p" * n, "p" * n + "1", "p" * n + "2", "1" + "p" * n, "2" + "p" * n, "p" * n + "1" + "p" * n, "p" * n + "2" + "p" * n]))
        return V(t, r.choice(["1", "a", "a", "b"] if r.random() < 0.9 else ["A", "a ", " a", "a\n", "01", "é", "e\u0301", "É"]) if kind == "eq" else r.choice(TEXTS))
    if t == "*int":
        return V(t, r.choice(["p", "q"]))
    if t in ("[2]int", "point"):
        return V(t, r.choice(["1,1", "1,2"]))
    if t == "time":
        return V(t, r.choice(TIMES))
    if t in ("[]byte", "map", "func", "ifc"):
        return V(t, r.choice(["1", "a"]))
    if t in ("[]int", "arrany", "ustruct", "ifs", "**[]int", "[]string", "[]any"):
        return V(t, r.choice(["1", "1,2"]))
    if t in ("float64", "float32", "myfloat"):
        return V(t, r.choice(["1", "2", "1.5", "0.1"]))
    if t.startswith("uint") or kind == "eq":
        return V(t, r.choice(["1", "1", "2", "3"]))
    return V(t, r.choice(INTS))


# ------------------------------------------------------------------ templates

WORDS = ["a", "x =", "SELECT", " ", "  ", "AND", "(", ")", ",", "1", "t.c", "-- c", "\n", "é", "名", "=", "<>", "@", ":p", "\\",
         "a1", "_", "\t", "%", "[1]", "{}", "/* */", "E", ";"]
QUOTED = ["'a'", "'?'", "'$1'", "'#f1'", "\"?\"", "`$1`", "'it''s ?'", "'\"?\"'", "\"'\"", "'#join('", "`#`", "'??'", "'\n?'",
          "'\\'", "\"a\\\"", "'#arg1'", "``", "''", "\"\""]
ODD = ["??", "$$", "\ue400", "\ue401", "\ue47f", "\ue080", "\ue0ff", "\ue100\ue101", "\u00a0", "\u2003", "\u200b", "\ufeff", "\u2028", "\ufffd",
       "\ue407", "\ue10f", "\ue41b", "\u0130", "\u0661", "\uff11", "\u0430", "\uff08", "\u2019"]


def text(r, odd=0.3, lead=True):
    """some plain text, by default beginning and ending such that it can't be read as part of a reference"""
    n = r.randrange(1, 4)
    out = ""
    for _ in range(n):
        x = r.random()
        out += r.choice(ODD) if x < odd * 0.5 else r.choice(QUOTED) if x < odd else r.choice(WORDS)
        if r.random() < 0.6:
            out += " "
    return (" " if lead else "") + out


def argref(r, i, style, calls=True):
    if calls and r.random() < (1.0 if style == "" else 0.3):
        return r.choice(["#arg%d", "#arg(%d)", "#arg( %d )", "#arg(%d.0)"]) % i
    return "$%d" % i


def fragref(r, i):
    return r.choice(["#f%d", "#fragment%d", "#f(%d)", "#fragment(%d)", "#f%d", "#f%d"]) % i


SEPS = ["', '", "', '", "', '", "'%s'" % ("=" * 70), "' AND '", "','", "' '", "''", "' || '", "'''' ", "' OR\n'"]


def joinref(r, what, n, style):
    """a #join over all or the rest of what ("arg" or "f"), n of them; returns the text and the indexes used"""
    tmpls = ["'#%s'", "'#%s'", "'#%s'", "'(#%s)'", "'x #%s y'", "' #%s '", "'a.#%s::int'", "'#%s #%s'"]
    name = "arg" if what == "arg" else r.choice(["f", "fragment"])
    tm = r.choice(tmpls)
    tm = tm.replace("#%s", "#" + name)
    sep = r.choice(SEPS)
    x = r.random()
    lo, hi = 1, n
    if n == 0:
        rng = ""
    elif x < 0.5:
        rng = ""
    elif x < 0.75:
        lo = r.randrange(1, n + 1)
        rng = ", %d" % lo
    elif x < 0.9:
        lo = r.randrange(1, n + 1)
        hi = r.randrange(lo, n + 1)
        rng = ", %d, %d" % (lo, hi)
    else:
        lo = 1
        hi = r.randrange(1, n + 1)
        rng = ", 0, %d" % hi
    t = "#join(%s,%s%s)" % (tm, r.choice(["", " "]) + sep, rng)
    return t, set(range(lo, hi + 1))


class Opt:
    def __init__(self, **kw):
        self.vals = "any"
        self.odd = 0.25
        self.join = 0.3
        self.depth = 3
        self.leaves = True      # columns, tables, nil fragments, custom builders
        self.dress = 0.2        # prefix, suffix
        self.broken = 0.0       # chance of a defect per tree
        self.plain = 0.5        # chance of text between references
        self.repeat = 0.3
        self.extra = ()         # text pieces added sometimes
        self.maxargs = 4
        self.maxfrags = 3
        self.leafs = None
        self.__dict__.update(kw)


def tmpl(r, nargs, nfrags, o):
    """a template using all args and frags"""
    style = r.choice(["$", "$", "$", "?", ""])
    refs = []
    need = set(range(1, nargs + 1))
    needf = set(range(1, nfrags + 1))
    if style == "?":
        refs = ["?"] * nargs
        need = set()
        for _ in range(nargs):
            if r.random() < 0.15:
                refs.append("#arg%d" % r.randrange(1, nargs + 1))
    if nargs and r.random() < o.join and style != "?":
        t, used = joinref(r, "arg", nargs, style)
        refs.append(t)
        need -= used
    if nfrags and r.random() < o.join:
        t, used = joinref(r, "f", nfrags, style)
        refs.append(t)
        needf -= used
    refs += [argref(r, i, style) for i in need] + [fragref(r, i) for i in needf]
    if nfrags and (r.random() < 0.15 if nargs == 0 else r.random() < 0.04):
        # an item is dropped after it has referenced others
        refs.insert(r.randrange(len(refs) + 1), "#join('#f%d%s #%s', ',')" % (r.randrange(1, nfrags + 1), r.choice(["", " #f%d" % nfrags]), r.choice(["arg", "arg", "f"])))
    while refs and r.random() < o.repeat:
        if nfrags and r.random() < 0.5:
            refs.append(fragref(r, r.randrange(1, nfrags + 1)))
        elif nargs and style != "?":
            refs.append(argref(r, r.randrange(1, nargs + 1), style))
        else:
            break
    r.shuffle(refs)
    for x in o.extra:
        if r.random() < 0.2:
            refs.insert(r.randrange(len(refs) + 1), x)
    out = text(r, o.odd) if r.random() < o.plain else ""
    for x in refs:
        out += x
        out += text(r, o.odd) if r.random() < o.plain else r.choice([" ", " ", ", ", "(", ")", "=", ""])
    if r.random() < 0.1:
        out = r.choice([" ", "\n", "\t", "\u00a0"]) + out
    return out


def defect(r, n):
    """breaks the fragment"""
    x = r.randrange(11)
    raw = n["raw"]
    if x == 10 and not n["args"]:   # only referenced by an item which is dropped
        n["frags"] = n["frags"] + [r.choice([frag("unused"), frag("$1", [V("int", "77")]), col("t", "c")])]
        n["raw"] = r.choice(["", raw]) + " #join('%s #arg', ',')" % " ".join("#f%d" % i for i in range(1 if r.random() < 0.5 else len(n["frags"]), len(n["frags"]) + 1)) + r.choice(["", raw])
    elif x == 0:
        n["args"] = n["args"] + [r.choice([V("int", "77"), V("int", "77"), V("nil"), V("string", ""), V("int", "0"), V("bool", "false"), V("nilptr:int"), V("[]int", "1"),
                                           copy.deepcopy(n["args"][-1]) if n["args"] else V("nil")])]
    elif x == 1:
        n["frags"] = n["frags"] + [r.choice([frag("unused"), frag("unused"), frag(""), frag(" "), NILFRAG, NILCOL, col("t", "c"), table("t"), expr(frag("e")), expr(NILFRAG), cust(), cust(pt("c")),
                                             frag("", prefix="P"), copy.deepcopy(n["frags"][-1]) if n["frags"] else frag("$1", [V("int", "1")])])]
    elif x == 2 and n["args"]:
        n["args"] = n["args"][:-1]
    elif x == 3 and n["frags"]:
        n["frags"] = n["frags"][:-1]
    elif x == 4:
        n["raw"] = raw + r.choice([" #nofunc()", " #arg99", " #f99", " $99", " #nofunc1", " #join('#nofunc', '')", " #join('#arg99', '')"])
    elif x == 5:
        n["raw"] = raw + r.choice([" #", " $", " $0", " ?1", " #f(", " #f(1", " #f('a", " #f(1,)", " #f(x)", " #f(1 2)", " # "])
    elif x == 6:
        n["raw"] = raw + r.choice([" #f", " #arg", " #f()", " #arg(1,2)", " #arg('1')", " #join('#arg')", " #join('#arg', ',', 9, 10)",
                                   " #join('#f', ',', 3, 2)", " #join('a', ',')", " #join('#arg', ',', 1, 2, 3)", " #f0", " #arg(-1)"])
    elif x == 7:
        n["raw"] = r.choice(["$1 ", "? "]) + raw
    elif x == 8 and n["frags"]:
        i = r.randrange(len(n["frags"]))
        n["frags"][i] = r.choice([NIL, NILCOL, frag("$1"), frag("#f1"), frag("x", [V("int", "1")]), cust({"p": "err"}),
                                  cust(pt("a"), {"p": "idx"}), cust({"p": "panic"})])
    else:
        n["raw"] = raw.replace("1", "2", 1)
    return n


def leaf(r, o):
    if o.leafs:
        return r.choice(o.leafs)(r)
    x = r.randrange(9)
    if x == 0:
        return col("t", r.choice(["id", "name"]))
    if x == 1:
        return col("t", r.choice(["id", "name"]), "u", r.random() < 0.3)
    if x == 2:
        return table("tbl")
    if x == 3:
        return tablea("tbl", r.choice(["", "al"]))
    if x == 4:
        return NILFRAG
    if x == 5:
        return expr(tree(r, o, 0))
    if x == 6:
        return cust(*[p for p in (pt(r.choice(["c(", "", "c "])), pa(value(r, o.vals)), pt(" ")) if r.random() < 0.8])
    if x == 7:
        return cust(pt("["), pn(tree(r, o, 0)), pt("]"))
    return frag(r.choice(["", " ", "lit", "\n"]), prefix=r.choice(["", "P"]), suffix=r.choice(["", "S"]))


def tree(r, o, depth=None):
    if depth is None:
        depth = o.depth
    nargs = r.randrange(0, o.maxargs + 1)
    nfrags = r.randrange(0, o.maxfrags + 1) if depth > 0 else 0
    args = [value(r, o.vals) for _ in range(nargs)]
    frags = []
    for _ in range(nfrags):
        if o.leaves and r.random() < 0.35:
            frags.append(leaf(r, o))
        else:
            frags.append(tree(r, o, depth - 1))
    if frags and r.random() < 0.08:
        frags.append(copy.deepcopy(frags[r.randrange(len(frags))]))
        nfrags += 1
    n = frag(tmpl(r, nargs, nfrags, o), args, frags)
    words = n["raw"].split() or ["w"]   # an affix may be what the text has there anyway
    if r.random() < o.dress:
        n["prefix"] = r.choice(["WHERE", "(", "P $1", " ", "p'", words[0], "WHERE "])
    if r.random() < o.dress:
        n["suffix"] = r.choice(["END", ")", "S ?", " ", "s", words[-1], " END"])
    return n


def nodes(n, acc=None):
    acc = [] if acc is None else acc
    if n["k"] == "frag":
        acc.append(n)
        for f in n["frags"]:
            nodes(f, acc)
    elif n["k"] == "expr":
        nodes(n["frag"], acc)
    return acc


def broken(r, t):
    t = copy.deepcopy(t)
    defect(r, r.choice(nodes(t)))
    return t


def lift(r, t, defs, p=0.5):
    """turns some sub-fragments into shared objects"""
    if t["k"] != "frag":
        return t
    t["frags"] = [lift(r, f, defs, p) for f in t["frags"]]
    if r.random() < p:
        id = "o%d" % (len(defs) + 1)
        defs.append(op("def", id=id, node=t))
        return ref(id)
    return t


# ------------------------------------------------------------------ fragments profiles

def c01(r):
    o = Opt(vals=r.choice(["any", "int", "eq"]), odd=r.choice([0, 0.15, 0.4]), join=r.choice([0.1, 0.5]), depth=r.choice([1, 2, 3]), dress=0.1)
    if r.random() < 0.2:
        return [query_ops(r)]
    if r.random() < 0.05:
        return [query(many_args(r), x) for x in "$?"]
    defs = []
    t = tree(r, o)
    if r.random() < 0.5:
        t = lift(r, t, defs, 0.3)
    return defs + [query(t, r.choice("$?")) for _ in range(1)] + [query(t, "$"), query(t, "?")]


def many_args(r):
    """indexes of two or three digits"""
    n = r.choice([10, 11, 12, 20, 21, 99, 100, 101, 112])
    t = frag("#join('#arg', ',')", [V("int", str(i)) for i in range(1, n + 1)])
    for _ in range(3):
        i = r.choice([n, n, n - 1, r.randrange(1, n + 1)])
        t["raw"] += r.choice([" $%d", " #arg%d", ", #arg(%d) ", ",$%d ", " #join('#arg', '+', %d)"]) % i
    if r.random() < 0.3:
        t = frag("#f%d #join('#f', ';')" % r.choice([10, 11, 12]), [], [frag("$1", [V("int", str(i))]) for i in range(1, 13)])
    return t


def query_ops(r):
    return query(tree(r, Opt(vals="int", maxargs=12, join=0.6)), r.choice("$?"))


def c02(r):
    if r.random() < 0.5:
        ops, names = qb_script(r, plain=r.random() < 0.5)
        return ops + [both(ref(r.choice(names))), both(ref(names[-1]))]
    o = Opt(vals=r.choice(["any", "int", "eq"]), odd=r.choice([0, 0.15]), join=r.choice([0.1, 0.5]), depth=r.choice([1, 2, 3]))
    ts = [tree(r, o) for _ in range(2)]
    if r.random() < 0.3:
        ts.append(broken(r, ts[0]))
    ops = [both(t) for t in ts]
    if r.random() < 0.3:
        vals = [value(r, "any") for _ in range(r.randrange(1, 4))]
        f = fn("g", ["ctx", "int"], ("string", "error"), beh={"k": "args", "args": vals})
        ops += [op("ctx", id="c", style="$"), ]
        ops = ops[:-1]
    return ops


def c03(r):
    o = Opt(vals="eq", odd=0, plain=0.2, depth=r.choice([0, 1, 2]), maxargs=6, join=0.4, dress=0, repeat=0.6)
    t = tree(r, o)
    if r.random() < 0.12:  # values which are nearly equal
        n, p, k = r.choice([3, 7, 8, 15, 16, 31, 32, 33, 63, 64, 65, 100, 127, 128, 255, 256, 1000]), r.choice(["p", "é", " ", "0"]), r.choice(["string", "string", "mystring"])
        fam = [V(k, p * n + "1"), V(k, p * n + "2"), V(k, "1" + p * n), V(k, p * n + "1" + p), V(k, p * n + "2" + p), V(k, p * n)]
        if r.random() < 0.3:
            fam = [V("time", x) for x in TIMES]
        fam = r.sample(fam, min(len(fam), 3))
        for x in nodes(t):
            if x.get("args"):
                x["args"] = [r.choice(fam) for _ in x["args"]]
    if r.random() < 0.2:  # many args: numbers of several digits
        n = r.randrange(9, 14) if r.random() < 0.8 else r.randrange(98, 103)
        vals = [V("int", str(i)) for i in range(n)]
        for _ in range(r.randrange(4)):
            vals.insert(r.randrange(len(vals)), r.choice(vals))
        t = frag(r.choice(["#join('#arg', ', ')", "#join('#f', ' ')"]), [], [])
        if "#arg" in t["raw"]:
            t["args"] = vals
        else:
            t["frags"] = [frag("$1", [v]) for v in vals]
    ops = [query(t, "$")]
    if r.random() < 0.3:
        ops += qb_script(r, vals="eq")[0]
        ops += [query(ref("q1"), "$")]
    return ops


CONTROLS = [chr(0xE400 + c) for c in range(32) if c not in (9, 10, 13)] + ["\ue47f"]
CHARSET = list("abZ_09 \t\n\r'\"`?$#(),.-+*/\\%&@!~^|<>=[]{};:") + CONTROLS[:6] + ["\ue080", "\ue0fe", "é", "名", "\ue101", "\u00a0", "\u2028", "\ufffd"]


def wild(r, n):
    return "".join(r.choice(CHARSET) for _ in range(n))


def c04(r):
    ops = []
    for _ in range(3):
        x = r.random()
        if x < 0.4:  # characters all around references
            body, k = "", 0
            vals = []
            for _ in range(r.randrange(1, 5)):
                body += safe_wild(r)
                if r.random() < 0.6:
                    k += 1
                    vals.append(value(r, "int"))
                    body += " $%d " % k if r.random() < 0.5 else "#arg%d " % k
            t = frag(r.choice(["(", "(", "", r.choice(ODD[2:])]) + body + safe_wild(r) + r.choice([")", ")", r.choice(ODD[2:])]), vals)
        elif x < 0.6:
            t = frag(wild(r, r.randrange(1, 12)))
        else:
            t = tree(r, Opt(odd=0.7, plain=0.8, depth=r.choice([0, 1, 2]), vals="int"))
        ops.append(query(t, r.choice("$?")))
    return ops


def safe_wild(r):
    """arbitrary text without references outside of quotes"""
    out = ""
    for _ in range(r.randrange(0, 5)):
        x = r.random()
        if x < 0.3:
            q = r.choice("'\"`")
            inner = "".join(c for c in wild(r, r.randrange(0, 7)) if c != q)
            if r.random() < 0.04:
                inner += longtext(r).replace("'", " ").replace("\"", " ") + inner
            out += q + inner + q
        elif x < 0.4:
            out += r.choice(["??", "$$"]) + " "
        else:
            out += "".join(c for c in wild(r, r.randrange(1, 5)) if c not in "'\"`?$#")
    return out


def numlit(r):
    return r.choice(["0", "1", "12", "007", "1.5", "-3", "+4", "1e3", "1E-2", ".5", "5.", "1.50", "-0.25", "123456", "99999999", "2.5e2", "1e+1", "00",
                     "1.", "1e", "-", ".", "1.2.3", "--1", "1e1.5", "e5", "1-2", "0x", "1_", "12345678901"])


def callarg(r):
    x = r.random()
    if x < 0.35:
        return numlit(r)
    if x < 0.65:
        inner = "".join(c for c in wild(r, r.randrange(0, 5)))
        if r.random() < 0.25:
            inner = "".join(r.choice(["'", "'", "''", "a", ",", ")", " ", "\\"]) for _ in range(r.randrange(1, 6)))
        if r.random() < 0.8:
            inner = inner.replace("'", "''")
        return "'" + inner + "'"
    return r.choice(["true", "false", "null", "nil", "TRUE", "a", "", "True", "NULL", "tru", "1a", "'a'b", "\"a\"", "true false", "#f1", "$1", "?"])


def call(r):
    name = r.choice(["f", "join", "abc", "a_b", "F", "x", "_", "Zz_", "arg", "fragment"])
    x = r.random()
    if x < 0.2:
        return "#" + name
    if x < 0.4:
        return "#" + name + r.choice(["1", "12", "0", "007", "1a", "1.5", "2(", "9#f1"])
    sp = lambda: r.choice(["", "", "", " ", "\n", "\t ", "\u00a0", "\u2003", "\ue40b", "\ue40c ", "\u0085", "\u3000"])
    body = ",".join(sp() + callarg(r) + sp() for _ in range(r.randrange(0, 4)))
    return "#" + name + "(" + body + r.choice([")", ")", ")", ")", ")", ")", "", ",)", " )", ",", "')"])


def template_text(r):
    out = ""
    for _ in range(r.randrange(1, 6)):
        x = r.random()
        if x < 0.25:
            out += r.choice(["?", "$1", "$2", "$12", "??", "$$", "$0", "$", "?1", "? ", "$10a", "$18446744073709551615", "$9223372036854775808", "$10000000000000000000", "$99999999999999999999", "$4294967297", "$1$2", "$1 ,$2", "?,?", "$ 1", "$-1", "?0", "$01", "???", "$$$1", "$\u0661 ", "#é()", "#f\u0661", "#f(\u0661)", "$1\u0661", "#\u0430rg1", "#f\uff08)", "#f(\u2019a\u2019)"])
        elif x < 0.6:
            out += call(r)
        elif x < 0.8:
            out += text(r, 0.6, False)
        else:
            out += wild(r, r.randrange(1, 6))
        if r.random() < 0.3:
            out += r.choice(["\n", " ", "\r\n", "\n\n  "])
    return out


def c05(r):
    ops = [op("parse", raw=template_text(r)) for _ in range(8)]
    if r.random() < 0.06:
        o = r.choice(ops)
        n = r.choice([20, 64, 100, 127, 128, 129, 254, 255, 256, 257, 300])
        pad = r.choice(["\n" * n, " " * n, "x" * n, "\n" * n + " " * n, "é" * n, "x\n" * n, "'" + "y" * n + "' ", "'" + "\n" * n + "'", "?" * r.choice([n, 20]), "a ? " * r.choice([n, 40])])
        o["raw"] = pad + o["raw"]
        if r.random() < 0.4:
            o["raw"] = "#f('" + pad.replace("'", "''") + "') " + o["raw"]
    return ops


def c06(r):
    # the same fragment alone and within others which have more, fewer, or no properties
    o = Opt(vals="int", odd=0, plain=0.2, depth=2, join=0.4, leaves=True, maxargs=3, maxfrags=3, dress=0.1)
    inner = tree(r, o, 1)
    k = r.randrange(0, 4)
    outer = tree(r, o, 2)
    if r.random() < 0.4:
        # reaches for something only another fragment has
        bad = frag(r.choice(["#arg%d", "$%d", "#f%d", "#fragment%d", "#join('#arg', ',', %d)", "#join('#f', ',', %d)"]) % r.randrange(1, 4),
                   [value(r, "int")] * r.randrange(0, 2), [])
        inner = frag(r.choice(["#f1", "#f1 $1", "#join('#f', ' ')"]), [value(r, "int")] * k, [bad])
        if k and "$1" not in inner["raw"]:
            inner["raw"] += " #join('#arg', ', ')"
    outer["frags"].append(inner)
    outer["raw"] += " #f%d" % len(outer["frags"])
    if r.random() < 0.3:
        outer["raw"] = "#f%d " % len(outer["frags"]) + outer["raw"]
    s = r.choice("$?")
    ops = [query(inner, s), query(outer, s)]
    if r.random() < 0.3:
        f = fn("emb", ["ctx", "int"], ("string", "error"), beh={"k": "frags", "frags": [inner, frag("$1", [value(r, "int")])]})
        g = fn("ar", ["ctx", "int"], ("string", "error"), beh={"k": "args", "args": [value(r, "int"), value(r, "int")]})
        host = frag(r.choice(["#emb1 #arg1", "#join('#emb', ', ') $1", "#arg1 #join('#ar #arg', ',')", "#ar2 $1 #ar1", "$1 #emb2 #f1"]), [value(r, "int")], [])
        if "#f1" in host["raw"]:
            host["frags"] = [tree(r, o, 1)]
        ops += [op("ctx", id="c", style=s), op("ctxf", id="d", parent="c", funcs=[named("emb", f), named("ar", g)]),
                op("build", ctx="d", n=host)]
    return ops


def jointmpl(r):
    return r.choice(["#arg", "#f", "#arg", "#f", "#fragment", "#arg #f", "#f #arg", "#arg=#arg", "(#f)", "#li", "#li:#arg", "#ai", "#ai #f", "#fi", "#fi,#arg",
                     "#arg #arg1", "#f $1", "#arg #li2", "#f ?", "#lf", "#lu #arg", "x", "#li1", "$1 #arg", "#nope", "", "#arg #nope1", "''#arg''", "#ec",
                     "#z #arg", "#f #ec(''q'')", "#sc", "#arg#f", " #f ", "#ns", "#arg #er1"])


def c07(r):
    vals = lambda k: [value(r, "int") for _ in range(k)]
    ni = r.randrange(0, 4)
    items = [r.choice(["i%d" % i, "", " ", "x"]) for i in range(1, ni + 1)]
    subs = [frag("$1", vals(1)), frag("s", prefix="p"), frag(" "), frag("#f1 $1", vals(1), [frag("in $1", vals(1))]), frag(""),
            frag("#join('#arg', '+')", vals(2)), NILFRAG, col("t", "c")]
    bad = [frag("$2", vals(1)), frag("#f1"), frag("#arg1"), cust({"p": "idx"}), frag("u", vals(1)), NIL, frag("#join('#arg', ',', 3)", vals(1)), frag("#li9"),
           cust(pt("a"), pa(V("int", "5")), {"p": "idx"}), frag("#ai7"), frag("#join('#f', ',', 1, 2)", [], [frag("a")]), frag("#join('#arg #f1', ',')", vals(2))]
    p = 0.15

    def sub():
        return r.choice(bad) if r.random() < p else r.choice(subs)
    funcs = [named("li", fn("li", ["int"], ("string", "error"), beh={"k": "list", "items": items})),
             named("lf", fn("lf", ["float64"], ("string", "error"), beh={"k": "list", "items": items})),
             named("lu", fn("lu", ["uint8"], ("string", "error"), beh={"k": "list", "items": items})),
             named("ai", fn("ai", ["ctx", "int"], ("string", "error"), beh={"k": "args", "args": vals(r.randrange(0, 4))})),
             named("fi", fn("fi", ["ctx", "int"], ("string", "error"), beh={"k": "frags", "frags": [sub() for _ in range(r.randrange(0, 4))]})),
             named("ec", fn("ec", [], ("string",))), named("sc", fn("sc", ["string"], ("string", "error"), beh={"k": "list", "items": items})),
             named("ns", fn("ns", ["int"], ("string",))),
             named("z", fn("z", ["int"], ("string", "error"), beh={"k": "list", "items": ["", "", ""]})),
             named("er", fn("er", ["int"], ("string", "error"), beh={"k": "err"}))]
    ops = [op("ctx", id="c0", style=r.choice("$?")), op("ctxf", id="c", parent="c0", funcs=funcs)]
    for _ in range(3):
        na, nf = r.randrange(0, 5), r.randrange(0, 4)
        rng = r.choice(["", "", "", ", 1", ", 2", ", 0", ", 1, 2", ", 2, 2", ", 2, 3", ", 0, 2", ", 3", ", 5", ", 1, 9", ", 3, 1", ", 1, 1", ", 0, 0", ", -1", ", 1, 2, 3",
                        ", 1, 0", ", 1, -1", ", -1, 2", ", 2, -5", ", -2, -1", ", 0, -1", ", -3, 1", ", -1"])
        body = "#join('%s', %s%s)" % (jointmpl(r), r.choice(SEPS), rng)
        rest = r.choice(["", "", " #join('#arg', ',') #join('#f', ';')", " #join('#arg', ',')", " $1", " #f1", " #join('#f', '')"])
        t = frag(body + rest, vals(na), [sub() for _ in range(nf)])
        if r.random() < 0.25:
            t = frag("[#f1] $1", vals(1), [t])
        if r.random() < 0.15:
            t = frag(r.choice(["#join('#f', ' & ')", "#join('#f', ' & ', 1, 2)"]), [], [t, r.choice(subs)])
        ops.append(op("build", ctx="c", n=t))
    return ops


def c08(r):
    o = Opt(vals="int", odd=0.05, plain=0.2, depth=r.choice([0, 1, 2, 3]), join=0.4)
    t = tree(r, o)
    ops = []
    for _ in range(3):
        s = r.choice("$?")
        b = broken(r, t)
        x = r.random()
        if x < 0.2:
            f = fn("emb", ["ctx", "int"], ("string", "error"), beh={"k": "frags", "frags": [b]})
            ops += [op("ctx", id="c%d" % len(ops), style=s), ]
            ops += [op("ctxf", id="d%d" % len(ops), parent=ops[-1]["id"], funcs=[named("emb", f)])]
            ops += [op("build", ctx=ops[-1]["id"], n=frag(r.choice(["#emb1", "#join('#emb', ',')", "#join('#emb', ',', 1, 1)"])))]
        elif x < 0.4:
            q = [op("def", id="q%d" % len(ops), node=QB)]
            id = q[0]["id"]
            q += [qop(id, "from", t=tb("ta")), qop(id, "select", cols=[col("ta", "id")])]
            q += [r.choice([qop(id, "where", n=b), qop(id, "select", cols=[expr(b)]), qop(id, "order", col=expr(b), dir=1), qop(id, "group", cols=[expr(b)]),
                            qop(id, "union", ns=[b]), qop(id, "join", t=tb("tb"), kind="INNER JOIN", on=b, opt=False)])]
            ops += q + [query(ref(id), s)]
        elif x < 0.5:
            ops += [query(frag("#f1", [], [expr(b)]), s), query(frag("#f1", [], [cust(pt("("), pn(b), pt(")"))]), s)]
        else:
            ops.append(query(b, s))
    return ops


def c08_left(r):
    """long lists of which all, or all but a few, are referenced, in any order"""
    ops = []
    for _ in range(3):
        na, nf = r.choice([0, 1, 2, 5, 9, 12, 17, 33]), r.choice([0, 1, 2, 9, 10, 14, 20])
        a, f = list(range(1, na + 1)), list(range(1, nf + 1))
        for xs in (a, f):
            if r.random() < 0.5:
                r.shuffle(xs)
            if xs and r.random() < 0.45:
                xs.remove(r.choice([xs[0], xs[-1], r.choice(xs), max(xs)]))
            if r.random() < 0.05:
                xs.append(len(xs) + 2)
        join = r.random() < 0.3
        ra = ["#join('#arg', ',', %d, %d)" % (i, min(na, i + 3)) if join and r.random() < 0.3 else r.choice(["$%d", "#arg%d"]) % i for i in a]
        rf = ["#join('#f', ',', %d)" % i if join and r.random() < 0.1 else r.choice(["#f%d", "#fragment%d"]) % i for i in f]
        ws = ra + rf
        if r.random() < 0.3:
            r.shuffle(ws)
        ops.append(query(frag(" ".join(ws), [value(r, "int") for _ in range(na)], [r.choice([frag("x"), frag(""), col("t", "c"), frag("y $1", [value(r, "int")])]) for _ in range(nf)]), r.choice("$?")))
    return ops


def c09(r):
    blank = ["", " ", "\n\t", "\u00a0", "#f1", " #f1 ", "#join('#f', '')", "#join('#f', ', ')", "x", " x ", "x #f1", "#f1#f2", "#f1 #f2", "\u2003y\u3000", "''", "\ue40b"]

    def one(d):
        raw = r.choice(blank) if d > 0 else r.choice(["", " ", "\n", "x", " \tx\r\n", "\u2028", "0", "\u200bx", "''", "\ue485"])
        n = 2 if "#f2" in raw else r.randrange(1, 4) if "#join" in raw else 1 if "#f1" in raw else 0
        subs = [r.choice([NILFRAG, expr(NILFRAG), col("t", "c"), expr(one(0)), cust(pt(r.choice(["", " ", "z "])))]) if r.random() < 0.2 else one(d - 1) for _ in range(n)]
        return frag(raw, [], subs, r.choice(["", "", "P", " ", "P ", "\n"]), r.choice(["", "", "S", " ", " S", "\t"]))
    ops = []
    for i in range(4):
        t = one(r.randrange(0, 4))
        if r.random() < 0.3:
            ops += [op("def", id="x%d" % i, node=t), op("mut", id="x%d" % i, m="prefix", raw=r.choice(["", "Q", " "])),
                    op("mut", id="x%d" % i, m="suffix", raw=r.choice(["", "R"]))]
            t = ref("x%d" % i)
        ops.append(query(t, r.choice("$?")))
    return ops


def c10(r):
    o = Opt(vals=r.choice(["any", "eq"]), odd=0.1, depth=2, join=0.4, maxargs=3, maxfrags=2)
    ops, n = [], 0
    ids = []
    for _ in range(r.randrange(2, 5)):
        n += 1
        id = "f%d" % n
        t = tree(r, o, r.randrange(0, 3))
        if ids:
            for _ in range(r.randrange(0, 3)):
                t["frags"].append(ref(r.choice(ids)))
                t["raw"] += " #f%d" % len(t["frags"])
        ops.append(op("def", id=id, node=t))
        ids.append(id)
    for _ in range(r.randrange(3, 9)):
        x = r.random()
        id = r.choice(ids)
        if x < 0.5:
            ops.append(query(ref(id), r.choice("$?")))
        elif x < 0.6:
            c = "c%d" % len(ops)
            ops += [op("ctx", id=c, style=r.choice("$?")), op("build", ctx=c, n=ref(id))]
        elif x < 0.7:
            ops.append(query(frag("#f1, #f2 #f1", [], [ref(id), ref(r.choice(ids))]), r.choice("$?")))
        else:
            m = r.randrange(6)
            if m == 0:
                ops.append(op("mut", id=id, m="raw", raw=r.choice(["changed", "$1", "#join('#arg', ' ')", "#f1"])))
            elif m == 1:
                ops.append(op("mut", id=id, m="args", args=[value(r, "int") for _ in range(r.randrange(0, 3))]))
            elif m == 2:
                ops.append(op("mut", id=id, m="aargs", args=[value(r, "int") for _ in range(r.choice([1, 1, 2, 3, 6]))]))
                if r.random() < 0.5:
                    ops.append(op("mut", id=id, m="raw", raw="#join('#arg', ', ') #join('#f', ' ')"))
            elif m == 3:
                ops.append(op("mut", id=id, m="prefix", raw="N"))
            elif m == 4:
                ops.append(op("mut", id=id, m="suffix", raw="M"))
            else:
                ops.append(op("mut", id=id, m="afrags", frags=[frag("new $1", [value(r, "int")]) for _ in range(r.choice([1, 1, 2, 3]))]))
    if r.random() < 0.5:
        ops.insert(r.randrange(len(ops) // 2, len(ops) + 1), op("scribble"))
    # the fragments defined with a node which is a fragment can be inspected (their sub-fragments are only compared when shared)
    for id in ids:
        ops.append(query(ref(id), r.choice("$?")))
    return ops + [op("recall")]


def c10_insp(r):
    """fragments whose contents are objects, so that their identity can be observed"""
    ws = lambda: r.choice(["", "", " ", "\n\t", "\u00a0"])
    ops = [op("def", id="a", node=frag(ws() + "x $1" + ws(), [value(r)], [], ws(), ws())), op("def", id="b", node=col("t", "c")),
           op("def", id="c", node=frag(ws() + r.choice(["#f1 #f2 $1", "#join('#f', ', ') #join('#arg', ',')", "#f2 #f1 #arg1 #f1", "#f1 $1", "#f3", "#f1 #f2 $1 #"]) + ws(), [value(r)], [ref("a"), ref("b")],
                                       r.choice(["", "P"]), r.choice(["", "S"]))),
           op("def", id="d", node=frag("#f1 #f2", [], [ref("c"), ref("a")]))]
    for _ in range(r.randrange(2, 7)):
        x = r.random()
        if x < 0.6:
            ops.append(query(ref(r.choice("acd")), r.choice("$?")))
        elif x < 0.8:
            ops.append(r.choice([op("mut", id="c", m="afrags", frags=[ref("a")]), op("mut", id="c", m="aargs", args=[value(r) for _ in range(r.choice([1, 2, 2, 5]))]), op("mut", id="a", m="args", args=[value(r)]),
                                 op("mut", id="c", m="raw", raw="#f1 #f2 #f3 $1"), op("mut", id="a", m="raw", raw=r.choice(["y $1", "y"])),
                                 op("mut", id="c", m="prefix", raw=r.choice(["", "Q"])), op("mut", id="c", m="frags", frags=[ref("b"), ref("a")])]))
        else:
            ops.append(op("insp", id=r.choice("acd")))
    return ops + [op("insp", id=x) for x in "acd"] + [op("recall")]


# ------------------------------------------------------------------ custom functions

NUMS = ["int", "int8", "int16", "int32", "int64", "uint", "uint8", "uint16", "uint32", "uint64", "float32", "float64", "myint", "myfloat"]
BADT = ["any", "[]int", "*int", "point", "complex128", "uintptr", "func", "chan", "map", "error", "[]string", "stringer", "time", "ctx"]
OUTS = [("string",), ("string",), ("string", "error"), ("string", "error"), ()]
BADOUTS = [("int",), ("error",), ("string", "string"), ("string", "error", "error"), ("error", "string"), ("mystring",), ("any",), ("string", "int"), ("string", "any"),
           ("mystring", "error"), ("string", "bool"), ("[]byte",), ("string", "*myerr"),
           ("string", "myerr"), ("myerr",), ("string", "Stringer"), ("string", "error", "string"), ("*myerr",)]
FNAMES = ["foo", "bar", "a", "_x", "A_b", "Join", "z__"]
BADNAMES = ["", "a1", "1", "a-b", "a b", "é", "名", "a.b", "#a", " a", "a ", "f(", "ａ", "a\n", "'"]


def signature(r):
    ps = [r.choice(NUMS + ["string", "string", "mystring", "bool", "bool", "mybool"]) for _ in range(r.randrange(0, 4))]
    c = ["ctx"] if r.random() < 0.4 else []
    var = bool(ps) and r.random() < 0.3
    return c + ps, var, r.choice(OUTS)


def litfor(r, t):
    if t in ("string", "mystring"):
        return "'" + r.choice(["", "a", "it''s", "x, y", ")", "#f1", "$1", " ", "1", "true"]) + "'"
    if t in ("bool", "mybool"):
        return r.choice(["true", "false"])
    if t in ("float32", "float64", "myfloat"):
        return r.choice(["1", "0.5", "-2.25", "1e2", "0"])
    if t.startswith("u"):
        return r.choice(["0", "1", "7", "42", "99"])
    return r.choice(["0", "1", "-1", "7", "42", "99", "-99"])


def badlit(r):
    return r.choice(["'a'", "1", "true", "null", "nil", "2.5", "-1", "'1'", "'2.5'", "'true'", "''", "0", "false", "'-1'"])


def c13(r):
    fs, calls = [], []
    for i in range(r.randrange(1, 4)):
        in_, var, out = signature(r)
        kind, name = "func", r.choice(FNAMES) + chr(97 + i)
        x = r.random()
        beh = {"k": "echo"}
        if x < 0.06:
            in_ = in_ + [r.choice(BADT)]
            r.shuffle(in_)
            var = False
        elif x < 0.12:
            out = r.choice(BADOUTS)
        elif x < 0.16:
            kind = r.choice(["nil", "notfunc"])
        elif x < 0.22:
            name = r.choice(BADNAMES)
        elif x < 0.26:
            in_, var = ["ctx"], True
        elif x < 0.36:
            beh = {"k": r.choice(["err", "panic", "panic", "nilfunc"])}
            if beh["k"] == "err":
                out = ("string", "error")
        elif x < 0.42:
            in_, out, beh = ["ctx"] + [t for t in in_ if t != "ctx"], ("string", "error"), {"k": "parts", "parts": [pt("p "), pa(value(r)), pn(frag("n $1", [value(r)]))]}
        elif x < 0.46:
            in_, var, out, beh = ["string"], True, ("string",), {"k": "echo"}
        f = fn("g%d" % i, in_, out, var, beh, kind)
        f["id"] += str(i)
        fs.append(named(name, f))
        ps = [t for t in in_ if t != "ctx"]
        for _ in range(2):
            args = [litfor(r, t) for t in ps]
            if var:
                k = r.randrange(0, 4) if r.random() < 0.8 else r.choice([4, 5, 7, 8, 9, 12, 17, 33])
                few = [litfor(r, ps[-1]) for _ in range(2)] if ps and r.random() < 0.5 else None
                args = args[:-1] + [r.choice(few) if few else litfor(r, ps[-1]) for _ in range(k)] if ps else args
            y = r.random()
            if y < 0.08 and args:
                args.pop()
            elif y < 0.16:
                args.append(badlit(r))
            elif y < 0.26 and args:
                args[r.randrange(len(args))] = badlit(r)
            elif y < 0.32 and len(args) > 1:
                r.shuffle(args)
            sp = r.choice(["", " "])
            c = "#%s(%s)" % (name, ("," + sp).join(args))
            if len(args) == 1 and args[0].isdigit() and r.random() < 0.5:
                c = "#%s%s" % (name, args[0])
            calls.append(c)
    ops = [op("ctx", id="c", style=r.choice("$?")), op("ctxf", id="d", parent="c", funcs=fs)]
    if r.random() < 0.5:
        ops[1]["funcs"] = fs[:1]
        for i in range(1, len(fs)):
            ops.append(op("ctxf", id="d%d" % i, parent="c", funcs=[fs[i]]))
    r.shuffle(calls)
    # "d" may not exist when the registration fails: calls are made in a context which is always there
    legal = [f for f in fs if _legal(f)]
    ops.append(op("ctx", id="k", style=r.choice("$?")))
    ops.append(op("ctxf", id="l", parent="k", funcs=legal))
    for i, c in enumerate(calls[:4]):
        t = frag(c)
        if r.random() < 0.4:
            t = frag("a $1 " + c + " " + r.choice(calls) + "b", [value(r)])
        ops.append(op("build", ctx="l", n=t))
    if r.random() < 0.3:
        lst = fn("li", r.choice([["int"], ["ctx", "int"], ["uint8"], ["float64"]]), ("string", "error"), beh={"k": "list", "items": ["u", "v", "w"]})
        ops.append(op("ctxf", id="m", parent="l", funcs=[named("li", lst)]))
        ops.append(op("build", ctx="m", n=frag("#join('#li', ', ')")))
        ops.append(op("build", ctx="m", n=frag("#join('#li:#li', ', ', 2, 3)")))
    return ops


def _legal(f):
    """whether the registration is expected to succeed (only used to go on with a usable context)"""
    g = f["fn"]
    n = f["name"]
    okt = set(NUMS) | {"string", "mystring", "bool", "mybool"}
    ps = g["in"][1:] if g["in"][:1] == ["ctx"] and not (g["var"] and len(g["in"]) == 1) else g["in"]
    return (g["kind"] == "func" and n != "" and all(ch.isascii() and (ch.isalpha() or ch == "_") for ch in n) and all(t in okt for t in ps)
            and tuple(g["out"]) in ((), ("string",), ("string", "error")))


def c14(r):
    names = ["foo", "bar", "arg", "f", "join", "fragment", "baz"]
    ops = [op("ctx", id="c0", style="$"), op("ctx", id="c1", style="?")]
    ctxs = ["c0", "c1"]
    k = 0
    rich = r.random() < 0.5
    few = r.random() < 0.4
    if r.random() < 0.15:
        names = ["foo", "Foo", "FOO", "bar", "fooo", "fo", "Join", "ARG", "F"]
    if few:
        names = r.sample(names, 2)
    base = [frag("#foo()"), frag("#bar()"), frag("#baz()"), frag("#arg1", [V("int", "1")]), frag("$1", [V("int", "2")]), frag("#f1", [], [frag("#foo()")]),
            frag("#fragment1", [], [frag("x")]), frag("#join('#arg', ', ')", [V("int", "3"), V("int", "4")]), frag("#join('#f', ' ')", [], [frag("#bar()"), frag("y")]),
            frag("#f1 #foo()", [], [frag("#arg1 #foo()", [V("int", "5")])]), frag("#scp()"), frag("#scp() #foo()"), frag("#foo() #scp() #bar()"), frag("#join('#li', '.')"),
            frag("#f1", [], [expr(frag("#foo()"))]), frag("#f1", [], [cust(pt("<"), pn(frag("#foo()")), pt(">"))]), frag("#lf1")]

    if rich:
        base += [frag("#foo('x')"), frag("#foo(1)"), frag("#foo('x', 2)"), frag("#bar('y', 'z')"), frag("#baz1"), frag("#foo('x')#foo()")]
    base += [frag("#join('#fragment', ',')", [], [frag("x"), frag("y")]), frag("#join('#fragment', '.', 1, 2)"), frag("#join('#arg', ',', 1, 2)"), frag("#join('#f', ',', 2)"),
             frag("#join('#fragment #arg', ',')", [V("int", "7")], [frag("w")]), frag("#fragment2", [], [])]

    def echo(nm):
        nonlocal k
        k += 1
        id = "%s%d" % (nm, k)
        if nm in ("arg", "f", "fragment"):
            return r.choice([fn(id, r.choice([["int"], ["ctx", "int"], ["ctx", "int"]]), ("string", "error"), beh={"k": "list", "items": ["I" + id, "J" + id]}), fn(id, ["int"], ("string",)), fn(id, ["ctx", "int"], ("string", "error"))])
        if nm == "join":
            return fn(id, ["string"], ("string",), True)
        if rich and r.random() < 0.6:
            return fn(id, r.choice([["string"], ["int"], ["ctx"], ["ctx", "string"], ["string", "int"], ["string", "string"]]), r.choice([("string",), ("string", "error")]), r.random() < 0.2 and nm != "baz")
        return fn(id, [], ("string",))
    for _ in range(r.randrange(3, 8)):
        if r.random() < 0.5 and len(ctxs) < 7:
            fs = [named(nm, echo(nm)) for nm in r.sample(names, r.randrange(few, 3))]
            if r.random() < 0.4:
                n = r.choice([frag("#foo()"), frag("#bar() #arg1", [V("int", "6")]), frag("#f1", [], [frag("#foo()")]), frag("#scp()") if r.random() < 0.2 else frag("z #foo()")])
                if "#scp" in n["raw"]:
                    n = frag("#baz()")
                k += 1
                fs.append(named("scp", fn("scp%d" % k, ["ctx"], ("string", "error"), beh={"k": "scope", "n": n, "funcs": [named(nm, echo(nm)) for nm in r.sample(names, r.randrange(few, 3))]})))
            if r.random() < 0.3:
                k += 1
                fs.append(named("li", fn("li%d" % k, ["int"], ("string", "error"), beh={"k": "list", "items": ["p%d" % k, "q"]})))
            if r.random() < 0.3:
                k += 1
                fs.append(named("lf", fn("lf%d" % k, ["ctx", "int"], ("string", "error"), beh={"k": "frags", "frags": [frag("#foo() in lf")]})))
            id = "d%d" % len(ctxs)
            ops.append(op("ctxf", id=id, parent=r.choice(ctxs[-1:] if few else ctxs), funcs=fs))
            ctxs.append(id)
        else:
            ops.append(op("build", ctx=r.choice(ctxs), n=r.choice(base)))
    for c in ctxs:
        for t in r.sample(base, 3):
            ops.append(op("build", ctx=c, n=t))
    return ops


def c15(r):
    o = Opt(vals=r.choice(["eq", "any", "int"]), odd=0.05, plain=0.2, depth=r.choice([0, 1, 2]), maxargs=3, maxfrags=2, dress=0)
    ops = [op("ctx", id="c", style=r.choice("$$?"))]
    ctxs = ["c"]
    if r.random() < 0.3:
        ops.append(op("ctx", id="other", style=r.choice("$?")))
        ctxs.append("other")
    qs = []
    if r.random() < 0.4:
        qops, names = qb_script(r, vals=o.vals)
        ops += qops
        qs = names
    vals = [value(r, o.vals) for _ in range(3)]
    for _ in range(r.randrange(3, 8)):
        x = r.random()
        if x < 0.2:
            id = "d%d" % len(ctxs)
            f = fn("foo", ["ctx"], ("string", "error"), beh={"k": "parts", "parts": [pt("P "), pa(r.choice(vals)), pn(frag("$1", [r.choice(vals)]))]})
            ops.append(op("ctxf", id=id, parent=r.choice(ctxs), funcs=[named("foo", f)]))
            ctxs.append(id)
        elif x < 0.4:
            ops.append(op("commit", ctx=r.choice(ctxs), v=r.choice(vals)))
        elif x < 0.5 and qs:
            ops.append(op("build", ctx=r.choice(ctxs), n=ref(r.choice(qs))))
        elif x < 0.6:
            ops.append(op("build", ctx=r.choice(ctxs), n=cust(pt("c "), pa(r.choice(vals)), pt(", "), pn(tree(r, o, 1)), pa(r.choice(vals)))))
        elif x < 0.7 and len(ctxs) > 1 and ctxs[-1].startswith("d"):
            ops.append(op("build", ctx=ctxs[-1], n=frag("#foo() $1", [r.choice(vals)])))
        elif x < 0.75:
            ops.append(op("build", ctx=r.choice(ctxs), n=frag("#join('#arg', ', ') #join('#f', ',')", [r.choice(vals) for _ in range(3)], [frag("$1", [r.choice(vals)])])))
        else:
            t = tree(r, o)
            ops.append(op("build", ctx=r.choice(ctxs), n=broken(r, t) if r.random() < 0.15 else t))
    return ops + [op("recall")]


# ------------------------------------------------------------------ query builders

def qop(id, m, **kw):
    return op("qb", id=id, m=m, **kw)


def tb(name, alias=""):
    return {"name": name, "alias": alias}


KINDS = ["INNER JOIN", "LEFT JOIN", "LEFT JOIN", "LEFT JOIN", "RIGHT JOIN", "FULL JOIN", "CROSS JOIN"]


class QGen:
    """makes the calls on one builder"""

    def __init__(self, r, id, vals="int", ctes=(), stray=0.0, opt=0.6, unaliased=0.3, dirty=0.0, subs=()):
        self.r, self.id, self.vals, self.stray, self.dirty = r, id, vals, stray, dirty
        names = ["ta", "tb", "tc", "td", "te"]
        self.tabs = []
        for i in range(r.randrange(1, 6) if r.random() < 0.93 else r.randrange(6, 13)):
            n = r.choice(names + list(ctes) * 2)
            a = "x" + "abcdefghijklm"[i]
            if r.random() < unaliased and all(t["name"] != n for t in self.tabs) and (n not in [t["alias"] for t in self.tabs]):
                a = ""
            elif any(t["name"] == n and t["alias"] == "" for t in self.tabs) and unaliased:
                a = "x" + "abcdefghijklm"[i]
            self.tabs.append(tb(n, a))
        self.opt = opt
        self.subs = list(subs)
        self.wide = max(2, len(self.tabs))

    def applied(self, t):
        return t["alias"] or t["name"]

    def acol(self, among=None, anon=0.15):
        r = self.r
        if self.stray and r.random() < self.stray:
            return col(r.choice(["zz", "ta"]), "c", r.choice(["", "zz"]))
        t = r.choice(among or self.tabs)
        return col(t["name"], r.choice(["id", "nm", "ct"]) if r.random() < 0.9 else r.choice(["*", "doc.id", t["name"] + ".id", self.applied(t) + ".id", "a b", "名", "id::text", "ID", "x, y", "id AS z", "(1)"]), t["alias"], r.random() < anon)

    def nest(self, n, p=0.15):
        """the same, deeper"""
        r = self.r
        while r.random() < p:
            n = r.choice([frag("(#f1)", [], [n]), frag("#f1", [], [n]), expr(frag("(#f1)", [], [n])), frag("#join('#f', '')", [], [n]), frag("#f1 #f2", [], [n, frag("")])])
            p = 0.4
        return n

    def acond(self, among=None):
        n = self.nest(self.acond1(among))
        return n if n["k"] == "frag" else frag("#f1", [], [n])

    def acond1(self, among=None):
        r = self.r
        x = r.random()
        c = lambda: self.nest(self.acol(among), 0.1)
        v = lambda: value(r, self.vals)
        if x < 0.35:
            return frag("#f1 = $1", [v()], [c()])
        if x < 0.55:
            return frag("#f1 = #f2", [], [c(), c()])
        if x < 0.65:
            return frag("#f1.id = ?", [v()], [r.choice([tablea(t["name"], t["alias"]) for t in (among or self.tabs)])])
        if x < 0.72:
            return frag("#join('#f', ' = ') OR $1", [v()], [c(), frag("#f1", [], [c()])])
        if x < 0.78:
            return frag("(#f1)", [], [frag("#f1 > #arg1", [v()], [expr(frag("lower(#f1)", [], [c()]))])])
        if x < 0.83 and self.subs:
            return frag("EXISTS (#f1)", [], [ref(r.choice(self.subs))])
        if x < 0.88:
            return frag("1 = $1", [v()])
        if x < 0.92:
            return frag(r.choice(["", " "]))
        if x < 0.95:
            return frag("#f1 #f2", [], [NILFRAG, cust(pt("k = "), pa(v()))])
        return frag("#f1 IN (#join('#arg', ', '))", [v(), v()], [c()])

    def selcol(self):
        r = self.r
        x = r.random()
        if x < 0.7:
            return self.acol()
        if x < 0.9:
            return expr(frag("coalesce(#f1, $1)", [value(r, self.vals)], [self.nest(self.acol())]))
        if x < 0.95:
            return expr(frag("$1", [value(r, self.vals)]))
        return expr(frag("count(*)"))

    def joins(self, chain=0.5, order_shuffle=True):
        r, ops = self.r, []
        rest = self.tabs[1:]
        if r.random() < 0.3:
            r.shuffle(rest)
        for i, t in enumerate(rest):
            kind = r.choice(KINDS)
            opt = kind == "LEFT JOIN" and r.random() < self.opt
            x = r.random()
            if kind == "CROSS JOIN":
                on = {"k": "none"}
            elif x < 0.1:
                on = r.choice([{"k": "none"}, frag(""), frag("1 = 1")])
            else:
                other = r.choice(self.tabs if r.random() < 0.7 else self.tabs[:1])
                third = r.choice(self.tabs)
                on = r.choice([frag("#f1 = #f2", [], [self.acol([t], 0), self.acol([other], 0)]),
                               frag("#f1 = $1", [value(r, self.vals)], [self.acol([t], 0)]),
                               frag("#f1 = #f2 AND $1", [value(r, self.vals)], [self.acol([other], 0), self.acol([t], 0)]),
                               frag("#f1.id = #f2.id", [], [tablea(other["name"], other["alias"]), tablea(t["name"], t["alias"])]),
                               frag("#f1 = #f2 AND #f3 > $1", [value(r, self.vals)], [self.acol([t], 0), self.acol([other], 0), self.acol([third], 0)]),
                               frag("#join('#f', ' = ')", [], [self.acol([x], 0) for x in shuffled(r, [t, other, third] + r.sample(self.tabs, r.randrange(0, len(self.tabs))))]),
                               frag("#f1 AND #f2", [], [frag("#f1 = #f2", [], [self.acol([t], 0), self.acol([third], 0)]), self.acond1([other])])])
            ops.append(qop(self.id, "join", t=t, kind=kind, on=on, opt=opt))
        return ops

    def clauses(self, p=0.5, tail=True):
        r, ops = self.r, []
        few = self.tabs[:1] if r.random() < 0.4 else r.sample(self.tabs, min(len(self.tabs), r.randrange(1, 4)))
        save, self.tabs = self.tabs, few if r.random() < 0.95 or len(few) == 1 else self.tabs
        ops.append(qop(self.id, "select", cols=[self.selcol() for _ in range(r.randrange(1, 4) if r.random() < 0.9 else r.randrange(6, 16))]))
        if r.random() < 0.2:
            ops.append(qop(self.id, "select", cols=[self.selcol() for _ in range(r.randrange(0, 3))]))
        for _ in range(r.randrange(0, 3)):
            if r.random() < p:
                x = r.random()
                if x < 0.6:
                    ops.append(qop(self.id, "where", n=self.acond()))
                elif x < 0.75:
                    ops.append(qop(self.id, "where2", col=self.acol(), cmp=r.choice(["=", "<>", " > ", ">="]), v=value(r, self.vals)))
                elif x < 0.95:
                    ops.append(qop(self.id, "in", col=self.acol(), **{"not": r.random() < 0.4}, list=[flatlist(r)]))
                else:
                    ops.append(qop(self.id, "where", n=NILFRAG))
        if r.random() < p * 0.5:
            ops.append(qop(self.id, "group", cols=[self.acol() for _ in range(r.choice([1, 1, 2, 2, 3, 5]))]))
        for _ in range(r.choice([0, 1, 2, 2, 3])):
            if r.random() < p:
                ops.append(qop(self.id, "order", col=self.selcol(), dir=r.randrange(0, 6)))
        if tail:
            for _ in range(2):
                if r.random() < p * 0.5:
                    ops.append(qop(self.id, "limit", num=r.choice(["1", "10", "0", "-5", "9223372036854775807"])))
                if r.random() < p * 0.5:
                    ops.append(qop(self.id, "offset", num=r.choice(["1", "20", "0", "-1", "9223372036854775807"])))
        self.tabs = save
        return ops


def flatlist(r):
    n = r.choice([1, 2, 3, 6, 9])
    x = r.random()
    if x < 0.5:
        return {"k": "many", "e": [V("int", str(r.randrange(1, 5))) for _ in range(n)], "form": r.choice(["slice", "array", "ptrslice", "ptrarray", "named"]), "et": "int"}
    if x < 0.8:
        return {"k": "many", "e": [V("string", r.choice(["a", "b", "c"])) for _ in range(n)], "form": "slice", "et": "string"}
    return {"k": "one", "e": [V("int", "5")], "form": "", "et": ""}


def qb_script(r, plain=False, vals="int", distinct=None, unions=True, withs=True, subq=True, shuffle=0.3, stray=0.0, optp=0.6, tail=True, p=0.5):
    """calls making one or more builders; returns them and the names of the builders, the main one last"""
    ops, names = [], []
    subs = []
    if subq and r.random() < 0.25:
        g = QGen(r, "s1", vals)
        ops += [op("def", id="s1", node=QB)] + body(r, g, 0.3, shuffle, distinct, tail)
        subs.append("s1")
        names.append("s1")
    cops, ctes = [], []
    if withs and r.random() < 0.4:
        for i in range(r.randrange(1, 4)):
            ctes.append("ca cb cc".split()[i])
    g = QGen(r, "q1", vals, ctes=ctes, stray=stray, opt=optp, subs=subs)
    for i, c in enumerate(ctes):
        deps = shuffled(r, r.sample(ctes, r.randrange(0, len(ctes))) + (["other"] if r.random() < 0.2 else []))
        n = r.choice([frag("SELECT %d" % i), frag("SELECT $1", [value(r, vals)]), frag("SELECT * FROM #f1", [], [table(ctes[(i + 1) % len(ctes)])])])
        if r.random() < 0.15:
            n = frag(" ")
        if subs and r.random() < 0.3:
            n = ref("s1")
        cops.append(qop("q1", "with", name=c, n=n, deps=deps))
    ops.append(op("def", id="q1", node=QB))
    bops = cops + body(r, g, p, shuffle, distinct, tail)
    if unions and r.random() < 0.2:
        us = [r.choice([frag("SELECT 1"), frag(""), frag("SELECT $1", [value(r, vals)]), NILFRAG] + [ref(s) for s in subs]) for _ in range(r.randrange(1, 3))]
        bops.append(qop("q1", "union", ns=us))
    if r.random() < 0.15:   # one column object in several places
        k = next((o["cols"][0] for o in bops if o.get("m") == "select" and o["cols"]), None)
        if k and k["k"] != "ref":
            ops.append(op("def", id="kk", node=k))
            uses = [qop("q1", "group", cols=[ref("kk")] * r.randrange(1, 3)), qop("q1", "order", col=ref("kk"), dir=r.randrange(6)), qop("q1", "select", cols=[ref("kk")] * r.randrange(1, 3)),
                    qop("q1", "where2", col=ref("kk"), cmp="=", v=value(r, vals)), qop("q1", "where", n=frag("#f1 = #f2", [], [ref("kk"), ref("kk")]))]
            for u in r.sample(uses, r.randrange(1, 4)):
                bops += [u] * r.choice([1, 1, 2])
    js = [o for o in bops if o.get("m") == "join" and o["kind"] != "CROSS JOIN"]
    if js and r.random() < 0.2:   # one condition object in several places
        ops.append(op("def", id="oo", node=frag(r.choice(["#join('#f', '=')", "(#join('#f', '=')) OR $1"]), [], [g.acol(None, 0) for _ in range(r.randrange(1, 5))], r.choice(["", "", "NOT"]), r.choice(["", "", "--"]))))
        if "$1" in ops[-1]["node"]["raw"]:
            ops[-1]["node"]["args"] = [value(r, vals)]
        for j in r.sample(js, min(len(js), 2)):
            j["on"] = ref("oo")
        for u in r.sample([dict(r.choice(js), on=ref("oo")), dict(js[-1], kind=r.choice(["LEFT JOIN", "INNER JOIN"]), on=ref("oo")), qop("q1", "where", n=ref("oo")), qop("q1", "where", n=ref("oo")),
                           qop("q1", "select", cols=[expr(ref("oo"))])], r.randrange(1, 4)):
            bops.append(u)
    if r.random() < shuffle:
        bops = shuffled(r, bops)
    names.append("q1")
    return ops + bops, names


def shuffled(r, ops):
    ops = list(ops)
    r.shuffle(ops)
    return ops


def body(r, g, p, shuffle, distinct, tail=True):
    ops = [qop(g.id, "from", t=g.tabs[0])] + g.joins()
    if g.tabs[1:] and r.random() < 0.1:  # replaces a join
        t = r.choice(g.tabs[1:])
        ops.append(qop(g.id, "join", t=t, kind="LEFT JOIN", on=frag("#f1 = $1", [value(r, g.vals)], [g.acol([t], 0)]), opt=r.random() < 0.5))
    ops += g.clauses(p, tail)
    if distinct or (distinct is None and r.random() < 0.5):
        ops.append(qop(g.id, "distinct"))
    return ops


def c16(r):
    ops, names = qb_script(r, vals=r.choice(["int", "any", "eq"]), p=r.choice([0.3, 0.6, 0.9]))
    ops += [query(ref(names[-1]), s) for s in "$?"]
    if len(names) > 1 and r.random() < 0.5:
        ops.append(query(ref(names[0]), r.choice("$?")))
    if r.random() < 0.2:
        ops.append(query(frag("SELECT * FROM (#f1) s WHERE $1", [value(r)], [ref(names[-1])]), r.choice("$?")))
    return ops


def c17(r):
    ops, names = qb_script(r, distinct=r.random() < 0.85 or None, unions=False, withs=r.random() < 0.2, subq=False, optp=r.choice([0.5, 0.9, 1.0]), p=r.choice([0.2, 0.5]))
    return ops + [query(ref("q1"), r.choice("$?")), qop("q1", "debug"), query(ref("q1"), r.choice("$?"))]


def c18(r):
    n = r.randrange(1, 6)
    ctes = ["ca", "cb", "cc", "cd", "ce"][:n]
    ops = [op("def", id="q1", node=QB)]
    for i, c in enumerate(ctes):
        deps = []
        for d in shuffled(r, ctes + ["ta", "zz", "xb"]):
            if r.random() < r.choice([0.1, 0.3]):
                deps.append(d)
        x = r.random()
        node = frag("SELECT %d" % i)
        if x < 0.15:
            node = r.choice([frag(""), frag(" "), NILFRAG, frag("#f1", [], [frag("")])])
        elif x < 0.35:
            node = frag("SELECT $1 FROM #f1", [value(r, "int")], [table(r.choice(ctes))])
        ops.append(qop("q1", "with", name=c, n=node, deps=deps))
    g = QGen(r, "q1", ctes=ctes, opt=0.6, unaliased=0.5)
    if r.random() < 0.3:    # the name of a CTE as the alias of something else
        t = r.choice(g.tabs)
        a = r.choice(ctes)
        if a not in [x["name"] for x in g.tabs] + [x["alias"] for x in g.tabs]:
            t["alias"] = a
    ops += body(r, g, 0.4, 0, None)
    if r.random() < 0.4:
        ops = ops[:1] + shuffled(r, ops[1:])
    return ops + [query(ref("q1"), "$"), query(ref("q1"), "?")]


def c19(r):
    stray = r.choice([0, 0, 0.1])
    ops, names = qb_script(r, unions=r.random() < 0.2, withs=r.random() < 0.3, subq=r.random() < 0.3, stray=stray, shuffle=0.4)
    head, tail = [o for o in ops if o["op"] == "def"], [o for o in ops if o["op"] != "def"]
    x = r.random()
    mine = [o for o in tail if o["id"] == "q1"]
    if x < 0.12:
        tail = [o for o in tail if not (o["id"] == "q1" and o["m"] == "from")]
    elif x < 0.2:
        tail = [o for o in tail if not (o["id"] == "q1" and o["m"] == "select")]
    elif x < 0.27:
        js = [o for o in mine if o["m"] == "join"]
        if js:
            tail.remove(r.choice(js))
    elif x < 0.33:
        tail.append(qop("q1", "order", col=col("ta", "id", anon=False), dir=r.choice([6, -1, 7, 99])))
    elif x < 0.38:
        tail.append(qop("q1", r.choice(["from"]), t=tb("", r.choice(["", "al"]))))
    elif x < 0.43:
        tail.append(qop("q1", "join", t=tb("", r.choice(["", "al"])), kind=r.choice(KINDS[:6]), on=frag("1=1"), opt=False))
    elif x < 0.5:
        fr = [o for o in mine if o["m"] in ("from", "join")]
        t = r.choice(fr)["t"]
        tail.append(qop("q1", "join", t=tb(r.choice([t["name"], "tz"]), t["alias"]) if t["alias"] else t, kind="LEFT JOIN", on=frag("1=1"), opt=r.random() < 0.5))
    elif x < 0.58:
        fr = [o for o in mine if o["m"] in ("from", "join")]
        tail.append(qop("q1", "from", t=r.choice(fr)["t"]))
    elif x < 0.63:
        tail.append(qop("q1", "select", cols=[NILCOL]))
    elif x < 0.68:
        tail.append(qop("q1", "select", cols=[]))
    elif x < 0.73:
        tail.append(qop("q1", "from", t=tb("tx", r.choice(["", "xx"]))))
    if r.random() < 0.06:   # a qualified table, taken last, next to an alias like its schema (or the like)
        js = [o["t"]["alias"] or o["t"]["name"] for o in tail if o["op"] == "qb" and o["id"] == "q1" and o["m"] == "join"] + ["ta"]
        j = r.choice(js)
        tail.insert(r.choice([0, len(tail)]), qop("q1", "from", t=tb(r.choice([j + ".t", "t." + j, j + j, j[:1], j.upper(), " " + j, j + "_"]), r.choice(["", "", "", j + "x"]))))
        tail.append(qop("q1", "select", cols=[expr(frag("1"))]))
        tail = [o for o in tail if o["id"] != "q1" or o["m"] in ("from", "join", "select", "with", "limit")] if r.random() < 0.5 else tail
    if r.random() < 0.3:
        tail = shuffled(r, tail)
    ops = head + tail
    k = r.randrange(len(tail) + 1)
    if r.random() < 0.3:
        ops = head + tail[:k] + [query(ref("q1"), "$")] + tail[k:]
    return ops + [query(ref("q1"), r.choice("$?")), query(ref("q1"), r.choice("$?")), query(frag("(#f1)", [], [ref("q1")]), "$")]


def c20(r):
    ops, names = qb_script(r, vals=r.choice(["int", "eq"]), shuffle=0.5)
    # the condition and a column are shared objects, also built on their own
    shared = [op("def", id="w", node=frag("#f1 = $1", [value(r, "int")], [col("ta", "id", "xa")])), op("def", id="on", node=r.choice([frag("#f1 = #f2", [], [col("ta", "id", "xa"), col("tb", "id", "sb")]),
                                               frag("#f1 = #f2 AND #f3 = $1", [value(r, "int")], [col("ta", "id", "xa"), col("tb", "id", "sb"), col("tb", "k", "sb")]),
                                               frag("#join('#f', '=')", [], [col("ta", "id", "xa"), col("tb", "id", "sb"), col("ta", "k", "xa"), col("tb", "k", "sb")], r.choice(["", "NOT"]), "")])),
              op("def", id="k", node=col("ta", "key", "xa")),
              # these are empty at first, and are changed later on
              op("def", id="e", node=frag("")), op("def", id="e2", node=frag(r.choice(["", "SELECT 2", "x = 2"])))]
    own = [op("def", id="p", node=QB), qop("p", "from", t=tb("ta", "xa")), qop("p", "select", cols=[ref("k")]), qop("p", "where", n=ref("w")),
           qop("p", "join", t=tb("tb", "sb"), kind=r.choice(["LEFT JOIN", "INNER JOIN", "RIGHT JOIN"]), on=ref("on"), opt=r.random() < 0.5), qop("p", "order", col=ref("k"), dir=r.randrange(6))]
    if r.random() < 0.4:    # declared again, with the same condition
        own.append(dict(own[4], kind=r.choice(["LEFT JOIN", "INNER JOIN", "RIGHT JOIN"])))
    if r.random() < 0.3:
        own.append(qop("p", "where", n=ref("on")))
    if r.random() < 0.3:
        own.append(qop("p", "order", col=r.choice([col("tb", "id", "sb"), expr(frag("$1", [value(r, "int")])), ref("k")]), dir=r.randrange(6)))
    if r.random() < 0.6:
        own.append(qop("p", "distinct"))
    if r.random() < 0.4:
        own.append(qop("p", "union", ns=[ref("w"), ref("q1")]))
    if r.random() < 0.4:
        own.append(qop("p", "with", name="ta", n=ref("q1"), deps=[]))
    if r.random() < 0.4:
        own.append(qop("p", "union", ns=r.choice([[ref("e")], [ref("e"), frag("SELECT 1")], [frag("SELECT 1"), ref("e2"), ref("e")], [ref("e"), ref("e2")]])))
    if r.random() < 0.3:
        own.append(qop("p", "where", n=ref(r.choice(["e", "e2"]))))
    if r.random() < 0.3:
        own.append(qop("p", "with", name=r.choice(["ta", "ce"]), n=ref("e"), deps=r.choice([[], ["ce"]])))
    if r.random() < 0.2:
        own.append(qop("p", "join", t=tb("te", "se"), kind="LEFT JOIN", on=ref("e"), opt=r.random() < 0.5))
    if r.random() < 0.2:
        own.append(qop("p", "select", cols=[ref("k"), expr(ref("e2"))]))
    if r.random() < 0.7:
        ops += shared + own
        names.append("p")
    out, late = [], []
    for o in ops:
        out.append(o)
        if o["op"] == "qb" and r.random() < 0.25:
            out.append(query(ref(o["id"]), r.choice("$?")))
    for _ in range(r.randrange(2, 6)):
        x = r.random()
        n = r.choice(names)
        if x < 0.5:
            out.append(query(ref(n), r.choice("$?")))
        elif x < 0.65:
            out.append(query(frag("(#f1) UNION (#f1) #f2", [], [ref(n), ref(r.choice(names))]), r.choice("$?")))
        elif x < 0.72 and "p" in names:
            out.append(query(ref(r.choice(["w", "on", "k"])), r.choice("$?")))
            out.append(query(ref("on"), "?"))
        elif x < 0.86 and "p" in names:
            id = r.choice(["e", "e", "e2", "w"])
            out.append(op("mut", id=id, m="raw", raw=r.choice(["SELECT 9", "", "y = 1"] if id != "w" else ["#f1 <> $1", "#f1 = $1 OR #f1 IS NULL"])))
            if r.random() < 0.4 and id != "w":
                out[-1] = op("mut", id=id, m=r.choice(["prefix", "suffix"]), raw=r.choice(["(", "", "Z"]))
            out.append(query(ref("p"), r.choice("$?")))
        else:
            g = QGen(r, n)
            g.tabs = [tb("ta", "xa")]
            out.append(r.choice([qop(n, "order", col=g.acol(), dir=r.randrange(6)), qop(n, "distinct"), qop(n, "limit", num="3"), qop(n, "where", n=frag("x = $1", [value(r, "int")])),
                                 qop(n, "select", cols=[expr(frag("$1", [value(r, "int")]))])]))
            out.append(query(ref(n), r.choice("$?")))
    if r.random() < 0.5:
        out.insert(r.randrange(len(out) // 2, len(out) + 1), op("scribble"))
    return out + [query(ref(n), s) for n in names for s in "$?"] + [op("recall")]


def c21(r):
    g = QGen(r, "q1", vals=r.choice(["int", "eq"]), opt=0.5)
    ops = [op("def", id="q1", node=QB)] + body(r, g, 0.3, 0, r.random() < 0.6)
    ops = [o for o in ops if o.get("m") != "order"]
    shared = [op("def", id="k%d" % i, node=n) for i, n in enumerate([g.acol(), expr(frag("h(#f1, $1)", [value(r, "int")], [g.acol()]))])]
    ops = shared + ops
    many = r.random() < 0.06
    for _ in range(r.randrange(9, 13) if many else r.randrange(0, 5)):
        c = r.choice([ref("k0"), ref("k1"), g.acol(), g.acol(), expr(frag("f(#f1, $1)", [value(r, "int")], [g.acol()])), expr(frag("$1 + $1", [value(r, "int")])), g.selcol()])
        ops.append(qop("q1", "order", col=c, dir=r.randrange(0, 6)))
        if r.random() < 0.2:
            ops.append(query(ref("q1"), r.choice("$?")))
    if r.random() < 0.2:
        ops.append(qop("q1", "select", cols=[ref("k0"), ref("k1"), ref("k0")][:r.randrange(1, 4)]))
    if r.random() < 0.2:
        ops.append(qop("q1", "group", cols=[ref("k0"), ref("k0")]))
    if r.random() < 0.3:
        ops = ops[:3] + shuffled(r, ops[3:])
    if r.random() < 0.2:
        ops.append(qop("q1", "union", ns=[frag("SELECT $1", [value(r, "int")])]))
    return ops + [query(ref("q1"), r.choice("$?")), query(ref("q1"), r.choice("$?"))]


# ------------------------------------------------------------------ helpers

ETS = {"int": lambda r: V("int", str(r.randrange(-2, 9))), "string": lambda r: V("string", r.choice(TEXTS)), "any": lambda r: value(r, "any") if r.random() < 0.7 else r.choice([V("[]int", "1,2"), V("[]int", "5"), V("[]any", "1,2"), V("[]string", "a,b"), V("nilptr:int"), V("nil"), V("**[]int", "1,2")]),
       "uint8": lambda r: V("uint8", str(r.randrange(0, 9))), "bool": lambda r: V("bool", r.choice(["true", "false"])), "myint": lambda r: V("myint", "3"),
       "float64": lambda r: V("float64", "1.5"), "[]int": lambda r: V("[]int", r.choice(["1", "1,2"])), "point": lambda r: V("point", "1,2"),
       "stringer": lambda r: V("stringer", "s"), "*int": lambda r: V("*int", r.choice("pq")) if r.random() < 0.7 else V("nilptr:int"), "int64": lambda r: V("int64", "7"),
       "int8": lambda r: V("int8", "-8"), "int16": lambda r: V("int16", "300"), "int32": lambda r: V("int32", "70000"), "uint": lambda r: V("uint", "3"), "uint16": lambda r: V("uint16", "4"),
       "uint32": lambda r: V("uint32", "5"), "uint64": lambda r: V("uint64", "18446744073709551615"), "float32": lambda r: V("float32", r.choice(["1.5", "0.1"])),
       "mystring": lambda r: V("mystring", "m"), "mybool": lambda r: V("mybool", "true"), "myfloat": lambda r: V("myfloat", "2.5"), "[]byte": lambda r: V("[]byte", "xy"),
       "[]string": lambda r: V("[]string", "a,b"), "[]any": lambda r: V("[]any", "1,2"), "map": lambda r: V("map", "k"), "time": lambda r: V("time", "2024-05-06T07:08:09Z")}


def flatval(r):
    x = r.random()
    one = lambda v: {"k": "one", "e": [v], "form": "", "et": ""}
    if x < 0.3:
        v = value(r, "any")
        while v["t"].startswith("["):
            v = value(r, "any")
        return one(v)
    if x < 0.4:
        return one(r.choice([V("nil"), V("nilptr:int"), V("nilptr:[]int"), V("nilptr:[3]int"), V("string", "abc"), V("map", "k"), V("point", "1,2"), V("**[]int", "1,2"), V("*int", "p"),
                             V("stringer", "x"), V("*stringer", "x"), V("func", "a"), V("valuer:int", "3"), V("time", "2024-05-06T07:08:09Z"), V("nilptr:[]string"), V("ifs", "1,2")])
                   if r.random() < 0.95 else V("int", "1"))
    et = r.choice(list(ETS) + ["any"] * 5 + ["*int"] * 2)
    form = r.choice(["slice", "slice", "array", "ptrslice", "ptrarray", "nilslice", "ptrnilslice", "named"])
    if form == "named":
        et = "int"
    n = 0 if form in ("nilslice", "ptrnilslice") else r.choice([0, 1, 1, 2, 3, 4, 7])
    return {"k": "many", "e": [ETS[et](r) for _ in range(n)], "form": form, "et": et}


def c22(r):
    ops = [op("flat", list=[flatval(r) for _ in range(r.randrange(0, 5))]) for _ in range(2)]
    id = "q"
    fv = flatval(r)
    neg = r.random() < 0.5
    ops += [op("def", id=id, node=QB), qop(id, "from", t=tb("ta", "xa")), qop(id, "select", cols=[col("ta", "id", "xa")]),
            qop(id, "in", col=r.choice([col("ta", "id", "xa"), expr(frag("lower(#f1)", [], [col("ta", "id", "xa")]))]), list=[fv], **{"not": neg})]
    if r.random() < 0.3:
        ops.append(qop(id, "in", col=col("ta", "b", "xa"), list=[flatlist(r)], **{"not": not neg}))
    return ops + [query(ref(id), "$"), query(ref(id), "?")]


FMTS = ["", "2006-01-02", "2006-01-02 15:04:05", "2006-01-02 15:04:05.999999", "2006-01-02 MST", "2006-01-02 15 o'clock", "'2006-01-02 15:04:05'"]
STRS = ["42", "1e3", "TRUE", "NULL", "-1", "", "a", "'", "''", "a'b", "'; DROP TABLE x; --", "\\", "\\'", "?", "$1", "\ue400", "\n", "é", "名", "\ue080", "\"", "`", "a'", "'a", "\ue41a", "\\''", "#f1", "\ue101", "''';", "a\\"]


def longtext(r, most=700):
    """text of some length, in which something may be cut, flushed or counted wrongly"""
    unit = r.choice(["a", "ab'", "x y ", "é", "0123456789", "''", "?", "$1 ", "名 "])
    return (unit * most)[:r.choice([15, 16, 17, 31, 33, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300, 511, 513, most])]


def ivalue(r):
    x = r.random()
    if x < 0.3:
        return V(r.choice(["string", "string", "string", "mystring", "stringer", "*stringer", "valstr:string", "valstr:mystring"]), r.choice(STRS) + (r.choice(["", "", r.choice(STRS)]) if r.random() < 0.93 else longtext(r) + r.choice(STRS)))
    if x < 0.5:
        t = r.choice(["int", "int8", "int16", "int32", "int64", "uint", "uint8", "uint16", "uint32", "uint64", "myint"])
        big = {"int64": ["9223372036854775807", "-9223372036854775808"], "uint64": ["18446744073709551615"], "int8": ["-128", "127"], "int": ["-9223372036854775808"]}
        return V(t, r.choice((["0", "1", "42", "100"] + ([] if t.startswith("u") else ["-1", "-7"]) + big.get(t, []))))
    if x < 0.6:
        t = r.choice(["float64", "float64", "float32", "myfloat"])
        return V(t, r.choice(["0", "1", "-1.5", "0.1", "100000"] + (["1234567890.123", "0.000000123", "1e22"[:1] + "0" * 22, "123456789012345680", "0.30000000000000004", "3.141592653589793"]
                                                                   if t != "float32" else ["3.1415927", "16777216", "0.25"])))
    if x < 0.68:
        return V(r.choice(["bool", "mybool"]), r.choice(["true", "false"]))
    if x < 0.78:
        return V("time", r.choice(["0", "2024-05-06T07:08:09Z", "2024-05-06T07:08:09+03:00|MSK", "2024-05-06T07:08:09.%sZ" % r.choice(["1234567", "1234564", "0000004", "129999999", "000000501", "10000049", "999999499"]), "2024-05-06T07:08:09-05:00|it's", "2024-05-06T07:08:09Z|x'; --", "2024-05-06T07:08:09.123456Z", "2024-12-31T23:59:59.5Z", "2024-05-06T07:08:09+02:00", "2024-05-06T07:08:09.123-05:30", "0001-01-02T00:00:00Z",
                                   "2024-05-06T07:08:09.1Z"]))
    if x < 0.86:
        return r.choice([V("nil"), V("nilptr:int"), V("nilptr:string"), V("nilptr:stringer"), V("nilptr:valuer"), V("nilptr:ptrvaluer"), V("nilptr:time"), V("valuer:nil"), V("nilptr:bool")])
    if x < 0.95:
        inner = r.choice([V("string", r.choice(STRS)), V("int64", "5"), V("float64", "2.5"), V("bool", "true"), V("nil"), V("time", "2024-05-06T07:08:09Z")])
        if r.random() < 0.2:
            return r.choice([V("strenum", r.choice(["zero", "o'ne", "$2"])), V("valenum", "30")])
        return V(r.choice(["valuer:", "ptrvaluer:", "valstr:"]) + inner["t"], inner["v"])
    return r.choice([V("valuererr", "boom"), V("[]int", "1"), V("map", "a"), V("point", "1,2"), V("func", "a"), V("complex128")])


def c23(r):
    ops = []
    for _ in range(3):
        n = r.randrange(0, 4)
        vals = [ivalue(r) for _ in range(n)]
        st = r.choice("$?")
        out = ""
        for i in range(n):
            out += safe_wild(r) + r.choice([" ", " ", " ", " -", " 1-", "=", " --", "(-", " - "]) + ("?" if st == "?" else "$%d" % r.choice([i + 1, i + 1, r.randrange(1, n + 1)])) + " "
        out += safe_wild(r)
        x = r.random()
        if x < 0.1:
            vals = vals[:-1]
        elif x < 0.15:
            vals = vals + [ivalue(r) for _ in range(r.randrange(1, 6))]
        elif x < 0.2:
            out += r.choice([" #f1", " $0", " ?1", " $", " #foo()", " #", " $9", " ?"])
        ops.append(op("interp", raw=out, args=vals, fmt=r.choice(FMTS)))
    o = Opt(odd=0.3, vals="int", depth=1, leaves=False)
    t = tree(r, o)
    for n in nodes(t):
        n["args"] = [ivalue(r) for _ in n["args"]]
    ops.append(op("interpq", n=t, fmt=r.choice(FMTS)))
    if r.random() < 0.3:
        qops, names = qb_script(r)
        ops += qops + [op("interpq", n=ref("q1"), fmt="")]
    return ops


def c24(r):
    ops = [op("def", id="q", node=QB), qop("q", "from", t=tb("ta", "xa")), qop("q", "select", cols=[col("ta", "id", "xa")]),
           qop("q", "where", n=frag("#f1 = $1 OR $2 = $1", [value(r, "any"), value(r, "any")], [col("ta", "c", "xa")])),
           op("def", id="bad", node=QB), qop("bad", "from", t=tb("ta", "xa")),
           op("def", id="frag", node=tree(r, Opt(vals="any", depth=1))), op("def", id="many", node=frag("SELECT #join('#arg', ', ')", [value(r, "int") for _ in range(r.choice([0, 1, 9, 10, 12, 40]))]))]
    for _ in range(4):
        kind = r.choice(["scan", "scanb", "count", "countb"])
        rows = r.randrange(0, 5) if r.random() < 0.9 else r.choice([5, 8, 10, 16, 17, 33, 64, 65, 100, 101, 129, 257, 300, 513, 1025])
        cols = r.choice([1, 1, 2, 3, 4]) if kind.startswith("scan") else r.choice([1, 1, 1, 1, 2])
        dest = r.choice([cols, cols, max(0, cols - 1), 1, 0, cols + 1]) if kind.startswith("scan") else 0
        if not kind.startswith("scan"):
            rows = r.choice([0, 1, 1, 1, 2])
        fault = r.choice(["none", "none", "query", "next", "next", "scan", "close", "null"])
        s = {"kind": kind, "raw": r.choice(["SELECT a FROM t", "SELECT $1, ?", ""]), "args": [value(r, "int") for _ in range(r.randrange(0, 3))], "n": NILFRAG, "style": r.choice("$?"),
             "cols": cols, "rows": rows, "dest": dest, "fault": fault, "at": r.randrange(1, rows + 2)}
        if kind.endswith("b"):
            s["n"] = ref(r.choice(["q", "q", "frag", "many", "bad"]))
        ops.append(op("scan", scan=s))
    return ops


# ------------------------------------------------------------------ concurrency

def gated(r, t, p=0.5):
    """puts gates into the templates of a fragment"""
    if t["k"] == "frag":
        if r.random() < p:
            t["raw"] = r.choice(["#gate() " + t["raw"], t["raw"] + " #gate()", "#gate() " + t["raw"] + " #gate()"])
        for f in t["frags"]:
            gated(r, f, p)
    elif t["k"] == "expr":
        gated(r, t["frag"], p)
    return t


def plain_gates(o):
    """without the function gate, which a query does not have"""
    return json.loads(json.dumps(o).replace("#gate() ", "").replace(" #gate()", "").replace("#gate()", ""))


def c11(r, free=False):
    defs = []
    if r.random() < 0.5:
        ops, names = qb_script(r, vals="eq", distinct=r.random() < 0.7 or None)
        for o in ops:
            for key in ("n", "on", "col"):
                if isinstance(o.get(key), dict):
                    gated(r, o[key], 0.4)
            for c in o.get("cols", []):
                gated(r, c, 0.4)
        if "#gate()" not in str(ops):
            ops.append(qop("q1", "where", n=frag("#gate() 1 = 1")))
        tops = [ref(n) for n in names] + [frag("#gate() (#f1)", [], [ref("q1")])]
        defs = ops
    else:
        o = Opt(vals="eq", odd=0.1, depth=2, join=0.4)
        t = gated(r, tree(r, o))
        top = lift(r, t, defs, 0.6)
        if top["k"] != "ref":
            defs.append(op("def", id="top", node=top))
            top = ref("top")
        tops = [top] + [ref(d["id"]) for d in defs]
        if r.random() < 0.3:
            f2 = frag("#gate() #f1 #gate() #f2", [], [r.choice(tops), r.choice(tops)])
            defs.append(op("def", id="two", node=f2))
            tops.append(ref("two"))
    nb = r.choice([2, 2, 3, 4]) if r.random() < 0.98 else r.randrange(30, 140)
    same = r.random() < 0.4
    first = r.choice(tops)
    byquery = r.random() < 0.5
    if byquery:   # gates of custom builders
        gate = cust(pt("g "), {"p": "gate"}, pa(value(r, "eq")), {"p": "gate"})
        defs = [plain_gates(o) for o in defs]
        args = [value(r, "eq") for _ in range(r.randrange(0, 3))]
        defs.append(op("def", id="gq", node=frag("#join('#arg', ', ') #f1 #join('#f', ';', 2)", args, [gate] + r.choice([[], [plain_gates(r.choice(tops))], [gate]]))))
        if len(defs[-1]["node"]["frags"]) == 1:
            defs[-1]["node"]["raw"] = "#join('#arg', ', ') #f1"
        tops = [plain_gates(t) for t in tops] + [ref("gq")] * 2
        first = r.choice(tops)
    builds = [{"n": first if same else r.choice(tops), "style": r.choice("$?"), "query": byquery and r.random() < 0.8, "interp": r.random() < 0.4} for _ in range(nb)]
    ops = list(defs)
    if free:
        ops.append(op("conc", conc={"builds": builds * (2 if nb < 5 else 1), "sched": [], "rounds": 20 if nb < 5 else 2}))
    elif nb > 4:   # all of them at once
        ops.append(op("conc", conc={"builds": builds, "sched": list(range(nb)), "rounds": 1}))
    else:
        for _ in range(3):
            sched = [r.randrange(nb) for _ in range(r.randrange(2, 4 * nb))]
            ops.append(op("conc", conc={"builds": builds, "sched": sched, "rounds": 1}))
    return ops


def c11_free(r):
    return c11(r, True)


# ------------------------------------------------------------------ totality

def c12(r):
    x = r.random()
    if x < 0.3:
        raws = [template_text(r) for _ in range(3)]
        ops = [op("parse", raw=t) for t in raws]
        vals = [value(r, "eq") for _ in range(3)]
        for t in raws:
            ops.append(query(frag(t, vals[:r.randrange(0, 4)], r.choice([[], [NILFRAG], [NIL], [NILCOL], [frag("x")], [NILQB]]) * r.randrange(0, 3)), r.choice("$?")))
            ops.append(op("interp", raw=t, args=[ivalue(r) for _ in range(r.randrange(0, 3))], fmt=r.choice(FMTS)))
        return ops
    if x < 0.5:
        t = broken(r, broken(r, tree(r, Opt(vals="eq"))))
        return [query(t, "$"), query(t, "?"), op("interpq", n=t, fmt="")]
    if x < 0.65:
        fs = []
        for i, b in enumerate(["panic", "panic", "panic", "panic", "panicidx", "idx", "err", "nilfunc"]):
            out = ("string", "error") if b in ("err", "idx") else r.choice(OUTS)
            fs.append(named("fn" + "abcdefgh"[i], fn("p%d" % (i % 4), r.choice([[], ["int"], ["ctx"], ["ctx", "int"], ["string"], ["bool"], ["float64"]]), out, False, {"k": b})))
        fs.append(named("rec", fn("rec", ["ctx"], ("string", "error"), beh={"k": "parts", "parts": [pn(frag("#fna()"))]})))
        fs.append(named("va", fn("va", ["int", r.choice(["string", "bool", "int8", "mystring"])], ("string",), True)))
        ops = [op("ctx", id="c", style=r.choice("$?")), op("ctxf", id="d", parent="c", funcs=fs)]
        for _ in range(6):
            nm = r.choice([f["name"] for f in fs] + ["join", "arg", "f"])
            c = "#%s(%s)" % (nm, ", ".join(badlit(r) for _ in range(r.randrange(0, 4))))
            if r.random() < 0.2:
                c = r.choice(["#join('#%s', ',')" % nm, "#%s1" % nm, "#%s" % nm, "#join('#%s', ',', 1, 2)" % nm, "#join('#arg', ',', -5, -1)", "#join('#arg', ',', 0, 0)",
                              "#join('#arg', ',', 4294967297)", "#join('#f', ',', 1, 4294967296)", "#join('#arg', ',', 9007199254740993)", "#arg4294967297", "#f18446744073709551617",
                              "#arg99999999999999999999", "#f(-1)", "#arg(-9223372036854775808)", "#join('#arg', ',', -9223372036854775808)"])
            ops.append(op("build", ctx="d", n=frag("a " + c, [value(r, "eq")] * r.randrange(0, 2), [frag("#fnb1")] * r.randrange(0, 2))))
        return ops
    if x < 0.9:
        ops, names = qb_script(r, vals="eq", stray=r.choice([0, 0.2]), shuffle=0.8)
        junk = [qop("q1", "select", cols=[NILCOL, expr(NILFRAG)]), qop("q1", "group", cols=[NILCOL]), qop("q1", "order", col=r.choice([NILCOL, expr(NILFRAG)]), dir=r.choice([0, 9, -3])),
                qop("q1", "where", n=frag("#f1 #f2", [], [NILCOL, NILFRAG])), qop("q1", "where", n=r.choice([NILFRAG, frag("$1"), frag("#f1", [], [NIL]), frag("#f1", [], [NILQB])])),
                qop("q1", "join", t=tb("", ""), kind="CROSS JOIN", on={"k": "none"}, opt=False), qop("q1", "join", t=tb("tz"), kind="CROSS JOIN", on={"k": "none"}, opt=False),
                qop("q1", "where2", col=NILCOL, cmp="=", v=V("nil")), qop("q1", "union", ns=r.choice([[NILFRAG, NILQB], [NIL], [frag("SELECT 1"), NILCOL], [NILQB, NIL]])), qop("q1", "in", col=NILCOL, list=[{"k": "many", "e": [], "form": "slice", "et": "int"}], **{"not": False}),
                qop("q1", "from", t=tb("")), qop("q1", "with", name="ca", n=r.choice([NILFRAG, NILQB, NIL, NILCOL]), deps=["ca", "cb"]), qop("q1", "debug"),
                qop("q1", "join", t=tb("tb", "sb"), kind="LEFT JOIN", on=r.choice([{"k": "none"}, NILFRAG, frag("#f1", [], [NILCOL])]), opt=True)]
        ops = ops[:1] + ops[1:]
        for j in r.sample(junk, r.randrange(1, 5)):
            k = r.randrange(len(ops) + 1)
            idx = [i for i, o in enumerate(ops) if o["op"] == "def" and o["id"] == "q1"][0]
            ops.insert(max(k, idx + 1), j)
        if r.random() < 0.2:
            ops += [query(r.choice([NILCOL, NILQB, NILFRAG, expr(NILFRAG)]), r.choice("$?")), query(frag("a #f1", [], [ref("q1")]), "$")]
        return ops + [query(ref("q1"), "$"), op("interpq", n=ref("q1"), fmt=""), query(ref("q1"), "?")]
    deep = frag("x $1", [V("int", "1")])
    for _ in range(r.choice([20, 60])):
        deep = frag("(#f1)", [], [deep])
    return [query(deep, r.choice("$?")), op("parse", raw=wild(r, 60)), op("parse", raw=call(r) * 5), op("flat", list=[flatval(r) for _ in range(6)])]


# ------------------------------------------------------------------ scripts of others

def parsed(g):
    """the templates of scripts, parsed"""
    def go(r):
        raws = set()

        def walk(o):
            if isinstance(o, dict):
                if isinstance(o.get("raw"), str):
                    raws.add(o["raw"])
                for x in o.values():
                    walk(x)
            elif isinstance(o, list):
                for x in o:
                    walk(x)
        walk(g(r))
        return [op("parse", raw=x) for x in sorted(raws)[:12]] or [op("parse", raw="")]
    return go


def turned(g, name):
    """the queries of scripts, made in another way"""
    def go(r):
        out = []
        for o in g(r):
            if o["op"] == "query":
                o = both(o["n"]) if name == "both" else op("interpq", n=o["n"], fmt="")
            if o["op"] not in ("recall", "scribble"):
                out.append(o)
        return out
    return go


# profile: list of (weight, generator, fresh)
OWN = {
    "C01": [c01], "C02": [c02], "C03": [c03], "C04": [c04], "C05": [c05], "C06": [c06], "C07": [c07], "C08": [c08, c08, c08_left], "C09": [c09], "C10": [c10, c10, c10, c10_insp], "C11": [c11], "C12": [c12], "C13": [c13],
    "C14": [c14], "C15": [c15], "C16": [c16], "C17": [c17], "C18": [c18], "C19": [c19], "C20": [c20], "C21": [c21], "C22": [c22], "C23": [c23], "C24": [c24], "C11free": [c11_free],
}
OTHERS = {
    "C01": [c03, c07, c06, c16, c21, c22, c15], "C02": [turned(g, "both") for g in (c01, c03, c16, c21, c06, c18, c17)], "C03": [c01, c15, c16, c21, c06], "C04": [c01, c09, c06],
    "C05": [parsed(g) for g in (c01, c04, c07, c08, c23, c12)], "C06": [c01, c07, c08, c15], "C07": [c01, c06, c08, c03], "C08": [c07, c06, c19, c15, c13], "C09": [c01, c04, c08],
    "C10": [c20], "C12": [c01, c07, c08, c13, c15, c19, c22, c23, c24, c14, c18, c10_insp], "C13": [c07, c14, c06], "C14": [c13, c07], "C15": [c07, c14, c06, c13],
    "C16": [c17, c18, c21, c20, c22], "C17": [c16, c18, c19, c21], "C18": [c16, c20, c17], "C19": [c16, c17, c18, c21, c20], "C20": [c10], "C21": [c16, c20, c17], "C22": [c16],
    "C23": [turned(g, "interpq") for g in (c01, c04, c16, c21, c09)],
}
PROFILES = {p: [(4.0 / len(gs), g, p in ("C10", "C20")) for g in gs] + [(2.0 / len(OTHERS[p]), g, p in ("C10", "C20")) for g in OTHERS.get(p, [])] for p, gs in OWN.items()}


# ------------------------------------------------------------------ larger ones

def found(o, k, acc):
    """the nodes of a kind anywhere in a script"""
    if isinstance(o, dict):
        if o.get("k") == k:
            acc.append(o)
        for x in o.values():
            found(x, k, acc)
    elif isinstance(o, list):
        for x in o:
            found(x, k, acc)
    return acc


def many_clauses(r, id):
    """a dozen of some clause"""
    n = r.choice([9, 10, 11, 12, 16, 17])
    x = r.randrange(7)
    c = lambda i: col("t%d" % i, "c%d" % i)
    if x == 0:
        return [qop(id, "select", cols=[col("big", "c%d" % i) for i in range(n)])] + [qop(id, "from", t=tb("big"))] * (r.random() < 0.5)
    if x == 1:
        return [qop(id, "where2", col=col("big", "c%d" % i, anon=True), cmp="=", v=V("int", str(i))) for i in range(n)]
    if x == 2:
        ops = [qop(id, "join", t=tb("j%d" % i, r.choice(["", "ja%d" % i])), kind=r.choice(["LEFT JOIN", "LEFT JOIN", "INNER JOIN"]), on=frag("#f1 = $1", [V("int", str(i))], [col("big", "id", anon=True)]), opt=r.random() < 0.7)
               for i in range(n)]
        for o in ops:
            o["opt"] = o["opt"] and o["kind"] == "LEFT JOIN"
        if r.random() < 0.5:
            t = r.choice(ops)["t"]
            ops.append(qop(id, "where", n=frag("#f1 IS NULL", [], [col(t["name"], "x", t["alias"])])))
        return ops
    if x == 3:
        return [qop(id, "order", col=r.choice([col("big", "c%d" % i, anon=True), expr(frag("e%d+$1" % i, [V("int", str(i))]))]), dir=r.randrange(6)) for i in range(n)]
    if x == 4:
        return [qop(id, "union", ns=[frag("SELECT $1", [V("int", str(i))]) for i in range(n)])]
    if x == 5:
        names = ["w%d" % i for i in range(n)]
        ops = [qop(id, "with", name=w, n=frag("SELECT %d" % i), deps=[names[i + 1]] if i + 1 < n and r.random() < 0.8 else []) for i, w in enumerate(names)]
        return shuffled(r, ops) + [qop(id, "join", t=tb(names[0] if r.random() < 0.7 else r.choice(names)), kind="CROSS JOIN", on={"k": "none"}, opt=False)]
    return [qop(id, "group", cols=[col("big", "c%d" % i, anon=True) for i in range(n)])]


def stretch(r, ops, fresh):
    """makes something in the script long, wide or deep"""
    ops = copy.deepcopy(ops)
    fs = found(ops, "frag", [])
    qs = [o["id"] for o in ops if o["op"] == "def" and o["node"].get("k") == "qb"]
    x = r.randrange(9)
    if qs and r.random() < 0.5:
        id = r.choice(qs)
        i = r.choice([i for i, o in enumerate(ops) if o["op"] == "qb" and o["id"] == id] or [next(i for i, o in enumerate(ops) if o["op"] == "def" and o["id"] == id)])
        ops[i + 1:i + 1] = many_clauses(r, id)
        return ops
    if not fs:
        return ops
    f = r.choice(fs)
    if x == 0:
        long = r.choice(["word ", "w", "é", "'it''s' ", "\n"]) * r.choice([30, 70, 130])
        f["raw"] = r.choice([f["raw"] + " " + long, long + " " + f["raw"]])
    elif x == 1:
        k = copy.deepcopy(f)
        for i in range(r.choice([9, 17, 33])):
            k = frag(r.choice(["(#f1)", "#f1", "#join('#f', ',')"]), [], [k], *r.choice([("", ""), ("", ""), ("(", ")")]))
        f.clear()
        f.update(k)
    elif x == 2 and "?" not in f["raw"]:
        n = len(f["args"])
        more = r.choice([7, 8, 9, 15, 16, 31])
        f["args"] = f["args"] + [V("int", str(100 + i)) for i in range(more)]
        f["raw"] += r.choice([" #join('#arg', ', ', %d)" % (n + 1), "".join(" $%d" % i for i in range(n + 1, n + more + 1)), "".join(" $%d" % i for i in range(n + more, n, -1))])
    elif x == 3:
        n = len(f["frags"])
        more = r.choice([7, 8, 9, 15, 16, 31])
        f["frags"] = f["frags"] + [frag("s%d $1" % i, [V("int", str(i % r.choice([3, 100])))]) for i in range(more)]
        f["raw"] += r.choice([" #join('#f', ', ', %d)" % (n + 1), "".join(" #f%d" % i for i in range(n + 1, n + more + 1))])
    elif x == 4:
        long = r.choice(["-", "ab", " "]) * r.choice([20, 40, 70])
        f["raw"] = f["raw"].replace("', '", "'%s'" % long) if "', '" in f["raw"] else f["raw"] + " #join('x #f y', '%s'%s)" % (long, r.choice(["", ", 1", ", 1, %d" % max(1, len(f["frags"])), ", -2"]))
        if r.random() < 0.5 and "?" not in f["raw"]:
            f["args"] = f["args"] + [V("int", "1"), V("int", "2"), V("int", "3")]
            f["raw"] += " #join('x #arg y', '%s'%s)" % (long, r.choice(["", "", ", %d" % (len(f["args"]) - 2), ", 1, -1", ", -1"]))
    elif x == 5:
        vs = [a for f in fs for a in f["args"] if a["t"] in ("string", "mystring")]
        if vs:
            v = r.choice(vs)
            v["v"] = (v["v"] or "z") * r.choice([50, 100, 300])
    elif x == 6:
        f["prefix"], f["suffix"] = r.choice([("P" * 70, ""), ("", " S" * 40), ("(" * 30, ")" * 30)])
    elif x == 7:   # again and again
        qn = [i for i, o in enumerate(ops) if o["op"] in ("query", "both") + (() if fresh else ("build",))]
        if qn:
            i = r.choice(qn)
            ops[i:i] = [ops[i]] * r.choice([3, 9])
    else:
        f["raw"] += " ".join([""] + [r.choice(["#f1", "#f%d" % len(f["frags"])]) if f["frags"] else "$1" if f["args"] and "?" not in f["raw"] else "x" for _ in range(r.choice([5, 12, 20]))])
    return ops


STRETCHED = {p: 0.05 for p in OWN}
for _p in ("C11", "C11free", "C24", "C05", "C23", "C22"):
    STRETCHED[_p] = 0.02 if _p in ("C22", "C05") else 0.0


def names_at(o, f):
    """calls f(dict, key) where o has names of tables"""
    if isinstance(o, list):
        for x in o:
            names_at(x, f)
    elif isinstance(o, dict):
        if o.get("k") == "col":
            f(o, "tn"), f(o, "ta")
        elif o.get("k") in ("table", "tablea"):
            f(o, "name")
            if "alias" in o:
                f(o, "alias")
        elif o.get("op") == "qb":
            if isinstance(o.get("t"), dict):
                f(o["t"], "name"), f(o["t"], "alias")
            if o.get("m") == "with":
                f(o, "name")
                for i in range(len(o["deps"])):
                    f(o["deps"], i)
        for k, x in o.items():
            if k != "t":
                names_at(x, f)


WORDY = ["select", "from", "on", "as", "AS", "where", "inner", "left", "default", "order", "union", "with", "limit", "join", "Join", "null", "true", "desc", "by", "all", "not", "f", "arg", "fragment", "_order_1",
         "ORDER BY", "of t", "group", "In", "cross"]


def confusable(r, ops):
    """other names of tables, which are easily taken for each other"""
    ops = json.loads(json.dumps(ops))
    old = []
    names_at(ops, lambda d, k: old.append(d[k]) if d[k] != "" and d[k] not in old else None)
    n, x = len(old), r.choice([0, 1, 2, 3, 3, 4, 5, 6, 7])
    if x <= 1:
        w = r.choice(["tabla", "xyzuv"])
        new = ["".join(c.upper() if i >> j & 1 else c for j, c in enumerate(w)) for i in range(32)]
    elif x == 2:
        new = [r.choice("tx")] * 40
        new = [c * (i + 1) for i, c in enumerate(new)]
    elif x == 3:
        new = ["s", "s.t", "t", "u.t", "t.s", "s.s", "s.t.s", "u.s.t"] + [a + "." + b for a in "stu" for b in "tuvw"] + list("stuvw") + ["s.t.u", "t.s.u", ".t", "s.", "s.t.", "t.t.t"] + ["s.t%d" % i for i in range(20)]
    elif x == 4:
        new = ["p" * r.choice([15, 31, 63, 64, 70]) + c for c in "abcdefghijklmnopqrstuvwxyzABCDEF"]
    elif x == 5:
        new = ["t%d" % i for i in range(20)] + ["t0%d" % i for i in range(10)] + ["%d" % i for i in range(10)]
    elif x == 6:
        new = list(WORDY) + ["%s_" % w for w in WORDY[:10]]
    else:
        new = ["é", "É", "e\u0301", "名", "名名", "ſ", "s", "S", "K", "k", "\u212a", "ß", "ss", "ẞ", "i", "I", "İ", "ı", "ﬁ", "fi"] + ["é%d" % i for i in range(20)]
    new = list(dict.fromkeys(new))
    if n > len(new):
        return ops
    m = dict(zip(old, r.sample(new, n) if x == 6 or r.random() < 0.3 else r.sample(new[:max(n, 6)], n)))
    def rename(d, k):
        if d[k] != "":
            d[k] = m[d[k]]
    names_at(ops, rename)
    return ops


def scripts(prop, seed, n, start=0):
    prof = PROFILES[prop]
    out = []
    for i in range(start, start + n):
        r = random.Random("%s/%s/%d" % (prop, seed, i))
        g = r.choices(prof, [p[0] for p in prof])[0]
        ops = g[1](r)
        if r.random() < STRETCHED[prop]:
            ops = stretch(r, ops, g[2])
        if r.random() < 0.15 and any(o["op"] == "qb" for o in ops):
            ops = confusable(r, ops)
        out.append({"id": "r%d" % i, "fresh": g[2], "ops": ops})
    return out


if __name__ == "__main__":
    import sys
    for s in scripts(sys.argv[1], int(sys.argv[2]), int(sys.argv[3])):
        print(json.dumps(s, ensure_ascii=False))
