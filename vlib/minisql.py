"""A small SQL evaluator over rows whose values are solver terms.

Enough of SQLite for pvtrace's statements: CREATE TABLE, INSERT, SELECT [DISTINCT] with expressions, COUNT, inner joins,
sub-queries, WHERE with three-valued logic, GROUP BY, ORDER BY (ignored: callers must not rely on it), UNION.
A row is (presence condition, {column: Val}).  Statements it cannot parse raise sqlite3.OperationalError exactly where
SQLite would reject them when the text is malformed; constructs outside the subset raise symx.Unsupported.
"""
import re, sqlite3
from fractions import Fraction

TOK = re.compile(r"\s*(?:(--[^\n]*)|('(?:[^']|'')*')|(\"[^\"]*\"|\[[^\]]*\]|`[^`]*`)|(\d+\.?\d*(?:[eE][+-]?\d+)?|\.\d+(?:[eE][+-]?\d+)?)"
                 r"|([A-Za-z_][A-Za-z_0-9]*)|(\|\||<>|<=|>=|!=|==|[-+*/%(),.?;=<>:])|(\S))")


class Text:
    """symbolic text: a code in an interned domain (never NULL)"""
    __slots__ = ("t", "dom")

    def __init__(self, t, dom):
        self.t, self.dom = t, dom

    def __repr__(self):
        return "Text(%s)" % self.t


class Null:
    """a value that is NULL when `null` holds"""
    __slots__ = ("null", "v")

    def __init__(self, null, v):
        self.null, self.v = null, v


class Domain:
    def __init__(self):
        self.codes, self.names = {}, []

    def code(self, s):
        if s not in self.codes:
            self.codes[s] = len(self.names)
            self.names.append(s)
        return self.codes[s]


class Sym:
    """operations on terms, given symx"""

    def __init__(self, sx, dom):
        self.sx, self.dom, self.z3 = sx, dom, sx.z3
        self.T, self.F = sx.z3.BoolVal(True), sx.z3.BoolVal(False)

    # Val = (null Bool, kind 'n'|'t'|'b'|'z', term)
    def val(self, x):
        if isinstance(x, Null):
            _, k, t = self.val(x.v)
            return (self.b(x.null), k, t)
        if x is None:
            return (self.T, "z", None)
        if isinstance(x, str):
            return (self.F, "t", self.z3.IntVal(self.dom.code(x)))
        if isinstance(x, Text):
            return (self.F, "t", x.t)
        if isinstance(x, bool):
            return (self.F, "n", self.z3.RealVal(int(x)))
        if isinstance(x, self.sx.SymBool):
            return (self.F, "n", self.z3.If(x.t, self.z3.RealVal(1), self.z3.RealVal(0)))
        t = self.sx.rt(x)
        return (self.F, "n", t)

    def b(self, x):
        return self.sx.bt(x)

    def truth(self, v):
        """(true, false) conditions of a value used as a condition"""
        null, k, t = v
        if k == "z":
            return self.F, self.F
        nn = self.z3.Not(null)
        if k == "b":
            return self.z3.And(nn, t), self.z3.And(nn, self.z3.Not(t))
        if k == "n":
            return self.z3.And(nn, t != 0), self.z3.And(nn, t == 0)
        # text: numeric prefix
        nz = [c for c, s in enumerate(self.dom.names) if num_prefix(s) != 0]
        c = self.z3.Or([t == i for i in nz]) if nz else self.F
        return self.z3.And(nn, c), self.z3.And(nn, self.z3.Not(c))

    def num(self, v):
        null, k, t = v
        if k == "n":
            return null, t
        if k == "b":
            return null, self.z3.If(t, self.z3.RealVal(1), self.z3.RealVal(0))
        if k == "z":
            return self.T, self.z3.RealVal(0)
        e = self.z3.RealVal(0)
        for i, s in enumerate(self.dom.names):
            p = num_prefix(s)
            if p != 0:
                e = self.z3.If(t == i, self.sx.rv(p), e)
        return null, e

    def cmp(self, op, a, b):
        z3 = self.z3
        null = z3.simplify(z3.Or(a[0], b[0]))
        if a[1] == "z" or b[1] == "z":
            return (self.T, "b", self.F)
        ka, kb = ("t" if x[1] == "t" else "n" for x in (a, b))
        if ka != kb:
            # INTEGER/REAL sort before TEXT in SQLite when no affinity applies
            r = {"=": False, "!=": True, "<": ka == "n", "<=": ka == "n", ">": kb == "n", ">=": kb == "n"}[op]
            return (null, "b", z3.BoolVal(r))
        if ka == "t":
            x, y = a[2], b[2]
            if op in ("=", "!="):
                r = x == y
                return (null, "b", r if op == "=" else z3.Not(r))
            f = {"<": lambda p, q: p < q, "<=": lambda p, q: p <= q, ">": lambda p, q: p > q, ">=": lambda p, q: p >= q}[op]
            n = self.dom.names
            r = z3.Or([z3.And(x == i, y == j) for i in range(len(n)) for j in range(len(n)) if f(n[i], n[j])])
            return (null, "b", r)
        x, y = self.num(a)[1], self.num(b)[1]
        r = {"=": lambda: x == y, "!=": lambda: x != y, "<": lambda: x < y, "<=": lambda: x <= y, ">": lambda: x > y, ">=": lambda: x >= y}[op]()
        return (null, "b", r)

    def same(self, a, b):
        """identity for DISTINCT: NULLs are equal to each other"""
        z3 = self.z3
        if a[1] == "z" or b[1] == "z":
            return z3.And(a[0], b[0])
        c = self.cmp("=", a, b)
        return z3.Or(z3.And(a[0], b[0]), z3.And(z3.Not(a[0]), z3.Not(b[0]), c[2]))


def num_prefix(s):
    m = re.match(r"\s*[-+]?\d+(\.\d*)?", s)
    return Fraction(m.group(0).strip()) if m else 0


KEY = {"select", "distinct", "from", "inner", "join", "on", "where", "and", "or", "not", "as", "in", "is", "null", "between", "like",
       "glob", "group", "order", "by", "limit", "union", "having", "cross", "left", "outer", "values", "insert", "into", "create", "table",
       "exists", "case", "when", "then", "else", "end", "asc", "desc", "using", "with", "all", "collate", "escape", "natural"}


class Parser:
    def __init__(self, sql):
        self.toks = []
        for m in TOK.finditer(sql):
            if m.group(1):
                continue
            if m.group(7):
                if m.group(7).strip():
                    raise sqlite3.OperationalError('unrecognized token: "%s"' % m.group(7))
                continue
            for kind, g in (("str", 2), ("qid", 3), ("num", 4), ("id", 5), ("op", 6)):
                if m.group(g) is not None:
                    s = m.group(g)
                    if kind == "str":
                        s = s[1:-1].replace("''", "'")
                    if kind == "qid":
                        s = s[1:-1]
                    self.toks.append((kind, s))
                    break
        self.i = 0
        self.npar = 0

    def peek(self, k=0):
        return self.toks[self.i + k] if self.i + k < len(self.toks) else ("end", "")

    def kw(self, *names):
        t = self.peek()
        return t[0] == "id" and t[1].lower() in names

    def eat(self, *names):
        if self.kw(*names):
            self.i += 1
            return self.toks[self.i - 1][1].lower()
        return None

    def op(self, *ops):
        t = self.peek()
        if t[0] == "op" and t[1] in ops:
            self.i += 1
            return t[1]
        return None

    def bad(self):
        t = self.peek()
        raise sqlite3.OperationalError('near "%s": syntax error' % t[1])

    def need(self, *x):
        r = self.op(*x) or self.eat(*x)
        if not r:
            self.bad()
        return r

    def ident(self):
        t = self.peek()
        if t[0] == "qid" or (t[0] == "id" and t[1].lower() not in KEY):
            self.i += 1
            return t[1]
        self.bad()

    def unsupported(self, what):
        from . import symx
        raise symx.Unsupported("SQL: " + what)

    # select
    def select(self):
        self.need("select")
        distinct = bool(self.eat("distinct"))
        if not distinct:
            self.eat("all")
        cols = [self.column()]
        while self.op(","):
            cols.append(self.column())
        src, where, group = [], None, None
        if self.eat("from"):
            src.append((self.source(), None))
            while True:
                if self.op(","):
                    src.append((self.source(), None))
                    continue
                if self.kw("inner", "join", "cross"):
                    self.eat("inner") or self.eat("cross")
                    self.need("join")
                    s = self.source()
                    on = None
                    if self.eat("on"):
                        on = self.expr()
                    src.append((s, on))
                    continue
                if self.kw("left", "natural", "outer"):
                    self.unsupported("outer join")
                break
        if self.eat("where"):
            where = self.expr()
        if self.eat("group"):
            self.need("by")
            group = [self.expr()]
            while self.op(","):
                group.append(self.expr())
            if self.kw("having"):
                self.unsupported("having")
        q = ("select", distinct, cols, src, where, group)
        while self.kw("union"):
            self.i += 1
            al = bool(self.eat("all"))
            q = ("union", al, q, self.select_core())
        if self.eat("order"):
            self.need("by")
            self.expr()
            self.eat("asc", "desc")
            while self.op(","):
                self.expr()
                self.eat("asc", "desc")
        if self.kw("limit"):
            self.unsupported("limit")
        return q

    select_core = select

    def column(self):
        if self.op("*"):
            return ("star", None)
        e = self.expr()
        name = None
        if self.eat("as"):
            t = self.peek()
            if t[0] == "str":
                self.i += 1
                name = t[1]
            else:
                name = self.ident()
        elif self.peek()[0] == "qid" or (self.peek()[0] == "id" and self.peek()[1].lower() not in KEY):
            name = self.ident()
        return (e, name)

    def source(self):
        if self.op("("):
            q = self.select()
            self.need(")")
        else:
            q = ("table", self.ident())
        alias = None
        if self.eat("as"):
            alias = self.ident()
        elif self.peek()[0] == "qid" or (self.peek()[0] == "id" and self.peek()[1].lower() not in KEY):
            alias = self.ident()
        return (q, alias)

    # expressions
    def expr(self):
        a = self.conj()
        while self.eat("or"):
            a = ("or", a, self.conj())
        return a

    def conj(self):
        a = self.neg()
        while self.eat("and"):
            a = ("and", a, self.neg())
        return a

    def neg(self):
        if self.eat("not"):
            return ("not", self.neg())
        return self.rel()

    def rel(self):
        a = self.add()
        while True:
            o = self.op("=", "==", "!=", "<>", "<", "<=", ">", ">=")
            if o:
                a = ("cmp", {"==": "=", "<>": "!="}.get(o, o), a, self.add())
                continue
            if self.eat("is"):
                n = bool(self.eat("not"))
                if self.eat("null"):
                    e = ("isnull", a)
                else:
                    e = ("is", a, self.add())
                a = ("not", e) if n else e
                continue
            n = False
            save = self.i
            if self.eat("not"):
                n = True
            if self.eat("between"):
                lo = self.add()
                self.need("and")
                e = ("and", ("cmp", ">=", a, lo), ("cmp", "<=", a, self.add()))
            elif self.eat("in"):
                self.need("(")
                if self.kw("select"):
                    q = self.select()
                    self.need(")")
                    e = ("insel", a, q)
                else:
                    xs = [self.expr()]
                    while self.op(","):
                        xs.append(self.expr())
                    self.need(")")
                    e = ("in", a, xs)
            elif self.eat("like"):
                e = ("like", a, self.add())
            elif self.eat("glob"):
                e = ("glob", a, self.add())
            else:
                self.i = save
                if self.kw("collate"):
                    self.i += 1
                    c = self.ident().lower()
                    if c != "binary":
                        self.unsupported("collate " + c)
                    continue
                return a
            a = ("not", e) if n else e

    def add(self):
        a = self.mul()
        while True:
            o = self.op("+", "-", "||")
            if not o:
                return a
            a = ("bin", o, a, self.mul())

    def mul(self):
        a = self.unary()
        while True:
            o = self.op("*", "/", "%")
            if not o:
                return a
            a = ("bin", o, a, self.unary())

    def unary(self):
        if self.op("-"):
            return ("negate", self.unary())
        if self.op("+"):
            return self.unary()
        return self.primary()

    def primary(self):
        if self.op("("):
            if self.kw("select"):
                q = self.select()
                self.need(")")
                return ("scalar", q)
            e = self.expr()
            self.need(")")
            return e
        if self.op("?"):
            self.npar += 1
            return ("par", self.npar - 1)
        if self.op(":"):
            return ("npar", self.ident())
        t = self.peek()
        if t[0] == "num":
            self.i += 1
            return ("lit", Fraction(t[1]))
        if t[0] == "str":
            self.i += 1
            return ("lit", t[1])
        if self.eat("null"):
            return ("lit", None)
        if self.eat("exists"):
            self.need("(")
            q = self.select()
            self.need(")")
            return ("exists", q)
        if self.eat("case"):
            self.unsupported("case")
        name = self.ident()
        if t[0] == "id" and self.op("("):
            f = name.lower()
            d = bool(self.eat("distinct"))
            if self.op("*"):
                self.need(")")
                return ("fn", f, d, ["*"])
            if self.op(")"):
                return ("fn", f, d, [])
            xs = [self.expr()]
            while self.op(","):
                xs.append(self.expr())
            self.need(")")
            return ("fn", f, d, xs)
        if self.op("."):
            if self.op("*"):
                return ("star", name)
            return ("col", name.lower(), self.ident().lower())
        return ("col", None, name.lower())


AGG = {"count", "sum", "min", "max", "total", "avg"}


class DB:
    """tables of (condition, {column: python value, Text, SymReal, Null or None})"""

    def __init__(self, sx, dom=None):
        self.sx = sx
        self.dom = dom or Domain()
        self.S = Sym(sx, self.dom)
        self.tables = {}
        self.lastrowid = None

    def script(self, text):
        p = re.sub(r"--[^\n]*", "", text)
        for m in re.finditer(r"CREATE\s+TABLE\s+(?:IF\s+NOT\s+EXISTS\s+)?(\w+)\s*\((.*?)\)\s*;", p, re.S | re.I):
            cols = []
            depth, cur = 0, ""
            for ch in m.group(2) + ",":
                if ch == "," and depth == 0:
                    w = cur.strip().split()
                    if w and w[0].upper() not in ("FOREIGN", "PRIMARY", "UNIQUE", "CHECK", "CONSTRAINT"):
                        cols.append(w[0].lower())
                    cur = ""
                else:
                    depth += (ch == "(") - (ch == ")")
                    cur += ch
            self.tables[m.group(1).lower()] = (cols, [])

    def insert_row(self, table, values):
        cols, rows = self.tables[table]
        rows.append((True, dict(zip(cols, values), rowid=len(rows) + 1)))
        self.lastrowid = len(rows)

    # execution
    def execute(self, sql, params=()):
        p = Parser(sql)
        while p.toks and p.toks[-1] == ("op", ";"):
            p.toks.pop()
        self.params = params
        if p.kw("insert"):
            return self.insert(p)
        if p.kw("select"):
            q = p.select()
            if p.peek()[0] != "end":
                p.bad()
            if not isinstance(params, dict) and p.npar != len(params):
                raise sqlite3.ProgrammingError("Incorrect number of bindings supplied. The current statement uses %d, and there are %d supplied."
                                               % (p.npar, len(params)))
            names, rows = self.query(q)
            return names, rows
        if p.kw("create", "delete", "update", "drop", "pragma", "begin", "commit"):
            p.unsupported(p.peek()[1])
        p.bad()

    def insert(self, p):
        p.i += 1
        p.need("into")
        t = p.ident().lower()
        if t not in self.tables:
            raise sqlite3.OperationalError("no such table: " + t)
        cols, rows = self.tables[t]
        use = cols
        if p.op("("):
            use = [p.ident().lower()]
            while p.op(","):
                use.append(p.ident().lower())
            p.need(")")
            for c in use:
                if c not in cols:
                    raise sqlite3.OperationalError("table %s has no column named %s" % (t, c))
        p.need("values")
        p.need("(")
        vals = []
        while True:
            e = p.expr()
            if e[0] == "par":
                if e[1] >= len(self.params):
                    raise sqlite3.ProgrammingError("Incorrect number of bindings supplied.")
                vals.append(self.params[e[1]])
            elif e[0] == "npar":
                vals.append(self.params[e[1]])
            elif e[0] == "lit":
                vals.append(e[1])
            else:
                p.unsupported("insert expression")
            if not p.op(","):
                break
        p.need(")")
        if p.npar and p.npar != len(self.params):
            raise sqlite3.ProgrammingError("Incorrect number of bindings supplied.")
        if len(vals) != len(use):
            raise sqlite3.OperationalError("table %s has %d columns but %d values were supplied" % (t, len(use), len(vals)))
        row = {c: None for c in cols}
        row.update(zip(use, vals))
        row["rowid"] = len(rows) + 1
        rows.append((True, row))
        self.lastrowid = len(rows)
        return [], []

    def relation(self, src):
        q, alias = src
        if q[0] == "table":
            t = q[1].lower()
            if t not in self.tables:
                raise sqlite3.OperationalError("no such table: " + t)
            cols, rows = self.tables[t]
            return (alias or t).lower(), cols, [(self.S.b(c), {k: self.S.val(v) for k, v in r.items()}) for c, r in rows], ["rowid"]
        names, rows = self.query(q)
        return (alias or "").lower(), names, [(c, dict(zip(names, vs))) for c, vs in rows], []

    def query(self, q):
        z3 = self.S.z3
        if q[0] == "union":
            n1, r1 = self.query(q[2])
            n2, r2 = self.query(q[3])
            rows = r1 + r2
            return n1, (rows if q[1] else self.distinct(rows))
        _, distinct, cols, src, where, group = q
        envs = [(self.S.T, {})]
        schema = []
        for s, on in src:
            alias, names, rows, hidden = self.relation(s)
            schema.append((alias, names, hidden))
            new = []
            for c, env in envs:
                for rc, r in rows:
                    e2 = dict(env)
                    e2[alias] = r
                    cond = z3.And(c, rc)
                    if on is not None:
                        cond = z3.And(cond, self.S.truth(self.ev(on, e2, schema))[0])
                    cond = z3.simplify(cond)
                    if not z3.is_false(cond):
                        new.append((cond, e2))
            envs = new
        if where is not None:
            new = []
            for c, env in envs:
                cond = self.define(z3.And(c, self.S.truth(self.ev(where, env, schema))[0]))
                if not z3.is_false(cond):
                    new.append((cond, env))
            envs = new
        # columns
        out = []
        for e, name in cols:
            if e == "star":
                for alias, names, _ in schema:
                    for n in names:
                        out.append((("col", alias, n), n))
            elif e[0] == "star":
                for alias, names, _ in schema:
                    if alias == e[1].lower():
                        out += [(("col", alias, n), n) for n in names]
            else:
                out.append((e, name.lower() if name else (e[2] if e[0] == "col" else "?col")))
        names = [n for _, n in out]
        agg = any(self.has_agg(e) for e, _ in out)
        if group is not None:
            rows = []
            keys = [[self.ev(g, env, schema) for g in group] for _, env in envs]
            for i, (c, env) in enumerate(envs):
                first = [z3.Not(z3.And(envs[j][0], *[self.S.same(a, b) for a, b in zip(keys[i], keys[j])])) for j in range(i)]
                members = [(z3.And(cj, *[self.S.same(a, b) for a, b in zip(keys[i], keys[j])]), ej) for j, (cj, ej) in enumerate(envs)]
                rows.append((z3.simplify(z3.And(c, *first)), [self.agg(e, members, schema, env) for e, _ in out]))
        elif agg:
            rows = [(self.S.T, [self.agg(e, envs, schema, None) for e, _ in out])]
        else:
            rows = [(c, [self.ev(e, env, schema) for e, _ in out]) for c, env in envs]
        if distinct:
            rows = self.distinct(rows)
        return names, rows

    def distinct(self, rows):
        z3 = self.S.z3
        out = []
        for i, (c, vs) in enumerate(rows):
            dup = [z3.And(rows[j][0], *[self.S.same(a, b) for a, b in zip(vs, rows[j][1])]) for j in range(i)]
            out.append((self.define(z3.And(c, z3.Not(z3.Or(dup)) if dup else self.S.T)), vs))
        return out

    def define(self, cond):
        """name a row's presence condition, so that terms built from it stay small"""
        z3 = self.S.z3
        c = z3.simplify(cond)
        if z3.is_true(c) or z3.is_false(c) or (z3.is_const(c)):
            return c
        E = self.sx.ENG
        d = E.fresh("row", "bool")
        E.add(d == c)
        return d

    def has_agg(self, e):
        if isinstance(e, tuple):
            if e[0] == "fn" and e[1] in AGG and not (e[1] in ("min", "max") and len(e[3]) > 1):
                return True
            return any(self.has_agg(x) for x in e)
        if isinstance(e, list):
            return any(self.has_agg(x) for x in e)
        return False

    def agg(self, e, envs, schema, env0):
        z3 = self.S.z3
        if e[0] == "fn" and e[1] in AGG:
            f, d, xs = e[1], e[2], e[3]
            if f == "count":
                items = []
                for c, env in envs:
                    if not xs or xs == ["*"]:
                        items.append((c, [(self.S.F, "n", z3.RealVal(1))]))
                    else:
                        v = self.ev(xs[0], env, schema)
                        items.append((z3.And(c, z3.Not(v[0])), [v]))
                if d:
                    items = self.distinct(items)
                t = z3.RealVal(0)
                s = z3.IntVal(0)
                for c, _ in items:
                    s = s + z3.If(c, z3.IntVal(1), z3.IntVal(0))
                return (self.S.F, "i", z3.simplify(s))
            self.bad_fn(f)
        if env0 is not None:
            return self.ev(e, env0, schema)
        if e[0] == "lit":
            return self.S.val(e[1])
        self.bad_fn("aggregate expression")

    def bad_fn(self, f):
        raise self.sx.Unsupported("SQL: " + f)

    def col(self, e, env, schema):
        tab, name = e[1], e[2]
        hits = []
        for alias, names, hidden in schema:
            if tab is not None and alias != tab:
                continue
            if name in names or name in hidden or (name in ("oid", "_rowid_") and hidden):
                hits.append(alias)
        if not hits:
            raise sqlite3.OperationalError("no such column: " + ((tab + ".") if tab else "") + name)
        if len(hits) > 1:
            raise sqlite3.OperationalError("ambiguous column name: " + name)
        if hits[0] not in env:
            raise sqlite3.OperationalError("no such column: " + name)
        return env[hits[0]]["rowid" if name in ("oid", "_rowid_") else name]

    def ev(self, e, env, schema):
        S, z3 = self.S, self.S.z3
        k = e[0]
        if k == "col":
            return self.col(e, env, schema)
        if k == "lit":
            return S.val(e[1])
        if k == "par":
            if isinstance(self.params, dict) or e[1] >= len(self.params):
                raise sqlite3.ProgrammingError("Incorrect number of bindings supplied.")
            return S.val(self.params[e[1]])
        if k == "npar":
            if not isinstance(self.params, dict) or e[1] not in self.params:
                raise sqlite3.ProgrammingError("You did not supply a value for binding " + e[1])
            return S.val(self.params[e[1]])
        if k in ("and", "or"):
            a, b = S.truth(self.ev(e[1], env, schema)), S.truth(self.ev(e[2], env, schema))
            if k == "and":
                t, f = z3.And(a[0], b[0]), z3.Or(a[1], b[1])
            else:
                t, f = z3.Or(a[0], b[0]), z3.And(a[1], b[1])
            return (z3.simplify(z3.Not(z3.Or(t, f))), "b", z3.simplify(t))
        if k == "not":
            t, f = S.truth(self.ev(e[1], env, schema))
            return (z3.simplify(z3.Not(z3.Or(t, f))), "b", f)
        if k == "cmp":
            return S.cmp(e[1], self.ev(e[2], env, schema), self.ev(e[3], env, schema))
        if k == "isnull":
            return (S.F, "b", self.ev(e[1], env, schema)[0])
        if k == "is":
            return (S.F, "b", S.same(self.ev(e[1], env, schema), self.ev(e[2], env, schema)))
        if k == "in":
            a = self.ev(e[1], env, schema)
            r = ("lit", None)
            rs = [S.truth(S.cmp("=", a, self.ev(x, env, schema))) for x in e[2]]
            t = z3.Or([x[0] for x in rs])
            f = z3.And([x[1] for x in rs])
            return (z3.simplify(z3.Not(z3.Or(t, f))), "b", t)
        if k == "insel":
            a = self.ev(e[1], env, schema)
            _, rows = self.query(e[2])
            rs = [(c, S.truth(S.cmp("=", a, v[0]))) for c, v in rows]
            t = z3.Or([z3.And(c, x[0]) for c, x in rs]) if rs else S.F
            f = z3.And([z3.Or(z3.Not(c), x[1]) for c, x in rs]) if rs else S.T
            return (z3.simplify(z3.Not(z3.Or(t, f))), "b", t)
        if k in ("like", "glob"):
            a, pat = self.ev(e[1], env, schema), self.ev(e[2], env, schema)
            if a[1] == "z" or pat[1] == "z":
                return (S.T, "b", S.F)
            if a[1] != "t" or pat[1] != "t":
                self.bad_fn(k)
            ns = self.dom.names
            hit = [z3.And(a[2] == i, pat[2] == j) for i in range(len(ns)) for j in range(len(ns)) if like(ns[i], ns[j], k)]
            return (z3.Or(a[0], pat[0]), "b", z3.Or(hit) if hit else S.F)
        if k == "negate":
            n, t = S.num(self.ev(e[1], env, schema))
            return (n, "n", -t)
        if k == "bin":
            if e[1] == "||":
                self.bad_fn("||")
            n1, a = S.num(self.ev(e[2], env, schema))
            n2, b = S.num(self.ev(e[3], env, schema))
            n = z3.Or(n1, n2)
            if e[1] == "+":
                return (n, "n", a + b)
            if e[1] == "-":
                return (n, "n", a - b)
            if e[1] == "*":
                return (n, "n", a * b)
            self.bad_fn(e[1])
        if k == "fn":
            f, xs = e[1], e[3]
            if f == "abs" and len(xs) == 1:
                n, t = S.num(self.ev(xs[0], env, schema))
                return (n, "n", z3.If(t < 0, -t, t))
            if f in ("lower", "upper", "trim") and len(xs) == 1:
                v = self.ev(xs[0], env, schema)
                if v[1] != "t":
                    return v
                g = getattr(str, {"trim": "strip"}.get(f, f))
                r = v[2]
                for i, s in enumerate(list(self.dom.names)):
                    r = z3.If(v[2] == i, z3.IntVal(self.dom.code(g(s))), r)
                return (v[0], "t", r)
            if f in ("ifnull", "coalesce"):
                vs = [self.ev(x, env, schema) for x in xs]
                out = vs[-1]
                for v in reversed(vs[:-1]):
                    if v[1] == "z":
                        continue
                    if out[1] == "z":
                        out = v
                        continue
                    if v[1] != out[1]:
                        self.bad_fn("mixed coalesce")
                    out = (z3.And(v[0], out[0]), v[1], z3.If(v[0], out[2], v[2]))
                return out
            if f in ("round", "min", "max", "length", "substr", "instr", "typeof", "nullif", "iif", "replace"):
                self.bad_fn(f)
            if f in AGG:
                raise sqlite3.OperationalError("misuse of aggregate: %s()" % f)
            raise sqlite3.OperationalError("no such function: " + f)
        if k == "scalar":
            names, rows = self.query(e[1])
            if len(rows) == 1 and z3.is_true(z3.simplify(rows[0][0])):
                v = rows[0][1][0]
                return (v[0], "n", z3.ToReal(v[2])) if v[1] == "i" else v
            self.bad_fn("scalar subquery")
        if k == "exists":
            names, rows = self.query(e[1])
            return (S.F, "b", z3.Or([c for c, _ in rows]) if rows else S.F)
        self.bad_fn(k)


def like(s, pat, kind):
    if kind == "like":
        rx = "".join(".*" if c == "%" else "." if c == "_" else re.escape(c) for c in pat)
        return re.fullmatch(rx, s, re.I | re.S) is not None
    import fnmatch
    return fnmatch.fnmatchcase(s, pat)


class Cursor:
    def __init__(self, con):
        self.con = con
        self.connection = con
        self.rows = []
        self.lastrowid = None
        self.rowcount = -1

    def execute(self, sql, params=()):
        db = self.con.db
        names, rows = db.execute(sql, params)
        if not names:
            self.lastrowid = db.lastrowid
            self.con.wrote = True
        sx = db.sx
        self.rows = [(c, tuple(self.out(v) for v in vs)) for c, vs in rows]
        self.description = [(n,) + (None,) * 6 for n in names]
        return self

    def executemany(self, sql, seq):
        for p in seq:
            self.execute(sql, p)
        return self

    def executescript(self, text):
        self.con.db.script(text)
        return self

    def out(self, v):
        sx = self.con.db.sx
        null, k, t = v
        if k == "z":
            return None
        n = sx.z3.simplify(null)
        if sx.z3.is_true(n):
            return None
        x = sx.SymInt(t) if k == "i" else sx.mk(t) if k == "n" else Text(t, self.con.db.dom) if k == "t" else sx.mkb(t)
        if not sx.z3.is_false(n):
            if bool(sx.mkb(n)):
                return None
        return x

    def _take(self):
        while self.rows:
            c, r = self.rows.pop(0)
            c = self.con.db.sx.z3.simplify(c)
            if self.con.db.sx.z3.is_true(c) or bool(self.con.db.sx.mkb(c)):
                return r
        return None

    def fetchone(self):
        return self._take()

    def fetchall(self):
        out = []
        while True:
            r = self._take()
            if r is None:
                return out
            out.append(r)

    def fetchmany(self, size=1):
        out = []
        while len(out) < size:
            r = self._take()
            if r is None:
                break
            out.append(r)
        return out

    def __iter__(self):
        return iter(self.fetchall())

    def close(self):
        pass


class Connection:
    def __init__(self, db):
        self.db = db
        self.wrote = False
        self.closed = False

    def cursor(self, *a):
        return Cursor(self)

    def execute(self, sql, params=()):
        return self.cursor().execute(sql, params)

    def executescript(self, text):
        self.db.script(text)

    def commit(self):
        self.wrote = False

    def rollback(self):
        raise self.db.sx.Unsupported("SQL: rollback")

    def close(self):
        # uncommitted writes are lost
        if self.wrote:
            self.db.lost = True
        self.closed = True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.commit()
