"""Translates the textual LLVM IR of the compiled engine into Python code for vlib.llsym, one statement per
instruction; every function reachable from the parallel loop body is translated."""
import re, struct

TOK = r'(?:%"[^"]*"|%[-\w.$]+)'
GTOK = r'(?:@"[^"]*"|@[-\w.$]+)'


def split_top(s):
    """split on commas outside brackets"""
    out, depth, cur, q = [], 0, "", False
    for c in s:
        if c == '"':
            q = not q
        if not q:
            if c in "([{<":
                depth += 1
            elif c in ")]}>":
                depth -= 1
            elif c == "," and depth == 0:
                out.append(cur.strip())
                cur = ""
                continue
        cur += c
    if cur.strip():
        out.append(cur.strip())
    return out


class Types:
    def __init__(self, ll):
        self.defs = {}
        for m in re.finditer(r'^(%"?[\w.:]+"?) = type (.*)$', ll, flags=re.M):
            self.defs[m.group(1)] = m.group(2).strip()
        self.cache = {}

    def layout(self, t):
        """(size, align, field offsets or None, field types or None)"""
        t = t.strip()
        if t in self.cache:
            return self.cache[t]
        r = self._layout(t)
        self.cache[t] = r
        return r

    def _layout(self, t):
        if t in ("ptr", "i64", "double"):
            return 8, 8, None, None
        if t in ("i32", "float"):
            return 4, 4, None, None
        if t == "i16":
            return 2, 2, None, None
        if t in ("i8", "i1"):
            return 1, 1, None, None
        if t in ("i128", "x86_fp80"):
            return 16, 16, None, None
        m = re.match(r"^\[(\d+) x (.*)\]$", t)
        if m:
            s, a, _, _ = self.layout(m.group(2))
            return s * int(m.group(1)), a, "array", m.group(2)
        if t.startswith("%"):
            if self.defs.get(t, "opaque") == "opaque":
                return 8, 8, None, None
            return self.layout(self.defs[t])
        packed = t.startswith("<{")
        if t.startswith("{") or packed:
            body = t[2:-2] if packed else t[1:-1]
            off, al, offs, tys = 0, 1, [], []
            for f in split_top(body):
                s, a, _, _ = self.layout(f)
                if packed:
                    a = 1
                off = (off + a - 1) // a * a
                offs.append(off)
                tys.append(f)
                off += s
                al = max(al, a)
            return (off + al - 1) // al * al, al, offs, tys
        raise ValueError("type " + t)


def split_functions(ll):
    funcs = {}
    cur = None
    for line in ll.split("\n"):
        if line.startswith("define "):
            m = re.search(r"(" + GTOK + r")\(", line)
            cur = m.group(1)[1:].strip('"')
            funcs[cur] = [line]
        elif cur is not None:
            if line == "}":
                cur = None
            else:
                funcs[cur].append(line)
    return funcs


def called(lines):
    out = set()
    for l in lines:
        if "call " in l:
            m = re.search(r"(" + GTOK + r")\(", l)
            if m:
                out.add(m.group(1)[1:].strip('"'))
    return out


ATTRS = {"noundef", "nonnull", "noalias", "nocapture", "readonly", "signext", "zeroext", "nsz", "nnan", "ninf", "dso_local", "tail",
         "notail", "fast", "contract", "reassoc", "arcp", "afn", "inbounds", "nsw", "nuw", "exact", "readnone", "immarg", "returned",
         "writeonly", "nneg", "disjoint", "inrange", "samesign"}


def strip_attrs(s):
    s = re.sub(r"\b(dereferenceable|dereferenceable_or_null|align|sret|byval|range)\([^)]*\)", "", s)
    s = re.sub(r"\balign \d+\b", "", s)
    s = re.sub(r"\b(" + "|".join(sorted(ATTRS)) + r")\b", "", s)
    return re.sub(r"\s+", " ", s).strip()


def take_type(s):
    """split 'TYPE rest' -> (type, rest)"""
    s = s.strip()
    if s[0] in "[{<":
        depth = 0
        for i, c in enumerate(s):
            if c in "[{<":
                depth += 1
            elif c in "]}>":
                depth -= 1
                if depth == 0:
                    return s[:i + 1], s[i + 1:].strip()
    m = re.match(r'^(%"[^"]*"|[%\w.]+)\s*(.*)$', s)
    return m.group(1), m.group(2)


class Fn:
    def __init__(self, name, lines, T, funcs, used_globals):
        self.name, self.T, self.G = name, T, used_globals
        self.funcs = funcs
        head = lines[0]
        m = re.search(re.escape("@") + r'(?:"[^"]*"|[-\w.$]+)\((.*)\)[^()]*\{?$', head)
        inner = head[head.index("(", head.index("@")) + 1:]
        depth, end = 1, 0
        for i, c in enumerate(inner):
            if c == "(":
                depth += 1
            elif c == ")":
                depth -= 1
                if depth == 0:
                    end = i
                    break
        params = split_top(inner[:end])
        self.ret = take_type(strip_attrs(re.sub(r"^define\s+(internal|dso_local|hidden|weak|linkonce_odr|available_externally|private|\s)*", "",
                                                head.split("@")[0]).strip()))[0]
        self.params = []
        for p in params:
            p = strip_attrs(p)
            ty, nm = take_type(p)
            self.params.append((ty, nm))
        self.blocks = []        # (label, [lines])
        lab = None
        cur = []
        body = lines[1:]
        nparam = len(params)
        lab = str(nparam)       # the entry block takes the next number
        i = 0
        joined = []
        while i < len(body):
            l = body[i]
            if re.match(r"^\s+switch ", l) and "]" not in l:
                while "]" not in body[i]:
                    i += 1
                    l += " " + body[i].strip()
            joined.append(l)
            i += 1
        for l in joined:
            if not l.strip() or l.strip().startswith(";"):
                continue
            m = re.match(r'^("[^"]*"|[-\w.$]+):', l)
            if m:
                if cur or self.blocks or True:
                    self.blocks.append((lab, cur)) if cur else None
                lab = m.group(1).strip('"')
                cur = []
                continue
            cur.append(l.strip())
        if cur:
            self.blocks.append((lab, cur))
        self.idx = {l: i for i, (l, _) in enumerate(self.blocks)}
        self.phis = {}
        for l, b in self.blocks:
            for ins in b:
                m = re.match(r"^(" + TOK + r") = phi (.*)$", ins)
                if m:
                    ty, rest = take_type(strip_attrs(m.group(2)))
                    inc = re.findall(r"\[ (.*?), (" + TOK + r") \]", rest)
                    self.phis.setdefault(l, []).append((m.group(1), ty, {x[1][1:].strip('"'): x[0] for x in inc}))

    # operands --------------------------------------------------------
    def reg(self, n):
        return "v" + re.sub(r"\W", "_", n[1:].strip('"'))

    def val(self, ty, s):
        s = s.strip()
        if s.startswith("%"):
            return self.reg(s)
        if s.startswith("@"):
            g = s[1:].strip('"')
            self.G.add(g)
            return "R.glob(%r)" % g
        if s in ("null", "zeroinitializer"):
            return "0" if ty != "double" else "0.0"
        if s in ("undef", "poison"):
            return "R.UNDEF"
        if s == "true":
            return "True"
        if s == "false":
            return "False"
        if ty in ("double", "float"):
            if s.startswith("0x"):
                v = struct.unpack(">d", bytes.fromhex(s[2:].rjust(16, "0")))[0]
            else:
                v = float(s)
            if v != v:
                return "R.NAN"
            if v in (float("inf"), float("-inf")):
                return "R.INF" if v > 0 else "R.NINF"
            return repr(v)
        if re.match(r"^-?\d+$", s):
            return s if not s.startswith("-") else "(" + s + ")"
        m = re.match(r"^getelementptr (?:inbounds )?\((.*)\)$", s)
        if m:
            return self.gep(m.group(1))
        raise ValueError("operand %s %s" % (ty, s))

    def gep(self, s):
        parts = split_top(s)
        ty = parts[0]
        _, base = take_type(strip_attrs(parts[1]))
        code = [self.val("ptr", base)]
        const = 0
        size = self.T.layout(ty)[0]
        cur = ty
        for k, ix in enumerate(parts[2:]):
            ity, iv = take_type(strip_attrs(ix))
            if k == 0:
                step = size
            else:
                _, _, offs, sub = self.T.layout(cur)
                if offs == "array":
                    step = self.T.layout(sub)[0]
                    cur = sub
                else:
                    n = int(iv)
                    const += offs[n]
                    cur = sub[n]
                    continue
            if re.match(r"^-?\d+$", iv):
                const += int(iv) * step
            else:
                code.append("%s*%d" % ("R.ix(%s)" % self.val(ity, iv), step))
        if const:
            code.append(str(const))
        return "+".join(code)

    # code ------------------------------------------------------------
    def edge(self, src, dst):
        ph = self.phis.get(dst, [])
        out = []
        if ph:
            lhs = ", ".join(self.reg(p[0]) for p in ph)
            rhs = ", ".join(self.val(p[1], p[2][src]) for p in ph)
            out.append("%s = %s" % (lhs, rhs))
        out.append("bb = %d" % self.idx[dst])
        return "; ".join(out)

    def instr(self, lab, ins):
        ins = re.sub(r",? ![\w.]+ ![\w.]+", "", ins)
        ins = re.sub(r",? ![\w.]+$", "", ins)
        ins = re.sub(r" #\d+$", "", ins)
        m = re.match(r"^(" + TOK + r") = (.*)$", ins)
        dst, body = (self.reg(m.group(1)), m.group(2)) if m else (None, ins)
        op = body.split(" ", 1)[0]
        if op in ("tail", "notail", "musttail"):
            body = body.split(" ", 1)[1]
            op = "call"
        rest = body[len(op):].strip()
        B = lambda t: {"i1": 1, "i8": 8, "i16": 16, "i32": 32, "i64": 64}[t]
        if op == "phi":
            return []
        if op == "alloca":
            parts = split_top(rest)
            n = 1
            for p in parts[1:]:
                q = re.match(r"^i\d+ (\d+)$", p)
                if q:
                    n = int(q.group(1))
            return ["%s = R.alloca(%d)" % (dst, self.T.layout(parts[0])[0] * n)]
        if op == "load":
            parts = split_top(rest)
            ty = strip_attrs(parts[0].replace("volatile", ""))
            _, p = take_type(strip_attrs(parts[1]))
            return ["%s = R.load(%s, %r)" % (dst, self.val("ptr", p), ty)]
        if op == "store":
            parts = split_top(rest)
            ty, v = take_type(strip_attrs(parts[0].replace("volatile", "")))
            _, p = take_type(strip_attrs(parts[1]))
            return ["R.store(%s, %s, %r)" % (self.val("ptr", p), self.val(ty, v), ty)]
        if op == "getelementptr":
            s = re.sub(r"^(inbounds|nuw|nusw|nsw)\s+", "", rest)
            return ["%s = %s" % (dst, self.gep(s))]
        if op in ("fadd", "fsub", "fmul", "fdiv", "frem"):
            parts = split_top(strip_attrs(rest))
            ty, a = take_type(parts[0])
            a, b = self.val(ty, a), self.val(ty, parts[1])
            if op == "fadd":
                return ["%s = %s + %s" % (dst, a, b)]
            if op == "fsub":
                return ["%s = %s - %s" % (dst, a, b)]
            if op == "fmul":
                return ["%s = R.fmul(%s, %s)" % (dst, a, b)]
            return ["%s = R.%s(%s, %s)" % (dst, op, a, b)]
        if op == "fneg":
            ty, a = take_type(strip_attrs(rest))
            return ["%s = -%s" % (dst, self.val(ty, a))]
        if op == "fcmp":
            rest = strip_attrs(rest)
            pred, rest = rest.split(" ", 1)
            parts = split_top(rest)
            ty, a = take_type(parts[0])
            a, b = self.val(ty, a), self.val(ty, parts[1])
            d = {"oeq": "==", "olt": "<", "ole": "<=", "ogt": ">", "oge": ">="}
            if pred in d:
                return ["%s = %s %s %s" % (dst, a, d[pred], b)]
            return ["%s = R.fcmp(%r, %s, %s)" % (dst, pred, a, b)]
        if op == "icmp":
            rest = strip_attrs(rest)
            pred, rest = rest.split(" ", 1)
            parts = split_top(rest)
            ty, a = take_type(parts[0])
            a, b = self.val(ty, a), self.val(ty, parts[1])
            return ["%s = R.icmp(%r, %s, %s, %d)" % (dst, pred, a, b, 64 if ty == "ptr" else B(ty))]
        if op in ("add", "sub", "mul", "sdiv", "udiv", "srem", "urem", "and", "or", "xor", "shl", "lshr", "ashr"):
            parts = split_top(strip_attrs(rest))
            ty, a = take_type(parts[0])
            a, b = self.val(ty, a), self.val(ty, parts[1])
            return ["%s = R.%s(%s, %s, %d)" % (dst, op + ("_" if op in ("and", "or") else ""), a, b, B(ty))]
        if op in ("sext", "zext", "trunc", "sitofp", "uitofp", "fptosi", "fptoui", "bitcast", "ptrtoint", "inttoptr", "fpext", "fptrunc"):
            m2 = re.match(r"^(.*) to (\S+)$", strip_attrs(rest))
            ty, a = take_type(m2.group(1))
            return ["%s = R.%s(%s, %r, %r)" % (dst, op, self.val(ty, a), ty, m2.group(2))]
        if op == "select":
            parts = split_top(strip_attrs(rest))
            c = take_type(parts[0])
            a, b = take_type(parts[1]), take_type(parts[2])
            return ["%s = %s if %s else %s" % (dst, self.val(*a), self.val(*c), self.val(*b))]
        if op == "freeze":
            ty, a = take_type(strip_attrs(rest))
            return ["%s = %s" % (dst, self.val(ty, a))]
        if op == "br":
            parts = split_top(rest)
            if len(parts) == 1:
                d = take_type(parts[0])[1][1:].strip('"')
                return [self.edge(lab, d), "continue"]
            c = take_type(parts[0])
            t, e = [take_type(p)[1][1:].strip('"') for p in parts[1:]]
            return ["if %s:" % self.val(*c), "    " + self.edge(lab, t), "else:", "    " + self.edge(lab, e), "continue"]
        if op == "switch":
            m2 = re.match(r"^(.*?), label (" + TOK + r") \[(.*)\]$", rest)
            ty, v = take_type(m2.group(1))
            cases = re.findall(r"i\d+ (-?\d+), label (" + TOK + r")", m2.group(3))
            out = ["sw = R.switch(%s, %r)" % (self.val(ty, v), [int(c) for c, _ in cases])]
            for k, (c, d) in enumerate(cases):
                out += ["%s sw == %s:" % ("if" if k == 0 else "elif", "(" + c + ")"), "    " + self.edge(lab, d[1:].strip('"'))]
            if cases:
                out += ["else:", "    " + self.edge(lab, m2.group(2)[1:].strip('"'))]
            else:
                out += [self.edge(lab, m2.group(2)[1:].strip('"'))]
            return out + ["continue"]
        if op == "ret":
            if rest.startswith("void"):
                return ["R.leave(fp); return None"]
            ty, v = take_type(strip_attrs(rest))
            return ["rv = %s; R.leave(fp); return rv" % self.val(ty, v)]
        if op == "unreachable":
            return ["R.unreachable(%r)" % self.name]
        if op == "call":
            mm = re.search(r"(" + GTOK + r"|" + TOK + r")\(", rest)
            nm = mm.group(1)
            if nm.startswith("@") and rest[:mm.start()].count("(") == 0 or nm.startswith("@"):
                mm = re.search(r"(" + GTOK + r")\(", rest)
                nm = mm.group(1)[1:].strip('"')
            else:
                return ["R.indirect(%r)" % ins]
            args = rest[mm.end():]
            depth, end = 1, 0
            for i, c in enumerate(args):
                if c == "(":
                    depth += 1
                elif c == ")":
                    depth -= 1
                    if depth == 0:
                        end = i
                        break
            av = []
            if "metadata" in args[:end]:
                return []
            for a in split_top(args[:end]):
                ty, v = take_type(strip_attrs(a))
                av.append(self.val(ty, v))
            rty = take_type(strip_attrs(rest[:mm.start()]))[0] if rest[:mm.start()].strip() else "void"
            if nm.startswith(("llvm.lifetime", "llvm.dbg", "llvm.assume", "llvm.experimental.noalias")):
                return []
            call = "R.call(%r, %s)" % (nm, ", ".join(av)) if av else "R.call(%r)" % nm
            return [("%s = %s" % (dst, call)) if dst else call]
        raise ValueError("instruction " + ins)

    def code(self):
        ps = ", ".join(["R"] + [self.reg(n) for _, n in self.params])
        out = ["def F%d(%s):" % (self.num, ps), "    fp = R.enter(%r)" % self.name, "    bb = 0", "    while True:"]
        blocks = []
        for lab, body in self.blocks:
            lines = []
            for ins in body:
                try:
                    lines += self.instr(lab, ins)
                except Exception as e:
                    lines += ["R.unsupported(%r)" % ("%s: %s in %s" % (e, ins, self.name))]
            blocks.append(lines)

        def emit(lo, hi, ind):
            if hi - lo == 1:
                return ["    " * ind + l for l in (blocks[lo] or ["pass"])]
            mid = (lo + hi) // 2
            return (["    " * ind + "if bb < %d:" % mid] + emit(lo, mid, ind + 1) + ["    " * ind + "else:"] + emit(mid, hi, ind + 1))
        out += emit(0, len(blocks), 2)
        return "\n".join(out)


def find_rng(funcs):
    """the uniform generator: one pointer in, a double out, 53 bits of state scaled to the unit interval"""
    best = []
    for n, lines in funcs.items():
        head = lines[0]
        if re.match(r"^define (internal |hidden |dso_local )*(noundef )?double " + GTOK + r"\(ptr [^,]*\)", head):
            b = "\n".join(lines)
            if "lshr i64" in b and ("uitofp i64" in b or "sitofp i64" in b) :
                best.append(n)
    named = [n for n in best if "uniform" in n] or [n for n in best if "0x3CA" in "\n".join(funcs[n])]
    return (named or best or [None])[0]


def translate(ll, path):
    funcs = split_functions(ll)
    T = Types(ll)
    roots = [n for n in funcs if ".omp_outlined" in n or "omp_outlined" in n]
    if not roots:
        roots = [n for n in funcs if n.endswith("_trace_one")]
    rng = find_rng(funcs)
    todo, seen = list(roots) + ([rng] if rng else []), set()
    while todo:
        n = todo.pop()
        if n in seen or n not in funcs:
            continue
        seen.add(n)
        todo += list(called(funcs[n]))
    order = sorted(seen)
    G = set()
    out = ["# generated from the engine's LLVM IR", ""]
    names = {}
    sizes = {}
    for i, n in enumerate(order):
        f = Fn(n, funcs[n], T, funcs, G)
        f.num = i
        out.append(f.code())
        out.append("")
        names[n] = "F%d" % i
    gsz = {}
    for g in sorted(G):
        m = re.search(r'^@"?' + re.escape(g) + r'"? = (.*)$', ll, flags=re.M)
        if m:
            q = re.search(r"\b(?:global|constant) (.*)$", m.group(1))
            if q:
                try:
                    gsz[g] = T.layout(take_type(q.group(1))[0])[0]
                except Exception:
                    gsz[g] = 8
    out.append("FUNCS = {%s}" % ", ".join("%r: %s" % (n, f) for n, f in names.items()))
    out.append("GLOBALS = %r" % gsz)
    with open(path, "w") as f:
        f.write("\n".join(out) + "\n")
    return dict(rng=rng, roots=roots, functions=order, instructions=sum(len(b) for n in order for b in [funcs[n]]))
