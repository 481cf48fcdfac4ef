"""Front end for the Fortran subset of fkernel.f90: source text -> Python AST run by the same interpreter.

Arrays become 0-based numpy-like arrays; every subscript is wrapped in a bounds obligation (__fx__/__fsl__), every
explicit-shape dummy in a shape obligation (__fdummy__), every local array in an allocation without initial value."""
import ast
import re


class FortranError(Exception):
    pass


TOK = re.compile(r"""\s*(?:
 (?P<num>(?:\d+\.\d*(?:[de][+-]?\d+|(?![a-z]))|\.\d+(?:[de][+-]?\d+)?|\d+(?:[de][+-]?\d+)?)(?:_\w+)?)
|(?P<dot>\.(?:and|or|not|true|false|eq|ne|lt|le|gt|ge|eqv|neqv)\.)
|(?P<name>[a-z]\w*)
|(?P<str>'(?:[^']|'')*'|"(?:[^"]|"")*")
|(?P<op>\*\*|==|/=|<=|>=|=>|::|\(/|/\)|//|[-+*/<>=(),:%\[\];])
)""", re.X | re.I)
DOTS = {".eq.": "==", ".ne.": "/=", ".lt.": "<", ".le.": "<=", ".gt.": ">", ".ge.": ">="}


def lex(s):
    out, k = [], 0
    s = s.rstrip()
    while k < len(s):
        m = TOK.match(s, k)
        if not m:
            if s[k:].strip() == "":
                break
            raise FortranError("cannot read %r" % s[k:])
        kind = m.lastgroup
        v = m.group(kind)
        if kind != "str":
            v = v.lower()
        # 1.eq.2 : the number must not swallow the dot of an operator
        if kind == "num" and re.match(r"\d+\.$", v) and re.match(r"(and|or|eq|ne|lt|le|gt|ge)\.", s[m.end():], re.I):
            v = v[:-1]
            out.append((kind, v))
            k = m.end() - 1
            continue
        if kind == "dot":
            if v in DOTS:
                out.append(("op", DOTS[v]))
            else:
                out.append(("dot", v))
        else:
            out.append((kind, v))
        k = m.end()
    return out


def logical_lines(src):
    """(line number, text) with comments removed and continuations joined"""
    res, buf, start = [], "", None
    for n, l in enumerate(src.split("\n"), 1):
        o, q = [], None
        for ch in l:
            if q:
                if ch == q:
                    q = None
            elif ch in "'\"":
                q = ch
            elif ch == "!":
                break
            o.append(ch)
        l = "".join(o).strip()
        if not l:
            continue
        if buf and l.startswith("&"):
            l = l[1:].strip()
        if start is None:
            start = n
        if l.endswith("&"):
            buf += l[:-1] + " "
            continue
        full = buf + l
        for part in split_semi(full):
            if part.strip():
                res.append((start, part.strip()))
        buf, start = "", None
    return res


def split_semi(s):
    out, q, cur = [], None, ""
    for ch in s:
        if q:
            if ch == q:
                q = None
        elif ch in "'\"":
            q = ch
        elif ch == ";":
            out.append(cur)
            cur = ""
            continue
        cur += ch
    return out + [cur]


class Parser:
    """expressions -> tuples"""

    def __init__(self, toks):
        self.t, self.k = toks, 0

    def peek(self, v=None):
        if self.k >= len(self.t):
            return None
        return self.t[self.k] if v is None else self.t[self.k][1] == v and self.t[self.k][0] != "str"

    def next(self):
        if self.k >= len(self.t):
            raise FortranError("unexpected end of statement")
        self.k += 1
        return self.t[self.k - 1]

    def eat(self, v):
        if not self.peek(v):
            raise FortranError("expected %s" % v)
        self.k += 1

    def expr(self):
        return self.or_()

    def or_(self):
        a = self.and_()
        while self.peek(".or."):
            self.k += 1
            a = ("or", a, self.and_())
        return a

    def and_(self):
        a = self.not_()
        while self.peek(".and."):
            self.k += 1
            a = ("and", a, self.not_())
        return a

    def not_(self):
        if self.peek(".not."):
            self.k += 1
            return ("not", self.not_())
        return self.cmp()

    def cmp(self):
        a = self.add()
        t = self.peek()
        if t and t[0] == "op" and t[1] in ("==", "/=", "<", "<=", ">", ">="):
            self.k += 1
            return ("cmp", t[1], a, self.add())
        return a

    def add(self):
        if self.peek("-") or self.peek("+"):
            o = self.next()[1]
            a = self.mul()
            if o == "-":
                a = ("neg", a)
        else:
            a = self.mul()
        while self.peek("+") or self.peek("-"):
            o = self.next()[1]
            a = ("bin", o, a, self.mul())
        return a

    def mul(self):
        a = self.unary()
        while self.peek("*") or self.peek("/"):
            o = self.next()[1]
            a = ("bin", o, a, self.unary())
        return a

    def unary(self):
        # the subset writes matmul(invB0,-1*x): a sign inside an argument list starts a new expression, handled by add
        return self.pow()

    def pow(self):
        a = self.prim()
        if self.peek("**"):
            self.k += 1
            if self.peek("-"):
                self.k += 1
                return ("bin", "**", a, ("neg", self.pow()))
            return ("bin", "**", a, self.pow())
        return a

    def prim(self):
        k, v = self.next()
        if k == "num":
            v = v.split("_")[0]
            if re.fullmatch(r"\d+", v):
                return ("int", int(v))
            return ("real", v.replace("d", "e"))
        if k == "str":
            return ("str", v[1:-1])
        if k == "dot" and v in (".true.", ".false."):
            return ("bool", v == ".true.")
        if v == "(":
            e = self.expr()
            self.eat(")")
            return ("par", e)
        if v in ("(/", "["):
            end = "/)" if v == "(/" else "]"
            xs = []
            while not self.peek(end):
                xs.append(self.expr())
                if self.peek(","):
                    self.k += 1
            self.k += 1
            return ("list", xs)
        if k == "name":
            if self.peek("("):
                self.k += 1
                args = []
                while not self.peek(")"):
                    args.append(self.arg())
                    if self.peek(","):
                        self.k += 1
                self.eat(")")
                return ("call", v, args)
            return ("name", v)
        raise FortranError("unexpected %r" % v)

    def arg(self):
        t = self.peek()
        if t[0] == "name" and self.k + 1 < len(self.t) and self.t[self.k + 1] == ("op", "="):
            self.k += 2
            return ("kw", t[1], self.expr())
        lo = None
        if not self.peek(":"):
            lo = self.expr()
        if self.peek(":"):
            self.k += 1
            hi = st = None
            if not (self.peek(",") or self.peek(")") or self.peek(":")):
                hi = self.expr()
            if self.peek(":"):
                self.k += 1
                st = self.expr()
            return ("sec", lo, hi, st)
        return lo


class Var:
    def __init__(self, name, typ, dims=None, intent=None, param=None, const=False):
        self.name, self.typ, self.dims, self.intent, self.param, self.const = name, typ, dims, intent, param, const


class Unit:
    """a subroutine or function"""

    def __init__(self, kind, name, args, result, line):
        self.kind, self.name, self.args, self.result, self.line = kind, name, args, result, line
        self.vars = {}
        self.body = []          # statements (line, kind, ...)


DECL = re.compile(r"^(integer|double\s+precision|real|logical|complex|character)\b", re.I)


def parse(src):
    """-> {name: Unit}"""
    units, cur = {}, None
    stack = None
    for ln, text in logical_lines(src):
        low = text.lower()
        try:
            toks = lex(text)
            if cur is None:
                m = re.match(r"(?:(?:pure|recursive|elemental)\s+)*subroutine\s+(\w+)\s*(?:\((.*)\))?$", low)
                f = re.match(r"(?:[\w\s()*]*?)\bfunction\s+(\w+)\s*\((.*?)\)\s*(?:result\s*\(\s*(\w+)\s*\))?$", low)
                if m:
                    cur = Unit("subroutine", m.group(1), [a.strip() for a in (m.group(2) or "").split(",") if a.strip()], None, ln)
                elif f and not low.startswith("end"):
                    cur = Unit("function", f.group(1), [a.strip() for a in f.group(2).split(",") if a.strip()], f.group(3) or f.group(1), ln)
                if cur:
                    stack = [cur.body]
                continue
            if re.match(r"end\s*(subroutine|function)\b", low) or low == "end":
                units[cur.name] = cur
                cur = None
                continue
            if re.match(r"(implicit|use|external|intrinsic|contains|save)\b", low):
                continue
            if DECL.match(low) and "::" in low:
                declare(cur, toks)
                continue
            stmt(cur, stack, ln, low, toks)
        except FortranError as e:
            if cur is not None:
                stack[-1].append((ln, "unsupported", "%s: %s" % (text, e)))
    return units


def declare(u, toks):
    p = Parser(toks)
    typ = p.next()[1]
    if typ == "double":
        p.next()
        typ = "real"
    if p.peek("("):                    # kind / len
        d = 0
        while True:
            v = p.next()[1]
            d += {"(": 1, ")": -1}.get(v, 0)
            if d == 0:
                break
    dims = intent = None
    par = False
    while p.peek(","):
        p.next()
        a = p.next()[1]
        if a == "dimension":
            p.eat("(")
            dims = dimlist(p)
        elif a == "intent":
            p.eat("(")
            intent = p.next()[1]
            if p.peek("out"):
                p.next()
                intent = "inout"
            p.eat(")")
        elif a == "parameter":
            par = True
    p.eat("::")
    while p.k < len(p.t):
        n = p.next()[1]
        d = dims
        if p.peek("("):
            p.next()
            d = dimlist(p)
        val = None
        if p.peek("="):
            p.next()
            val = p.expr()
        u.vars[n] = Var(n, typ, d, intent, val, par)
        if p.peek(","):
            p.next()


def dimlist(p):
    ds = []
    while not p.peek(")"):
        a = p.arg()
        if a[0] == "sec":
            ds.append((a[1] or ("int", 1), a[2]))       # upper bound None: assumed shape
        else:
            ds.append((("int", 1), a))
        if p.peek(","):
            p.next()
    p.eat(")")
    return ds


def stmt(u, stack, ln, low, toks):
    p = Parser(toks)
    cur = stack[-1]
    # drop a statement label / construct name
    if toks[0][0] == "name" and len(toks) > 2 and toks[1] == ("op", ":") and toks[2][1] in ("do", "if"):
        p.k = 2
    w = p.peek()[1]
    is_assign = _assign_pos(toks) is not None
    if w == "do" and not (is_assign and toks[1][1] in ("=", "(")):
        p.next()
        body = []
        if p.k >= len(toks):
            cur.append((ln, "while", ("bool", True), body))
        elif p.peek("while"):
            p.next()
            p.eat("(")
            c = p.expr()
            p.eat(")")
            cur.append((ln, "while", c, body))
        else:
            v = p.next()[1]
            p.eat("=")
            lo = p.expr()
            p.eat(",")
            hi = p.expr()
            st = None
            if p.peek(","):
                p.next()
                st = p.expr()
            cur.append((ln, "do", v, lo, hi, st, body))
        stack.append(body)
        return
    if re.match(r"end\s*(do|if)\b", low):
        stack.pop()
        return
    if w == "if" and not (is_assign and _assign_pos(toks) == 1):
        p.next()
        p.eat("(")
        c = p.expr()
        p.eat(")")
        if p.peek("then"):
            b, e = [], []
            cur.append((ln, "if", c, b, e))
            stack.append(b)
            return
        b = []
        cur.append((ln, "if", c, b, []))
        rest = toks[p.k:]
        stmt(u, stack + [b], ln, " ".join(t[1] for t in rest), rest)
        return
    m = re.match(r"else\s*if\b", low)
    if m:
        stack.pop()
        outer = stack[-1][-1]
        p.next()
        if p.peek("if"):
            p.next()
        p.eat("(")
        c = p.expr()
        p.eat(")")
        b, e = [], []
        node = (ln, "if", c, b, e)
        tgt = outer
        while tgt[4] and tgt[4][0][1] == "if" and len(tgt[4]) == 1:
            tgt = tgt[4][0]
        tgt[4].append(node)
        stack.append(b)
        return
    if low == "else":
        stack.pop()
        tgt = stack[-1][-1]
        while tgt[4] and tgt[4][0][1] == "if" and len(tgt[4]) == 1:
            tgt = tgt[4][0]
        stack.append(tgt[4])
        return
    if is_assign:
        lhs = p.prim()
        p.eat("=")
        cur.append((ln, "assign", lhs, p.expr()))
        return
    if w == "call":
        p.next()
        c = p.prim()
        cur.append((ln, "call", c[1], c[2] if c[0] == "call" else []))
        return
    if w in ("stop", "return", "exit", "cycle", "continue"):
        cur.append((ln, w))
        return
    if w in ("write", "print", "deallocate", "allocate"):
        if w == "allocate":
            raise FortranError("allocate")
        return
    raise FortranError("statement")


def _assign_pos(toks):
    d = 0
    for k, (kind, v) in enumerate(toks):
        if kind == "op":
            if v == "(":
                d += 1
            elif v == ")":
                d -= 1
            elif v == "=" and d == 0:
                return k
    return None


# ------------------------------------------------------------------ translation to Python
INTR = {"abs": "np.abs", "exp": "np.exp", "sqrt": "np.sqrt", "log": "np.log", "sin": "np.sin", "cos": "np.cos", "transpose": "np.transpose",
        "dble": "+", "real": "+", "dot_product": "np.dot", "matmul": "np.matmul", "tanh": "np.tanh"}
INTFN = {"size", "mod", "int", "floor", "nint", "ubound", "lbound"}


class Trans:
    def __init__(self, u, units):
        self.u, self.units = u, units

    def var(self, n):
        return self.u.vars.get(n)

    # ---- types ----
    def isint(self, e):
        k = e[0]
        if k == "int":
            return True
        if k == "name":
            v = self.var(e[1])
            return v is not None and v.typ == "integer"
        if k in ("par", "neg"):
            return self.isint(e[1])
        if k == "bin":
            return self.isint(e[2]) and self.isint(e[3])
        if k == "call":
            v = self.var(e[1])
            if v is not None:
                return v.typ == "integer"
            if e[1] in INTFN:
                return e[1] != "mod" or all(self.isint(x) for x in e[2])
            if e[1] in ("min", "max", "abs"):
                return all(self.isint(x) for x in e[2])
        return False

    def isarr(self, e):
        k = e[0]
        if k == "name":
            v = self.var(e[1])
            return v is not None and v.dims is not None
        if k in ("par", "neg"):
            return self.isarr(e[1])
        if k == "bin":
            return self.isarr(e[2]) or self.isarr(e[3])
        if k == "call":
            v = self.var(e[1])
            if v is not None:
                return any(a[0] == "sec" for a in e[2])
            if e[1] in ("matmul", "transpose", "reshape", "spread"):
                return True
            if e[1] in self.units:
                r = self.units[e[1]]
                return r.vars.get(r.result) is not None and r.vars[r.result].dims is not None
            if e[1] in ("abs", "exp", "sqrt", "min", "max"):
                return any(self.isarr(a) for a in e[2])
        return False

    # ---- expressions -> python source ----
    def x(self, e):
        k = e[0]
        if k == "int":
            return str(e[1])
        if k == "real":
            return repr(float(e[1]))
        if k == "str":
            return repr(e[1])
        if k == "bool":
            return str(e[1])
        if k == "par":
            return "(" + self.x(e[1]) + ")"
        if k == "neg":
            return "(-" + self.x(e[1]) + ")"
        if k == "bin":
            o = e[1]
            if o == "/" and self.isint(e[2]) and self.isint(e[3]):
                o = "//"
            return "(%s %s %s)" % (self.x(e[2]), o, self.x(e[3]))
        if k == "cmp":
            return "(%s %s %s)" % (self.x(e[2]), {"/=": "!="}.get(e[1], e[1]), self.x(e[3]))
        if k in ("and", "or"):
            return "(%s %s %s)" % (self.x(e[1]), k, self.x(e[2]))
        if k == "not":
            return "(not %s)" % self.x(e[1])
        if k == "list":
            return "np.array([%s])" % ", ".join(self.x(a) for a in e[1])
        if k == "name":
            return self.nm(e[1])
        if k == "call":
            v = self.var(e[1])
            if v is not None and v.dims is not None:
                return self.sub(e, v)
            return self.fn(e[1], e[2])
        raise FortranError("expression %s" % k)

    def nm(self, n):
        import keyword
        return n + "_" if keyword.iskeyword(n) or n == "np" else n

    def sub(self, e, v):
        if len(e[2]) != len(v.dims):
            raise FortranError("rank of %s" % e[1])
        a = self.nm(e[1])
        out = []
        for k, (ix, (lb, ub)) in enumerate(zip(e[2], v.dims)):
            off = "" if lb == ("int", 0) else " - (%s)" % self.x(lb)
            if ix[0] == "kw":
                raise FortranError("keyword in subscript")
            if ix[0] == "sec":
                if ix[1] is None and ix[2] is None and ix[3] is None:
                    out.append(":")
                    continue
                if ix[3] is not None and ix[3] != ("int", 1):
                    raise FortranError("strided section")
                lo = "0" if ix[1] is None else "(%s)%s" % (self.x(ix[1]), off)
                hi = "%s.shape[%d]" % (a, k) if ix[2] is None else "(%s)%s + 1" % (self.x(ix[2]), off)
                out.append("__fsl__(%s, %d, %s, %s)" % (a, k, lo, hi))
            else:
                out.append("__fx__(%s, %d, (%s)%s)" % (a, k, self.x(ix), off))
        return "%s[%s]" % (a, ", ".join(out))

    def fn(self, n, args):
        pos = [self.x(a) for a in args if a[0] != "kw"]
        kw = {a[1]: a[2] for a in args if a[0] == "kw"}
        if n in self.units:
            return "%s(%s)" % (n, ", ".join(pos))
        if n in ("min", "max"):
            if any(self.isarr(a) for a in args):
                f = {"min": "np.minimum", "max": "np.maximum"}[n]
                r = pos[0]
                for p in pos[1:]:
                    r = "%s(%s, %s)" % (f, r, p)
                return r
            return "%s(%s)" % (n, ", ".join(pos))
        if n == "mod":
            return "((%s) %% (%s))" % tuple(pos)
        if n == "size":
            return "%s.shape[(%s) - 1]" % (pos[0], pos[1]) if len(pos) == 2 else "%s.size" % pos[0]
        if n in ("sum", "maxval", "minval", "product"):
            f = {"sum": "np.sum", "maxval": "np.max", "minval": "np.min", "product": "np.prod"}[n]
            d = kw.get("dim") or (args[1] if len(args) > 1 and args[1][0] != "kw" else None)
            return "%s(%s)" % (f, pos[0]) if d is None else "%s(%s, axis=(%s) - 1)" % (f, pos[0], self.x(d))
        if n in INTR:
            f = INTR[n]
            return "(%s)" % pos[0] if f == "+" else "%s(%s)" % (f, ", ".join(pos))
        if n in ("int", "floor"):
            return "int(%s)" % pos[0]
        raise FortranError("intrinsic %s" % n)

    # ---- statements ----
    def py(self, src, ln):
        t = ast.parse(src).body
        for s in t:
            for n in ast.walk(s):
                if hasattr(n, "lineno"):
                    n.lineno = n.end_lineno = ln
        return t

    def lhs(self, e):
        if e[0] == "name":
            v = self.var(e[1])
            if v is not None and v.dims is not None:
                return self.nm(e[1]) + "[...]"
            return self.nm(e[1])
        return self.x(e)

    def stmts(self, body):
        out = []
        for s in body:
            ln, k = s[0], s[1]
            try:
                if k == "assign":
                    out += self.py("%s = %s" % (self.lhs(s[2]), self.x(s[3])), ln)
                elif k == "do":
                    st = "" if s[5] is None else ", %s" % self.x(s[5])
                    neg = s[5] is not None and s[5][0] == "neg"
                    f = self.py("for %s in range(%s, %s %s 1%s):\n    pass" % (self.nm(s[2]), self.x(s[3]), self.x(s[4]), "-" if neg else "+", st), ln)[0]
                    f.body = self.stmts(s[6]) or [ast.Pass(lineno=ln, col_offset=0)]
                    out.append(f)
                elif k == "while":
                    f = self.py("while %s:\n    pass" % self.x(s[2]), ln)[0]
                    f.body = self.stmts(s[3]) or [ast.Pass(lineno=ln, col_offset=0)]
                    out.append(f)
                elif k == "if":
                    f = self.py("if %s:\n    pass" % self.x(s[2]), ln)[0]
                    f.body = self.stmts(s[3]) or [ast.Pass(lineno=ln, col_offset=0)]
                    f.orelse = self.stmts(s[4])
                    out.append(f)
                elif k == "call":
                    out += self.call(s[2], s[3], ln)
                elif k == "stop":
                    out += self.py("raise RuntimeError('stop')", ln)
                elif k == "return":
                    out += self.py(self.ret(), ln)
                elif k == "exit":
                    out += self.py("break", ln)
                elif k == "cycle":
                    out += self.py("continue", ln)
                elif k == "continue":
                    pass
                else:
                    raise FortranError(str(s[2]))
            except FortranError as e:
                out += self.py("__funsup__(%r)" % str(e), ln)
        return out

    def call(self, n, args, ln):
        pos = [self.x(a) for a in args]
        if n in ("dgetrf", "dgetri", "dgesv", "dpotrf", "dpotri"):
            # LAPACK by name; info is an output scalar
            info = pos[-1]
            return self.py("%s = __lapack__(%r, %s)" % (info, n, ", ".join(pos[:-1])), ln)
        if n not in self.units:
            return self.py("__funsup__(%r)" % ("call of external " + n), ln)
        sub = self.units[n]
        outs = [k for k, a in enumerate(sub.args) if a in sub.vars and sub.vars[a].dims is None and sub.vars[a].intent in ("out", "inout")]
        c = "%s(%s)" % (n, ", ".join(pos))
        if outs:
            return self.py("%s = %s" % (", ".join(pos[k] for k in outs) + ",", c), ln)
        return self.py(c, ln)

    def ret(self):
        u = self.u
        if u.kind == "function":
            return "return " + self.nm(u.result)
        outs = [a for a in u.args if a in u.vars and u.vars[a].dims is None and u.vars[a].intent in ("out", "inout")]
        return "return (%s,)" % ", ".join(map(self.nm, outs)) if outs else "return None"

    def function(self):
        u = self.u
        ln = u.line
        f = self.py("def %s(%s):\n    pass" % (u.name, ", ".join(self.nm(a) for a in u.args)), ln)[0]
        body = []
        # dummies, in an order in which extents refer to already bound scalars (scalars need no binding)
        for a in u.args:
            v = u.vars.get(a)
            if v is None or v.dims is None:
                continue
            exts = []
            for lb, ub in v.dims:
                exts.append("None" if ub is None else "(%s) - (%s) + 1" % (self.x(ub), self.x(lb)))
            body += self.py("%s = __fdummy__(%r, %s, (%s,), %r)" % (self.nm(a), a, self.nm(a), ", ".join(exts), v.intent or "inout"), ln)
        for n, v in u.vars.items():
            if n in u.args:
                continue
            if v.dims is not None:
                exts = ["(%s) - (%s) + 1" % (self.x(ub), self.x(lb)) for lb, ub in v.dims]
                body += self.py("%s = __falloc__(%s)" % (self.nm(n), ", ".join(exts)), ln)
            if v.param is not None:
                # an initialised local variable is saved: its value at entry is the initial one in the first call only
                val = "__fsaved__(%r)" % n if not v.const and written(u.body, n) else self.x(v.param)
                body += self.py("%s%s = %s" % (self.nm(n), "[...]" if v.dims is not None else "", val), ln)
        body += self.stmts(u.body)
        body += self.py(self.ret(), ln)
        f.body = body
        return f


def written(x, n):
    """is the variable assigned (or handed to another routine) in these statements"""
    if isinstance(x, list):
        return any(written(y, n) for y in x)
    if not isinstance(x, tuple) or len(x) < 2:
        return False
    if x[1] == "assign":
        return root(x[2]) == n
    if x[1] == "do":
        return x[2] == n or written(x[6], n)
    if x[1] == "call":
        return any(root(a) == n for a in x[3])
    return any(written(y, n) for y in x[2:])


def root(e):
    while isinstance(e, tuple) and len(e) > 1:
        if isinstance(e[1], str) and e[0] in ("name", "call", "var"):
            return e[1]
        e = e[1]
    return e if isinstance(e, str) else None


def f2py_signature(u):
    """(positional python argument names, {dimension argument: (array, axis, expression of the extent)}, outputs)"""
    req, opt, outs = [], [], []
    auto = {}
    for a in u.args:
        v = u.vars[a]
        if v.intent == "out":
            outs.append(a)
    ints = {a for a in u.args if u.vars[a].typ == "integer" and u.vars[a].dims is None and u.vars[a].intent in (None, "in")}

    def names(e):
        if e[0] == "name":
            yield e[1]
        elif e[0] in ("par", "neg"):
            yield from names(e[1])
        elif e[0] == "bin":
            yield from names(e[2])
            yield from names(e[3])
        elif e[0] == "call":
            for x in e[2]:
                yield from names(x)
    for a in u.args:
        v = u.vars[a]
        if v.dims is None or v.intent == "out":
            continue
        for k, (lb, ub) in enumerate(v.dims):
            if ub is None:
                continue
            used = [n for n in set(names(ub)) | set(names(lb)) if n in ints]
            if len(used) == 1 and used[0] not in auto:
                auto[used[0]] = (a, k, lb, ub)
    for a in u.args:
        if a in outs:
            continue
        (opt if a in auto else req).append(a)
    return req, opt, auto, outs
