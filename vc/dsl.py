"""Specification language (H.265-style syntax tables).  One AST, three interpreters:
   symbolic (SpecRun, used by the verifier), concrete and generating (concrete.py)."""
import re, os

TOK = re.compile(r'\s+|#[^\n]*|//[^\n]*|"(?:[^"])*"|0x[0-9a-fA-F]+|\d+|[A-Za-z_]\w*|->|\?=|<<|>>|<=|>=|==|!=|&&|\|\||\+\+|\+=|\.\.|[-+*/%<>=!&|^~?:;,.(){}\[\]@$]')


def lex(s):
    out = []; i = 0; line = 1
    while i < len(s):
        m = TOK.match(s, i)
        if not m: raise SyntaxError("spec line %d: %r" % (line, s[i:i + 30]))
        t = m.group(0)
        if not t.isspace() and not t.startswith("#") and not t.startswith("//"): out.append((t, line))
        line += t.count("\n"); i = m.end()
    return out


class Node:
    __slots__ = ("k", "a", "line")
    def __init__(self, k, *a, line=0): self.k, self.a, self.line = k, a, line
    def __repr__(self): return "(%s %s)" % (self.k, " ".join(map(repr, self.a)))


class Syntax:
    """one specified function"""
    def __init__(self, name): self.name = name; self.cpp = None; self.state = None; self.params = []; self.body = []; self.attrs = {}; self.file = None; self.kind = "syntax"


class Parser:
    def __init__(self, text, fname): self.t = lex(text); self.i = 0; self.fname = fname
    def peek(self, k=0): return self.t[self.i + k][0] if self.i + k < len(self.t) else None
    def line(self): return self.t[min(self.i, len(self.t) - 1)][1]
    def next(self):
        x = self.t[self.i][0]; self.i += 1; return x
    def accept(self, x):
        if self.peek() == x: self.i += 1; return True
        return False
    def expect(self, x):
        l = self.line(); y = self.next()
        if y != x: raise SyntaxError("%s:%d expected %s got %s" % (self.fname, l, x, y))
    def ident(self):
        x = self.next()
        if not re.match(r"[A-Za-z_]\w*$", x): raise SyntaxError("%s:%d identifier expected, got %s" % (self.fname, self.line(), x))
        return x

    def file(self, specs, defs):
        while self.peek() is not None:
            k = self.next()
            if k == "def":
                n = self.ident(); self.expect("("); ps = []
                while not self.accept(")"):
                    ps.append(self.ident()); self.accept(",")
                self.expect("="); e = self.expr(); self.expect(";")
                defs[n] = (ps, e)
            elif k in ("syntax", "function"):
                s = Syntax(self.ident()); s.file = self.fname; s.kind = k
                self.expect("(")
                while not self.accept(")"):
                    pn = self.ident(); self.expect(":"); ty = self.ident(); arg = None
                    if self.peek() and self.peek().startswith('"'): arg = self.next().strip('"')
                    s.params.append((pn, ty, arg)); self.accept(",")
                while self.peek() != "{":
                    a = self.ident(); v = self.next().strip('"'); s.attrs[a] = v
                s.cpp = s.attrs.get("cpp"); s.state = s.attrs.get("state")
                s.body = self.block()
                specs[s.name] = s
            else: raise SyntaxError("%s:%d unexpected %s" % (self.fname, self.line(), k))

    def block(self):
        self.expect("{"); out = []
        while not self.accept("}"): out.append(self.stmt())
        return out

    def stmt_or_block(self):
        return self.block() if self.peek() == "{" else [self.stmt()]

    def lval(self):
        n = self.ident(); path = [("n", n)]
        while True:
            if self.peek() == "[":
                self.next()
                if self.accept("]"): path.append(("push",)); continue
                path.append(("i", self.expr())); self.expect("]")
            elif self.peek() == "." and path:
                self.next(); path.append(("f", self.ident()))
            else: break
        return path

    def stmt(self):
        l = self.line(); k = self.peek()
        N = lambda kind, *a: Node(kind, *a, line=l)
        if k == "if":
            self.next(); self.expect("("); c = self.expr(); self.expect(")")
            a = self.stmt_or_block(); b = []
            if self.accept("else"): b = self.stmt_or_block()
            return N("if", c, a, b)
        if k == "for":
            self.next(); self.expect("("); v = self.ident(); self.expect("="); init = self.expr(); self.expect(";")
            c = self.expr(); self.expect(";"); v2 = self.ident(); assert v2 == v
            if self.accept("++"): step = Node("bin", "+", Node("var", v), Node("num", 1))
            else: self.expect("="); step = self.expr()
            self.expect(")"); b = self.stmt_or_block()
            return N("for", v, init, c, step, b)
        if k == "while":
            self.next(); self.expect("("); c = self.expr(); self.expect(")"); b = self.stmt_or_block()
            return N("while", c, b)
        if k == "loop":
            self.next(); b = self.block(); return N("loop", b)
        if k == "break_if":
            self.next(); e = self.expr(); self.expect(";"); return N("break_if", e)
        if k == "reject":
            self.next()
            if self.accept(";"): return N("reject", Node("num", 1))
            self.accept("if"); e = self.expr(); self.expect(";"); return N("reject", e)
        if k in ("default", "let", "ensure", "require", "inv", "dontcare", "assume_unreachable", "measure"):
            self.next()
            if k in ("ensure", "require", "inv", "measure"):
                e = self.expr(); self.expect(";"); return N(k, e)
            if k == "dontcare":
                n = self.ident(); c = None
                if self.accept("if"): c = self.expr()
                self.expect(";"); return N(k, n, c)
            lv = self.lval()
            if k == "default":
                self.expect("="); e = self.expr(); self.expect(";"); return N("default", lv, e)
            return self.finish(lv, True, l)
        if k == "trailing_bits":
            self.next(); self.expect("("); self.expect(")"); self.expect(";"); return N("trailing")
        if k == "trailing_bits_opt":
            self.next(); self.expect("("); self.expect(")"); self.expect(";"); return N("trailing_opt")
        if k == "skip":
            self.next(); self.expect("("); e = self.expr(); self.expect(")"); self.expect(";"); return N("skip", e)
        if k == "seek":
            self.next(); self.expect("("); e = self.expr(); self.expect(")"); self.expect(";"); return N("seek", e)
        lv = self.lval()
        return self.finish(lv, False, l)

    def finish(self, lv, let, l):
        N = lambda kind, *a: Node(kind, *a, line=l)
        if self.accept(":"):
            d = self.ident(); n = None
            if self.accept("("):
                if not self.accept(")"): n = self.expr(); self.expect(")")
            rng = None
            if self.accept("["):
                lo = self.expr(); self.expect(".."); hi = self.expr(); self.expect("]"); rng = (lo, hi)
            self.expect(";")
            return N("read", lv, let, d, n, rng)
        opt = False
        if self.accept("?="): opt = True
        else: self.expect("=")
        if self.peek() == "call":
            self.next(); f = self.ident(); self.expect("("); args = []
            while not self.accept(")"):
                args.append(self.expr()); self.accept(",")
            sub = None                       # call f(..) on bytes(n): f parses the next n bytes, emulation prevention removed
            if self.accept("on"):
                self.expect("bytes"); self.expect("("); sub = self.expr(); self.expect(")")
            self.expect(";")
            return N("call", lv, let, f, args, opt, sub)
        e = self.expr(); self.expect(";")
        return N("assign", lv, let, e)

    # ------------------------------------------------------------ expressions
    PREC = [["||"], ["&&"], ["|"], ["^"], ["&"], ["==", "!="], ["<", ">", "<=", ">="], ["<<", ">>"], ["+", "-"], ["*", "/", "%"]]

    def expr(self):
        c = self.binary(0)
        if self.accept("?"):
            a = self.expr(); self.expect(":"); b = self.expr()
            return Node("cond", c, a, b)
        return c

    def binary(self, lvl):
        if lvl == len(self.PREC): return self.unary()
        a = self.binary(lvl + 1)
        while self.peek() in self.PREC[lvl]:
            l = self.line(); op = self.next(); b = self.binary(lvl + 1); a = Node("bin", op, a, b, line=l)
        return a

    def unary(self):
        k = self.peek()
        if k in ("!", "-", "~"):
            self.next(); return Node("un", k, self.unary())
        return self.postfix()

    def postfix(self):
        k = self.next(); l = self.line()
        if k == "(":
            e = self.expr(); self.expect(")")
        elif re.match(r"\d", k): e = Node("num", int(k, 0))
        elif re.match(r"[A-Za-z_]", k):
            if self.peek() == "(":
                self.next(); args = []
                while not self.accept(")"):
                    args.append(self.expr()); self.accept(",")
                e = Node("fn", k, args, line=l)
            else: e = Node("var", k, line=l)
        elif k.startswith('"'): e = Node("str", k.strip('"'))
        else: raise SyntaxError("%s:%d expression: %s" % (self.fname, l, k))
        while True:
            if self.peek() == "." and re.match(r"[A-Za-z_]", self.peek(1) or ""):
                self.next(); e = Node("dot", e, self.ident(), line=l)
            elif self.peek() == "[":
                self.next(); i = self.expr(); self.expect("]"); e = Node("idx", e, i, line=l)
            else: return e


def load_specs(d=None):
    d = d or os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec")
    specs, defs = {}, {}
    for f in sorted(os.listdir(d)):
        if f.endswith(".spec"):
            Parser(open(os.path.join(d, f)).read(), f).file(specs, defs)
    for n, s in specs.items():
        if s.attrs.get("mutates"): MUT[n] = [p[0] for p in s.params].index(s.attrs["mutates"])
    return specs, defs


MUT = {}          # syntax name -> index of the parameter it mutates


def assigned(body, acc=None):
    """names assigned in a statement list: set of names, plus '%pos' when bits are consumed"""
    acc = set() if acc is None else acc
    for s in body:
        if s.k == "if": assigned(s.a[1], acc); assigned(s.a[2], acc)
        elif s.k == "for": acc.add(s.a[0]); assigned(s.a[4], acc)
        elif s.k in ("while",): assigned(s.a[1], acc)
        elif s.k == "loop": assigned(s.a[0], acc)
        elif s.k == "read": acc.add(s.a[0][0][1]); acc.add("%pos")
        elif s.k == "call":
            acc.add(s.a[0][0][1]); acc.add("%pos")
            if s.a[2] in MUT: acc.add(s.a[3][MUT[s.a[2]]].a[0])
        elif s.k == "assign": acc.add(s.a[0][0][1])
        elif s.k in ("trailing", "trailing_opt", "skip", "seek"): acc.add("%pos")
    return acc
