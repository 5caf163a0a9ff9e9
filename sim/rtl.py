"""A small two-state SystemVerilog simulator for the modules under hw/.

Synthesizable subset: modules with parameters, packed and unpacked vectors,
continuous assignments, always_ff/always_comb/always, instances, generate loops
and conditions, functions, case/if/for.  A design is elaborated flat and every
process is compiled to a Python function over one state list.

What a real simulator leaves open is decided by the caller's seed: the order in
which processes triggered by the same edge run (`order`), and the contents of
every variable at power-up (`power_up`)."""
import os
import re


class SVError(Exception):
    """The source is not legal."""


class Unsupported(SVError):
    """The source may be legal, but uses a construct outside the supported subset."""


# words that only occur in constructs this simulator does not know
FOREIGN = {"struct", "union", "interface", "modport", "package", "import", "class", "foreach", "real", "shortreal", "realtime", "string",
           "fork", "force", "release", "wait", "event", "program", "property", "sequence", "primitive", "specify", "chandle", "bind",
           "virtual", "let", "clocking", "covergroup", "randcase", "export", "tagged", "defparam", "disable", "wand", "wor", "supply0",
           "supply1", "uwire", "inout", "iff", "casex"}


# ---------------------------------------------------------------- lexer
TOK = re.compile(r"""
    (?P<ws>\s+)
  | (?P<num>(?:\d[\d_]*\s*)?'[sS]?[bBoOdDhH]\s*[0-9a-fA-FxXzZ_?]+|'[01xXzZ](?![\w])|\d[\d_]*)
  | (?P<id>[A-Za-z_\\$][\w$]*)
  | (?P<str>"[^"\n]*")
  | (?P<op><<<=|>>>=|<<<|>>>|===|!==|==\?|!=\?|<<=|>>=|&&|\|\||\*\*|==|!=|<=|>=|<<|>>|\+\+|--|\+=|-=|\*=|/=|%=|&=|\|=|\^=
        |~&|~\||~\^|\^~|->|\+:|-:|::|\.\*|'\{|'\(|[-+*/%&|^~!<>=?:;,.(){}\[\]@#'])
""", re.X)


def strip_comments(t):
    return re.sub(r'"[^"\n]*"|//[^\n]*|/\*.*?\*/', lambda m: m.group(0) if m.group(0)[0] == '"' else " ", t, flags=re.S)


def preprocess(path, macros, seen, out, lib):
    path = os.path.realpath(path)
    if path in seen:
        return
    seen.add(path)
    with open(path) as f:
        text = strip_comments(f.read()).replace("\\\n", " ")
    cut = text.rfind("endmodule")
    if cut >= 0:        # a trailing line that is no Verilog at all (a stray "# ..." remark)
        text = text[:cut] + re.sub(r"(?m)^#.*$", "", text[cut:])
    live = [True]
    taken = []
    for line in text.split("\n"):
        s = line.strip()
        m = re.match(r"`(\w+)\s*(.*)$", s)
        d = m.group(1) if m else None
        if d in ("ifdef", "ifndef"):
            c = (m.group(2).split()[0] in macros) == (d == "ifdef")
            taken.append(c)
            live.append(live[-1] and c)
            continue
        if d == "elsif":
            live.pop()
            c = m.group(2).split()[0] in macros and not taken[-1]
            taken[-1] = taken[-1] or c
            live.append(live[-1] and c)
            continue
        if d == "else":
            live.pop()
            live.append(live[-1] and not taken[-1])
            continue
        if d == "endif":
            live.pop()
            taken.pop()
            continue
        if not live[-1]:
            continue
        if d == "define":
            q = re.match(r"(\w+)(\([^)]*\))?\s*(.*)$", m.group(2))
            macros[q.group(1)] = q.group(3).strip() if not q.group(2) else ([a.strip() for a in q.group(2)[1:-1].split(",")], q.group(3).strip())
            continue
        if d == "undef":
            macros.pop(m.group(2).strip(), None)
            continue
        if d in ("timescale", "default_nettype", "resetall", "celldefine", "endcelldefine"):
            continue
        if d == "include":
            q = re.match(r'"([^"]+)"', m.group(2))
            p = os.path.join(os.path.dirname(path), q.group(1))
            if not os.path.exists(p):
                p = lib.get(os.path.basename(q.group(1)), p)
            if not os.path.exists(p):
                raise SVError("%s: include file %s not found" % (os.path.basename(path), q.group(1)))
            preprocess(p, macros, seen, out, lib)
            continue
        for _ in range(20):
            n = re.sub(r"`(\w+)", lambda k: macros[k.group(1)] if isinstance(macros.get(k.group(1)), str) else k.group(0), line)
            n = expand(n, macros)
            if n == line:
                break
            line = n
        if "`" in line:
            raise SVError("%s: undefined macro in %r" % (os.path.basename(path), line.strip()))
        out.append(line)


def expand(line, macros):
    """One use of a macro with arguments, replaced."""
    for m in re.finditer(r"`(\w+)\s*\(", line):
        v = macros.get(m.group(1))
        if not isinstance(v, tuple):
            continue
        d, args, cur, i = 1, [], "", m.end()
        while i < len(line) and d:
            c = line[i]
            d += (c in "([{") - (c in ")]}")
            if c == "," and d == 1:
                args.append(cur.strip())
                cur = ""
            elif d:
                cur += c
            i += 1
        args.append(cur.strip())
        if d or len(args) != len(v[0]):
            raise Unsupported("macro call " + line.strip())
        body = re.sub(r"\b(\w+)\b", lambda k: args[v[0].index(k.group(1))] if k.group(1) in v[0] else k.group(1), v[1])
        return line[:m.start()] + body.replace("``", "") + line[i:]
    return line


def lex(text):
    toks = []
    i = 0
    while i < len(text):
        m = TOK.match(text, i)
        if not m:
            raise SVError("unexpected character %r" % text[i:i + 20])
        i = m.end()
        k = m.lastgroup
        if k != "ws":
            toks.append((k, m.group(0)))
    toks.append(("eof", ""))
    return toks


# ---------------------------------------------------------------- parser
TYPES = {"logic", "wire", "reg", "bit", "integer", "int", "byte", "shortint", "longint", "tri", "var", "genvar"}
BIN = {"||": 1, "&&": 2, "|": 3, "^": 4, "~^": 4, "^~": 4, "&": 5, "==": 6, "!=": 6, "===": 6, "!==": 6, "<": 7, "<=": 7,
       ">": 7, ">=": 7, "<<": 8, ">>": 8, "<<<": 8, ">>>": 8, "+": 9, "-": 9, "*": 10, "/": 10, "%": 10, "**": 11}
UN = {"+", "-", "!", "~", "&", "~&", "|", "~|", "^", "~^", "^~"}


class Parser:
    def __init__(self, toks):
        self.t = toks
        self.i = 0
        self.types = {}

    def pk(self, n=0):
        return self.t[min(self.i + n, len(self.t) - 1)][1]

    def kind(self, n=0):
        return self.t[min(self.i + n, len(self.t) - 1)][0]

    def nx(self):
        v = self.t[self.i][1]
        self.i += 1
        return v

    def acc(self, v):
        if self.pk() == v and self.kind() != "str":
            self.i += 1
            return True
        return False

    def ex(self, v):
        if not self.acc(v):
            raise SVError("expected %r before %r" % (v, " ".join(x[1] for x in self.t[self.i:self.i + 6])))

    def ident(self):
        if self.kind() != "id":
            raise SVError("identifier expected before %r" % " ".join(x[1] for x in self.t[self.i:self.i + 6]))
        return self.nx()

    # expressions ------------------------------------------------
    def expr(self, p=0):
        e = self.binary(1)
        if p == 0 and self.acc("?"):
            a = self.expr()
            self.ex(":")
            b = self.expr()
            return ("tern", e, a, b)
        return e

    def binary(self, p):
        a = self.unary()
        while True:
            op = self.pk()
            q = BIN.get(op)
            if q is None or q < p or self.kind() != "op":
                if op == "inside" and p <= 7:
                    self.nx()
                    self.ex("{")
                    items = []
                    while True:
                        if self.acc("["):
                            lo = self.expr()
                            self.ex(":")
                            hi = self.expr()
                            self.ex("]")
                            items.append(("bin", "&&", ("bin", ">=", a, lo), ("bin", "<=", a, hi)))
                        else:
                            items.append(("bin", "==", a, self.expr()))
                        if not self.acc(","):
                            break
                    self.ex("}")
                    e = items[0]
                    for x in items[1:]:
                        e = ("bin", "||", e, x)
                    a = e
                    continue
                return a
            self.nx()
            b = self.binary(q + 1)
            a = ("bin", op, a, b)

    def unary(self):
        if self.kind() == "op" and self.pk() in UN:
            op = self.nx()
            return ("un", op, self.unary())
        return self.primary()

    def primary(self):
        k, v = self.t[self.i]
        if k == "num":
            self.nx()
            if v.isdigit() and self.pk() == "'(":
                self.nx()
                e = self.expr()
                self.ex(")")
                return ("cast", ("num", int(v), 32, True), e)
            return number(v)
        if v == "(":
            self.nx()
            e = self.expr()
            self.ex(")")
            if self.pk() == "'(":
                self.nx()
                x = self.expr()
                self.ex(")")
                return ("cast", e, x)
            return e
        if v == "{":
            return self.concat()
        if v == "'{":
            self.nx()
            if self.acc("default"):
                self.ex(":")
                e = self.expr()
                self.ex("}")
                return ("fill", e)
            es = [self.expr()]
            while self.acc(","):
                es.append(self.expr())
            self.ex("}")
            return ("pat", es)
        if k == "id":
            n = self.nx()
            if n in ("signed", "unsigned", "int", "logic", "bit", "byte", "integer") and self.pk() == "'(":
                self.nx()
                e = self.expr()
                self.ex(")")
                if n in ("signed", "unsigned"):
                    return ("call", "$" + n, [e])
                w = {"int": 32, "integer": 32, "logic": 1, "bit": 1, "byte": 8}[n]
                c = ("cast", ("num", w, 32, True), e)
                return ("call", "$signed", [c]) if w > 1 else c
            if self.pk() == "'(":
                self.nx()
                e = self.expr()
                self.ex(")")
                return ("cast", ("id", n), e)
            if self.acc("("):
                args = []
                if not self.acc(")"):
                    args.append(self.expr())
                    while self.acc(","):
                        args.append(self.expr())
                    self.ex(")")
                return ("call", n, args)
            if n.startswith("$"):
                return ("call", n, [])
            return self.selects(("id", n))
        raise SVError("expression expected before %r" % " ".join(x[1] for x in self.t[self.i:self.i + 6]))

    def selects(self, e):
        while True:
            if self.pk() == "[":
                self.nx()
                a = self.expr()
                if self.acc(":"):
                    b = self.expr()
                    self.ex("]")
                    e = ("part", e, a, b)
                elif self.acc("+:"):
                    b = self.expr()
                    self.ex("]")
                    e = ("plus", e, a, b)
                elif self.acc("-:"):
                    b = self.expr()
                    self.ex("]")
                    e = ("minus", e, a, b)
                else:
                    self.ex("]")
                    e = ("idx", e, a)
            elif self.pk() == "." and self.kind(1) == "id":
                self.nx()
                e = ("dot", e, self.nx())
            else:
                return e

    def concat(self):
        self.ex("{")
        first = self.expr()
        if self.pk() == "{":
            inner = self.concat()
            self.ex("}")
            return self.tailsel(("rep", first, inner))
        es = [first]
        while self.acc(","):
            es.append(self.expr())
        self.ex("}")
        return self.tailsel(("cat", es))

    def tailsel(self, e):
        return self.selects(e) if self.pk() == "[" else e

    def lvalue(self):
        if self.pk() == "{":
            self.ex("{")
            es = [self.lvalue()]
            while self.acc(","):
                es.append(self.lvalue())
            self.ex("}")
            return ("cat", es)
        return self.selects(("id", self.ident()))

    # statements -------------------------------------------------
    def stmt(self):
        if self.kind() == "id" and self.pk(1) == ":" and self.pk() not in ("default", "begin", "fork"):
            self.nx()
            self.nx()
        v = self.pk()
        if v == ";":
            self.nx()
            return ("blk", [], [])
        if v == "begin":
            self.nx()
            if self.acc(":"):
                self.ident()
            decl, body = [], []
            while not self.acc("end"):
                if self.pk() in TYPES or (self.pk() in ("automatic", "static", "const")) or self.pk() in self.types:
                    decl += self.decl(local=True)
                    for d in decl[-1:]:
                        pass
                else:
                    body.append(self.stmt())
                # initialised declarations become assignments in order
                while decl and decl[-1][0] == "var" and decl[-1][5] is not None:
                    d = decl.pop()
                    body.append(("asg", "=", ("id", d[1]), d[5]))
                    decl.insert(0, ("var", d[1], d[2], d[3], d[4], None))
            if self.acc(":"):
                self.ident()
            return ("blk", decl, body)
        if v in ("unique", "priority", "unique0"):
            self.nx()
            return self.stmt()
        if v == "if":
            self.nx()
            self.ex("(")
            c = self.expr()
            self.ex(")")
            a = self.stmt()
            b = self.stmt() if self.acc("else") else None
            return ("if", c, a, b)
        if v in ("case", "casez", "casex"):
            self.nx()
            self.ex("(")
            c = self.expr()
            self.ex(")")
            inside = self.acc("inside")
            items = []
            while not self.acc("endcase"):
                if self.acc("default"):
                    self.acc(":")
                    items.append((None, self.stmt()))
                    continue
                labs = [self.expr()]
                while self.acc(","):
                    labs.append(self.expr())
                self.ex(":")
                items.append((labs, self.stmt()))
            return ("case", v if not inside else "casez", c, items)
        if v == "for":
            self.nx()
            self.ex("(")
            decl = []
            if self.pk() in TYPES:
                self.typ()
                n = self.ident()
                decl.append(n)
                self.ex("=")
                init = ("asg", "=", ("id", n), self.expr())
            else:
                init = self.simple()
            self.ex(";")
            c = self.expr()
            self.ex(";")
            step = self.simple()
            self.ex(")")
            return ("for", decl, init, c, step, self.stmt())
        if v == "do":
            self.nx()
            body = self.stmt()
            self.ex("while")
            self.ex("(")
            c = self.expr()
            self.ex(")")
            self.ex(";")
            return ("blk", [], [body, ("while", c, body)])
        if v in ("break", "continue"):
            self.nx()
            self.ex(";")
            return (v,)
        if v == "while":
            self.nx()
            self.ex("(")
            c = self.expr()
            self.ex(")")
            return ("while", c, self.stmt())
        if v == "repeat":
            self.nx()
            self.ex("(")
            c = self.expr()
            self.ex(")")
            return ("repeat", c, self.stmt())
        if v == "return":
            self.nx()
            e = None if self.pk() == ";" else self.expr()
            self.ex(";")
            return ("ret", e)
        if v in ("assert", "assume", "cover"):
            self.nx()
            while not self.acc(";"):
                self.nx()
            return ("blk", [], [])
        if v.startswith("$"):
            self.nx()
            d = 0
            while not (self.pk() == ";" and d == 0):
                d += (self.pk() == "(") - (self.pk() == ")")
                self.nx()
            self.nx()
            return ("blk", [], [])
        s = self.simple(True)
        self.ex(";")
        return s

    def simple(self, nba=False):
        if self.pk() in ("++", "--"):
            op = self.nx()
            lv = self.lvalue()
            return ("asg", "=", lv, ("bin", op[0], lv, ("num", 1, 32, True)))
        if self.pk() == "void" and self.pk(1) == "'(":
            self.nx()
            self.nx()
            n = self.ident()
            self.ex("(")
            args = self.args()
            self.ex(")")
            return ("callst", n, args)
        if self.kind() == "id" and self.pk(1) in ("(", ";"):
            n = self.ident()
            return ("callst", n, self.args() if self.acc("(") else [])
        lv = self.lvalue()
        op = self.nx()
        if op in ("++", "--"):
            return ("asg", "=", lv, ("bin", op[0], lv, ("num", 1, 32, True)))
        if op == "=" or (op == "<=" and nba):
            if self.acc("#"):
                self.nx()
            return ("asg", op, lv, self.expr())
        if op.endswith("=") and op[:-1] in BIN:
            return ("asg", "=", lv, ("bin", op[:-1], lv, self.expr()))
        raise SVError("assignment expected before %r" % op)

    def args(self):
        out = []
        while not self.acc(")"):
            out.append(self.expr())
            if self.pk() != ")":
                self.ex(",")
        return out

    # declarations -----------------------------------------------
    def ranges(self):
        rs = []
        while self.pk() == "[":
            self.nx()
            a = self.expr()
            if self.acc(":"):
                rs.append((a, self.expr()))
            else:
                rs.append((("num", 0, 32, True), ("bin", "-", a, ("num", 1, 32, True))))
            self.ex("]")
        return rs

    def typ(self):
        """-> (base, signed, packed ranges)"""
        base, sg = "logic", None
        seen = False
        while self.pk() in TYPES or self.pk() in ("automatic", "static", "const"):
            v = self.nx()
            seen = True
            if v in TYPES and v not in ("var",):
                base = v
        if not seen and self.pk() in self.types and self.kind(1) in ("id",):
            base, sg, rs = self.types[self.nx()]
            return base, sg, rs + self.ranges()
        if self.acc("signed"):
            sg = True
        elif self.acc("unsigned"):
            sg = False
        rs = self.ranges()
        wide = {"integer": 32, "int": 32, "genvar": 32, "byte": 8, "shortint": 16, "longint": 64}.get(base)
        if wide:
            sg = True if sg is None else sg
            rs = [(("num", wide - 1, 32, True), ("num", 0, 32, True))]
        return base, bool(sg), rs

    def decl(self, local=False):
        base, sg, rs = self.typ()
        out = []
        while True:
            n = self.ident()
            un = self.ranges()
            init = self.expr() if self.acc("=") else None
            out.append(("genvar", n) if base == "genvar" else ("var", n, sg, rs, un, init, base))
            if not self.acc(","):
                break
        self.ex(";")
        return out

    # modules ----------------------------------------------------
    def file(self):
        mods = {}
        while self.kind() != "eof":
            if self.pk() == "module":
                m = self.module()
                mods[m["name"]] = m
            elif self.pk() == "typedef":
                self.typedef()
            elif self.pk() == ";":
                self.nx()
            elif self.pk() in ("parameter", "localparam"):
                raise SVError("file-scope parameter")
            else:
                raise SVError("module expected before %r" % " ".join(x[1] for x in self.t[self.i:self.i + 6]))
        return mods

    def typedef(self):
        self.ex("typedef")
        if self.acc("enum"):
            base = self.typ() if self.pk() != "{" else ("int", True, [(("num", 31, 32, True), ("num", 0, 32, True))])
            self.ex("{")
            val, items = None, []
            while True:
                n = self.ident()
                e = self.expr() if self.acc("=") else (("bin", "+", val, ("num", 1, 32, True)) if val else ("num", 0, 32, True))
                val = e
                items.append(("param", n, base[2], base[1], e, True))
                if not self.acc(","):
                    break
            self.ex("}")
            n = self.ident()
            self.ex(";")
            self.types[n] = base
            return items
        t = self.typ()
        n = self.ident()
        self.ex(";")
        self.types[n] = t
        return []

    def params(self, local):
        out = []
        rs, sg = [], None
        if self.pk() in TYPES or self.pk() in ("signed", "unsigned", "["):
            _, sg, rs = self.typ()
        while True:
            n = self.ident()
            self.ranges()
            self.ex("=")
            out.append(("param", n, rs, sg, self.expr(), local))
            if self.pk() == "," and self.kind(1) == "id" and self.pk(1) not in ("parameter", "localparam") and self.pk(2) == "=":
                self.nx()
                continue
            return out

    def module(self):
        self.ex("module")
        self.acc("automatic")
        name = self.ident()
        params, ports, items = [], [], []
        if self.acc("#"):
            self.ex("(")
            loc = False
            while not self.acc(")"):
                if self.acc("parameter"):
                    loc = False
                elif self.acc("localparam"):
                    loc = True
                params += self.params(loc)
                if self.pk() != ")":
                    self.ex(",")
        if self.acc("("):
            d = None
            while not self.acc(")"):
                if self.pk() in ("input", "output", "inout"):
                    dirn = self.nx()
                    base, sg, rs = self.typ()
                    d = (dirn, base, sg, rs)
                elif self.pk() in TYPES and d:
                    base, sg, rs = self.typ()
                    d = (d[0], base, sg, rs)
                n = self.ident()
                un = self.ranges()
                if d is None:
                    ports.append((n, None, None, None, None))
                else:
                    ports.append((n, d[0], d[2], d[3], un))
                if self.pk() != ")":
                    self.ex(",")
        self.ex(";")
        while not self.acc("endmodule"):
            items += self.item(ports)
        if self.acc(":"):
            self.ident()
        if any(p[1] is None for p in ports):
            raise SVError("port %s of %s has no direction" % ([p[0] for p in ports if p[1] is None][0], name))
        return dict(name=name, params=params, ports=ports, items=items)

    def item(self, ports=None):
        v = self.pk()
        if v == ";":
            self.nx()
            return []
        if v in ("input", "output", "inout"):
            dirn = self.nx()
            base, sg, rs = self.typ()
            while True:
                n = self.ident()
                un = self.ranges()
                for k, p in enumerate(ports):
                    if p[0] == n:
                        ports[k] = (n, dirn, sg, rs, un)
                        break
                else:
                    raise SVError("port %s not in the port list" % n)
                if not self.acc(","):
                    break
            self.ex(";")
            return []
        if v in ("parameter", "localparam"):
            self.nx()
            out = []
            while True:
                out += self.params(v == "localparam")
                if not self.acc(","):
                    break
            self.ex(";")
            return out
        if v == "typedef":
            return self.typedef()
        if v in TYPES or (v in self.types and self.kind(1) == "id"):
            return self.decl()
        if v == "assign":
            self.nx()
            out = []
            while True:
                lv = self.lvalue()
                self.ex("=")
                out.append(("assign", lv, self.expr()))
                if not self.acc(","):
                    break
            self.ex(";")
            return out
        if v in ("always_comb", "always_latch"):
            self.nx()
            return [("comb", self.stmt())]
        if v in ("always_ff", "always"):
            self.nx()
            self.ex("@")
            if self.acc("*"):
                return [("comb", self.stmt())]
            self.ex("(")
            if self.acc("*"):
                self.ex(")")
                return [("comb", self.stmt())]
            sens = []
            while True:
                if self.pk() in ("posedge", "negedge"):
                    e = self.nx()
                    sens.append((e, self.expr()))
                else:
                    sens.append(("any", self.expr()))
                if self.acc("iff"):
                    raise SVError("iff")
                if not (self.acc(",") or self.acc("or")):
                    break
            self.ex(")")
            if all(s[0] == "any" for s in sens):
                if v == "always_ff":
                    raise SVError("always_ff without an edge")
                return [("comb", self.stmt())]
            if any(s[0] == "any" for s in sens):
                raise SVError("mixed sensitivity")
            return [("ff", sens, self.stmt())]
        if v == "initial":
            self.nx()
            return [("initial", self.stmt())]
        if v in ("assert", "assume", "cover", "final") or (self.pk(1) == ":" and self.pk(2) in ("assert", "assume", "cover")):
            if self.pk(1) == ":":
                self.nx()
                self.nx()
            self.stmt() if self.pk() != "final" else (self.nx(), self.stmt())
            return []
        if v in ("function", "task"):
            self.nx()
            self.acc("automatic") or self.acc("static")
            if v == "task" or self.acc("void"):
                t = None
            elif self.kind() == "id" and self.pk(1) in ("(", ";") and self.pk() not in TYPES:
                t = ("logic", False, [])
            else:
                t = self.typ()
            n = self.ident()
            args = []       # name, type, direction
            dirs = ("input", "output", "inout")
            if self.acc("("):
                d, k = ("logic", False, []), "input"
                while not self.acc(")"):
                    if self.pk() in dirs:
                        k = self.nx()
                        d = self.typ()
                    elif self.pk() in TYPES or self.pk() in ("signed", "unsigned", "["):
                        d = self.typ()
                    args.append((self.ident(), d, k))
                    if self.pk() != ")":
                        self.ex(",")
            self.ex(";")
            decl, body = [], []
            while not self.acc("end" + v):
                if self.pk() in dirs:
                    k = self.nx()
                    d = self.typ()
                    while True:
                        args.append((self.ident(), d, k))
                        if not self.acc(","):
                            break
                    self.ex(";")
                elif self.pk() in TYPES or self.pk() in ("automatic", "static", "const") or self.pk() in self.types:
                    for x in self.decl(local=True):
                        decl.append(x[:5] + (None,) + x[6:])
                        if x[5] is not None:
                            body.append(("asg", "=", ("id", x[1]), x[5]))
                else:
                    body.append(self.stmt())
            if self.acc(":"):
                self.ident()
            return [("func", n, t, args, ("blk", decl, body))]
        if v == "generate":
            self.nx()
            out = []
            while not self.acc("endgenerate"):
                out += self.item()
            return out
        if v == "begin":
            return [self.genblock()]
        if v == "for":
            self.nx()
            self.ex("(")
            self.acc("genvar") or self.acc("int") or self.acc("integer")
            n = self.ident()
            self.ex("=")
            init = self.expr()
            self.ex(";")
            c = self.expr()
            self.ex(";")
            step = self.simple()
            self.ex(")")
            return [("gfor", n, init, c, step, self.genblock())]
        if v == "if":
            self.nx()
            self.ex("(")
            c = self.expr()
            self.ex(")")
            a = self.genblock()
            b = self.genblock() if self.acc("else") else None
            return [("gif", c, a, b)]
        if self.kind() == "id":
            mod = self.nx()
            ov = []
            if self.acc("#"):
                self.ex("(")
                ov = self.conns()
            out = []
            while True:
                n = self.ident()
                self.ranges()
                self.ex("(")
                out.append(("inst", mod, ov, n, self.conns()))
                if not self.acc(","):
                    break
            self.ex(";")
            return out
        raise SVError("unexpected %r" % " ".join(x[1] for x in self.t[self.i:self.i + 6]))

    def genblock(self):
        if self.acc("begin"):
            n = self.ident() if self.acc(":") else None
            out = []
            while not self.acc("end"):
                out += self.item()
            if self.acc(":"):
                self.ident()
            return ("gblk", n, out)
        return ("gblk", None, self.item())

    def conns(self):
        """After '(' : list of (name or None, expr or None); '.*' as ('*', None)."""
        out = []
        if self.acc(")"):
            return out
        while True:
            if self.acc(".*"):
                out.append(("*", None))
            elif self.acc("."):
                n = self.ident()
                if self.acc("("):
                    e = None if self.pk() == ")" else self.expr()
                    self.ex(")")
                else:
                    e = ("id", n)
                out.append((n, e))
            else:
                out.append((None, self.expr()))
            if self.acc(")"):
                return out
            self.ex(",")


def number(v):
    v = v.replace("_", "").replace(" ", "").replace("\t", "")
    if "'" not in v:
        return ("num", int(v), 32, True)
    a, b = v.split("'", 1)
    if b in ("0", "1"):
        return ("fillnum", int(b))
    sg = b[0] in "sS"
    if sg:
        b = b[1:]
    base = {"b": 2, "o": 8, "d": 10, "h": 16}.get(b[0].lower())
    if base is None:
        return ("fillnum", 0)
    w = int(a) if a else 32
    digs = b[1:].lower()
    care = None
    if re.search("[xz?]", digs):
        if base == 10:
            return ("num", 0, w, sg, (1 << w) - 1)
        k = {2: 1, 8: 3, 16: 4}[base]
        care = 0
        for ch in digs:
            care = (care << k) | (0 if ch in "xz?" else (1 << k) - 1)
        if digs[0] not in "xz?":
            care |= ((1 << w) - 1) & ~((1 << (k * len(digs))) - 1)
        digs = re.sub("[xz?]", "0", digs)
    n = int(digs, base) & ((1 << w) - 1)
    return ("num", n, w, sg) if care is None else ("num", n, w, sg, ((1 << w) - 1) & ~care)


# ---------------------------------------------------------------- elaboration and code generation
class Var:
    __slots__ = ("slot", "dims", "elem", "width", "signed", "name", "local")

    def __init__(self, slot, dims, signed, name, local=None):
        self.slot = slot        # index in the state list (None for a local)
        self.dims = dims        # [(left, right)] outermost first, unpacked then packed
        self.signed = signed
        self.name = name
        self.local = local
        w = 1
        for a, b in dims:
            w *= abs(a - b) + 1
        self.width = w


class Const:
    __slots__ = ("value", "width", "signed")

    def __init__(self, value, width, signed):
        self.value = value & ((1 << width) - 1)
        self.width = width
        self.signed = signed

    def num(self):
        v = self.value
        return v - (1 << self.width) if self.signed and v >> (self.width - 1) else v


def sx(v, w):
    return v - (1 << w) if v >> (w - 1) & 1 else v


def sdiv(a, b):
    if b == 0:
        return 0
    q = abs(a) // abs(b)
    return q if (a < 0) == (b < 0) else -q


def smod(a, b):
    return 0 if b == 0 else a - b * sdiv(a, b)


class Scope:
    def __init__(self, parent=None):
        self.n = {}
        self.parent = parent

    def get(self, k):
        s = self
        while s is not None:
            if k in s.n:
                return s.n[k]
            s = s.parent
        raise SVError("undeclared identifier %s" % k)

    def has(self, k):
        try:
            self.get(k)
            return True
        except SVError:
            return False


class Design:
    """One elaborated top module."""

    def __init__(self, mods, top, params=None):
        self.mods = mods
        self.vars = []
        self.code = []          # generated function sources
        self.comb = []          # names of combinational processes
        self.ff = []            # (name, [(edge, slot, bit)])
        self.init = []
        self.nf = 0
        self.loops = []
        self.depth = 0
        self.writers = {}
        self.top = top
        scope = Scope()
        self.ports = {}
        if top not in mods:
            raise SVError("no module %s" % top)
        self.module(mods[top], {k: Const(v, 32, True) for k, v in (params or {}).items()}, scope, top)
        for p in mods[top]["ports"]:
            self.ports[p[0]] = (p[1], scope.get(p[0]))
        g = dict(sx=sx, sdiv=sdiv, smod=smod)
        src = "\n".join(self.code)
        exec(compile(src, "<rtl %s>" % top, "exec"), g)
        self.src = src
        self.f_comb = [g[n] for n in self.comb]
        self.f_ff = [(g[n], s) for n, s in self.ff]
        self.f_init = [g[n] for n in self.init]
        self.S = [0] * len(self.vars)
        self.order = None       # callable permuting the list of triggered processes
        self.edge_slots = sorted({s for _, sens in self.ff for _, s, _ in sens})

    # -- elaboration ------------------------------------------------
    def new(self, dims, signed, name):
        v = Var(len(self.vars), dims, signed, name)
        self.vars.append(v)
        return v

    def const(self, e, sc):
        w, s = self.size(e, sc)
        code = self.gen(e, max(w, 1), s, sc)
        v = eval(code, dict(sx=sx, sdiv=sdiv, smod=smod), {})
        return Const(v, max(w, 1), s)

    def cint(self, e, sc):
        return self.const(e, sc).num()

    def dims(self, rs, sc):
        return [(self.cint(a, sc), self.cint(b, sc)) for a, b in rs]

    def module(self, m, over, sc, path):
        left = dict(over)
        pos = [k for k in left if isinstance(k, int)]
        names = [p[1] for p in m["params"] if not p[5]]
        for k in pos:
            if k >= len(names):
                raise SVError("too many parameters for %s" % m["name"])
            left[names[k]] = left.pop(k)

        def par(p):
            _, n, rs, sg, e, local = p
            c = self.const(e, sc)
            if n in left and not local:
                c = left.pop(n)
            if rs:
                d = self.dims(rs, sc)
                w = 1
                for a, b in d:
                    w *= abs(a - b) + 1
                c = Const(c.num(), w, bool(sg))
            sc.n[n] = c
        for p in m["params"]:
            par(p)
        items = m["items"]
        # body parameters must be known before ports that use them
        for it in items:
            if it[0] == "param":
                par(it)
        if left:
            raise SVError("%s has no parameter %s" % (m["name"], list(left)[0]))
        for n, d, sg, rs, un in m["ports"]:
            sc.n[n] = self.new(self.dims(un, sc) + self.dims(rs, sc), bool(sg), path + "." + n)
        self.items(items, sc, path, {p[0] for p in m["ports"]})

    def items(self, items, sc, path, ports=()):
        for it in items:        # declarations first: order in the source does not matter here
            if it[0] == "var":
                if it[1] in ports and not (it[3] or it[4]):
                    continue        # repeats the port; with ranges it completes the port's declaration
                sc.n[it[1]] = self.new(self.dims(it[4], sc) + self.dims(it[3], sc), it[2], path + "." + it[1])
                if it[5] is not None:
                    (self.init if it[6] != "wire" else self.comb).append(self.proc(("asg", "=", ("id", it[1]), it[5]), sc))
            elif it[0] == "func":
                sc.n[it[1]] = it
            elif it[0] == "param" and it[1] not in sc.n:
                sc.n[it[1]] = self.const(it[4], sc)
        for it in items:
            k = it[0]
            if k == "assign":
                self.comb.append(self.proc(("asg", "=", it[1], it[2]), sc))
            elif k == "comb":
                self.comb.append(self.proc(it[1], sc))
            elif k == "initial":
                self.init.append(self.proc(it[1], sc))
            elif k == "ff":
                sens = []
                for e, x in it[1]:
                    b = 0
                    if x[0] == "idx":
                        b = self.cint(x[2], sc)
                        x = x[1]
                    if x[0] != "id":
                        raise SVError("event expression")
                    v = sc.get(x[1])
                    sens.append((e, v.slot, b))
                self.ff.append((self.proc(it[2], sc), sens))
            elif k == "inst":
                self.inst(it, sc, path)
            elif k == "gif":
                c = self.cint(it[1], sc)
                b = it[2] if c else it[3]
                if b:
                    self.gblock(b, sc, path)
            elif k == "gblk":
                self.gblock(it, sc, path)
            elif k == "gfor":
                _, n, init, c, step, blk = it
                s2 = Scope(sc)
                s2.n[n] = self.const(init, sc)
                for j in range(5000):
                    if not self.cint(c, s2):
                        break
                    s3 = Scope(s2)
                    s3.n[n] = s2.n[n]
                    self.gblock(blk, s3, "%s.%s[%d]" % (path, blk[1] or "g", j), own=True)
                    s2.n[n] = Const(self.const(step[3], s2).num(), 32, True)
                else:
                    raise SVError("generate loop does not end")

    def gblock(self, b, sc, path, own=False):
        s = sc if own else Scope(sc)
        self.items(b[2], s, path + "." + (b[1] or "g"))

    def inst(self, it, sc, path):
        _, mod, ov, name, conns = it
        if mod not in self.mods:
            raise SVError("unknown module %s" % mod)
        m = self.mods[mod]
        over = {}
        for k, (n, e) in enumerate(ov):
            if e is not None:
                over[k if n is None else n] = self.const(e, sc)
        s2 = Scope()
        self.module(m, over, s2, path + "." + name)
        pn = [p[0] for p in m["ports"]]
        cmap = {}
        for k, (n, e) in enumerate(conns):
            if n == "*":
                for q in pn:
                    cmap.setdefault(q, ("id", q))
                continue
            if n is None:
                if k >= len(pn):
                    raise SVError("too many ports on %s" % name)
                n = pn[k]
            if n not in pn:
                raise SVError("%s has no port %s" % (mod, n))
            cmap[n] = e
        for n, d, _, _, _ in m["ports"]:
            e = cmap.get(n)
            if e is None:
                continue
            both = Scope(sc)
            both.n["\\" + n] = s2.n[n]
            port = ("id", "\\" + n)
            if d == "input":
                self.comb.append(self.proc(("asg", "=", port, e), both))
            else:
                self.comb.append(self.proc(("asg", "=", e, port), both))

    # -- processes ----------------------------------------------------
    def proc(self, st, sc):
        self.nf += 1
        name = "p%d" % self.nf
        lines = ["def %s(S, N):" % name]
        self.stmt(st, Scope(sc), lines, 1)
        lines.append("    return")
        self.code.append("\n".join(lines))
        return name

    def local(self, n, dims, signed, sc):
        self.nf += 1
        v = Var(None, dims, signed, n, "v%d_%s" % (self.nf, re.sub(r"\W", "_", n)))
        sc.n[n] = v
        return v

    def stmt(self, st, sc, L, d):
        pad = "    " * d
        k = st[0]
        if k == "blk":
            s2 = Scope(sc)
            for x in st[1]:
                v = self.local(x[1], self.dims(x[4], sc) + self.dims(x[3], sc), x[2], s2)
                L.append("%s%s = 0" % (pad, v.local))
            for x in st[2]:
                self.stmt(x, s2, L, d)
            if not st[2]:
                L.append(pad + "pass")
        elif k == "if":
            L.append("%sif %s:" % (pad, self.cond(st[1], sc)))
            self.stmt(st[2], sc, L, d + 1)
            if st[3] is not None:
                L.append(pad + "else:")
                self.stmt(st[3], sc, L, d + 1)
        elif k == "case":
            _, kind, c, items = st
            es = [c] + [l for labs, _ in items if labs for l in labs]
            zs = [self.size(e, sc) for e in es]
            w = max(z[0] for z in zs)
            s = all(z[1] for z in zs)
            self.nf += 1
            t = "c%d" % self.nf
            L.append("%s%s = %s" % (pad, t, self.gen(c, w, s, sc)))
            first = True
            dflt = None
            for labs, body in items:
                if labs is None:
                    dflt = body
                    continue
                cs = []
                for l in labs:
                    if l[0] == "num" and len(l) == 5:
                        if kind == "case":
                            raise SVError("x or z in a case label")
                        cs.append("(%s & %d) == %d" % (t, ((1 << w) - 1) & ~l[4], l[1]))
                    else:
                        cs.append("%s == %s" % (t, self.gen(l, w, s, sc)))
                L.append("%s%s %s:" % (pad, "if" if first else "elif", " or ".join(cs)))
                first = False
                self.stmt(body, sc, L, d + 1)
            if dflt is not None:
                if first:
                    self.stmt(dflt, sc, L, d)
                else:
                    L.append(pad + "else:")
                    self.stmt(dflt, sc, L, d + 1)
        elif k == "for":
            _, decl, init, c, step, body = st
            s2 = Scope(sc)
            for n in decl:
                self.local(n, [(31, 0)], True, s2)
            self.stmt(init, s2, L, d)
            L.append("%swhile %s:" % (pad, self.cond(c, s2)))
            self.body(body, s2, L, d + 1)
            self.stmt(step, s2, L, d + 1)
        elif k == "while":
            L.append("%swhile %s:" % (pad, self.cond(st[1], sc)))
            self.body(st[2], sc, L, d + 1)
        elif k == "repeat":
            self.nf += 1
            L.append("%sfor r%d in range(%s):" % (pad, self.nf, self.self_(st[1], sc)))
            self.body(st[2], sc, L, d + 1)
        elif k in ("break", "continue"):
            if not self.loops:
                raise SVError("%s outside a loop" % k)
            if k == "break":
                L.append("%s%s = 1" % (pad, self.loops[-1]))
            L.append(pad + "break")
        elif k == "callst":
            self.call(st, sc, L, d)
        elif k == "asg":
            self.assign(st[1], st[2], st[3], sc, L, d)
        elif k == "ret":
            if st[1] is not None:
                f = sc.get("\\return")
                L.append("%sreturn %s" % (pad, self.assigned(st[1], f.width, sc)))
            else:
                L.append(pad + "return")
        else:
            raise SVError("statement " + k)

    def body(self, st, sc, L, d):
        """The body of a loop: a one-round Python loop, which both `break` and `continue` leave, when it has either."""
        text = repr(st)
        if "('break',)" not in text and "('continue',)" not in text:
            self.stmt(st, sc, L, d)
            return
        self.nf += 1
        pad = "    " * d
        flag = "k%d" % self.nf
        self.loops.append(flag)
        L.append("%s%s = 0" % (pad, flag))
        L.append("%sfor _ in (0,):" % pad)
        self.stmt(st, sc, L, d + 1)
        L.append("%sif %s:" % (pad, flag))
        L.append("%s    break" % pad)
        self.loops.pop()

    def call(self, st, sc, L, d):
        """A task or a void function, expanded in place."""
        _, n, args = st
        if n.startswith("$"):
            return
        f = sc.get(n)
        if not (isinstance(f, tuple) and f[0] == "func"):
            raise SVError("%s is no task" % n)
        if f[2] is not None:
            L.append("    " * d + self.func(f, args, sc))
            return
        _, _, _, formals, body = f
        if "('ret'," in repr(body):
            raise Unsupported("return from the task %s" % n)
        if len(args) != len(formals):
            raise SVError("arguments of %s" % n)
        home = sc
        while home is not None and home.n.get(n) is not f:
            home = home.parent
        s2 = Scope(home)
        both = Scope(sc)
        pad = "    " * d
        back = []
        for a, (q, t, way) in zip(args, formals):
            v = self.local(q, self.dims(t[2], home), t[1], s2)
            both.n["\\" + v.local] = v
            if way == "output":
                L.append("%s%s = 0" % (pad, v.local))
            else:
                L.append("%s%s = %s" % (pad, v.local, self.assigned(a, v.width, sc)))
            if way != "input":
                back.append((a, v))
        self.depth += 1
        if self.depth > 20:
            raise Unsupported("recursion of %s" % n)
        self.stmt(body, s2, L, d)
        self.depth -= 1
        for a, v in back:
            self.assign("=", a, ("id", "\\" + v.local), both, L, d)

    def assigned(self, e, w, sc):
        """Code of e as the right side of an assignment to w bits."""
        if e[0] in ("fill", "pat"):
            raise SVError("assignment pattern")
        ew, s = self.size(e, sc)
        W = max(ew, w)
        c = self.gen(e, W, s, sc)
        return c if W == w else "(%s) & %d" % (c, (1 << w) - 1)

    def assign(self, op, lv, e, sc, L, d):
        pad = "    " * d
        if lv[0] == "cat":
            parts = [self.target(x, sc) for x in lv[1]]
            w = sum(p[2] for p in parts)
            self.nf += 1
            t = "t%d" % self.nf
            L.append("%s%s = %s" % (pad, t, self.assigned(e, w, sc)))
            o = w
            for p in parts:
                o -= p[2]
                self.store(op, p, "(%s >> %d) & %d" % (t, o, (1 << p[2]) - 1), L, pad)
            return
        p = self.target(lv, sc)
        v = p[0]
        if e[0] == "pat" or e[0] == "fill":
            ew = v.width // (abs(v.dims[0][0] - v.dims[0][1]) + 1)
            n = v.width // ew
            es = [e[1]] * n if e[0] == "fill" else e[1]
            if len(es) != n or p[2] != v.width:
                raise SVError("assignment pattern")
            code = " | ".join("((%s) << %d)" % (self.assigned(x, ew, sc), (n - 1 - k) * ew) for k, x in enumerate(es))
            self.store(op, p, code, L, pad)
            return
        self.store(op, p, self.assigned(e, p[2], sc), L, pad)

    def store(self, op, p, code, L, pad):
        v, off, w, guard = p
        if v.local is not None:
            if w == v.width:
                L.append("%s%s = %s" % (pad, v.local, code))
            else:
                L.append("%s_o = %s; %s = (%s & ~(%d << _o)) | ((%s) << _o)" % (pad, off, v.local, v.local, (1 << w) - 1, code))
            return
        if guard:
            L.append("%sif 0 <= (%s) <= %d:" % (pad, off, v.width - w))
            pad += "    "
        if op == "=":
            if w == v.width:
                L.append("%sS[%d] = %s" % (pad, v.slot, code))
            else:
                L.append("%s_o = %s; S[%d] = (S[%d] & ~(%d << _o)) | ((%s) << _o)" % (pad, off, v.slot, v.slot, (1 << w) - 1, code))
        else:
            L.append("%sN.append((%d, %s, %d, %s))" % (pad, v.slot, off, (1 << w) - 1, code))

    def target(self, lv, sc):
        """-> (var, offset code, width, guard)"""
        v, off, w, dims, guard = self.locate(lv, sc)
        if isinstance(v, Const):
            raise SVError("assignment to a constant")
        return v, off, w, guard

    def locate(self, e, sc):
        """-> (var or const, offset code, width, remaining dims, guard needed)"""
        if e[0] == "id":
            v = sc.get(e[1])
            if isinstance(v, Const):
                return v, "0", v.width, [(v.width - 1, 0)], False
            if not isinstance(v, Var):
                raise SVError("%s is not a variable" % e[1])
            return v, "0", v.width, list(v.dims), False
        if e[0] in ("idx", "part", "plus", "minus"):
            v, off, w, dims, guard = self.locate(e[1], sc)
            if not dims:
                raise SVError("select of a scalar")
            (l, r), rest = dims[0], dims[1:]
            ew = 1
            for a, b in rest:
                ew *= abs(a - b) + 1
            n = abs(l - r) + 1

            def pos(code):
                return "(%s) - %d" % (code, r) if l >= r else "%d - (%s)" % (r, code)
            if e[0] == "idx":
                c = self.maybe(e[2], sc)
                i = self.signed_code(e[2], sc)
                if c is not None:
                    p = c - r if l >= r else r - c
                    if not 0 <= p < n:
                        raise SVError("index %d outside [%d:%d] of %s" % (c, l, r, getattr(v, "name", "?")))
                    return v, "%s + %d" % (off, p * ew), ew, rest, guard
                return v, "%s + (%s) * %d" % (off, pos(i), ew), ew, rest, True
            if e[0] == "part":
                a, b = self.cint(e[2], sc), self.cint(e[3], sc)
                lo = (b - r) if l >= r else (r - b)
                hi = (a - r) if l >= r else (r - a)
                if lo > hi or lo < 0 or hi >= n:
                    raise SVError("part select [%d:%d] of [%d:%d]" % (a, b, l, r))
                k = hi - lo + 1
                return v, "%s + %d" % (off, lo * ew), k * ew, [(k - 1, 0)] + rest, guard
            k = self.cint(e[3], sc)
            i = self.signed_code(e[2], sc)
            base = i if (e[0] == "plus") == (l >= r) else "(%s) - %d" % (i, k - 1) if l >= r else "(%s) + %d" % (i, k - 1)
            return v, "%s + (%s) * %d" % (off, pos(base), ew), k * ew, [(k - 1, 0)] + rest, True
        raise SVError("select of an expression")

    def maybe(self, e, sc):
        """Constant value of an expression, or None."""
        if not self.is_const(e, sc):
            return None
        return self.cint(e, sc)

    def is_const(self, e, sc):
        k = e[0]
        if k in ("num", "fillnum"):
            return True
        if k == "id":
            return isinstance(sc.get(e[1]), Const)
        if k == "bin":
            return self.is_const(e[2], sc) and self.is_const(e[3], sc)
        if k == "un":
            return self.is_const(e[2], sc)
        if k == "tern":
            return all(self.is_const(x, sc) for x in e[1:])
        if k == "call":
            return e[1] == "$bits" or (e[1].startswith("$") and all(self.is_const(x, sc) for x in e[2]))
        if k == "cat":
            return all(self.is_const(x, sc) for x in e[1])
        if k == "rep":
            return self.is_const(e[2], sc)
        if k == "cast":
            return self.is_const(e[2], sc)
        return False

    # -- expressions ---------------------------------------------------
    def size(self, e, sc):
        """Self-determined (width, signed)."""
        k = e[0]
        if k == "num":
            return e[2], e[3]
        if k == "fillnum":
            return 1, False
        if k == "id":
            v = sc.get(e[1])
            if isinstance(v, (Var, Const)):
                return v.width, v.signed
            raise SVError("%s used as a value" % e[1])
        if k in ("idx", "part", "plus", "minus"):
            if e[1][0] in ("cat", "rep"):
                return (1 if k == "idx" else self.cint(e[2], sc) - self.cint(e[3], sc) + 1), False
            return self.locate(e, sc)[2], False
        if k == "un":
            if e[1] in ("+", "-", "~"):
                return self.size(e[2], sc)
            return 1, False
        if k == "bin":
            op = e[1]
            if op in ("&&", "||", "==", "!=", "===", "!==", "<", "<=", ">", ">="):
                return 1, False
            a = self.size(e[2], sc)
            if op in ("<<", ">>", "<<<", ">>>", "**"):
                return a
            b = self.size(e[3], sc)
            return max(a[0], b[0]), a[1] and b[1]
        if k == "tern":
            a, b = self.size(e[2], sc), self.size(e[3], sc)
            return max(a[0], b[0]), a[1] and b[1]
        if k == "cat":
            return sum(self.size(x, sc)[0] for x in e[1]), False
        if k == "rep":
            n = self.cint(e[1], sc)
            if n < 0:
                raise SVError("negative replication")
            return n * self.size(e[2], sc)[0], False
        if k == "cast":
            if e[1][0] == "id" and not sc.has(e[1][1]):
                raise SVError("cast to unknown type %s" % e[1][1])
            return self.cint(e[1], sc), self.size(e[2], sc)[1]
        if k == "call":
            n = e[1]
            if n == "$signed":
                return self.size(e[2][0], sc)[0], True
            if n == "$unsigned":
                return self.size(e[2][0], sc)[0], False
            if n in ("$clog2", "$bits", "$countones", "$size"):
                return 32, True
            if n in ("$onehot", "$onehot0", "$isunknown"):
                return 1, False
            f = sc.get(n)
            if isinstance(f, tuple) and f[0] == "func" and f[2] is not None:
                w = 1
                for a, b in self.dims(f[2][2], sc):
                    w *= abs(a - b) + 1
                return w, f[2][1]
        raise SVError("expression " + str(e[:2]))

    def self_(self, e, sc):
        w, s = self.size(e, sc)
        return self.gen(e, w, s, sc) if w else "0"

    def signed_code(self, e, sc):
        w, s = self.size(e, sc)
        c = self.gen(e, w, s, sc)
        return "sx(%s, %d)" % (c, w) if s else c

    def cond(self, e, sc):
        return "(%s)" % self.self_(e, sc)

    def ext(self, c, w, W, s):
        """c is a w-bit pattern; make it a W-bit pattern."""
        if W == w:
            return c
        if W < w:
            return "((%s) & %d)" % (c, (1 << W) - 1)
        return "(sx(%s, %d) & %d)" % (c, w, (1 << W) - 1) if s and w else c

    def gen(self, e, W, s, sc):
        """Python expression: e evaluated to a W-bit pattern in a context of W bits and signedness s."""
        k = e[0]
        m = (1 << W) - 1
        if k == "num":
            v = e[1]
            if s and e[3] and e[2] < W and v >> (e[2] - 1):
                v |= m & ~((1 << e[2]) - 1)
            return str(v & m)
        if k == "fillnum":
            return str(m if e[1] else 0)
        if k == "id":
            v = sc.get(e[1])
            if isinstance(v, Const):
                return str((v.num() if s else v.value) & m)
            c = v.local if v.local is not None else "S[%d]" % v.slot
            return self.ext(c, v.width, W, s)
        if k in ("idx", "part", "plus", "minus"):
            if e[1][0] in ("cat", "rep"):
                w0, _ = self.size(e[1], sc)
                lo = e[2] if k == "idx" else e[3]
                n = self.size(e, sc)[0]
                return self.ext("((%s >> %s) & %d)" % (self.gen(e[1], w0, False, sc), self.self_(lo, sc), (1 << n) - 1), n, W, False)
            v, off, w, _, guard = self.locate(e, sc)
            if isinstance(v, Const):
                c = str(v.value)
            else:
                c = v.local if v.local is not None else "S[%d]" % v.slot
            if guard:
                return self.ext("((%s >> max(0, %s)) & %d)" % (c, off, (1 << w) - 1), w, W, False)
            return self.ext("((%s >> (%s)) & %d)" % (c, off, (1 << w) - 1), w, W, False)
        if k == "un":
            op = e[1]
            if op == "+":
                return self.gen(e[2], W, s, sc)
            if op == "-":
                return "(-%s & %d)" % (self.gen(e[2], W, s, sc), m)
            if op == "~":
                return "(~%s & %d)" % (self.gen(e[2], W, s, sc), m)
            w, _ = self.size(e[2], sc)
            c = self.self_(e[2], sc)
            if op == "!":
                r = "(0 if %s else 1)" % c
            elif op in ("&", "~&"):
                r = "(%d if (%s) == %d else %d)" % (op == "&", c, (1 << w) - 1, op != "&")
            elif op in ("|", "~|"):
                r = "(%d if %s else %d)" % (op == "|", c, op != "|")
            else:
                r = "((bin(%s).count('1') + %d) & 1)" % (c, op != "^")
            return self.ext(r, 1, W, False)
        if k == "bin":
            op = e[1]
            if op in ("&&", "||"):
                r = "(1 if (%s) %s (%s) else 0)" % (self.self_(e[2], sc), "and" if op == "&&" else "or", self.self_(e[3], sc))
                return self.ext(r, 1, W, False)
            if op in ("==", "!=", "===", "!==", "<", "<=", ">", ">="):
                a, b = self.size(e[2], sc), self.size(e[3], sc)
                w, sg = max(a[0], b[0]), a[1] and b[1]
                x, y = self.gen(e[2], w, sg, sc), self.gen(e[3], w, sg, sc)
                if sg and op in ("<", "<=", ">", ">="):
                    x, y = "sx(%s, %d)" % (x, w), "sx(%s, %d)" % (y, w)
                return self.ext("(1 if %s %s %s else 0)" % (x, op[:2], y), 1, W, False)
            a = self.gen(e[2], W, s, sc)
            if op in ("<<", "<<<"):
                return "((%s << min(%s, 4096)) & %d)" % (a, self.self_(e[3], sc), m)
            if op == ">>" or (op == ">>>" and not s):
                return "(%s >> %s)" % (a, self.self_(e[3], sc))
            if op == ">>>":
                return "((sx(%s, %d) >> %s) & %d)" % (a, W, self.self_(e[3], sc), m)
            if op == "**":
                return "((%s ** %s) & %d)" % (a, self.self_(e[3], sc), m)
            b = self.gen(e[3], W, s, sc)
            if op in ("+", "-", "*"):
                return "((%s %s %s) & %d)" % (a, op, b, m)
            if op in ("/", "%"):
                if s:
                    a, b = "sx(%s, %d)" % (a, W), "sx(%s, %d)" % (b, W)
                return "(%s(%s, %s) & %d)" % ("sdiv" if op == "/" else "smod", a, b, m)
            if op in ("&", "|", "^"):
                return "(%s %s %s)" % (a, op, b)
            if op in ("~^", "^~"):
                return "(~(%s ^ %s) & %d)" % (a, b, m)
        if k == "tern":
            return "(%s if %s else %s)" % (self.gen(e[2], W, s, sc), self.self_(e[1], sc), self.gen(e[3], W, s, sc))
        if k == "cat":
            parts = []
            o = 0
            for x in reversed(e[1]):
                w, _ = self.size(x, sc)
                if w:
                    parts.append("((%s) << %d)" % (self.self_(x, sc), o))
                o += w
            return self.ext("(%s)" % " | ".join(parts or ["0"]), o, W, False)
        if k == "rep":
            n = self.cint(e[1], sc)
            w, _ = self.size(e[2], sc)
            mul = sum(1 << (w * i) for i in range(n))
            return self.ext("((%s) * %d)" % (self.self_(e[2], sc), mul), n * w, W, False)
        if k == "cast":
            w, sg = self.size(e, sc)
            return self.ext("((%s) & %d)" % (self.gen(e[2], max(w, self.size(e[2], sc)[0]), sg, sc), (1 << w) - 1), w, W, s)
        if k == "call":
            n = e[1]
            if n in ("$signed", "$unsigned"):
                w, sg = self.size(e, sc)
                return self.ext(self.self_(e[2][0], sc), w, W, s and sg)
            if n == "$clog2":
                v = self.cint(e[2][0], sc)
                return str(max(0, (v - 1).bit_length()) & m)
            if n in ("$bits", "$size"):
                return str(self.size(e[2][0], sc)[0] & m)
            if n == "$countones":
                return "(bin(%s).count('1') & %d)" % (self.self_(e[2][0], sc), m)
            if n in ("$onehot", "$onehot0"):
                return "(1 if bin(%s).count('1') %s 1 else 0)" % (self.self_(e[2][0], sc), "==" if n == "$onehot" else "<=")
            if n == "$isunknown":
                return "0"
            f = sc.get(n)
            if isinstance(f, tuple) and f[0] == "func":
                return self.ext(self.func(f, e[2], sc), self.size(e, sc)[0], W, s and f[2][1])
        raise SVError("expression " + str(e[:2]))

    def func(self, f, args, sc):
        _, n, t, formals, body = f
        if t is None:
            raise SVError("%s has no value" % n)
        if len(args) != len(formals):
            raise SVError("arguments of %s" % n)
        if any(q[2] != "input" for q in formals):
            raise Unsupported("output argument of %s" % n)
        key = "\\code_" + n
        home = sc
        while home is not None and home.n.get(n) is not f:
            home = home.parent
        w = self.size(("call", n, args), sc)[0]
        if key not in home.n:
            self.nf += 1
            fn = "f%d_%s" % (self.nf, n)
            home.n[key] = fn
            s2 = Scope(home)
            ret = self.local(n, [(w - 1, 0)], t[1], s2)
            s2.n["\\return"] = ret
            ps = [self.local(a, self.dims(d[2], home), d[1], s2) for a, d, _ in formals]
            L = ["def %s(S%s):" % (fn, "".join(", " + p.local for p in ps)), "    N = []", "    %s = 0" % ret.local]
            self.stmt(body, s2, L, 1)
            L.append("    return %s" % ret.local)
            self.code.append("\n".join(L))
        cs = []
        for a, (_, d, _) in zip(args, formals):
            aw = 1
            for l, r in self.dims(d[2], home):
                aw *= abs(l - r) + 1
            cs.append(self.assigned(a, aw, sc))
        return "%s(S%s)" % (home.n[key], "".join(", " + c for c in cs))

    # -- simulation ------------------------------------------------------
    def power_up(self, rnd=None):
        """Contents of every variable before the first reset: rnd(width) or 0."""
        for i, v in enumerate(self.vars):
            self.S[i] = rnd(v.width) if rnd and v.slot is not None else 0
        for f in self.f_init:
            self.run(f)
        self.settle()
        self.prev = [self.S[i] for i in self.edge_slots]

    def run(self, f):
        N = []
        f(self.S, N)
        self.commit(N)

    def commit(self, N):
        S = self.S
        for slot, off, mask, v in N:
            S[slot] = (S[slot] & ~(mask << off)) | ((v & mask) << off)

    def settle(self):
        """Combinational logic to its fixed point."""
        S = self.S
        procs = self.f_comb
        if self.order:
            procs = self.order(list(procs))
        for _ in range(2 * len(procs) + 50):
            before = list(S)
            for f in procs:
                N = []
                f(S, N)
                if N:
                    self.commit(N)
            if S == before:
                return
        raise SVError("combinational loop does not settle")

    def set(self, **inputs):
        """Drive input ports, then let every consequence happen."""
        for k, v in inputs.items():
            d, var = self.ports[k]
            if d != "input":
                raise SVError("%s is not an input" % k)
            self.S[var.slot] = v & ((1 << var.width) - 1)
        self.settle()
        for _ in range(100):
            cur = [self.S[i] for i in self.edge_slots]
            old = dict(zip(self.edge_slots, self.prev))
            new = dict(zip(self.edge_slots, cur))
            self.prev = cur
            trig = []
            for f, sens in self.f_ff:
                for e, slot, b in sens:
                    o, n = old[slot] >> b & 1, new[slot] >> b & 1
                    if o != n and (n == 1) == (e == "posedge"):
                        trig.append(f)
                        break
            if not trig:
                return
            if self.order:
                trig = self.order(trig)
            N = []
            for f in trig:
                f(self.S, N)
            self.commit(N)
            self.settle()
        raise SVError("edges never stop")

    def out(self, name):
        d, var = self.ports[name]
        return self.S[var.slot]


def load(files, lib_dirs=()):
    """Compile files (with their includes) into one module table."""
    lib = {}
    for d in lib_dirs:
        for root, _, names in os.walk(d):
            for n in names:
                if n.endswith((".sv", ".v", ".svh")):
                    lib.setdefault(n, os.path.join(root, n))
    out, seen, macros = [], set(), {}
    for f in files:
        preprocess(f, macros, seen, out, lib)
    toks = lex("\n".join(out))
    try:
        return Parser(toks).file()
    except Unsupported:
        raise
    except SVError as e:
        odd = sorted({v for k, v in toks if k == "id" and v in FOREIGN})
        if odd:
            raise Unsupported("%s (uses %s)" % (e, ", ".join(odd)))
        raise
