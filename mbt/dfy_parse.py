"""Parser for the Dafny sources of /repo, including the linear-types dialect VeriBetrKV is written in.

Everything is parsed to plain tuples; clauses of specifications are kept, proof statements become ('nop',).
Statements and expressions are described next to the productions.
"""
import re
import sys

sys.setrecursionlimit(100000)


class ParseError(Exception):
    pass


TOKEN = re.compile(r"""
    (?P<ws>\s+)
  | (?P<lc>//[^\n]*)
  | (?P<char>'(?:\\u[0-9a-fA-F]{4}|\\.|[^'\\\n])'(?![A-Za-z0-9_]))
  | (?P<str>"(?:\\.|[^"\\])*"|@"(?:""|[^"])*")
  | (?P<num>0x[0-9a-fA-F_]+|[0-9][0-9_]*(?:\.[0-9]+(?![0-9]))?)
  | (?P<id>[A-Za-z_'?][A-Za-z0-9_'?]*)
  | (?P<op><==>|==>|<==|:\||::|:=|=>|->|-->|~>|==|!=|!!|<=|>=|&&|\|\||\.\.\.|\.\.|<<|[-+*/%!&|^<>=.,;:(){}\[\]@~$\#`])
""", re.X)


def tokenize(src, fname="?"):
    toks, i, n, line = [], 0, len(src), 1
    while i < n:
        if src.startswith("/*", i):
            depth, j = 1, i + 2
            while depth and j < n:
                if src.startswith("/*", j):
                    depth += 1
                    j += 2
                elif src.startswith("*/", j):
                    depth -= 1
                    j += 2
                else:
                    j += 1
            line += src.count("\n", i, j)
            i = j
            continue
        m = TOKEN.match(src, i)
        if not m:
            raise ParseError(f"{fname}:{line}: bad character {src[i]!r}")
        k = m.lastgroup
        t = m.group()
        if k == "num" and t.endswith("."):
            t = t[:-1]
        if k not in ("ws", "lc"):
            toks.append((k, t, line))
        line += t.count("\n")
        i += len(t)
    toks.append(("eof", "", line))
    return toks


DECL = {"module", "import", "export", "datatype", "codatatype", "type", "newtype", "class", "trait", "function", "predicate", "lemma",
        "method", "const", "iterator", "colemma", "copredicate", "inductive", "least", "greatest", "twostate", "ghost", "static",
        "abstract", "linear", "shared", "glinear", "gshared", "inout", "opaque", "protected", "constructor", "var", "refines", "include", "greatest"}
MODS = {"ghost", "static", "abstract", "linear", "shared", "glinear", "gshared", "inout", "opaque", "protected", "inductive", "least",
        "greatest", "twostate", "unlimited"}
REL = {"==", "!=", "<", "<=", ">", ">=", "in", "!in", "!!"}
KEYWORDS = {"if", "then", "else", "match", "case", "forall", "exists", "var", "in", "as", "is", "requires", "ensures", "decreases", "modifies",
            "reads", "invariant", "returns", "while", "return", "assert", "assume", "calc", "by", "yields", "witness"}


class Parser:
    def __init__(self, src, fname="?"):
        self.fname = fname
        self.t = tokenize(src, fname)
        self.p = 0

    # -- tokens
    def kind(self, k=0):
        return self.t[min(self.p + k, len(self.t) - 1)][0]

    def tok(self, k=0):
        x = self.t[min(self.p + k, len(self.t) - 1)]
        return x[1] if x[0] not in ("str", "char") else "\0" + x[1]

    def line(self):
        return self.t[self.p][2]

    def at(self, *xs):
        return self.tok() in xs

    def next(self):
        t = self.t[self.p]
        self.p += 1
        return t[1]

    def eat(self, x):
        if self.tok() == x:
            self.p += 1
            return True
        return False

    def expect(self, x):
        if self.tok() != x:
            self.err(f"expected {x!r}, found {self.tok()!r}")
        self.p += 1

    def err(self, m):
        raise ParseError(f"{self.fname}:{self.line()}: {m}")

    def ident(self):
        if self.kind() not in ("id", "num"):
            self.err(f"expected an identifier, found {self.tok()!r}")
        return self.next()

    def skip_braces(self):
        self.expect("{")
        d = 1
        while d:
            x = self.tok()
            if self.kind() == "eof":
                self.err("unbalanced braces")
            if x == "{":
                d += 1
            elif x == "}":
                d -= 1
            self.p += 1

    def attrs(self):
        out = []
        while self.tok() == "{" and self.tok(1) == ":":
            self.p += 2
            name = self.next()
            args = []
            d = 1
            while d:
                x = self.tok()
                if x == "{":
                    d += 1
                elif x == "}":
                    d -= 1
                elif self.kind() == "str":
                    args.append(self.t[self.p][1].strip('"'))
                else:
                    args.append(x)
                self.p += 1
            out.append((name, args))
        return out

    # -- files
    def file(self):
        out = []
        while self.kind() != "eof":
            if self.at("include"):
                self.p += 1
                out.append(("include", self.next().strip('"')))
            else:
                out.append(self.decl())
        return out

    def block_decls(self):
        self.expect("{")
        out = []
        while not self.eat("}"):
            out.append(self.decl())
        return out

    def decl(self):
        if self.eat(";"):
            return ("nop",)
        flags = set()
        while self.at(*MODS):
            flags.add(self.next())
        x = self.tok()
        if x == "module":
            return self.module(flags)
        if x == "import":
            return self.import_()
        if x == "export":
            return self.export()
        if x in ("datatype", "codatatype"):
            return self.datatype(flags)
        if x == "type":
            return self.type_decl()
        if x == "newtype":
            return self.newtype()
        if x in ("class", "trait"):
            return self.class_(flags)
        if x in ("function", "predicate", "lemma", "method", "colemma", "copredicate", "constructor", "iterator"):
            return self.fn(flags)
        if x in ("const", "var"):
            return self.field(flags)
        self.err(f"unexpected {x!r} at a declaration")

    def dotted(self):
        out = [self.ident()]
        while self.tok() == ".":
            self.p += 1
            out.append(self.ident())
        return out

    def module(self, flags):
        self.expect("module")
        at = self.attrs()
        name = self.dotted()
        params = []
        if self.eat("("):
            while not self.eat(")"):
                n = self.ident()
                self.expect(":")
                params.append((n, self.mpath()))
                self.eat(",")
        refines = None
        if self.at("refines"):
            self.p += 1
            refines = self.mpath()
        return ("module", name, at, flags, refines, self.block_decls(), params)

    def mpath(self):
        """a dotted module path; an application F(X) is the segment ("app", "F", [paths])"""
        out = []
        while True:
            n = self.ident()
            if self.tok() == "(":
                self.p += 1
                args = []
                while not self.eat(")"):
                    args.append(self.mpath())
                    self.eat(",")
                n = ("app", n, args)
            out.append(n)
            if not self.eat("."):
                return out

    def import_(self):
        self.expect("import")
        opened = self.eat("opened")
        name = self.ident()
        kind, path = None, [name]
        if self.at("=", ":"):
            kind = self.next()
            path = self.mpath()
        elif self.at("("):
            self.p -= 1
            path, kind = self.mpath(), "="
        elif self.at("."):
            self.p += 1
            path = [name] + self.dotted()
            name = path[-1]
            kind = "="
        while self.at("`"):
            self.p += 1
            self.imp_export()
        if self.at("as"):
            self.p += 1
            path2 = self.dotted()
            kind, path = ":", path2
        self.eat(";")
        return ("import", opened, name, path, kind)

    def imp_export(self):
        if self.at("{"):
            self.skip_braces()
        else:
            self.ident()

    def export(self):
        self.expect("export")
        while True:
            if self.at("provides", "reveals", "extends"):
                self.p += 1
                if self.eat("*"):
                    continue
                self.dotted()
                while self.eat(","):
                    self.dotted()
            elif self.kind() == "id" and not self.at(*DECL):
                self.p += 1
            elif self.kind() == "str":
                self.p += 1
            elif self.eat("..."):
                pass
            else:
                break
        self.eat(";")
        return ("nop",)

    def tparams(self):
        out = []
        if self.tok() == "<":
            self.p += 1
            while not self.eat(">"):
                while self.at("+", "-", "*", "!"):
                    self.p += 1
                out.append(self.ident())
                self.traits()
                self.eat(",")
        return out

    def traits(self):
        while self.tok() == "(" and (self.tok(1) in ("==", "0", "00", "!") or self.tok(1) == ")"):
            if self.tok(1) == ")":
                return
            while not self.eat(")"):
                self.p += 1

    def datatype(self, flags):
        self.next()
        at = self.attrs()
        name = self.ident()
        self.traits()
        tp = self.tparams()
        ctors = []
        if self.eat("..."):
            pass
        elif self.eat("="):
            self.eat("|")
            while True:
                self.attrs()
                g = set()
                while self.at("ghost"):
                    g.add(self.next())
                cn = self.ident()
                ctors.append((cn, self.formals() if self.tok() == "(" else []))
                if not self.eat("|"):
                    break
        self.eat(";")
        members = self.block_decls() if self.tok() == "{" else []
        return ("datatype", name, tp, ctors, members, at, flags)

    def formals(self):
        self.expect("(")
        out = []
        while not self.eat(")"):
            fl = set()
            self.attrs()
            while self.at("ghost", "linear", "shared", "glinear", "gshared", "inout", "older", "nameonly", "new") and self.tok(1) not in (":", ",", ")"):
                fl.add(self.next())
            if self.kind() == "id" and self.tok(1) == ":" or self.kind() == "num" and self.tok(1) == ":":
                n = self.ident()
                self.p += 1
                while self.at("linear", "shared", "ghost"):
                    fl.add(self.next())
                ty = self.type()
            else:
                n, ty = "", self.type()
            if self.eat(":="):
                out.append((n, ty, fl, self.expr()))
            else:
                out.append((n, ty, fl, None))
            if not self.at(")"):
                self.expect(",")
        return out

    def type_decl(self):
        self.expect("type")
        at = self.attrs()
        name = self.ident()
        self.traits()
        tp = self.tparams()
        d = None
        if self.eat("="):
            if self.kind() == "id" and self.tok(1) in (":", "|"):
                v = self.ident()
                ty = self.type() if self.eat(":") else None
                self.expect("|")
                e = self.expr()
                self.witness()
                self.eat(";")
                return ("subset", name, tp, v, ty, e)
            d = self.type()
        self.eat(";")
        members = self.block_decls() if self.tok() == "{" else []
        return ("type", name, tp, d, members, at)

    def witness(self):
        if self.at("witness"):
            self.p += 1
            if not self.eat("*"):
                self.expr()
        if self.at("ghost") and self.tok(1) == "witness":
            self.p += 2
            self.expr()

    def newtype(self):
        self.expect("newtype")
        self.attrs()
        name = self.ident()
        self.expect("=")
        if self.kind() == "id" and self.tok(1) in (":", "|"):
            v = self.ident()
            ty = self.type() if self.eat(":") else None
            self.expect("|")
            e = self.expr()
            self.witness()
        else:
            v, ty, e = None, self.type(), None
        self.eat(";")
        return ("newtype", name, [], v, ty, e)

    def class_(self, flags):
        kind = self.next()
        at = self.attrs()
        name = self.ident()
        self.traits()
        tp = self.tparams()
        ext = []
        if self.at("extends"):
            self.p += 1
            ext.append(self.type())
            while self.eat(","):
                ext.append(self.type())
        self.eat("...")
        members = self.block_decls()
        return (kind, name, tp, members, ext, at, flags)

    def field(self, flags):
        kind = self.next()
        at = self.attrs()
        out = []
        while True:
            while self.at("linear", "shared", "ghost"):
                flags.add(self.next())
            n = self.ident()
            ty = self.type() if self.eat(":") else None
            e = None
            if self.eat(":="):
                e = self.expr()
            out.append((n, ty, e))
            if not self.eat(","):
                break
        self.eat(";")
        return ("field", kind, out, flags, at)

    CL = {"requires", "ensures", "modifies", "reads", "decreases", "invariant", "yield", "opens_invariants"}

    def fn(self, flags):
        line = self.line()
        kind = self.next()
        if self.at("method") and kind in ("function", "predicate"):
            self.p += 1
            kind += " method"
        if kind in ("copredicate",) or (kind in ("predicate", "function") and flags & {"least", "greatest", "inductive"}):
            flags.add("fix")
        while self.at(*MODS):
            flags.add(self.next())
        at = self.attrs()
        if self.at("operator"):
            self.p += 1
            name = "op_card" if self.tok(1) == "|" else "op_update" if self.tok(2) == ":=" else "op_index" if self.tok(1) == "[" else "op_in" if self.tok(1) == "in" else "op_other"
            d = 0
            while True:
                x = self.next()
                d += (x == "(") - (x == ")")
                if d == 0:
                    break
        else:
            name = self.ident() if self.kind() in ("id", "num") else "_ctor"
        if self.tok() == "[":
            while not self.eat("]"):
                self.p += 1
        tp = self.tparams()
        params, ret, rets = [], None, []
        if self.eat("..."):
            params = None
        elif self.tok() == "(":
            params = self.formals()
            if kind == "predicate" and self.eat(":"):
                self.type()
            elif self.eat(":"):
                fl = set()
                while self.at("linear", "shared", "ghost"):
                    fl.add(self.next())
                if self.tok() == "(":
                    s = self.p
                    try:
                        rets = self.formals()
                        if len(rets) == 1 and rets[0][0] and not self.at("->", "~>", "-->"):
                            ret = rets[0][1]
                        else:
                            raise ParseError()
                    except ParseError:
                        self.p, rets = s, []
                        ret = self.type()
                else:
                    ret = self.type()
            if self.at("returns", "yields"):
                self.p += 1
                rets = self.formals()
        if self.eat("..."):
            pass
        req, ens, other = [], [], []
        while self.at(*self.CL) or self.at(";"):
            c = self.next()
            if c == ";":
                continue
            if c == "yield":
                c = self.next()
            self.attrs()
            if self.kind() == "id" and self.tok(1) == ":" and self.tok(2) != ":":
                self.p += 2
            if c in ("requires", "ensures", "invariant"):
                e = self.expr(False)
                (req if c == "requires" else ens).append(e)
            else:
                while True:
                    if not self.eat("*"):
                        if self.eat("`"):
                            self.ident()
                        else:
                            self.expr(False)
                            if self.eat("`"):
                                self.ident()
                    if not self.eat(","):
                        break
        body = None
        if self.tok() == "{" and not (self.tok(1) == ":"):
            if kind.startswith(("function", "predicate", "copredicate")):
                self.p += 1
                if self.eat("}"):
                    body = None
                else:
                    body = self.expr(True)
                    self.eat(";")
                    self.expect("}")
            else:
                s = self.p
                if kind in ("lemma", "colemma"):
                    self.skip_braces()
                    body = ("nop",)
                else:
                    body = self.block()
            if self.at("by") and self.tok(1) == "method":
                self.p += 2
                body = self.block()
                kind = "function method"
        return ("fn", kind, name, tp, params, ret, rets, body, flags, at, req, ens, line)

    # -- types
    def type(self):
        while self.at("linear", "shared", "ghost"):
            self.p += 1
        t = self.type1()
        if self.at("->", "~>", "-->"):
            self.p += 1
            r = self.type()
            return ("tyfn", t, r)
        return t

    def type1(self):
        if self.eat("("):
            out = []
            while not self.eat(")"):
                out.append(self.type())
                if not self.at(")"):
                    self.expect(",")
            return out[0] if len(out) == 1 else ("tytuple", out)
        segs = [self.ident()]
        args = self.targs0()
        while self.tok() == "." and self.kind(1) in ("id", "num"):
            self.p += 1
            segs.append(self.ident())
            args = self.targs0() or args
        if segs[-1].endswith("?") and len(segs[-1]) > 1:
            segs[-1] = segs[-1][:-1]
        return ("ty", segs, args)

    def targs0(self):
        s = self.p
        try:
            return self.targs()
        except ParseError:
            self.p = s
            return []

    def targs(self):
        out = []
        if self.tok() == "<":
            self.p += 1
            out.append(self.type())
            while self.eat(","):
                out.append(self.type())
            self.expect(">")
        return out

    # -- expressions.  lem: may a trailing "; rest" be a lemma call followed by an expression
    lem = False
    nolam = False

    def expr(self, lem=None):
        save = self.lem
        if lem is None:
            lem = self.lem
        self.lem = lem
        try:
            return self.expr1(lem)
        finally:
            self.lem = save

    def expr1(self, lem):
        e = self.equiv()
        if lem and self.tok() == ";" and self.tok(1) not in ("}", ")", "case", ";", "requires", "ensures", "reads", "decreases"):
            if e[0] in ("call", "id", "field", "inst"):
                self.p += 1
                return ("stmtexpr", ("callst", e), self.expr(lem))
        return e

    def equiv(self):
        e = self.implies()
        while self.at("<==>"):
            self.p += 1
            e = ("bin", "<==>", e, self.implies())
        return e

    def implies(self):
        e = self.logic()
        if self.at("==>"):
            self.p += 1
            return ("bin", "==>", e, self.implies())
        while self.at("<=="):
            self.p += 1
            e = ("bin", "==>", self.logic(), e)
        return e

    def logic(self):
        if self.at("&&", "||"):
            op = self.next()
        e = self.rel()
        while self.at("&&", "||"):
            op = self.next()
            r = self.rel()
            e = ("bin", op, e, r)
        return e

    def relop(self):
        x = self.tok()
        if x in REL:
            return x
        if x == "!" and self.tok(1) in ("in",):
            return "!in"
        return None

    def rel(self):
        e = self.shift()
        ops, es = [], [e]
        while True:
            x = self.relop()
            if x is None:
                break
            self.p += 1
            if x == "!in" and self.t[self.p - 1][1] == "!":
                self.p += 1
            if x == ">" and False:
                pass
            ops.append(x)
            es.append(self.shift())
        if not ops:
            return e
        if len(ops) == 1:
            return ("bin", ops[0], es[0], es[1])
        return ("chain", ops, es)

    def shift(self):
        e = self.add()
        while True:
            if self.at("<<"):
                self.p += 1
                e = ("bin", "<<", e, self.add())
            elif self.at(">") and self.tok(1) == ">" :
                self.p += 2
                e = ("bin", ">>", e, self.add())
            else:
                return e

    def add(self):
        e = self.mul()
        while self.at("+", "-"):
            op = self.next()
            e = ("bin", op, e, self.mul())
        return e

    nobar = 0

    def mul(self):
        e = self.bits()
        while self.at("*", "/", "%"):
            op = self.next()
            e = ("bin", op, e, self.bits())
        return e

    def bits(self):
        e = self.asis()
        while self.at("&", "^") or (self.at("|") and not self.nobar):
            op = self.next()
            e = ("bin", op, e, self.asis())
        return e

    def asis(self):
        e = self.unary()
        while self.at("as", "is"):
            k = self.next()
            e = (k, e, self.type())
        return e

    def unary(self):
        x = self.tok()
        if x == "!":
            self.p += 1
            return ("un", "!", self.unary())
        if x == "-":
            self.p += 1
            return ("un", "-", self.unary())
        return self.postfix(self.primary())

    def exprs(self, close):
        out = []
        save, self.nobar = self.nobar, 0
        while not self.eat(close):
            out.append(self.arg())
            if not self.at(close):
                self.expect(",")
        self.nobar = save
        return out

    def arg(self):
        if self.at("inout") and self.kind(1) == "id":
            self.p += 1
            g = self.eat("ghost")
            return ("inout", self.expr(False), g)
        while self.at("ghost", "linear", "shared") and self.kind(1) == "id":
            self.p += 1
        if self.kind() == "id" and self.tok(1) == ":=":
            n = self.ident()
            self.p += 1
            return ("named", n, self.expr(True))
        save, self.nolam = self.nolam, False
        try:
            return self.expr(True)
        finally:
            self.nolam = save

    def postfix(self, e):
        while True:
            x = self.tok()
            if x == ".":
                self.p += 1
                if self.tok() == "(":
                    self.p += 1
                    save, self.nobar = self.nobar, 0
                    ups = []
                    while not self.eat(")"):
                        f = self.ident()
                        self.expect(":=")
                        ups.append((f, self.expr(False)))
                        if not self.at(")"):
                            self.expect(",")
                    self.nobar = save
                    e = ("dupd", e, ups)
                else:
                    n = self.ident()
                    if self.kind(-1) == "num" and "." in n:
                        a, b = n.split(".")
                        e = ("field", ("field", e, a), b)
                    else:
                        e = ("field", e, n)
                    e = self.maybe_inst(e)
            elif x == "(":
                self.p += 1
                ln = self.line()
                e = ("call", e, self.exprs(")"), ln)
            elif x == "[":
                self.p += 1
                save, self.nobar = self.nobar, 0
                if self.eat(".."):
                    b = None if self.at("]") else self.expr(False)
                    self.expect("]")
                    e = ("slice", e, None, b)
                else:
                    i = self.expr(False)
                    if self.eat(".."):
                        b = None if self.at("]") else self.expr(False)
                        self.expect("]")
                        e = ("slice", e, i, b)
                    elif self.eat(":="):
                        v = self.expr(False)
                        while self.eat(","):
                            e = ("update", e, i, v)
                            i = self.expr(False)
                            self.expect(":=")
                            v = self.expr(False)
                        self.expect("]")
                        e = ("update", e, i, v)
                    elif self.at(","):
                        idx = [i]
                        while self.eat(","):
                            idx.append(self.expr(False))
                        self.expect("]")
                        e = ("index", e, ("tuple", idx))
                    elif self.eat(":"):
                        parts = [i]
                        while not self.eat("]"):
                            parts.append(self.expr(False))
                            self.eat(":")
                        e = ("slices", e, parts)
                    else:
                        self.expect("]")
                        e = ("index", e, i)
                self.nobar = save
            else:
                return e

    def maybe_inst(self, e):
        if self.tok() != "<":
            return e
        s = self.p
        try:
            a = self.targs()
        except ParseError:
            self.p = s
            return e
        if self.tok() in ("(", ".", ")", ",", ";", ":", "{", "}", "[", "]", "==", "!=") :
            return ("inst", e, a)
        self.p = s
        return e

    def qvars(self):
        out = []
        while True:
            self.attrs()
            while self.at("ghost", "linear"):
                self.p += 1
            n = self.ident()
            ty = self.type() if self.eat(":") else None
            if self.at("<") and self.tok(1) == "-":
                self.p += 2
                self.expr(False)
            out.append((n, ty))
            if not self.eat(","):
                break
        self.attrs()
        return out

    def range_body(self):
        save, self.nobar = self.nobar, 0
        vs = self.qvars()
        r = self.expr(False) if self.eat("|") else None
        self.attrs()
        b = None
        if self.eat("::"):
            self.attrs()
            b = self.expr()
        self.nobar = save
        return vs, r, b

    def primary(self):
        k, x = self.kind(), self.tok()
        if k == "num":
            self.p += 1
            if "." in x:
                return ("real", x)
            return ("int", int(x.replace("_", ""), 0))
        if k == "str":
            self.p += 1
            s = self.t[self.p - 1][1]
            return ("str", s[1:-1].encode().decode("unicode_escape") if s[0] == '"' else s[2:-1])
        if k == "char":
            self.p += 1
            return ("char", self.t[self.p - 1][1][1:-1].encode().decode("unicode_escape"))
        if x == "(":
            self.p += 1
            save, self.nobar = self.nobar, 0
            # lambda?
            s = self.p
            try:
                ps = []
                while not self.eat(")"):
                    n = self.ident()
                    ty = self.type() if self.eat(":") else None
                    ps.append((n, ty))
                    if not self.at(")"):
                        self.expect(",")
                if self.at("=>", "requires", "reads"):
                    if self.at("=>") or True:
                        t0 = self.p
                        r = self.lambda_tail(ps)
                        self.nobar = save
                        return r
                raise ParseError()
            except ParseError:
                self.p = s
            out = []
            while not self.eat(")"):
                while self.at("linear", "ghost", "shared") and self.kind(1) in ("id", "num"):
                    self.p += 1
                out.append(self.expr(True))
                if not self.at(")"):
                    self.expect(",")
            self.nobar = save
            return out[0] if len(out) == 1 else ("tuple", out)
        if x == "[":
            self.p += 1
            return ("seqlit", self.exprs("]"))
        if x == "{":
            self.p += 1
            return ("setlit", "set", self.exprs("}"))
        if x == "|":
            self.p += 1
            save, self.nobar = self.nobar, 1
            e = self.expr(False)
            self.nobar = save
            self.expect("|")
            return ("un", "card", e)
        if k != "id":
            self.err(f"unexpected {x!r} in an expression")
        if x in ("forall", "exists"):
            self.p += 1
            vs, r, b = self.range_body()
            return ("quant", x, vs, r, b)
        if x in ("set", "iset"):
            self.p += 1
            if self.tok() == "{":
                self.p += 1
                return ("setlit", x, self.exprs("}"))
            vs, r, b = self.range_body()
            return ("setc", x, vs, r, b)
        if x in ("map", "imap"):
            self.p += 1
            if self.tok() == "[":
                self.p += 1
                save, self.nobar = self.nobar, 0
                out = []
                while not self.eat("]"):
                    a = self.expr(False)
                    self.expect(":=")
                    out.append((a, self.expr(False)))
                    if not self.at("]"):
                        self.expect(",")
                self.nobar = save
                return ("maplit", x, out)
            save, self.nobar = self.nobar, 0
            vs = self.qvars()
            r = self.expr(False) if self.eat("|") else None
            self.attrs()
            key = None
            b = None
            if self.eat("::"):
                b = self.expr()
                if self.eat(":="):
                    key, b = b, self.expr()
            self.nobar = save
            return ("mapc", x, vs, r, key, b)
        if x == "multiset":
            self.p += 1
            if self.eat("{"):
                return ("mslit", self.exprs("}"))
            self.expect("(")
            return ("multiset", self.exprs(")")[0])
        if x == "seq" and self.tok(1) in ("(", "<"):
            s = self.p
            self.p += 1
            if self.at("<"):
                self.targs()
            if self.eat("("):
                a = self.exprs(")")
                return ("seqc", a[0], a[1])
            self.p = s
        if x == "if":
            self.p += 1
            save, self.nobar = self.nobar, 0
            if self.kind() == "id" and self.tok(1) == ":|":
                n = self.ident()
                self.p += 1
                c = ("some", [(n, None)], self.expr(True))
            else:
                c = self.expr(True)
            self.expect("then")
            a = self.expr(True)
            self.expect("else")
            self.nobar = save
            b = self.expr()
            return ("if", c, a, b)
        if x == "match" or x == "linear" and self.tok(1) == "match":
            self.p += 1 + (x == "linear")
            save, self.nobar = self.nobar, 0
            e = self.expr(False)
            br = self.eat("{")
            cs = []
            while self.at("case"):
                self.p += 1
                pt = self.pattern()
                self.expect("=>")
                cs.append((pt, self.expr(True if br else None)))
                self.eat(";")
            if br:
                self.expect("}")
            self.nobar = save
            return ("match", e, cs)
        if x in ("var", "ghost", "linear", "shared") and (x == "var" or self.tok(1) == "var"):
            g = x == "ghost"
            if x != "var":
                self.p += 1
            self.p += 1
            save, self.nobar = self.nobar, 0
            ps = []
            while True:
                while self.at("linear", "shared", "ghost"):
                    self.p += 1
                pt = self.pattern()
                if self.eat(":"):
                    pt = ("ptyped", pt, self.type())
                ps.append(pt)
                if not self.eat(","):
                    break
            if self.eat(":|"):
                e = self.expr(False)
                self.expect(";")
                r = ("letst", ps, e, self.expr())
            else:
                if self.eat(":-"):
                    pass
                self.expect(":=")
                es = [self.expr(False)]
                while self.eat(","):
                    es.append(self.expr(False))
                self.expect(";")
                r = ("let", ps, es, self.expr(), g)
            self.nobar = save
            return r
        if x in ("assert", "assume", "reveal", "calc", "expect"):
            st = self.stmt()
            return ("stmtexpr", st, self.expr())
        if x in ("old", "fresh", "allocated", "unchanged") and self.tok(1) == "(":
            self.p += 2
            return (x, self.exprs(")")[0])
        if x == "new":
            return self.new()
        if x == "true" or x == "false":
            self.p += 1
            return ("bool", x == "true")
        if x == "null":
            self.p += 1
            return ("null",)
        if x in ("this",):
            self.p += 1
            return ("this",)
        if x in ("linear", "shared", "ghost", "inout") and self.kind(1) == "id":
            self.p += 1
            if x == "inout":
                return ("inout", self.unary(), False)
            return self.primary()
        if x in ("then", "else", "case", "in", "as", "returns", "requires", "ensures", "decreases", "invariant", "modifies", "reads"):
            self.err(f"unexpected {x!r} in an expression")
        self.p += 1
        # lambda x => e
        if self.at("=>") and not self.nolam:
            return self.lambda_tail([(x, None)])
        if self.at("requires", "reads") and not self.nolam:
            s = self.p
            try:
                return self.lambda_tail([(x, None)])
            except ParseError:
                self.p = s
        return self.maybe_inst(("id", x))

    def lambda_tail(self, ps):
        while self.at("requires", "reads"):
            self.p += 1
            save, self.nolam = self.nolam, True
            try:
                self.expr(False)
                while self.eat(","):
                    self.expr(False)
            finally:
                self.nolam = save
        self.expect("=>")
        return ("lam", ps, self.expr(False))

    def new(self):
        self.expect("new")
        if self.tok() == "[":
            ty = None
        else:
            ty = self.type()
        if self.eat("["):
            dims = self.exprs("]")
            init = None
            if self.eat("("):
                init = self.exprs(")")[0]
            elif self.eat("["):
                init = ("seqlit", self.exprs("]"))
            return ("newarr", ty, dims, init)
        args = None
        if self.eat("("):
            args = self.exprs(")")
        return ("new", ty, args)

    def pattern(self):
        while self.at("linear", "shared", "ghost"):
            self.p += 1
        if self.eat("("):
            out = []
            while not self.eat(")"):
                out.append(self.pattern())
                if self.eat(":"):
                    self.type()
                if not self.at(")"):
                    self.expect(",")
            return ("ptuple", out)
        if self.kind() in ("num", "str", "char") or self.at("true", "false", "-"):
            return ("plit", self.unary())
        path = self.dotted()
        if self.eat("("):
            out = []
            while not self.eat(")"):
                out.append(self.pattern())
                if self.eat(":"):
                    self.type()
                if not self.at(")"):
                    self.expect(",")
            return ("pctor", path, out)
        if path == ["_"]:
            return ("pwild",)
        return ("pid", path) if len(path) > 1 else ("pid", path)

    # -- statements
    def block(self):
        self.expect("{")
        out = []
        while not self.eat("}"):
            out.append(self.stmt())
        return ("block", out)

    def stmt(self):
        x = self.tok()
        ln = self.line()
        if x == ";":
            self.p += 1
            return ("nop",)
        if x == "{":
            return self.block()
        if x in ("assert", "assume", "expect"):
            self.p += 1
            self.attrs()
            if self.kind() == "id" and self.tok(1) == ":":
                self.p += 2
            if self.eat("..."):
                self.eat(";")
                return ("nop",)
            e = self.expr(False)
            if self.at("by"):
                self.p += 1
                self.skip_braces()
            else:
                if self.eat(","):
                    self.expr(False)
                self.expect(";")
            return (x, e)
        if x == "reveal":
            self.p += 1
            while True:
                self.expr(False)
                if not self.eat(","):
                    break
            self.expect(";")
            return ("nop",)
        if x == "new" and self.tok(1) == ";":
            self.p += 2
            return ("nop",)
        if x == "calc":
            self.p += 1
            self.attrs()
            while not self.at("{"):
                self.p += 1
            self.skip_braces()
            return ("nop",)
        if x == "forall":
            self.p += 1
            par = False
            if self.at("("):
                s = self.p
                self.p += 1
                par = True
            vs = self.qvars() if not self.at(")", "{", "ensures") else []
            r = self.expr(False) if self.eat("|") else None
            if par:
                self.expect(")")
            while self.at("ensures", "requires"):
                self.p += 1
                self.expr(False)
                self.eat(";")
            body = None
            if self.at("{"):
                body = self.block()
            else:
                self.eat(";")
            return ("forall", vs, r, body)
        if x == "label":
            self.p += 1
            n = self.ident()
            self.expect(":")
            return ("label", n, self.stmt())
        if x == "break" or x == "continue":
            self.p += 1
            n = None
            if self.kind() == "id":
                n = self.ident()
            self.expect(";")
            return (x, n)
        if x == "return" or x == "yield":
            self.p += 1
            rs = None
            if not self.at(";"):
                rs = self.rhss()
            self.expect(";")
            return ("return", rs)
        if x == "print":
            self.p += 1
            es = [self.expr(False)]
            while self.eat(","):
                es.append(self.expr(False))
            self.expect(";")
            return ("print", es)
        if x == "modify":
            self.p += 1
            while not self.eat(";"):
                self.p += 1
            return ("nop",)
        if x == "if" or (x in ("linear", "shared") and self.tok(1) == "if"):
            self.p += 1 + (x != "if")
            return self.if_()
        if x == "while":
            self.p += 1
            if self.at("{") or self.at("invariant", "decreases"):
                self.loopspec()
                self.expect("{")
                cs = self.guards()
                return ("whilecases", cs)
            self.attrs()
            if self.eat("*"):
                c = ("star",)
            elif self.tok() == "(" and self.tok(1) == "*":
                self.p += 3
                c = ("star",)
            else:
                c = self.expr(False)
            self.loopspec()
            body = self.block()
            return ("while", c, body)
        if x == "match" or (x in ("linear", "shared", "ghost") and self.tok(1) == "match"):
            self.p += 1 + (x != "match")
            e = self.expr(False)
            br = self.eat("{")
            cs = []
            while self.at("case"):
                self.p += 1
                pt = self.pattern()
                self.expect("=>")
                body = []
                while not self.at("case", "}"):
                    body.append(self.stmt())
                cs.append((pt, ("block", body)))
            if br:
                self.expect("}")
            return ("match", e, cs)
        g = False
        s = self.p
        fl = set()
        while self.at("ghost", "linear", "shared", "glinear", "gshared") and (self.tok(1) in ("var", "ghost", "linear", "shared", "inout") or self.kind(1) == "id"):
            fl.add(self.next())
        if self.at("var"):
            self.p += 1
            return self.var(fl, ln)
        if "ghost" in fl and not self.at("inout"):
            pass
        if self.at("inout"):
            # inout [ghost] lhs := rhs;   or   inout x.method(args);
            self.p += 1
            if self.eat("ghost"):
                fl.add("ghost")
            e = self.expr(False)
            if self.eat(":="):
                r = self.rhss()
                self.expect(";")
                return ("assign", [e], r, "ghost" in fl, ln)
            if self.at(","):
                lhs = [e]
                while self.eat(","):
                    self.eat("inout")
                    lhs.append(self.expr(False))
                self.expect(":=")
                r = self.rhss()
                self.expect(";")
                return ("assign", lhs, r, "ghost" in fl, ln)
            self.expect(";")
            return ("callst", self.mark_inout(e), ln)
        lhs = [self.expr(False)]
        while self.eat(","):
            while self.at("linear", "ghost", "shared", "inout"):
                self.p += 1
            lhs.append(self.expr(False))
        if self.eat(":|"):
            if self.at("assume"):
                self.p += 1
            e = self.expr(False)
            self.expect(";")
            return ("assignst", lhs, e)
        if self.eat(":="):
            r = self.rhss()
            self.expect(";")
            return ("assign", lhs, r, "ghost" in fl, ln)
        if self.tok() == ":-":
            self.p += 1
        if lhs[0][0] == "id" and self.at(":") :
            self.p += 1
            return ("label", lhs[0][1], self.stmt())
        self.expect(";")
        return ("callst", lhs[0], ln)

    def mark_inout(self, e):
        """inout x.m(args): the receiver is updated"""
        if e[0] == "call" and e[1][0] == "field":
            return ("call", ("field", ("inout", e[1][1], False), e[1][2]), e[2], e[3])
        if e[0] == "call" and e[1][0] == "inst" and e[1][1][0] == "field":
            f = e[1][1]
            return ("call", ("field", ("inout", f[1], False), f[2]), e[2], e[3])
        return ("inout", e, False)

    def loopspec(self):
        while self.at("invariant", "decreases", "modifies", ";") or (self.at("free") and self.tok(1) == "invariant"):
            c = self.next()
            if c == ";":
                continue
            if c == "free":
                self.p += 1
            self.attrs()
            if self.eat("*"):
                continue
            if self.kind() == "id" and self.tok(1) == ":" and self.tok(2) != ":":
                self.p += 2
            self.expr(False)
            while self.eat(","):
                self.expr(False)

    def guards(self):
        cs = []
        while self.eat("case"):
            if self.kind() == "id" and self.tok(1) == ":|":
                v = self.ident()
                self.p += 1
                c = ("some", [v], self.expr(False))
            else:
                c = self.expr(False)
            self.expect("=>")
            body = []
            while not self.at("case", "}"):
                body.append(self.stmt())
            cs.append((c, ("block", body)))
        self.expect("}")
        return cs

    def if_(self):
        if self.at("{") and self.tok(1) == "case":
            self.p += 1
            return ("ifcases", self.guards())
        if self.at("case"):
            self.p -= 0
            cs = []
            while self.eat("case"):
                c = self.expr(False)
                self.expect("=>")
                body = []
                while not self.at("case", "}"):
                    body.append(self.stmt())
                cs.append((c, ("block", body)))
            return ("ifcases", cs)
        if self.eat("*"):
            c = ("star",)
        elif self.tok() == "(" and self.tok(1) == "*" and self.tok(2) == ")":
            self.p += 3
            c = ("star",)
        elif self.kind() == "id" and self.tok(1) in (":|", ":", ","):
            vs = self.qvars()
            self.expect(":|")
            c = ("some", vs, self.expr(False))
        else:
            c = self.expr(False)
        a = self.block()
        b = None
        if self.eat("else"):
            if self.at("if"):
                self.p += 1
                b = self.if_()
            elif self.at("linear", "shared") and self.tok(1) == "if":
                self.p += 2
                b = self.if_()
            else:
                b = self.block()
        return ("if", c, a, b)

    def rhss(self):
        out = [self.rhs()]
        while self.eat(","):
            out.append(self.rhs())
        return out

    def rhs(self):
        self.attrs()
        if self.eat("*"):
            return ("star",)
        if self.at("inout") and self.kind(1) == "id":
            self.p += 1
            e = self.expr(False)
            return self.mark_inout(e)
        while self.at("linear", "shared", "ghost") and self.kind(1) == "id" and self.tok(1) not in ("var", "match"):
            self.p += 1
        return self.expr(False)

    def var(self, fl, ln):
        g = "ghost" in fl
        if self.attrs():
            pass
        names = []
        while True:
            f2 = set(fl)
            while self.at("linear", "shared", "ghost", "glinear", "gshared") and self.kind(1) in ("id",) and self.tok(1) not in (":=",):
                f2.add(self.next())
            pt = self.pattern()
            ty = self.type() if self.eat(":") else None
            names.append((pt, ty, "ghost" in f2))
            if not self.eat(","):
                break
        if self.eat(":|"):
            self.eat("assume")
            e = self.expr(False)
            self.expect(";")
            return ("varst", names, e, g)
        rhs = None
        if self.eat(":="):
            rhs = self.rhss()
        elif self.tok() == ":-":
            self.p += 1
            rhs = self.rhss()
        self.expect(";")
        return ("var", names, rhs, g, ln)


def parse_file(path):
    with open(path, encoding="utf-8") as f:
        return Parser(f.read(), path).file()
