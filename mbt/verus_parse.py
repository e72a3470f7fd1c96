"""Tokenizer and parser for the Verus (Rust) sources of /repo/Splinter/src.

Only what the specification machinery evaluates is parsed into ASTs: structs, enums, traits, impls, consts,
type aliases, `spec fn`s and `state_machine!`s.  Proof functions are skipped; executable functions are kept as raw
token ranges.  ASTs are plain tuples, described next to each production.
"""
import re
import sys

sys.setrecursionlimit(100000)


class ParseError(Exception):
    pass


TOKEN = re.compile(r"""
    (?P<ws>\s+)
  | (?P<lc>//[^\n]*)
  | (?P<life>'[A-Za-z_][A-Za-z0-9_]*(?!'))
  | (?P<char>'(?:\\.[^']*|[^'\\])')
  | (?P<str>b?"(?:\\.|[^"\\])*")
  | (?P<num>0x[0-9a-fA-F_]+(?:[iu](?:8|16|32|64|128|size))?|0b[01_]+|[0-9][0-9_]*(?:\.[0-9]+(?![0-9a-zA-Z_.]))?(?:nat|int|[iu](?:8|16|32|64|128|size))?)
  | (?P<id>(?:r\#)?[A-Za-z_][A-Za-z0-9_]*)
  | (?P<op><==>|=~~=|&&&|\|\|\||==>|<==|===|!==|=~=|!~=|\.\.=|\.\.\.|<<=|>>=|->|=>|::|&&|\|\||==|!=|<=|>=|\+=|-=|\*=|/=|%=|\^=|\|=|&=|\.\.|[-+*/%^!&|=<>@.,;:\#$?~(){}\[\]])
""", re.X)


def tokenize(src, fname="?"):
    toks, i, n, line = [], 0, len(src), 1
    while i < n:
        if src.startswith("/*", i):
            depth, j = 1, i + 2
            while depth and j < n:
                if src.startswith("/*", j):
                    depth += 1
                    j += 2
                elif src.startswith("*/", j):
                    depth -= 1
                    j += 2
                else:
                    j += 1
            line += src.count("\n", i, j)
            i = j
            continue
        m = TOKEN.match(src, i)
        if not m:
            raise ParseError(f"{fname}:{line}: bad character {src[i]!r}")
        k = m.lastgroup
        t = m.group()
        if k not in ("ws", "lc"):
            toks.append((k, t, line, i))
        line += t.count("\n")
        i = m.end()
    toks.append(("eof", "", line, n))
    return toks


CLAUSES = {"requires", "ensures", "decreases", "recommends", "invariant", "invariant_except_break", "opens_invariants",
           "returns", "via", "when", "no_unwind"}

BIN = {  # precedence, right-assoc
    "||": 3, "&&": 4,
    "==": 6, "!=": 6, "===": 6, "!==": 6, "=~=": 6, "!~=": 6, "=~~=": 6, "<": 6, ">": 6, "<=": 6, ">=": 6,
    "|": 8, "^": 9, "&": 10, "<<": 11, ">>": 11, "+": 12, "-": 12, "*": 13, "/": 13, "%": 13,
}
CMP = {"==", "!=", "===", "!==", "=~=", "!~=", "=~~=", "<", ">", "<=", ">="}


class Parser:
    def __init__(self, src, fname="?"):
        self.src = src
        self.fname = fname
        self.t = tokenize(src, fname)
        self.p = 0
        self.pending_gt = 0

    # -- token helpers
    def peek(self, k=0):
        j = self.p + k
        return self.t[j][1] if j < len(self.t) else ""

    def kind(self, k=0):
        j = self.p + k
        return self.t[j][0] if j < len(self.t) else "eof"

    def next(self):
        v = self.t[self.p][1]
        self.p += 1
        return v

    def err(self, msg):
        k, v, ln, _ = self.t[min(self.p, len(self.t) - 1)]
        raise ParseError(f"{self.fname}:{ln}: {msg} at {v!r}")

    def eat(self, v):
        if self.peek() == v and self.kind() != "str":
            self.p += 1
            return True
        return False

    def expect(self, v):
        if not self.eat(v):
            self.err(f"expected {v!r}")

    def ident(self):
        if self.kind() != "id":
            self.err("expected identifier")
        return self.next()

    def skip_balanced(self):
        """At an opening bracket: skip to just past the matching closing bracket."""
        opens = {"(": ")", "[": "]", "{": "}"}
        assert self.peek() in opens, self.err("expected bracket")
        depth = 0
        while True:
            k, v = self.kind(), self.peek()
            if k == "eof":
                self.err("unbalanced")
            if k == "op":
                if v in opens:
                    depth += 1
                elif v in (")", "]", "}"):
                    depth -= 1
                    if depth == 0:
                        self.p += 1
                        return
            self.p += 1

    def skip_generics(self):
        if self.peek() != "<":
            return
        depth = 0
        while True:
            v = self.peek()
            if v == "<":
                depth += 1
            elif v == ">":
                depth -= 1
            elif v == ">=":
                depth -= 1
            elif self.kind() == "eof":
                self.err("unbalanced <")
            self.p += 1
            if depth == 0:
                return

    def generic_names(self):
        """Parses <A: B, const N: usize, 'a> and returns the type parameter names."""
        out = []
        if self.peek() != "<":
            return out
        start = self.p
        self.skip_generics()
        depth, j, expect = 0, start, True
        while j < self.p:
            v = self.t[j][1]
            if v == "<":
                depth += 1
            elif v == ">":
                depth -= 1
            elif depth == 1 and v == ",":
                expect = True
                j += 1
                continue
            elif depth == 1 and expect and self.t[j][0] == "id":
                if v == "const":
                    j += 1
                    continue
                out.append(v)
                expect = False
            elif depth == 1 and expect and self.t[j][0] == "life":
                expect = False
            j += 1
        return out

    # -- attributes
    def attrs(self):
        out = []
        while self.peek() == "#":
            self.next()
            self.eat("!")
            s = self.p
            self.skip_balanced()
            out.append(" ".join(x[1] for x in self.t[s:self.p]))
        return out

    # -- types: ('ty', [seg..], [args]) | ('tup', [..]) | ('fn', [..], ret) | ('any',)
    def type(self):
        if self.eat("&"):
            if self.kind() == "life":
                self.next()
            self.eat("mut")
            return self.type()
        if self.eat("("):
            ts = []
            while not self.eat(")"):
                if self.peek() in ("tracked", "ghost"):
                    self.next()
                ts.append(self.type())
                self.eat(",")
            return ts[0] if len(ts) == 1 else ("tup", ts)
        if self.eat("["):
            t = self.type()
            if self.eat(";"):
                self.expr()
            self.expect("]")
            return ("ty", ["Seq"], [t])
        if self.peek() in ("impl", "dyn"):
            self.next()
            t = self.type()
            while self.eat("+"):
                if self.kind() == "life":
                    self.next()
                else:
                    self.type()
            return ("any",)
        if self.eat("!"):
            return ("any",)
        if self.eat("<"):  # <T as Trait>::X
            self.type()
            if self.eat("as"):
                self.type()
            self.expect(">")
            self.expect("::")
            self.ident()
            return ("any",)
        if self.peek() in ("tracked", "ghost"):
            self.next()
        segs, args = [self.ident()], []
        while True:
            if self.peek() == "<" or (self.peek() == "::" and self.peek(1) == "<"):
                self.eat("::")
                self.expect("<")
                args = []
                while not self.eat(">"):
                    if self.kind() == "life":
                        self.next()
                    elif self.kind() == "num":
                        args.append(("lit", self.next()))
                    elif self.peek() == "{":
                        self.skip_balanced()
                    else:
                        if self.kind() == "id" and self.peek(1) == "=":
                            self.next()
                            self.next()
                        args.append(self.type())
                    self.eat(",")
            elif self.peek() == "(" and segs[-1] in ("Fn", "FnOnce", "FnMut", "FnSpec", "spec_fn", "fn"):
                self.next()
                ps = []
                while not self.eat(")"):
                    if self.kind() == "id" and self.peek(1) == ":":
                        self.next()
                        self.next()
                    ps.append(self.type())
                    self.eat(",")
                ret = ("any",)
                if self.eat("->"):
                    ret = self.type()
                return ("fn", ps, ret)
            elif self.peek() == "::":
                self.next()
                segs.append(self.ident())
            else:
                break
        return ("ty", segs, args)

    # -- patterns
    def pattern(self):
        alts = []
        self.eat("|")
        alts.append(self.pattern1())
        while self.peek() == "|":
            self.next()
            alts.append(self.pattern1())
        return alts[0] if len(alts) == 1 else ("por", alts)

    def pattern1(self):
        if self.eat("&"):
            return self.pattern1()
        while self.peek() in ("ref", "mut", "tracked", "ghost") and self.kind(1) == "id":
            self.next()
        if self.eat("_"):
            return ("pwild",)
        if self.eat(".."):
            return ("prest",)
        if self.eat("("):
            ps = []
            trailing = False
            while not self.eat(")"):
                ps.append(self.pattern())
                trailing = self.eat(",")
            if len(ps) == 1 and not trailing:
                return ps[0]
            return ("ptuple", ps)
        if self.kind() == "num":
            return ("plit", self.num(self.next()))
        if self.peek() == "-" and self.kind(1) == "num":
            self.next()
            return ("plit", -self.num(self.next()))
        if self.peek() in ("true", "false"):
            return ("plit", self.next() == "true")
        if self.kind() == "str":
            return ("plit", self.next())
        if self.peek() == "_":
            self.next()
            return ("pwild",)
        segs = self.pathsegs()
        if self.eat("("):
            ps = []
            while not self.eat(")"):
                ps.append(self.pattern())
                self.eat(",")
            return ("pctor", segs, ps)
        if self.eat("{"):
            fs = []
            rest = False
            while not self.eat("}"):
                if self.eat(".."):
                    rest = True
                    self.eat(",")
                    continue
                while self.peek() in ("ref", "mut", "tracked", "ghost") and self.kind(1) == "id":
                    self.next()
                f = self.next()
                if self.eat(":"):
                    fs.append((f, self.pattern()))
                else:
                    fs.append((f, ("pbind", f)))
                self.eat(",")
            return ("pstruct", segs, fs)
        if self.eat("@"):
            sub = self.pattern1()
            return ("pat", segs[0], sub)
        if len(segs) == 1 and (segs[0][0].islower() or segs[0][0] == "_"):
            return ("pbind", segs[0])
        return ("pctor", segs, None)

    def pathsegs(self):
        segs = [self.ident()]
        while self.peek() == "::":
            if self.peek(1) == "<":
                self.next()
                self.skip_generics()
                continue
            self.next()
            segs.append(self.ident())
        return segs

    def num(self, s):
        s = re.sub(r"(nat|int|[iu](8|16|32|64|128|size))$", "", s) if not s.startswith("0x") else \
            re.sub(r"[iu](8|16|32|64|128|size)$", "", s)
        s = s.replace("_", "")
        if "." in s:
            return float(s)
        return int(s, 0) if s[:2] in ("0x", "0b") else int(s)

    # -- expressions
    def expr(self, nostruct=False):
        return self.iff(nostruct)

    def iff(self, ns):
        a = self.imp(ns)
        while self.peek() == "<==>":
            self.next()
            a = ("iff", a, self.imp(ns))
        return a

    def imp(self, ns):
        a = self.rimp(ns)
        if self.eat("==>"):
            return ("imp", a, self.imp(ns))
        return a

    def rimp(self, ns):
        a = self.bullets(ns)
        while self.peek() == "<==" and self.kind() == "op":
            self.next()
            b = self.bullets(ns)
            a = ("imp", b, a)
        return a

    def bullets(self, ns):
        if self.peek() in ("&&&", "|||"):
            op = self.peek()
            es = []
            while self.eat(op):
                es.append(self.expr_nobullet(ns))
            return ("and" if op == "&&&" else "or", es)
        return self.binary(0, ns)

    def expr_nobullet(self, ns):
        return self.iff(ns)

    def binary(self, minp, ns):
        a = self.unary(ns)
        while True:
            op = self.peek()
            if self.kind() != "op" and op not in ("is", "as", "matches", "has"):
                return a
            if op in ("is",):
                if minp > 7:
                    return a
                self.next()
                a = ("is", a, self.pathsegs())
                continue
            if op == "!" and self.peek(1) == "is":
                self.next()
                self.next()
                a = ("un", "!", ("is", a, self.pathsegs()))
                continue
            if op == "matches":
                self.next()
                a = ("matches", a, self.pattern())
                continue
            if op == "has":
                self.next()
                a = ("mcall", a, "contains", [], [self.binary(7, ns)])
                continue
            if op == "<" and self.peek(1) == "<" and self.t[self.p + 1][3] == self.t[self.p][3] + 1:
                op2 = "<<"
                if BIN[op2] < minp:
                    return a
                self.p += 2
                a = ("bin", "<<", a, self.binary(BIN[op2] + 1, ns))
                continue
            if op == ">" and self.peek(1) == ">" and self.t[self.p + 1][3] == self.t[self.p][3] + 1:
                if BIN[">>"] < minp:
                    return a
                self.p += 2
                a = ("bin", ">>", a, self.binary(BIN[">>"] + 1, ns))
                continue
            if op not in BIN or BIN[op] < minp:
                return a
            if op in CMP:
                parts = [a]
                while self.peek() in CMP and self.kind() == "op":
                    parts.append(self.next())
                    parts.append(self.binary(7, ns))
                a = ("cmp", parts)
                continue
            self.next()
            b = self.binary(BIN[op] + 1, ns)
            if op == "&&":
                a = ("and", (a[1] if a[0] == "and" and a[-1] == "&&" else [a]) + [b], "&&")
            elif op == "||":
                a = ("or", (a[1] if a[0] == "or" and a[-1] == "||" else [a]) + [b], "||")
            else:
                a = ("bin", op, a, b)

    def unary(self, ns):
        v = self.peek()
        if self.kind() == "op":
            if v == "!":
                self.next()
                return ("un", "!", self.unary(ns))
            if v == "-":
                self.next()
                return ("un", "-", self.unary(ns))
            if v == "*":
                self.next()
                return self.unary(ns)
            if v == "&":
                self.next()
                self.eat("mut")
                return self.unary(ns)
            if v == "&&":
                self.next()
                return self.unary(ns)
        a = self.postfix(self.primary(ns), ns)
        while self.peek() == "as" and self.kind() == "id":
            self.next()
            ty = self.type()
            a = self.postfix(("cast", a, ty), ns)
        return a

    def args(self):
        self.expect("(")
        out = []
        while not self.eat(")"):
            out.append(self.expr())
            self.eat(",")
        return out

    def postfix(self, a, ns):
        while True:
            v = self.peek()
            if self.kind() != "op":
                return a
            if v == ".":
                self.next()
                if self.kind() == "num":
                    for part in self.next().split("."):
                        a = ("field", a, part)
                    continue
                name = self.ident()
                targs = []
                if self.peek() == "::" and self.peek(1) == "<":
                    self.next()
                    self.skip_generics()
                if self.peek() == "(":
                    a = ("mcall", a, name, targs, self.args())
                else:
                    a = ("field", a, name)
            elif v == "->":
                self.next()
                name = self.next()
                a = ("arrow", a, name)
            elif v == "(":
                a = ("call", a, self.args())
            elif v == "[":
                self.next()
                i = self.expr()
                self.expect("]")
                a = ("index", a, i)
            elif v == "@":
                self.next()
                a = ("view", a)
            elif v == "?":
                self.next()
            else:
                return a

    def quant_vars(self):
        self.expect("|")
        vs = []
        while not self.eat("|"):
            if self.eat("||"):
                break
            self.attrs()
            while self.peek() in ("tracked", "ghost") and self.kind(1) == "id":
                self.next()
            if self.peek() == "(" or self.peek() == "_":
                name = self.pattern()
            else:
                name = ("pbind", self.ident())
            ty = None
            if self.eat(":"):
                ty = self.type()
            vs.append((name, ty))
            self.eat(",")
        return vs

    def block(self):
        """{ stmts; expr } -> ('block', [(pat, ty, e)...], e)"""
        self.expect("{")
        stmts = []
        tail = None
        while not self.eat("}"):
            self.attrs()
            v = self.peek()
            if v == "let" and self.kind() == "id":
                self.next()
                while self.peek() in ("ghost", "tracked", "mut"):
                    self.next()
                pat = self.pattern()
                ty = None
                if self.eat(":"):
                    ty = self.type()
                e = None
                if self.eat("="):
                    e = self.expr()
                self.expect(";")
                stmts.append((pat, ty, e))
                continue
            if v in ("assert", "assume", "reveal", "broadcast", "assert_by", "proof", "reveal_with_fuel",
                     "recommends_by") and self.kind() == "id" and self.peek(1) != "." :
                self.skip_proof_stmt()
                continue
            if v in ("assert_maps_equal", "assert_sets_equal", "assert_seqs_equal") and self.peek(1) == "!":
                self.skip_proof_stmt()
                continue
            if v == "return" and self.kind() == "id":
                self.next()
                tail = self.expr()
                self.eat(";")
                continue
            if v == "use":
                while self.next() != ";":
                    pass
                continue
            e = self.expr()
            if self.eat(";"):
                continue
            tail = e
        return ("block", stmts, tail)

    def skip_proof_stmt(self):
        while True:
            v = self.peek()
            if v == ";":
                self.next()
                return
            if v in ("(", "["):
                self.skip_balanced()
            elif v == "{":
                self.skip_balanced()
                self.eat(";")
                return
            elif v == "}" or self.kind() == "eof":
                return
            else:
                self.next()

    def primary(self, ns):
        k, v = self.kind(), self.peek()
        if k == "num":
            return ("int", self.num(self.next()))
        if k == "str":
            return ("str", self.next())
        if k == "char":
            return ("str", self.next())
        if k == "op":
            if v == "(":
                self.next()
                es = []
                comma = False
                while not self.eat(")"):
                    es.append(self.expr())
                    if self.eat(","):
                        comma = True
                if not es:
                    return ("tuple", [])
                return es[0] if len(es) == 1 and not comma else ("tuple", es)
            if v == "{":
                return self.block()
            if v == "|" or v == "||":
                if v == "||":
                    self.next()
                    vs = []
                else:
                    vs = self.quant_vars()
                if self.eat("->"):
                    if self.eat("("):
                        self.pattern()
                        self.expect(":")
                        self.type()
                        self.expect(")")
                    else:
                        self.type()
                self.attrs()
                return ("lambda", vs, self.expr(ns))
            if v == "[":
                self.next()
                es = []
                while not self.eat("]"):
                    es.append(self.expr())
                    if self.eat(";"):
                        n = self.expr()
                        self.expect("]")
                        return ("repeat", es[0], n)
                    self.eat(",")
                return ("seqlit", es)
            if v == "#":
                inner = self.peek(1) == "!"
                self.attrs()
                return self.expr(ns) if inner else self.unary(ns)
            if v == "<":
                # <T as Trait>::name  / <T>::name
                self.next()
                t = self.type()
                if self.eat("as"):
                    self.type()
                self.expect(">")
                segs = list(t[1]) if t[0] == "ty" else ["?"]
                while self.eat("::"):
                    segs.append(self.ident())
                return ("path", segs, [])
            if v == "..":
                self.next()
                return ("tuple", [])
            self.err("unexpected token")
        if k != "id":
            self.err("unexpected token")
        if v in ("true", "false"):
            self.next()
            return ("bool", v == "true")
        if v in ("forall", "exists", "choose") and self.peek(1) in ("|", "||"):
            self.next()
            if self.peek() == "||":
                self.next()
                vs = []
            else:
                vs = self.quant_vars()
            self.attrs()
            body = self.expr(ns)
            return ("quant", v, vs, body)
        if v == "if":
            return self.ifexpr()
        if v == "match":
            self.next()
            e = self.expr(True)
            self.expect("{")
            arms = []
            while not self.eat("}"):
                self.attrs()
                pat = self.pattern()
                guard = None
                if self.eat("if"):
                    guard = self.expr()
                self.expect("=>")
                body = self.expr()
                self.eat(",")
                arms.append((pat, guard, body))
            return ("match", e, arms)
        if v == "return":
            self.next()
            return self.expr(ns)
        if v in ("assert", "proof") and self.peek(1) in ("(", "{", "forall"):
            self.skip_proof_stmt()
            return ("tuple", [])
        if v in ("Tracked", "Ghost") and self.peek(1) == "(":
            self.next()
            a = self.args()
            return a[0]
        if v == "final" and self.peek(1) == "(":
            self.next()
            return self.args()[0]
        # path
        segs = [self.ident()]
        targs = []
        while self.peek() == "::":
            if self.peek(1) == "<":
                self.next()
                self.next()
                targs = []
                while not self.eat(">"):
                    if self.kind() == "life":
                        self.next()
                    else:
                        targs.append(self.type())
                    self.eat(",")
                continue
            self.next()
            segs.append(self.ident())
        if self.peek() == "!" and self.kind() == "op" and self.peek(1) in ("[", "(", "{"):
            return self.macro(segs[-1])
        if self.peek() == "{" and not ns and (segs[-1][0].isupper()):
            # struct literal
            self.next()
            fs, base = [], None
            while not self.eat("}"):
                if self.eat(".."):
                    base = self.expr()
                    self.eat(",")
                    continue
                self.attrs()
                f = self.next()
                if self.eat(":"):
                    fs.append((f, self.expr()))
                else:
                    fs.append((f, ("path", [f], [])))
                self.eat(",")
            return ("struct", segs, fs, base)
        if self.peek() == "{" and ns and segs[-1][0].isupper() and len(segs) >= 1:
            # In no-struct position Rust forbids struct literals; `X{}` after a comparison still occurs with Verus.
            if self.peek(1) == "}" and False:
                pass
        return ("path", segs, targs)

    def ifexpr(self):
        self.expect("if")
        if self.eat("let"):
            pat = self.pattern()
            self.expect("=")
            e = self.expr(True)
            t = self.block()
            f = None
            if self.eat("else"):
                f = self.ifexpr() if self.peek() == "if" else self.block()
            return ("iflet", pat, e, t, f)
        c = self.expr(True)
        t = self.block()
        f = None
        if self.eat("else"):
            f = self.ifexpr() if self.peek() == "if" else self.block()
        return ("if", c, t, f)

    def macro(self, name):
        self.expect("!")
        close = {"[": "]", "(": ")", "{": "}"}[self.peek()]
        start = self.p
        if name in ("seq", "set", "vec", "map"):
            self.next()
            es = []
            while not self.eat(close):
                e = self.expr()
                if self.eat("=>"):
                    es.append((e, self.expr()))
                elif self.eat(";"):
                    n = self.expr()
                    self.expect(close)
                    return ("repeat", e, n)
                else:
                    es.append(e)
                self.eat(",")
            return ("macro", name, es)
        if name == "matches":
            self.next()
            e = self.expr()
            self.expect(",")
            pat = self.pattern()
            self.expect(close)
            return ("matches", e, pat)
        self.skip_balanced()
        return ("macro", name, [])

    # -- items.  Returns a list of item tuples
    #   ('use', [segs], alias|None|'*')
    #   ('struct', name, generics, kind 'named'|'tuple'|'unit', [(field, type)])
    #   ('enum', name, generics, [(variant, kind, [(field, type)])])
    #   ('type', name, generics, type)
    #   ('fn', name, params [(name, type)], ret, body|None, mode, attrs)
    #   ('impl', generics, trait|None, type, [items])
    #   ('trait', name, [items])
    #   ('const', name, type, expr)
    #   ('mod', name, [items]|None)
    #   ('sm', name, generics, tokenized, [items])
    def items(self, end=None):
        out = []
        while True:
            if self.kind() == "eof":
                if end:
                    self.err("unexpected end of file")
                return out
            if end and self.peek() == end:
                self.next()
                return out
            it = self.item()
            if it is not None:
                if isinstance(it, list):
                    out.extend(it)
                else:
                    out.append(it)

    def use_tree(self, prefix):
        out = []
        segs = list(prefix)
        while True:
            if self.eat("{"):
                while not self.eat("}"):
                    out += self.use_tree(segs)
                    self.eat(",")
                return out
            if self.eat("*"):
                return [("use", segs, "*")]
            segs.append(self.ident())
            if self.eat("::"):
                continue
            if self.eat("as"):
                a = self.next()
                return [("use", segs, a)]
            if segs[-1] == "self":
                segs.pop()
            return [("use", segs, segs[-1])]

    def toks_pub(self, start):
        p, self.p = self.p, start
        v = self.peek()
        self.p = p
        return v == "pub"

    def item(self):
        attrs = self.attrs()
        if self.eat(";"):
            return None
        start = self.p
        mods = []
        while True:
            v = self.peek()
            if v == "pub":
                self.next()
                if self.peek() == "(":
                    self.skip_balanced()
                continue
            if v in ("open", "closed", "uninterp", "broadcast", "axiom", "exec", "proof", "tracked", "default", "unsafe",
                     "async", "ghost") and self.kind(1) == "id":
                mods.append(v)
                self.next()
                continue
            if v in ("spec",) and (self.kind(1) == "id" or self.peek(1) == "("):
                mods.append(v)
                self.next()
                if self.peek() == "(":
                    self.skip_balanced()
                    mods.append("checked")
                continue
            break
        v = self.peek()
        if v == "const" and self.peek(1) == "fn":
            self.next()
            v = "fn"
        if v == "use" or (v == "group"):
            if "broadcast" in mods or v == "group":
                while self.next() not in (";", "}"):
                    pass
                return None
            self.next()
            self.eat("::")
            us = self.use_tree([])
            self.expect(";")
            if self.toks_pub(start):
                us = [u + (True,) for u in us]
            return us
        if v == "extern":
            while self.next() != ";":
                pass
            return None
        if v == "struct":
            return self.struct()
        if v == "enum":
            return self.enum()
        if v == "type":
            self.next()
            name = self.ident()
            g = self.generic_names()
            if self.eat(":"):
                while self.peek() not in (";", "="):
                    self.next()
            ty = None
            if self.eat("="):
                ty = self.type()
            self.expect(";")
            return ("type", name, g, ty)
        if v == "fn":
            return self.fn(mods, attrs)
        if v in ("const", "static"):
            self.next()
            name = self.next()
            self.expect(":")
            ty = self.type()
            e = None
            while self.peek() in ("ensures", "returns") and self.kind() == "id":
                while self.peek() not in ("=", "{", ";"):
                    self.next()
            if self.eat("="):
                e = self.expr()
                self.expect(";")
            elif self.peek() == "{":
                e = self.block()
            else:
                self.expect(";")
            return ("const", name, ty, e)
        if v == "impl":
            self.next()
            g = self.generic_names()
            ty = self.type()
            trait = None
            if self.eat("for"):
                trait = ty
                ty = self.type()
            self.where()
            self.expect("{")
            return ("impl", g, trait, ty, self.items("}"))
        if v == "trait":
            self.next()
            name = self.ident()
            g = self.generic_names()
            while self.peek() != "{":
                self.next()
            self.expect("{")
            return ("trait", name, self.items("}"))
        if v == "mod":
            self.next()
            name = self.ident()
            if self.eat(";"):
                return ("mod", name, None, attrs)
            self.expect("{")
            return ("mod", name, self.items("}"), attrs)
        if v in ("verus", "verus_") and self.peek(1) == "!":
            self.next()
            self.next()
            self.expect("{")
            its = self.items("}")
            return its
        if v in ("state_machine", "tokenized_state_machine") and self.peek(1) == "!":
            tok = v.startswith("tok")
            self.next()
            self.next()
            self.expect("{")
            name = self.ident()
            g = self.generic_names()
            self.where()
            self.expect("{")
            its = self.sm_items()
            self.expect("}")
            return ("sm", name, g, tok, its)
        if self.kind() == "id" and self.peek(1) == "!":
            self.next()
            self.next()
            if self.kind() == "id":
                self.next()
            self.skip_balanced()
            self.eat(";")
            return None
        if v == "global":
            while self.next() != ";":
                pass
            return None
        if v == "union":
            while self.peek() != "{":
                self.next()
            self.skip_balanced()
            return None
        self.err("unknown item")

    def where(self):
        if self.peek() == "where" and self.kind() == "id":
            while self.peek() not in ("{", ";") and self.peek() not in CLAUSES:
                self.next()

    def fields_named(self):
        fs = []
        self.expect("{")
        while not self.eat("}"):
            self.attrs()
            while self.peek() in ("pub", "ghost", "tracked") and self.peek(1) != ":":
                self.next()
                if self.peek() == "(":
                    self.skip_balanced()
            n = self.next()
            self.expect(":")
            fs.append((n, self.type()))
            self.eat(",")
        return fs

    def fields_tuple(self):
        fs = []
        self.expect("(")
        while not self.eat(")"):
            self.attrs()
            while self.peek() in ("pub", "ghost", "tracked"):
                self.next()
                if self.peek() == "(" and self.peek(1) in ("crate", "super", "in"):
                    self.skip_balanced()
            fs.append((str(len(fs)), self.type()))
            self.eat(",")
        return fs

    def struct(self):
        self.expect("struct")
        name = self.ident()
        g = self.generic_names()
        self.where()
        if self.peek() == "{":
            return ("struct", name, g, "named", self.fields_named())
        if self.peek() == "(":
            fs = self.fields_tuple()
            self.where()
            self.expect(";")
            return ("struct", name, g, "tuple", fs)
        self.expect(";")
        return ("struct", name, g, "unit", [])

    def enum(self):
        self.expect("enum")
        name = self.ident()
        g = self.generic_names()
        self.where()
        self.expect("{")
        vs = []
        while not self.eat("}"):
            self.attrs()
            vn = self.ident()
            if self.peek() == "{":
                vs.append((vn, "named", self.fields_named()))
            elif self.peek() == "(":
                vs.append((vn, "tuple", self.fields_tuple()))
            else:
                vs.append((vn, "unit", []))
            if self.eat("="):
                self.expr()
            self.eat(",")
        return ("enum", name, g, vs)

    def params(self):
        self.expect("(")
        ps = []
        while not self.eat(")"):
            self.attrs()
            ref = False
            while self.peek() in ("tracked", "ghost", "mut", "&") or self.kind() == "life":
                if self.peek() == "&":
                    ref = True
                self.next()
            if self.peek() == "self":
                self.next()
                if self.eat(":"):
                    self.type()
                ps.append((("pbind", "self"), ("ty", ["Self"], [])))
            else:
                pat = self.pattern()
                self.expect(":")
                ps.append((pat, self.type()))
            self.eat(",")
        return ps

    def fn(self, mods, attrs):
        self.expect("fn")
        name = self.ident()
        g = self.generic_names()
        ps = self.params()
        ret = None
        if self.eat("->"):
            if self.peek() in ("tracked", "ghost"):
                self.next()
            if self.peek() == "(" and (self.kind(1) == "id" and self.peek(2) == ":" or self.peek(1) in ("tracked", "ghost")
                                       or self.peek(1) == "mut"):
                self.next()
                while self.peek() in ("tracked", "ghost", "mut"):
                    self.next()
                self.ident()
                self.expect(":")
                ret = self.type()
                self.expect(")")
            else:
                ret = self.type()
        self.where()
        mode = "spec" if "spec" in mods else "proof" if "proof" in mods or "axiom" in mods else "exec"
        # clauses
        when = None
        start = self.p
        while self.peek() not in ("{", ";") or self.in_clause(start):
            v = self.peek()
            if v == "when" and self.kind() == "id" and mode == "spec":
                self.next()
                when = self.expr(True)
            elif v in ("(", "["):
                self.skip_balanced()
            elif v == "{":
                self.skip_balanced()
            elif self.kind() == "eof":
                self.err("eof in fn clauses")
            else:
                self.next()
        if self.eat(";"):
            return ("fn", name, ps, ret, None, mode, attrs, g, None)
        if mode == "spec":
            try:
                body = self.block()
            except ParseError:
                raise
            return ("fn", name, ps, ret, body, mode, attrs, g, when)
        s = self.p
        self.skip_balanced()
        return ("fn", name, ps, ret, ("raw", s, self.p), mode, attrs, g, None)

    def in_clause(self, start):
        """True when the '{' at the cursor belongs to a requires/ensures/... expression rather than starting the body."""
        if self.peek() != "{":
            return False
        if self.p == start:
            return False
        prev = self.t[self.p - 1][1]
        pk = self.t[self.p - 1][0]
        if pk == "op" and prev in ("==>", "<==>", "&&&", "|||", "&&", "||", "=", "==", "=>", "=~=", "===", "!", "(", "|"):
            return True
        if prev == "else":
            return True
        # if cond { .. } else { .. }, match x { .. }: look at what follows the block
        save = self.p
        try:
            self.skip_balanced()
            nxt = self.peek()
            nk = self.kind()
        finally:
            self.p = save
        if nk == "op" and nxt in (",", "{", "==>", "&&&", "|||", "&&", "||", "==", "<==>", ")"):
            return True
        if nxt == "else" or nxt in CLAUSES:
            return True
        # a struct literal or match/if right before: find the head of this expression
        j = self.p - 1
        depth = 0
        while j > start:
            v = self.t[j][1]
            if v in (")", "]", "}"):
                depth += 1
            elif v in ("(", "[", "{"):
                depth -= 1
            elif depth == 0 and v in ("if", "match"):
                # the block of an if/match whose closing brace is followed by an item start: it is part of the clause
                return self._if_block_in_clause(save)
            elif depth == 0 and v in (",", ";") or v in CLAUSES:
                break
            j -= 1
        return False

    def _if_block_in_clause(self, save):
        p = self.p
        try:
            self.skip_balanced()
            return self.peek() in ("{", ",", "else") or self.peek() in CLAUSES
        finally:
            self.p = p

    # state machine body: ('fields', [(name, type)]), ('init'|'transition'|'property', name, params, [stmts]),
    # ('enum', ...), ('fn', ...)
    def sm_items(self):
        out = []
        while not self.eat("}"):
            save = self.p
            attrs = self.attrs()
            v = self.peek()
            if v == "fields":
                self.next()
                self.expect("{")
                fs = []
                while not self.eat("}"):
                    self.attrs()
                    while self.peek() == "pub":
                        self.next()
                        if self.peek() == "(":
                            self.skip_balanced()
                    n = self.ident()
                    self.expect(":")
                    fs.append((n, self.type()))
                    self.eat(",")
                out.append(("fields", fs))
            elif v in ("init", "transition", "readonly", "property") and self.peek(1) == "!":
                self.next()
                self.next()
                self.expect("{")
                name = self.ident()
                ps = self.params()
                body = self.sm_block()
                self.expect("}")
                out.append((v, name, ps, body))
            elif v == "fn" and any("inductive" in a for a in attrs):
                while self.peek() != "{":
                    if self.peek() == "(":
                        self.skip_balanced()
                    else:
                        self.next()
                self.skip_balanced()
            else:
                self.p = save
                it = self.item()
                if it is not None:
                    if isinstance(it, list):
                        out.extend(it)
                    else:
                        out.append(it)
        return out

    def sm_block(self):
        """Statements: ('require', e) ('requirelet', pat, e) ('let', pat, ty, e) ('update', field, [index..], e)
        ('init', field, e) ('if', c, [..], [..]) ('match', e, [(pat, guard, [..])]) ('special', op, field, e) ('have', ..)"""
        self.expect("{")
        out = []
        while not self.eat("}"):
            self.attrs()
            v = self.peek()
            if v == "require":
                self.next()
                if self.eat("let"):
                    pat = self.pattern()
                    self.expect("=")
                    e = self.expr()
                    out.append(("requirelet", pat, e))
                else:
                    out.append(("require", self.expr()))
                self.eat(";")
            elif v == "let":
                self.next()
                pat = self.pattern()
                ty = None
                if self.eat(":"):
                    ty = self.type()
                self.expect("=")
                e = self.expr()
                self.expect(";")
                out.append(("let", pat, ty, e))
            elif v in ("update", "init") and self.kind(1) == "id":
                self.next()
                f = self.ident()
                subs = []
                while self.peek() in (".", "["):
                    if self.eat("."):
                        subs.append(("f", self.next()))
                    else:
                        self.next()
                        subs.append(("i", self.expr()))
                        self.expect("]")
                self.expect("=")
                e = self.expr()
                self.eat(";")
                out.append((v, f, subs, e))
            elif v in ("assert",):
                self.skip_proof_stmt()
            elif v == "if":
                out.append(self.sm_if())
            elif v == "match":
                self.next()
                e = self.expr(True)
                self.expect("{")
                arms = []
                while not self.eat("}"):
                    pat = self.pattern()
                    guard = None
                    if self.eat("if"):
                        guard = self.expr()
                    self.expect("=>")
                    arms.append((pat, guard, self.sm_block()))
                    self.eat(",")
                self.eat(";")
                out.append(("match", e, arms))
            elif v in ("remove", "add", "have", "deposit", "withdraw", "guard"):
                self.next()
                f = self.ident()
                op = self.next()
                if op in (">", "<", ">=", "<="):
                    if self.peek() in ("=", "-="):
                        op += self.next()
                if self.peek() == "{":
                    self.next()
                    e = self.expr()
                    self.expect("}")
                    kind = "single"
                elif self.peek() == "(":
                    e = self.expr()
                    kind = "all"
                elif self.peek() == "[":
                    self.next()
                    e = self.expr()
                    self.expect("=>")
                    e = (e, self.letpat() if self.peek() in ("let", "_") else self.expr())
                    self.expect("]")
                    kind = "kv"
                elif self.peek() == "Some":
                    e = self.expr()
                    kind = "kv"
                else:
                    e = self.expr()
                    kind = "expr"
                self.eat(";")
                if self.peek() in ("by",):
                    self.next()
                    self.skip_balanced()
                    self.eat(";")
                out.append(("special", v, f, kind, e))
            elif v == "{":
                self.skip_balanced()
            elif v == "birds_eye":
                self.next()
            else:
                # an expression statement
                self.expr()
                self.eat(";")
        return out

    def letpat(self):
        if self.eat("let"):
            return ("letpat", self.pattern())
        return ("letpat", self.pattern())

    def sm_if(self):
        self.expect("if")
        if self.eat("let"):
            pat = self.pattern()
            self.expect("=")
            e = self.expr(True)
            t = self.sm_block()
            f = []
            if self.eat("else"):
                f = [self.sm_if()] if self.peek() == "if" else self.sm_block()
            self.eat(";")
            return ("match", e, [(pat, None, t), (("pwild",), None, f)])
        c = self.expr(True)
        t = self.sm_block()
        f = []
        if self.eat("else"):
            f = [self.sm_if()] if self.peek() == "if" else self.sm_block()
        self.eat(";")
        return ("if", c, t, f)


def parse_file(path):
    with open(path, encoding="utf-8") as f:
        src = f.read()
    return Parser(src, path).items()


if __name__ == "__main__":
    bad = 0
    for p in sys.argv[1:]:
        try:
            its = parse_file(p)
        except ParseError as e:
            print("FAIL", e)
            bad += 1
    print("bad", bad)
