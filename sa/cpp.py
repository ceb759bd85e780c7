"""Parser of the C++ subset the native sources use.

Produces a plain syntax tree; no preprocessing besides local includes, no type
checking.  Anything the grammar does not cover raises Unparsed for the
enclosing function only: its body becomes an opaque node, which the analysis
reports as undetermined when it is reachable.
"""
import os
import re

TOK = re.compile(r"""
    (?P<ws>\s+)
  | (?P<comment>//[^\n]*|/\*.*?\*/)
  | (?P<pp>\#[^\n]*(?:\\\n[^\n]*)*)
  | (?P<str>(?:u8|u|U|L)?"(?:\\.|[^"\\])*")
  | (?P<chr>'(?:\\.|[^'\\])*')
  | (?P<num>0[xX][0-9a-fA-F]+[uUlL]*|(?:\d+\.\d*|\.\d+|\d+)(?:[eE][+-]?\d+)?[fFlLuUzZ]*)
  | (?P<id>[A-Za-z_]\w*)
  | (?P<op>\.\.\.|<<=|>>=|<=>|->\*|::|->|\+\+|--|<<|>>|<=|>=|==|!=|&&|\|\||\+=|-=|\*=|/=|%=|&=|\|=|\^=|[{}()\[\];:,.?~!+\-*/%&|^<>=@\\])
""", re.X | re.S)

QUAL = {"const", "volatile", "static", "inline", "constexpr", "extern", "typename", "mutable", "register", "thread_local",
        "__restrict__", "__restrict", "restrict", "__host__", "__device__", "__global__", "__forceinline__", "virtual", "explicit",
        "friend", "struct", "class", "enum", "alignas", "C10_HOST_DEVICE", "__inline__", "noexcept", "override", "final"}
BUILTIN = {"void", "bool", "char", "short", "int", "long", "float", "double", "signed", "unsigned", "auto", "int64_t", "int32_t",
           "uint64_t", "uint32_t", "size_t", "ssize_t", "ptrdiff_t", "int8_t", "uint8_t", "int16_t", "uint16_t", "wchar_t"}
KEY = {"if", "else", "for", "while", "do", "return", "break", "continue", "switch", "case", "default", "using", "typedef", "template",
       "namespace", "goto", "try", "catch", "throw", "new", "delete", "sizeof", "operator", "this", "true", "false", "nullptr",
       "static_cast", "reinterpret_cast", "const_cast", "dynamic_cast", "public", "private", "protected", "static_assert"}


class Unparsed(Exception):
    pass


class N:
    def __init__(self, k, line, **kw):
        self.k, self.line = k, line
        self.__dict__.update(kw)

    def __repr__(self):
        return f"{self.k}@{self.line}"


class Tok:
    __slots__ = ("k", "v", "line", "pos", "end")

    def __init__(self, k, v, line, pos, end):
        self.k, self.v, self.line, self.pos, self.end = k, v, line, pos, end

    def __repr__(self):
        return self.v


def tokens(text):
    out = []
    i, line = 0, 1
    while i < len(text):
        m = TOK.match(text, i)
        if not m:
            raise Unparsed(f"line {line}: unexpected character {text[i]!r}")
        k, v = m.lastgroup, m.group()
        if k == "pp":
            s = v.replace("\\\n", " ").strip()
            if re.match(r"#\s*pragma\b", s):
                out.append(Tok("pragma", re.sub(r"^#\s*pragma\s*", "", s), line, i, m.end()))
            elif re.match(r"#\s*include\b", s):
                out.append(Tok("include", s, line, i, m.end()))
            elif re.match(r"#\s*(define|undef)\b", s):
                out.append(Tok("define", s, line, i, m.end()))
            # conditional compilation: both sides stay
        elif k not in ("ws", "comment"):
            out.append(Tok(k, v, line, i, m.end()))
        line += v.count("\n")
        i = m.end()
    out.append(Tok("eof", "", line, len(text), len(text)))
    return out


class Type:
    def __init__(self, name, ptr=0, ref=False, const=False, args=(), line=0):
        self.name, self.ptr, self.ref, self.const, self.args, self.line = name, ptr, ref, const, args, line

    def __repr__(self):
        return ("const " if self.const else "") + self.name + ("<" + ",".join(map(repr, self.args)) + ">" if self.args else "") + "*" * self.ptr + ("&" if self.ref else "")


class Unit:
    """Declarations of one file together with its local includes."""

    def __init__(self, path):
        self.path = path
        self.funcs = {}       # name -> [N func]
        self.structs = {}
        self.alias = {}
        self.macros = {}
        self.libs = []        # TORCH_LIBRARY* blocks
        self.globals = {}
        self.opaque = []      # (line, why)

    def add(self, other):
        for n, f in other.funcs.items():
            self.funcs.setdefault(n, []).extend(f)
        self.structs.update(other.structs)
        self.alias.update(other.alias)
        self.macros.update(other.macros)
        self.globals.update(other.globals)


class Parser:
    def __init__(self, path, text=None, seen=()):
        self.path = path
        text = open(path).read() if text is None else text
        self.t = tokens(text)
        self.i = 0
        self.unit = Unit(path)
        self.seen = set(seen) | {os.path.realpath(path)}

    # ------------------------------------------------------------- tokens
    @property
    def c(self):
        return self.t[self.i]

    def peek(self, n=1):
        return self.t[min(self.i + n, len(self.t) - 1)]

    def at(self, *v):
        return self.c.v in v and self.c.k not in ("str", "chr", "eof")

    def eat(self, v=None):
        t = self.c
        if v is not None and (t.v != v or t.k in ("str", "chr")):
            raise Unparsed(f"{self.path}:{t.line}: expected {v!r}, got {t.v!r}")
        self.i += 1
        return t

    def opt(self, v):
        if self.at(v):
            self.i += 1
            return True
        return False

    def ident(self):
        if self.c.k != "id":
            raise Unparsed(f"{self.path}:{self.c.line}: expected a name, got {self.c.v!r}")
        return self.eat().v

    def balanced(self, a, b):
        """Skip from an opening to the matching closing token."""
        self.eat(a)
        d = 1
        while d:
            if self.c.k == "eof":
                raise Unparsed("end of file")
            if self.at(a):
                d += 1
            elif self.at(b):
                d -= 1
            elif b == ">" and self.at(">>"):
                d -= 2
                if d < 0:
                    raise Unparsed("unbalanced template brackets")
            self.i += 1

    # ------------------------------------------------------------- file
    def parse(self):
        self.decls(None)
        return self.unit

    def decls(self, until):
        while self.c.k != "eof" and not (until and self.at(until)):
            start = self.i
            try:
                self.decl()
            except (Unparsed, RecursionError) as e:
                self.unit.opaque.append((self.t[start].line, str(e)))
                self.i = start
                self.recover()

    def recover(self):
        """Skip one declaration: up to ';' or a balanced '{...}'."""
        while self.c.k != "eof":
            if self.at(";"):
                self.i += 1
                return
            if self.at("{"):
                try:
                    self.balanced("{", "}")
                except Unparsed:
                    self.i = len(self.t) - 1
                self.opt(";")
                return
            if self.at("("):
                try:
                    self.balanced("(", ")")
                    continue
                except Unparsed:
                    self.i = len(self.t) - 1
                    return
            if self.at("}"):
                self.i += 1
                return
            self.i += 1

    def decl(self):
        t = self.c
        if t.k == "include":
            self.eat()
            m = re.search(r'"([^"]+)"', t.v)
            if m:
                p = os.path.join(os.path.dirname(self.path), m.group(1))
                if os.path.exists(p) and os.path.realpath(p) not in self.seen:
                    sub = Parser(p, seen=self.seen)
                    self.unit.add(sub.parse())
                    self.seen |= sub.seen
            return
        if t.k == "define":
            self.eat()
            m = re.match(r"#\s*define\s+(\w+)(\([^)]*\))?\s*(.*)", t.v)
            if m:
                self.unit.macros[m.group(1)] = (m.group(2), m.group(3))
            return
        if t.k == "pragma" or self.at(";"):
            self.eat()
            return
        if self.at("namespace"):
            self.eat()
            while not self.at("{", ";"):
                self.eat()
                if self.at("="):
                    self.recover()
                    return
            self.eat("{")
            self.decls("}")
            self.eat("}")
            return
        if self.at("inline") and self.peek().v == "namespace":
            self.eat()
            return self.decl()
        if self.at("extern") and self.peek().k == "str":
            self.eat(), self.eat()
            if self.at("{"):
                self.eat()
                self.decls("}")
                self.eat("}")
            return
        if self.at("using"):
            return self.using()
        if self.at("typedef"):
            self.eat()
            ty = self.type()
            self.unit.alias[self.ident()] = ty
            self.eat(";")
            return
        if self.at("static_assert"):
            return self.recover()
        if self.at("template"):
            self.eat()
            params = self.template_params()
            if self.at("using"):
                return self.using()
            if self.at("struct", "class") and self.peek().k == "id":
                return self.struct(params)
            return self.function(params)
        if t.v in ("TORCH_LIBRARY", "TORCH_LIBRARY_IMPL", "TORCH_LIBRARY_FRAGMENT"):
            self.eat()
            self.eat("(")
            args = [self.ident()]
            while self.opt(","):
                args.append(self.ident())
            self.eat(")")
            self.unit.libs.append(N("lib", t.line, macro=t.v, args=args, body=self.block(), path=self.path))
            return
        if t.v.startswith(("STABLE_TORCH_LIBRARY", "PYBIND11_MODULE")):
            return self.recover()
        if self.at("struct", "class") and self.peek().k == "id" and self.peek(2).v in ("{", ":", "final"):
            return self.struct([])
        return self.function([])

    def using(self):
        self.eat("using")
        if self.at("namespace"):
            return self.recover()
        save = self.i
        name = self.ident()
        if self.opt("="):
            self.unit.alias[name] = self.type()
            self.eat(";")
            return
        self.i = save
        self.recover()

    def template_params(self):
        self.eat("<")
        names, d = [], 1
        last = None
        while d:
            if self.c.k == "eof":
                raise Unparsed("template")
            if self.at("<"):
                d += 1
            elif self.at(">"):
                d -= 1
            if (self.at(",") and d == 1) or d == 0:
                if last:
                    names.append(last)
                last = None
            elif self.c.k == "id" and d == 1:
                last = self.c.v
            self.i += 1
        return names

    def struct(self, tparams):
        self.eat()
        line = self.c.line
        name = self.ident()
        while not self.at("{"):
            self.eat()
        self.eat("{")
        fields, methods = [], {}
        while not self.at("}"):
            if self.at("public", "private", "protected"):
                self.eat()
                self.eat(":")
                continue
            if self.at(";"):
                self.eat()
                continue
            save = self.i
            params = []
            try:
                if self.at("template"):
                    self.eat()
                    params = self.template_params()
                ty = None
                if not (self.c.v == name and self.peek().v == "("):
                    ty = self.type()
                if self.at("operator"):
                    self.eat()
                    if self.at("("):
                        self.eat("(")
                        self.eat(")")
                        mname = "operator()"
                    else:
                        mname = "operator" + self.eat().v
                else:
                    mname = self.ident()
                if self.at("("):
                    ps = self.params()
                    if ty is None and self.at(":"):
                        raise Unparsed("constructor")
                    while self.at("const", "noexcept", "override", "final"):
                        self.eat()
                    if self.at("->"):
                        self.eat()
                        ty = self.type()
                    if self.at("{"):
                        methods.setdefault(mname, []).append(
                            N("func", self.t[save].line, name=name + "::" + mname, params=ps, ret=ty, body=self.body(), tparams=params, path=self.path))
                    else:
                        self.eat(";")
                else:
                    while True:
                        if self.opt("="):
                            self.assign()
                        elif self.at("{"):
                            self.balanced("{", "}")
                        fields.append((mname, ty))
                        if not self.opt(","):
                            break
                        mname = self.ident()
                    self.eat(";")
            except Unparsed as e:
                self.unit.opaque.append((self.t[save].line, str(e)))
                methods.setdefault("?", []).append(N("opaque", self.t[save].line, why=str(e)))
                self.i = save
                self.recover()
        self.eat("}")
        self.opt(";")
        self.unit.structs[name] = N("struct", line, name=name, fields=fields, methods=methods, tparams=tparams, path=self.path)

    def function(self, tparams):
        line = self.c.line
        ty = self.type()
        name = self.ident()
        while self.opt("::"):
            name = self.ident()
        if self.at("(") and self.looks_like_params():
            ps = self.params()
            while self.at("const", "noexcept", "override"):
                self.eat()
            if self.at("->"):
                self.eat()
                ty = self.type()
            if self.opt(";"):
                return
            f = N("func", line, name=name, params=ps, ret=ty, body=None, tparams=tparams, path=self.path)
            f.body = self.body()
            self.unit.funcs.setdefault(name, []).append(f)
            return
        # global variable
        init = None
        if self.opt("="):
            init = self.initializer()
        elif self.at("{"):
            init = self.initializer()
        self.eat(";")
        self.unit.globals[name] = (ty, init)

    def looks_like_params(self):
        return True

    def body(self):
        """A function body; when it does not parse it becomes opaque."""
        save = self.i
        try:
            return self.block()
        except (Unparsed, RecursionError) as e:
            self.i = save
            line = self.c.line
            self.balanced("{", "}")
            self.unit.opaque.append((line, str(e)))
            return N("opaque", line, why=str(e))

    def params(self):
        self.eat("(")
        out = []
        while not self.at(")"):
            if self.at("..."):
                self.eat()
                continue
            ty = self.type()
            name = None
            if self.opt("..."):
                pass
            if self.c.k == "id" and self.c.v not in QUAL:
                name = self.ident()
            while self.at("["):
                self.balanced("[", "]")
                ty = Type(ty.name, ty.ptr + 1, ty.ref, ty.const, ty.args, ty.line)
            dflt = None
            if self.opt("="):
                dflt = self.assign()
            out.append((name, ty, dflt))
            if not self.opt(","):
                break
        self.eat(")")
        return out

    # ------------------------------------------------------------- types
    def type(self):
        line = self.c.line
        const = False
        name, args = None, ()
        while True:
            v = self.c.v
            if self.c.k == "id" and v in QUAL:
                self.eat()
                const |= v == "const"
                if v == "alignas":
                    self.balanced("(", ")")
                continue
            if self.at("[") and self.peek().v == "[":
                self.balanced("[", "]")
                continue
            if self.c.k == "id" and v in BUILTIN and (name is None or name in ("unsigned", "signed", "long", "short", "unsigned long", "long long", "unsigned long long", "signed long")):
                name = v if name is None else name + " " + v
                self.eat()
                continue
            if name is None and (self.c.k == "id" and v not in KEY or v == "::"):
                name, args = self.qualified_type()
                continue
            if v == "decltype" and name is None:
                self.eat()
                self.balanced("(", ")")
                name = "decltype"
                continue
            break
        if name is None:
            raise Unparsed(f"{self.path}:{self.c.line}: expected a type, got {self.c.v!r}")
        ptr, ref = 0, False
        while True:
            if self.at("*"):
                self.eat()
                ptr += 1
            elif self.at("&", "&&"):
                self.eat()
                ref = True
            elif self.c.k == "id" and self.c.v in ("const", "__restrict__", "__restrict", "restrict", "volatile"):
                const |= self.eat().v == "const" and not ptr
            else:
                break
        return Type(name, ptr, ref, const, args, line)

    def qualified_type(self):
        self.opt("::")
        parts, args = [], ()
        while True:
            self.opt("template")
            parts.append(self.ident())
            args = ()
            if self.at("<"):
                args = self.template_args()
                if args is None:
                    raise Unparsed(f"{self.path}:{self.c.line}: template arguments")
            if self.at("::") and self.peek().k == "id":
                self.eat()
                continue
            return "::".join(parts), args

    def template_args(self):
        """Speculative: None (position kept) when it is not an argument list."""
        save = self.i
        self.eat("<")
        out = []
        try:
            if self.at(">"):
                self.eat()
                return ()
            while True:
                if self.c.k == "num":
                    out.append(Type(self.eat().v))
                elif self.at("true", "false"):
                    out.append(Type(self.eat().v))
                else:
                    out.append(self.type())
                    if self.at("("):       # function type
                        self.balanced("(", ")")
                self.opt("...")
                if self.opt(","):
                    continue
                if self.at(">"):
                    self.eat()
                    return tuple(out)
                if self.at(">>"):
                    # split the token
                    t = self.c
                    self.t[self.i:self.i + 1] = [Tok("op", ">", t.line, t.pos, t.pos + 1), Tok("op", ">", t.line, t.pos + 1, t.end)]
                    self.eat()
                    return tuple(out)
                raise Unparsed("template arguments")
        except Unparsed:
            self.i = save
            return None

    # ------------------------------------------------------------- statements
    def block(self):
        line = self.c.line
        self.eat("{")
        out = []
        while not self.at("}"):
            if self.c.k == "eof":
                raise Unparsed("end of file in block")
            out.append(self.stmt())
        self.eat("}")
        return N("block", line, body=out)

    def stmt(self):
        t = self.c
        line = t.line
        if t.k == "pragma":
            self.eat()
            if self.at("}"):
                return N("empty", line)
            s = self.stmt()
            if t.v.startswith(("omp", "unroll", "GCC", "clang", "nounroll")):
                if t.v.startswith("omp"):
                    return N("omp", line, text=t.v, body=s)
                return s
            return s
        if t.k in ("include", "define"):
            raise Unparsed("preprocessor directive inside a function")
        if self.at("{"):
            return self.block()
        if self.at(";"):
            self.eat()
            return N("empty", line)
        if self.at("if"):
            self.eat()
            self.opt("constexpr")
            self.eat("(")
            init = None
            c = self.decl_or_expr()
            if self.opt(";"):
                init = c
                c = self.decl_or_expr()
            self.eat(")")
            a = self.stmt()
            b = None
            if self.at("else"):
                self.eat()
                b = self.stmt()
            return N("if", line, init=init, cond=c, then=a, els=b)
        if self.at("for"):
            self.eat()
            self.eat("(")
            init = None
            if not self.at(";"):
                init = self.decl_or_expr(rng=True)
            if init is not None and self.opt(":"):
                it = self.initializer()
                self.eat(")")
                return N("range", line, var=init, it=it, body=self.stmt())
            self.eat(";")
            cond = None if self.at(";") else self.expr()
            self.eat(";")
            step = None if self.at(")") else self.expr()
            self.eat(")")
            return N("for", line, init=init, cond=cond, step=step, body=self.stmt())
        if self.at("while"):
            self.eat()
            self.eat("(")
            c = self.expr()
            self.eat(")")
            return N("for", line, init=None, cond=c, step=None, body=self.stmt())
        if self.at("do"):
            raise Unparsed("do loop")
        if self.at("return"):
            self.eat()
            v = None
            if not self.at(";"):
                v = self.initializer()
            self.eat(";")
            return N("return", line, value=v)
        if self.at("break", "continue"):
            k = self.eat().v
            self.eat(";")
            return N(k, line)
        if self.at("using", "typedef"):
            if self.at("using"):
                self.eat()
                if self.at("namespace"):
                    self.recover()
                    return N("empty", line)
                name = self.ident()
                if self.opt("="):
                    ty = self.type()
                    self.eat(";")
                    return N("alias", line, name=name, type=ty)
                self.recover()
                return N("empty", line)
            self.eat()
            ty = self.type()
            name = self.ident()
            self.eat(";")
            return N("alias", line, name=name, type=ty)
        if self.at("static_assert"):
            self.recover()
            return N("empty", line)
        if self.at("switch", "goto", "try", "throw", "template"):
            if self.at("throw"):
                self.eat()
                if not self.at(";"):
                    self.expr()
                self.eat(";")
                return N("throw", line)
            raise Unparsed(f"{self.path}:{line}: {t.v} statement")
        s = self.decl_or_expr()
        self.eat(";")
        return s

    def decl_or_expr(self, rng=False):
        """A declaration when it can be read as one, else an expression."""
        line = self.c.line
        save = self.i
        d = self.try_decl(rng)
        if d is not None:
            return d
        self.i = save
        return N("expr", line, e=self.expr())

    def try_decl(self, rng):
        line = self.c.line
        save = self.i
        if self.c.k != "id" and not self.at("::"):
            return None
        static = any(self.t[k].v == "static" for k in range(self.i, min(self.i + 3, len(self.t))) if self.t[k].k == "id")
        try:
            ty = self.type()
            if self.at("[") and ty.name == "auto":
                self.eat("[")
                names = [self.ident()]
                while self.opt(","):
                    names.append(self.ident())
                self.eat("]")
                if rng and self.at(":"):
                    return N("bind", line, names=names, init=None, ref=ty.ref)
                if self.opt("="):
                    init = self.initializer()
                else:
                    init = self.initializer()
                return N("bind", line, names=names, init=init, ref=ty.ref)
            if self.c.k != "id" or self.c.v in KEY or self.c.v in QUAL:
                return None
            name = self.ident()
        except Unparsed:
            return None
        if not (self.at("=", ";", "(", "{", ",", "[") or (rng and self.at(":"))):
            return None
        if self.at("(") and ty.ptr == 0 and not ty.ref and ty.name not in BUILTIN and "::" not in ty.name and not ty.args:
            # "name other(...)": a declaration with constructor arguments
            pass
        vars_ = []
        while True:
            vt, init, dims = ty, None, []
            while self.at("["):
                self.eat()
                dims.append(None if self.at("]") else self.expr())
                self.eat("]")
            if self.opt("="):
                init = self.initializer()
            elif self.at("("):
                self.eat()
                a = []
                while not self.at(")"):
                    a.append(self.initializer())
                    if not self.opt(","):
                        break
                self.eat(")")
                init = N("ctor", line, args=a, type=ty)
            elif self.at("{"):
                init = N("ctor", line, args=self.braces().items, type=ty)
            vars_.append((name, vt, init, dims))
            if not self.opt(","):
                break
            ptr = 0
            while self.at("*", "&"):
                ptr += self.eat().v == "*"
            ty = Type(vt.name, ptr, False, vt.const, vt.args, vt.line)
            name = self.ident()
        return N("decl", line, vars=vars_, static=static)

    # ------------------------------------------------------------- expressions
    def initializer(self):
        return self.braces() if self.at("{") else self.assign()

    def braces(self):
        line = self.c.line
        self.eat("{")
        out = []
        while not self.at("}"):
            if self.at(".") and self.peek().k == "id":
                raise Unparsed("designated initializer")
            out.append(self.initializer())
            if not self.opt(","):
                break
        self.eat("}")
        return N("list", line, items=out)

    def expr(self):
        e = self.assign()
        while self.at(","):
            line = self.eat().line
            e = N("comma", line, a=e, b=self.assign())
        return e

    def assign(self):
        e = self.ternary()
        if self.at("=", "+=", "-=", "*=", "/=", "%=", "&=", "|=", "^=", "<<=", ">>="):
            op = self.eat()
            return N("assign", op.line, op=op.v, a=e, b=self.initializer())
        return e

    def ternary(self):
        c = self.binary(0)
        if self.at("?"):
            line = self.eat().line
            a = self.assign()
            self.eat(":")
            return N("cond", line, c=c, a=a, b=self.assign())
        return c

    LEVELS = [("||",), ("&&",), ("|",), ("^",), ("&",), ("==", "!="), ("<", ">", "<=", ">="), ("<<", ">>"), ("+", "-"), ("*", "/", "%")]

    def binary(self, lv):
        if lv == len(self.LEVELS):
            return self.unary()
        e = self.binary(lv + 1)
        while self.c.k == "op" and self.c.v in self.LEVELS[lv]:
            op = self.eat()
            e = N("bin", op.line, op=op.v, a=e, b=self.binary(lv + 1))
        return e

    def unary(self):
        t = self.c
        if self.at("++", "--", "+", "-", "!", "~", "*", "&"):
            self.eat()
            return N("un", t.line, op=t.v, a=self.unary())
        if self.at("sizeof"):
            self.eat()
            if self.at("("):
                self.balanced("(", ")")
            else:
                self.unary()
            return N("sizeof", t.line)
        if self.at("("):
            # C-style cast?
            save = self.i
            self.eat()
            try:
                ty = self.type()
                simple = ty.name.split(" ")[0] in BUILTIN or ty.ptr or ty.name in ("scalar_t",) or ty.name in self.unit.alias
                if self.at(")") and simple:
                    self.eat()
                    if self.c.k in ("id", "num") or self.at("(", "*", "-", "&"):
                        return N("cast", t.line, type=ty, a=self.unary(), how="c")
            except Unparsed:
                pass
            self.i = save
        return self.postfix()

    def postfix(self):
        e = self.primary()
        while True:
            t = self.c
            if self.at("("):
                e = N("call", t.line, f=e, args=self.call_args())
            elif self.at("["):
                self.eat()
                i = self.expr()
                self.eat("]")
                e = N("index", t.line, a=e, i=i)
            elif self.at(".", "->"):
                self.eat()
                self.opt("template")
                if self.at("~"):
                    raise Unparsed("destructor call")
                name = self.ident()
                targs = ()
                if self.at("<"):
                    targs = self.try_targs() or ()
                e = N("member", t.line, a=e, name=name, targs=targs, arrow=t.v == "->")
            elif self.at("++", "--"):
                self.eat()
                e = N("post", t.line, op=t.v, a=e)
            elif self.at("{") and e.k == "name" and (e.targs or e.name in self.unit.structs or e.name in self.unit.alias or e.name in BUILTIN):
                e = N("ctor", t.line, args=self.braces().items, type=Type(e.name, args=e.targs))
            else:
                return e

    def call_args(self):
        self.eat("(")
        out = []
        while not self.at(")"):
            out.append(self.initializer())
            if not self.opt(","):
                break
        self.eat(")")
        return out

    def try_targs(self):
        save, saved = self.i, list(self.t)
        a = self.template_args()
        if a is None:
            return None
        if self.at("(", "{", "::", ")", ",", ";", "}"):
            return a
        self.t = saved
        self.i = save
        return None

    def primary(self):
        t = self.c
        if t.k == "num":
            self.eat()
            return N("num", t.line, v=t.v)
        if t.k == "str":
            s = ""
            while self.c.k == "str":
                v = self.eat().v
                s += v[v.index('"') + 1:-1]
            return N("str", t.line, v=s)
        if t.k == "chr":
            self.eat()
            return N("str", t.line, v=t.v)
        if self.at("("):
            self.eat()
            e = self.expr()
            self.eat(")")
            return e
        if self.at("["):
            return self.lambda_()
        if self.at("true", "false"):
            self.eat()
            return N("bool", t.line, v=t.v == "true")
        if self.at("nullptr"):
            self.eat()
            return N("null", t.line)
        if self.at("this"):
            self.eat()
            return N("this", t.line)
        if self.at("static_cast", "reinterpret_cast", "const_cast", "dynamic_cast"):
            how = self.eat().v
            self.eat("<")
            ty = self.type()
            self.eat(">")
            self.eat("(")
            e = self.expr()
            self.eat(")")
            return N("cast", t.line, type=ty, a=e, how=how)
        if t.k == "id" and t.v in ("unsigned", "signed", "long", "short", "int", "float", "double", "bool", "char", "int64_t", "int32_t",
                                    "size_t", "uint64_t", "uint32_t", "ptrdiff_t") and self.peek().v in ("(", "{", "long", "int"):
            ty = self.type()
            if self.at("("):
                a = self.call_args()
                if len(a) == 1:
                    return N("cast", t.line, type=ty, a=a[0], how="fn")
                return N("ctor", t.line, args=a, type=ty)
            return N("ctor", t.line, args=self.braces().items, type=ty)
        if t.k == "id" and (t.v not in KEY) or t.v == "::":
            return self.name()
        if self.at("throw"):
            self.eat()
            return N("throwexpr", t.line, e=None if self.at(";") else self.assign())
        raise Unparsed(f"{self.path}:{t.line}: unexpected {t.v!r}")

    def name(self):
        line = self.c.line
        self.opt("::")
        parts, targs = [], ()
        while True:
            self.opt("template")
            parts.append(self.ident())
            targs = ()
            if self.at("<"):
                a = self.try_targs()
                if a is not None:
                    targs = a
            if self.at("::") and (self.peek().k == "id" or self.peek().v == "template"):
                self.eat()
                continue
            break
        return N("name", line, name="::".join(parts), targs=targs)

    def lambda_(self):
        line = self.c.line
        self.eat("[")
        cap = []
        cur = []
        while not self.at("]"):
            if self.at(","):
                cap.append(cur)
                cur = []
                self.eat()
                continue
            cur.append(self.eat().v)
        if cur:
            cap.append(cur)
        self.eat("]")
        ps = []
        if self.at("("):
            ps = self.params()
        while self.at("mutable", "constexpr", "noexcept", "__host__", "__device__", "const"):
            self.eat()
        if self.at("->"):
            self.eat()
            self.type()
        return N("lambda", line, params=ps, body=self.block(), cap=cap)


def parse_file(path, text=None):
    return Parser(path, text).parse()
