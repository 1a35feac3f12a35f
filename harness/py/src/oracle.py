# Reference oracle: CPython's own parser / tokenizer / literal evaluation.
# Protocol: "<cmd> <len>\n<bytes>" -> "<len>\n<bytes>"
import ast, sys, re, io, tokenize, warnings, textwrap, inspect, symtable, token as _token
warnings.simplefilter("ignore")
sys.setrecursionlimit(20000)
inp = sys.stdin.buffer
out = sys.stdout.buffer

# a byte order mark is taken away, positions include it
SHIFT = 0


class D:
    def __init__(self, src):
        b = src.encode("utf-8", "surrogatepass")
        self.starts = [0]
        for m in re.finditer(rb"\r\n|\r|\n", b):
            self.starts.append(m.end())
        self.nopos = 0

    def off(self, line, col):
        return SHIFT + self.starts[line - 1] + col

    def pos(self, n):
        if self.nopos:
            return ""
        return "@%d-%d" % (self.off(n.lineno, n.col_offset), self.off(n.end_lineno, n.end_col_offset))

    def span(self, n):
        return self.pos(n)

    def opt(self, n):
        return "-" if n is None else self.e(n)

    def list(self, ns):
        return "[" + " ".join(self.e(n) for n in ns) + "]"

    def body(self, ns):
        return "{" + " ".join(self.s(n) for n in ns) + "}"

    BIN = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.FloorDiv: "//", ast.Mod: "%", ast.Pow: "**",
           ast.LShift: "<<", ast.RShift: ">>", ast.BitOr: "|", ast.BitXor: "^", ast.BitAnd: "&", ast.MatMult: "@"}
    UN = {ast.UAdd: "+", ast.USub: "-", ast.Invert: "~"}
    CMP = {ast.Eq: "==", ast.NotEq: "!=", ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=", ast.Is: "is",
           ast.IsNot: "is not", ast.In: "in", ast.NotIn: "not in"}

    def const(self, v):
        if v is None:
            return "None"
        if v is True or v is False:
            return str(v)
        if v is Ellipsis:
            return "Ellipsis"
        if isinstance(v, int):
            return "int"
        if isinstance(v, float):
            return "float"
        if isinstance(v, complex):
            return "complex"
        if isinstance(v, str):
            return "str"
        if isinstance(v, bytes):
            return "bytes"
        raise Exception("const")

    def e(self, n):
        p = self.pos(n)
        t = type(n).__name__
        f = getattr(self, "e_" + t)
        return f(n, p)

    def e_Constant(self, n, p):
        return "(C%s %s)" % (p, self.const(n.value))

    def e_Name(self, n, p):
        k = {"Load": "N", "Store": "NS", "Del": "ND"}[type(n.ctx).__name__]
        return "(%s%s %s)" % (k, p, n.id)

    def e_JoinedStr(self, n, p):
        self.nopos += 1
        r = "(F%s %s)" % (p, self.fparts(n.values))
        self.nopos -= 1
        return r

    def fparts(self, vs):
        r = []
        for v in vs:
            if isinstance(v, ast.FormattedValue):
                spec = "-"
                if v.format_spec is not None:
                    spec = self.fparts(v.format_spec.values)
                r.append("(fv %s %s)" % (self.e(v.value), spec))
        return "[" + " ".join(r) + "]"

    def e_BinOp(self, n, p):
        return "(B%s %s %s %s)" % (p, self.BIN[type(n.op)], self.e(n.left), self.e(n.right))

    def e_UnaryOp(self, n, p):
        if isinstance(n.op, ast.Not):
            return "(not%s %s)" % (p, self.e(n.operand))
        return "(U%s %s %s)" % (p, self.UN[type(n.op)], self.e(n.operand))

    def e_BoolOp(self, n, p):
        # left-nested in zuban: a and b and c -> ((a and b) and c); flatten without inner positions
        op = "and" if isinstance(n.op, ast.And) else "or"
        return "(%s%s %s)" % (op, p, self.list(n.values))

    def e_Compare(self, n, p):
        return "(cmp%s %s %s)" % (p, self.e(n.left), " ".join("%s %s" % (self.CMP[type(o)], self.e(c)) for o, c in zip(n.ops, n.comparators)))

    def e_IfExp(self, n, p):
        return "(if%s %s %s %s)" % (p, self.e(n.body), self.e(n.test), self.e(n.orelse))

    def e_Lambda(self, n, p):
        return "(lambda%s %s %s)" % (p, self.args(n.args), self.e(n.body))

    def e_NamedExpr(self, n, p):
        return "(walrus%s %s %s)" % (p, self.e(n.target), self.e(n.value))

    def e_Attribute(self, n, p):
        k = {"Load": "A", "Store": "AS", "Del": "AD"}[type(n.ctx).__name__]
        return "(%s%s %s %s)" % (k, p, self.e(n.value), n.attr)

    def e_Subscript(self, n, p):
        k = {"Load": "S", "Store": "SS", "Del": "SD"}[type(n.ctx).__name__]
        return "(%s%s %s %s)" % (k, p, self.e(n.value), self.index(n.slice))

    def index(self, s):
        return self.e(s)

    def e_Slice(self, n, p):
        return "(slice %s %s %s)" % (self.opt(n.lower), self.opt(n.upper), self.opt(n.step))

    def e_Call(self, n, p):
        return "(call%s %s %s)" % (p, self.e(n.func), self.callargs(n.args, n.keywords))

    def callargs(self, args, kws):
        items = [((a.lineno, a.col_offset), self.e(a)) for a in args]
        for k in kws:
            if k.arg is None:
                items.append(((k.lineno, k.col_offset), "(** %s)" % self.e(k.value)))
            else:
                items.append(((k.lineno, k.col_offset), "(kw %s %s)" % (k.arg, self.e(k.value))))
        items.sort(key=lambda x: x[0])
        return "[" + " ".join(x[1] for x in items) + "]"

    def e_Starred(self, n, p):
        return "(*%s %s)" % (p, self.e(n.value))

    def e_List(self, n, p):
        if not isinstance(n.ctx, ast.Load):
            return self.e_Tuple(n, p)
        return "(L%s %s)" % (p, self.list(n.elts))

    def e_Set(self, n, p):
        return "(Set%s %s)" % (p, self.list(n.elts))

    def e_Tuple(self, n, p):
        if not isinstance(n.ctx, ast.Load):
            return "(TT%s)" % "".join(" " + self.e(x) for x in n.elts)
        if not n.elts:
            return "(T%s)" % p
        return "(T%s %s)" % (p, " ".join(self.e(x) for x in n.elts))

    def e_Dict(self, n, p):
        if not n.keys:
            return "(D%s)" % p
        return "(D%s %s)" % (p, " ".join("**%s" % self.e(v) if k is None else "%s:%s" % (self.e(k), self.e(v)) for k, v in zip(n.keys, n.values)))

    def comps(self, gs):
        return " ".join("(%sfor %s %s %s)" % ("async " if g.is_async else "", self.e(g.target), self.e(g.iter), self.list(g.ifs)) for g in gs)

    def e_ListComp(self, n, p):
        return "(LC%s %s %s)" % (p, self.e(n.elt), self.comps(n.generators))

    def e_SetComp(self, n, p):
        return "(SC%s %s %s)" % (p, self.e(n.elt), self.comps(n.generators))

    def e_DictComp(self, n, p):
        return "(DC%s %s %s %s)" % (p, self.e(n.key), self.e(n.value), self.comps(n.generators))

    def e_GeneratorExp(self, n, p):
        return "(GE%s %s %s)" % ("", self.e(n.elt), self.comps(n.generators))

    def e_Await(self, n, p):
        return "(await%s %s)" % (p, self.e(n.value))

    def e_Yield(self, n, p):
        return "(yield%s %s)" % (p, self.opt(n.value))

    def e_YieldFrom(self, n, p):
        return "(yieldfrom%s %s)" % (p, self.e(n.value))

    def arg(self, a):
        return "%s%s:%s" % (a.arg, "" if self.nopos else "@%d" % self.off(a.lineno, a.col_offset), self.opt(a.annotation))

    def args(self, a):
        r = []
        pos = [("P", x) for x in a.posonlyargs] + [("K", x) for x in a.args]
        nd = len(pos) - len(a.defaults)
        for i, (k, x) in enumerate(pos):
            d = a.defaults[i - nd] if i >= nd else None
            r.append("(%s %s %s)" % (k, self.arg(x), self.opt(d)))
        if a.vararg:
            r.append("(V %s -)" % self.arg(a.vararg))
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            r.append("(O %s %s)" % (self.arg(x), self.opt(d)))
        if a.kwarg:
            r.append("(W %s -)" % self.arg(a.kwarg))
        return "[" + " ".join(r) + "]"

    # statements
    def s(self, n):
        t = type(n).__name__
        p = self.pos(n)
        return getattr(self, "s_" + t)(n, p)

    def tparams(self, n):
        r = []
        for t in getattr(n, "type_params", []):
            k = type(t).__name__
            if k == "TypeVar":
                r.append("(TV %s %s)" % (t.name, self.opt(t.bound)))
            elif k == "TypeVarTuple":
                r.append("(TVT %s)" % t.name)
            else:
                r.append("(PS %s)" % t.name)
        return "[" + " ".join(r) + "]"

    def apos(self, n):
        return "@?-%d" % self.off(n.end_lineno, n.end_col_offset)

    def func(self, n, p, a):
        if a:
            p = self.apos(n)
        return "(%sdef%s %s %s %s %s %s %s)" % (a, p, self.list(n.decorator_list), n.name, self.tparams(n), self.args(n.args), self.opt(n.returns), self.body(n.body))

    def s_FunctionDef(self, n, p):
        return self.func(n, p, "")

    def s_AsyncFunctionDef(self, n, p):
        return self.func(n, p, "async ")

    def s_ClassDef(self, n, p):
        return "(class%s %s %s %s %s %s)" % (p, self.list(n.decorator_list), n.name, self.tparams(n), self.callargs(n.bases, n.keywords), self.body(n.body))

    def s_Return(self, n, p):
        return "(return%s %s)" % (p, self.opt(n.value))

    def s_Delete(self, n, p):
        r = []

        def flat(t):
            if isinstance(t, (ast.Tuple, ast.List)):
                for x in t.elts:
                    flat(x)
            else:
                r.append(self.e(t))
        for t in n.targets:
            flat(t)
        return "(del%s [%s])" % (p, " ".join(r))

    def s_Assign(self, n, p):
        return "(=%s %s %s)" % (p, self.list(n.targets), self.e(n.value))

    def s_TypeAlias(self, n, p):
        return "(type%s %s %s %s)" % (p, self.e(n.name), self.tparams(n), self.e(n.value))

    def s_AugAssign(self, n, p):
        return "(aug%s %s %s= %s)" % (p, self.e(n.target), self.BIN[type(n.op)], self.e(n.value))

    def s_AnnAssign(self, n, p):
        return "(ann%s %s %s %s)" % (p, self.e(n.target), self.e(n.annotation), self.opt(n.value))

    def s_For(self, n, p, a=""):
        if a:
            p = self.apos(n)
        return "(%sfor%s %s %s %s %s)" % (a, p, self.e(n.target), self.e(n.iter), self.body(n.body), self.body(n.orelse))

    def s_AsyncFor(self, n, p):
        return self.s_For(n, p, "async ")

    def s_While(self, n, p):
        return "(while%s %s %s %s)" % (p, self.e(n.test), self.body(n.body), self.body(n.orelse))

    def s_If(self, n, p):
        r = "(if%s %s %s" % (p, self.e(n.test), self.body(n.body))
        o = n.orelse
        while len(o) == 1 and isinstance(o[0], ast.If) and self.is_elif(o[0]):
            r += " (elif %s %s)" % (self.e(o[0].test), self.body(o[0].body))
            o = o[0].orelse
        if o:
            r += " (else %s)" % self.body(o)
        return r + ")"

    def is_elif(self, n):
        st = self.off(n.lineno, n.col_offset)
        return self.bytes[st:st + 4] == b"elif"

    def s_With(self, n, p, a=""):
        if a:
            p = self.apos(n)
        return "(%swith%s [%s] %s)" % (a, p, " ".join("(%s %s)" % (self.e(i.context_expr), self.opt(i.optional_vars)) for i in n.items), self.body(n.body))

    def s_AsyncWith(self, n, p):
        return self.s_With(n, p, "async ")

    def s_Raise(self, n, p):
        return "(raise%s %s %s)" % (p, self.opt(n.exc), self.opt(n.cause))

    def s_Try(self, n, p, st=""):
        r = "(try%s %s" % (p, self.body(n.body))
        for h in n.handlers:
            r += " (except%s %s %s %s)" % (st, self.opt(h.type), h.name or "-", self.body(h.body))
        if n.orelse:
            r += " (else %s)" % self.body(n.orelse)
        if n.finalbody:
            r += " (finally %s)" % self.body(n.finalbody)
        return r + ")"

    def s_TryStar(self, n, p):
        return self.s_Try(n, p, "*")

    def s_Assert(self, n, p):
        return "(assert%s %s %s)" % (p, self.e(n.test), self.opt(n.msg))

    def s_Import(self, n, p):
        return "(import%s %s)" % (p, " ".join("%s as %s" % (a.name, a.asname or "-") for a in n.names))

    def s_ImportFrom(self, n, p):
        return "(from%s %d %s %s)" % (p, n.level, n.module or "-", " ".join("%s as %s" % (a.name, a.asname or "-") for a in n.names))

    def s_Global(self, n, p):
        return "(global%s %s)" % (p, " ".join(n.names))

    def s_Nonlocal(self, n, p):
        return "(nonlocal%s %s)" % (p, " ".join(n.names))

    def s_Expr(self, n, p):
        return "(expr %s)" % self.e(n.value)

    def s_Pass(self, n, p):
        return "(pass%s)" % p

    def s_Break(self, n, p):
        return "(break%s)" % p

    def s_Continue(self, n, p):
        return "(continue%s)" % p

    def s_Match(self, n, p):
        return "(match%s %s %s)" % (p, self.e_subject(n.subject), " ".join("(case %s %s %s)" % (self.pat(c.pattern), self.opt(c.guard), self.body(c.body)) for c in n.cases))

    def e_subject(self, s):
        return self.e(s)

    def pat(self, n):
        t = type(n).__name__
        if t == "MatchValue":
            return "(val %s)" % self.patval(n.value)
        if t == "MatchSingleton":
            return "(val %s)" % n.value
        if t == "MatchSequence":
            return "(seq%s)" % "".join(" " + self.pat(x) for x in n.patterns)
        if t == "MatchMapping":
            return "(map%s %s)" % ("".join(" %s:%s" % (self.patval(k), self.pat(v)) for k, v in zip(n.keys, n.patterns)), n.rest or "-")
        if t == "MatchClass":
            return "(cls %s%s%s)" % (self.patval(n.cls), "".join(" " + self.pat(x) for x in n.patterns), "".join(" %s=%s" % (a, self.pat(x)) for a, x in zip(n.kwd_attrs, n.kwd_patterns)))
        if t == "MatchStar":
            return "(star %s)" % (n.name or "_")
        if t == "MatchAs":
            if n.pattern is None:
                return n.name or "_"
            return "(as %s %s)" % (self.pat(n.pattern), n.name)
        if t == "MatchOr":
            return "(or %s)" % " ".join(self.pat(x) for x in n.patterns)
        raise Exception(t)

    def patval(self, v):
        if isinstance(v, ast.Constant):
            return self.const(v.value)
        if isinstance(v, ast.Attribute):
            return self.patval(v.value) + "." + v.attr
        if isinstance(v, ast.Name):
            return v.id
        if isinstance(v, ast.UnaryOp):
            return "-" + self.patval(v.operand)
        if isinstance(v, ast.BinOp):
            return "complexnum"
        if isinstance(v, ast.JoinedStr):
            return "F"
        raise Exception("patval")


def bracket_match(src):
    """byte offset of "(" -> byte offset of its ")" using the tokenizer."""
    m = {}
    return m


def tokens(src):
    """tokens of src with byte offsets; line endings are normalised for the tokenizer"""
    norm = []
    offs = []
    o = 0
    i = 0
    while i < len(src):
        c = src[i]
        offs.append(o)
        if c == "\r":
            norm.append("\n")
            if src[i + 1:i + 2] == "\n":
                o += 1
                i += 1
            o += 1
        else:
            norm.append(c)
            o += len(c.encode())
        i += 1
    offs.append(o)
    norm = "".join(norm)
    starts = [0]
    for i, c in enumerate(norm):
        if c == "\n":
            starts.append(i + 1)
    def at(l, c):
        if l - 1 >= len(starts):
            return SHIFT + offs[-1]
        return SHIFT + offs[min(starts[l - 1] + c, len(norm))]
    return [(t.type, at(*t.start), at(*t.end), t.string) for t in tokenize.generate_tokens(io.StringIO(norm).readline)]


def do_ast(src):
    try:
        tree = ast.parse(src)
    except RecursionError:
        return "SKIP recursion"
    except MemoryError:
        return "SKIP memory"
    except (SyntaxError, ValueError) as e:
        return "ERR %s: %s" % (type(e).__name__, e)
    d = D(src)
    d.bytes = b"\xef\xbb\xbf"[:SHIFT] + src.encode("utf-8", "surrogatepass")
    try:
        return "OK " + d.body(tree.body)
    except RecursionError:
        return "SKIP recursion"


def do_syntax(src):
    try:
        ast.parse(src)
    except (RecursionError, MemoryError):
        return "SKIP"
    except (SyntaxError, ValueError) as e:
        return "ERR %s: %s" % (type(e).__name__, e)
    return "OK"


def do_tok(src):
    try:
        ast.parse(src)
    except Exception as e:
        return "ERR"
    try:
        ts = tokens(src)
    except Exception as e:
        return "ERR"
    r = []
    for ty, s, e, txt in ts:
        if ty in (tokenize.COMMENT, tokenize.NL, tokenize.ENCODING):
            continue
        r.append("%s %d %d" % (_token.tok_name[ty], s, e))
    return "OK " + "\n".join(r)


def do_eval(src):
    """one literal expression per \\x00-separated item -> value"""
    r = []
    for item in src.split("\x00"):
        try:
            v = ast.literal_eval(item)
        except Exception as e:
            r.append("ERR " + type(e).__name__)
            continue
        if isinstance(v, bool) or v is None:
            r.append("other")
        elif isinstance(v, int):
            r.append("int %d" % v)
        elif isinstance(v, float):
            r.append("float")
        elif isinstance(v, complex):
            r.append("complex")
        elif isinstance(v, str):
            r.append("str " + v.encode("utf-8", "surrogatepass").hex())
        elif isinstance(v, bytes):
            r.append("bytes " + v.hex())
        else:
            r.append("other")
    return "\x00".join(r)


def do_dedent(src):
    return textwrap.dedent(src)


def do_cleandoc(src):
    return inspect.cleandoc(src)


def do_docs(src):
    """hex of (docstring, dedented and stripped docstring) of the module and of all classes and functions"""
    try:
        m = ast.parse(src)
    except (SyntaxError, ValueError):
        return "ERR"
    nodes = [n for n in ast.walk(m) if isinstance(n, (ast.ClassDef, ast.FunctionDef, ast.AsyncFunctionDef))]
    nodes.sort(key=lambda n: (n.lineno, n.col_offset))
    r = []
    for n in [m] + nodes:
        d = ast.get_docstring(n, clean=False)
        if d is None:
            r.append("-")
        else:
            r.append("d" + d.encode("utf-8", "surrogatepass").hex() + " d" + textwrap.dedent(d).strip().encode("utf-8", "surrogatepass").hex())
    return "\n".join(r)


def do_fold(src):
    """start and end of every indented block: its line end before and the last line end within"""
    try:
        ast.parse(src)
        ts = tokens(src)
    except Exception:
        return "ERR"
    r = []
    stack = []
    last = None
    for ty, s, e, txt in ts:
        if ty == tokenize.NEWLINE:
            last = s
        elif ty == tokenize.INDENT:
            stack.append(last)
        elif ty == tokenize.DEDENT:
            r.append((stack.pop(), last))
    r.sort()
    return "OK " + " ".join("%d-%d" % x for x in r)


def do_spans(src):
    """spans of expressions and statements whose extent is the same in every grammar of Python"""
    try:
        tree = ast.parse(src)
    except Exception:
        return "ERR"
    d = D(src)
    r = []
    for n in ast.walk(tree):
        if isinstance(n, (ast.JoinedStr, ast.FormattedValue)):
            return "ERR"
        if isinstance(n, (ast.Name, ast.Attribute, ast.Subscript, ast.Call, ast.BinOp, ast.List, ast.Dict, ast.Set, ast.Lambda, ast.IfExp,
                          ast.Compare, ast.ListComp, ast.SetComp, ast.DictComp, ast.Await, ast.NamedExpr)):
            r.append("%d-%d" % (d.off(n.lineno, n.col_offset), d.off(n.end_lineno, n.end_col_offset)))
    return "OK " + " ".join(sorted(set(r)))


def do_calls(src):
    """calls (C lines: "(" ")" base-start base-end target args...) and what can be completed in names (N lines)"""
    try:
        tree = ast.parse(src)
        ts = [t for t in tokens(src) if t[0] not in (tokenize.NL, tokenize.INDENT, tokenize.DEDENT)]
    except Exception:
        return "ERR"
    comments = [t for t in ts if t[0] == tokenize.COMMENT]
    ts = [t for t in ts if t[0] not in (tokenize.COMMENT, tokenize.NEWLINE, tokenize.ENDMARKER)]
    b = b"\xef\xbb\xbf"[:SHIFT] + src.encode("utf-8", "surrogatepass")
    d = D(src)
    start = lambda n: d.off(n.lineno, n.col_offset)
    end = lambda n: d.off(n.end_lineno, n.end_col_offset)
    squeeze = lambda x: "".join(x.split())
    index = {t[1]: i for i, t in enumerate(ts)}
    ends = {t[2]: i for i, t in enumerate(ts)}
    close = {}
    stack = []
    for i, t in enumerate(ts):
        if t[0] != tokenize.OP:
            continue
        if t[3] in "([{":
            stack.append(i)
        elif t[3] in ")]}":
            close[i] = stack.pop()
    code = lambda i, j: "".join("".join(t[3] for t in ts[i:j]).split())  # tokens i..j without layout
    if any(isinstance(n, (ast.JoinedStr, ast.FormattedValue)) for n in ast.walk(tree)):
        return "ERR"
    target = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.Attribute, ast.Subscript)) and not isinstance(n.ctx, ast.Load):
            target.add(id(n))
            v = n.value
            while isinstance(v, (ast.Attribute, ast.Subscript, ast.Call)):
                target.add(id(v))
                v = v.func if isinstance(v, ast.Call) else v.value
    patterns = {id(a) for c in ast.walk(tree) if isinstance(c, ast.match_case) for a in ast.walk(c.pattern)}
    out = []
    names = {}  # token index -> expectation
    for n in ast.walk(tree):
        if isinstance(n, ast.Call):
            c = ends[end(n)]
            o = close[c]
            base = code(index[start(n)], o)
            args = []
            for a in n.args:
                if isinstance(a, ast.Starred):
                    args.append((start(a), "*", ""))
                elif isinstance(a, ast.Name):
                    args.append((start(a), "n", a.id))
                else:
                    args.append((start(a), "p", ""))
            for k in n.keywords:
                args.append((start(k), "k" if k.arg else "**", k.arg or ""))
            args.sort()
            comp = len(args) == 1 and isinstance(n.args[0] if n.args else None, ast.GeneratorExp) and start(n.args[0]) == ts[o][1]
            # commas of the call itself
            commas = []
            depth = 0
            lam = 0
            if not comp:
                for i in range(o + 1, c):
                    if ts[i][0] == tokenize.OP and ts[i][3] in "([{":
                        depth += 1
                    elif ts[i][0] == tokenize.OP and ts[i][3] in ")]}":
                        depth -= 1
                    elif depth == 0 and ts[i][3] == "lambda":
                        lam += 1
                    elif depth == 0 and ts[i][3] == ":" and lam:
                        lam -= 1
                    elif depth == 0 and not lam and ts[i][3] == ",":
                        commas.append(i)
            firsts = [o + 1] + [i + 1 for i in commas]
            if commas and commas[-1] + 1 == c:
                firsts.pop()
            assert comp or not args or len(firsts) == len(args), (firsts, args)
            out.append("C %d %d %s %d %d %s %s" % (
                ts[o][2], ts[c][1], base, id(n) in target, comp, ",".join(str(ts[i][2]) for i in commas) or "-",
                " ".join(a[1] + a[2] for a in args) or "-"))
            if comp and ts[o + 1][0] == tokenize.NAME:
                names.setdefault(o + 1, "call %s 0 -" % base)
            elif not comp:
                for j, (a, i) in enumerate(zip(args, firsts)):
                    if not args or ts[i][0] != tokenize.NAME:
                        continue
                    pos = sum(1 for x in args[:j] if x[1] in "np")
                    kw = sorted({x[2] for x in args[:j] if x[1] == "k"}, key=lambda x: x.encode())
                    names.setdefault(i, "call %s %d %s" % (base, pos, ",".join(kw) or "-"))
        elif id(n) in patterns:
            pass
        elif isinstance(n, ast.Attribute):
            i = ends[end(n)]
            names[i] = "attr " + code(index[start(n)], i - 1)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            i, e = index[start(n)], ends[end(n)] + 1
            frm = isinstance(n, ast.ImportFrom)
            dots = 0
            path = ""
            i += 1
            if frm:
                while ts[i][3] != "import":
                    if ts[i][3] in (".", "..."):
                        if path:
                            path += "."
                        else:
                            dots += len(ts[i][3])
                    else:
                        names[i] = "module %d %s" % (dots, path.rstrip(".") or "-")
                        path += ts[i][3]
                    i += 1
                i += 1
                for j in range(i, e):
                    if ts[j][0] == tokenize.NAME and ts[j][3] != "as":
                        names[j] = "as" if ts[j - 1][3] == "as" else "from %d %s" % (dots, path or "-")
            else:
                for j in range(i, e):
                    if ts[j][3] == ",":
                        path = ""
                    elif ts[j][0] == tokenize.NAME and ts[j][3] != "as":
                        names[j] = "as" if ts[j - 1][3] == "as" else "module 0 %s" % (path.rstrip(".") or "-")
                        path += ts[j][3]
                    elif ts[j][3] == ".":
                        path += "."
        elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and ts[index[start(n)] - 1][3] != "as":
            names.setdefault(index[start(n)], "global")
        elif isinstance(n, ast.ClassDef):
            names[next(i for i in range(index[start(n)], len(ts)) if ts[i][3] == "class") + 1] = "class"
        elif isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            i = next(i for i in range(index[start(n)], len(ts)) if ts[i][3] == "def") + 1
            names[i] = "def"
            if ts[i + 1][3] == "(":
                for a in n.args.posonlyargs + n.args.args:
                    j = index[start(a)]
                    if ts[j - 1][3] in "(,":
                        names[j] = "param " + n.name
    for i, e in names.items():
        out.append("N %d %d %s" % (ts[i][1], ts[i][2], e))
    for t in comments:
        out.append("N %d %d comment" % (t[1] + 1, t[2]))
    for t in ts:
        if t[0] == tokenize.STRING and "b" not in t[3].split("'")[0].split('"')[0].lower():
            out.append("N %d %d string" % (t[1] + 1, t[2] - 1))
    return "OK\n" + "\n".join(out)


def do_dump(src):
    try:
        return "OK " + ast.dump(ast.parse(src))
    except Exception as e:
        return "ERR %s" % e


def imports_from(tree):
    r = [n for n in ast.walk(tree) if isinstance(n, ast.ImportFrom)]
    r.sort(key=lambda n: (n.lineno, n.col_offset))
    return r


def do_impadd(data):
    """data: index, new name, text -> the dump of the text with the name added to that import"""
    i, name, src = data.split("\n", 2)
    src = src.removeprefix("\ufeff")
    try:
        tree = ast.parse(src)
    except Exception as e:
        return "ERR %s" % e
    imports_from(tree)[int(i)].names.append(ast.alias(name=name))
    return "OK " + ast.dump(tree)


def do_impnew(data):
    """data: new name, text -> the dump of the text with an import added after the first imports"""
    name, src = data.split("\n", 1)
    src = src.removeprefix("\ufeff")
    try:
        tree = ast.parse(src)
    except Exception as e:
        return "ERR %s" % e
    d = D(src)
    # the imports at the start, line by line; the first line may hold a docstring
    try:
        ends = [t[1] for t in tokens(src) if t[0] == tokenize.NEWLINE]
    except Exception:
        return "ERR"
    lines = []
    last = None
    for n in tree.body:
        o = d.off(n.lineno, n.col_offset)
        k = sum(1 for e in ends if e < o)
        if k == last:
            lines[-1].append(n)
        else:
            lines.append([n])
        last = k
    k = 0
    for i, l in enumerate(lines):
        def ok():
            for n in l:
                if i == 0 and isinstance(n, ast.Expr):
                    if isinstance(n.value, ast.JoinedStr) or isinstance(n.value, ast.Constant) and isinstance(n.value.value, str):
                        if d.off(n.lineno, n.col_offset) != d.off(n.value.lineno, n.value.col_offset):
                            return None
                        # a string, then whatever stands on its line
                        return True
                if not isinstance(n, (ast.Import, ast.ImportFrom)):
                    return False
            return True
        x = ok()
        if x is None:
            return "ERR"
        if not x:
            break
        k += len(l)
    tree.body.insert(k, ast.Import(names=[ast.alias(name=name)]))
    return "OK " + ast.dump(tree)


class Binds(ast.NodeVisitor):
    def __init__(self, src):
        self.d = D(src)
        self.b = b"\xef\xbb\xbf"[:SHIFT] + src.encode("utf-8", "surrogatepass")
        self.out = []
        self.scopes = ["M"]
        self.definer = []
        self.selfs = []
        self.deep = 0

    def at(self, n):
        return self.d.off(n.lineno, n.col_offset)

    def inner(self, n):
        """start of the def or for behind async"""
        o = self.at(n)
        m = re.compile(rb"async(?:[ \t\f]|\\\r\n|\\\n|\\\r)+").match(self.b, o)
        return m.end() if m else o

    def put(self, *a):
        self.out.append(" ".join(str(x) for x in a) + " " + self.scopes[-1])

    def bind(self, name, definer=None):
        self.put("def", name, definer or self.definer[-1])

    def within(self, definer, *nodes):
        self.definer.append(definer)
        for n in nodes:
            if n is not None:
                self.visit(n)
        self.definer.pop()

    def all(self, ns):
        for n in ns:
            if n is not None:
                self.visit(n)

    def visit_Name(self, n):
        if isinstance(n.ctx, ast.Load):
            self.put("ref", n.id, self.at(n))
        else:
            self.bind(n.id)

    def visit_Subscript(self, n):
        # definitions within the parts of a target are rare enough not to count as attributes of self
        self.deep += not isinstance(n.ctx, ast.Load)
        self.generic_visit(n)
        self.deep -= not isinstance(n.ctx, ast.Load)

    def visit_Attribute(self, n):
        if isinstance(n.ctx, ast.Load):
            self.visit(n.value)
            self.put("attr", n.attr)
        else:
            self.deep += 1
            self.visit(n.value)
            self.deep -= 1
            self.bind(n.attr)
            if not self.deep and isinstance(n.value, ast.Name) and self.at(n) == self.at(n.value):
                for c in self.selfs:
                    c.append((self.at(n), n.value.id, n.attr))

    def visit_keyword(self, n):
        if n.arg is not None:
            self.put("kw", n.arg)
        self.visit(n.value)

    def targets(self, kind, n, ts):
        self.within("%s@%d" % (kind, self.at(n)), *ts)

    def visit_Assign(self, n):
        self.targets("Assignment", n, n.targets)
        self.visit(n.value)

    def visit_AnnAssign(self, n):
        self.targets("Assignment", n, [n.target])
        self.visit(n.annotation)
        self.all([n.value])

    def visit_AugAssign(self, n):
        self.targets("Assignment", n, [n.target])
        self.visit(n.value)

    def visit_Delete(self, n):
        self.targets("DelStmt", n, n.targets)

    def visit_TypeAlias(self, n):
        k = "TypeAlias@%d" % self.at(n)
        self.within(k, n.name, *n.type_params)
        self.visit(n.value)

    def tparam(self, n):
        self.bind(n.name)
        self.all([getattr(n, "bound", None)])

    visit_TypeVar = visit_TypeVarTuple = visit_ParamSpec = tparam

    def visit_For(self, n):
        self.within("ForStmt@%d" % self.inner(n), n.target)
        self.visit(n.iter)
        self.all(n.body)
        self.all(n.orelse)

    visit_AsyncFor = visit_For

    def visit_withitem(self, n):
        self.visit(n.context_expr)
        if n.optional_vars is not None:
            self.within("WithItem", n.optional_vars)

    def comp(self, n, kind, *elts):
        self.all(elts)
        for g in n.generators:
            self.within(kind, g.target)
            self.visit(g.iter)
            self.all(g.ifs)

    def visit_ListComp(self, n):
        self.comp(n, "Comprehension", n.elt)

    visit_SetComp = visit_GeneratorExp = visit_ListComp

    def visit_DictComp(self, n):
        self.comp(n, "DictComprehension", n.key, n.value)

    def visit_NamedExpr(self, n):
        self.targets("Walrus", n, [n.target])
        self.visit(n.value)

    def arguments(self, a, definer):
        for x in a.posonlyargs + a.args + a.kwonlyargs + [a.vararg, a.kwarg]:
            if x is not None:
                self.bind(x.arg, definer)
                self.all([x.annotation])
        self.all(a.defaults)
        self.all(a.kw_defaults)

    def visit_Lambda(self, n):
        k = "Lambda@%d" % self.at(n)
        self.scopes.append(k)
        self.arguments(n.args, k)
        self.visit(n.body)
        self.scopes.pop()

    def visit_FunctionDef(self, n):
        self.all(n.decorator_list)
        k = "FunctionDef@%d" % self.inner(n)
        self.scopes.append(k)
        self.bind(n.name, k)
        self.within(k, *n.type_params)
        self.arguments(n.args, k)
        self.all([n.returns])
        self.all(n.body)
        self.scopes.pop()

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_ClassDef(self, n):
        self.all(n.decorator_list)
        k = "ClassDef@%d" % self.at(n)
        self.scopes.append(k)
        mine = []
        self.selfs.append(mine)
        self.bind(n.name, k)
        self.within(k, *n.type_params)
        self.all(n.bases)
        self.all(n.keywords)
        self.all(n.body)
        self.selfs.pop()
        self.scopes.pop()
        mine.sort()
        self.out.append("self %s: %s" % (k, " ".join("%s.%s" % x[1:] for x in mine)))

    def visit_Import(self, n):
        k = "ImportName@%d" % self.at(n)
        for a in n.names:
            parts = a.name.split(".")
            if a.asname:
                for p in parts:
                    self.put("part", p)
                self.bind(a.asname, k)
            else:
                self.bind(parts[0], k)
                for p in parts[1:]:
                    self.put("part", p)

    def visit_ImportFrom(self, n):
        for p in (n.module or "").split("."):
            if p:
                self.put("part", p)
        for a in n.names:
            if a.name == "*":
                continue
            if a.asname:
                self.put("part", a.name)
            self.bind(a.asname or a.name, "ImportFromAsName@%d" % self.at(a))

    def visit_Try(self, n):
        k = "TryStmt@%d" % self.at(n)
        self.all(n.body)
        for h in n.handlers:
            self.all([h.type])
            if h.name:
                self.bind(h.name, k)
            self.all(h.body)
        self.all(n.orelse)
        self.all(n.finalbody)

    visit_TryStar = visit_Try

    def visit_Global(self, n):
        for x in n.names:
            self.bind(x, "GlobalStmt@%d" % self.at(n))

    def visit_Nonlocal(self, n):
        for x in n.names:
            self.bind(x, "NonlocalStmt@%d" % self.at(n))

    def visit_Match(self, n):
        self.visit(n.subject)
        for c in n.cases:
            self.within("MatchStmt@%d" % self.at(n), c.pattern)
            self.all([c.guard])
            self.all(c.body)

    def visit_MatchAs(self, n):
        self.all([n.pattern])
        if n.name:
            self.bind(n.name)

    def visit_MatchStar(self, n):
        if n.name:
            self.bind(n.name)

    def visit_MatchMapping(self, n):
        for k in n.keys:
            self.patval(k)
        self.all(n.patterns)
        if n.rest:
            self.bind(n.rest)

    def patval(self, v):
        # dotted names of patterns
        if isinstance(v, ast.Attribute):
            self.patval(v.value)
            self.put("part", v.attr)
        elif isinstance(v, ast.Name):
            self.put("part", v.id)

    def visit_MatchValue(self, n):
        self.patval(n.value)

    def visit_MatchClass(self, n):
        self.patval(n.cls)
        self.all(n.patterns)
        for k in n.kwd_attrs:
            self.put("kw", k)
        self.all(n.kwd_patterns)


def do_binds(src):
    try:
        tree = ast.parse(src)
    except Exception:
        return "ERR"
    b = Binds(src)
    for st in tree.body:
        b.visit(st)
    return "OK " + "\n".join(sorted(b.out))


def do_magic(_):
    """which methods CPython calls for each operator, found by calling them"""
    names = [a + b for a in ("__", "__r", "__i") for b in (
        "add__ sub__ mul__ matmul__ truediv__ floordiv__ mod__ pow__ lshift__ rshift__ and__ xor__ or__".split())]
    names += "__lt__ __le__ __gt__ __ge__ __eq__ __ne__ __neg__ __pos__ __invert__".split()
    calls = []
    def make(n):
        def f(self, *a):
            calls.append(n)
            return NotImplemented
        return f
    L = type("L", (), {n: make(n) for n in names})
    R = type("R", (), {n: make(n) for n in names})
    r = []
    def run(kind, op, code):
        calls.clear()
        try:
            exec(code, {"a": L(), "b": R()})
        except TypeError:
            pass
        r.append(" ".join([kind, op] + calls))
    for op in D.BIN.values():
        run("bin", op, "a %s b" % op)
        run("aug", op + "=", "a %s= b" % op)
    for op in ("<", ">", "<=", ">=", "==", "!="):
        run("bin", op, "a %s b" % op)
    for op in "+-~":
        run("un", op, "%sa" % op)
    return "\n".join(r)


CMDS = {"calls": do_calls, "magic": do_magic, "fold": do_fold, "spans": do_spans, "dump": do_dump, "impadd": do_impadd, "impnew": do_impnew, "binds": do_binds, "docs": do_docs, "ast": do_ast, "syntax": do_syntax, "tok": do_tok, "eval": do_eval, "dedent": do_dedent, "cleandoc": do_cleandoc}


def main():
    while True:
        h = inp.readline()
        if not h:
            return
        cmd, ln = h.split()
        data = inp.read(int(ln)).decode("utf-8", "surrogatepass")
        global SHIFT
        SHIFT = 0
        if data.startswith("\ufeff") and cmd in (b"ast", b"syntax", b"tok", b"fold", b"spans", b"calls", b"binds", b"dump", b"docs"):
            SHIFT = 3
            data = data[1:]
        try:
            r = CMDS[cmd.decode()](data)
        except Exception as e:
            import traceback
            r = "EXC " + traceback.format_exc()
        r = r.encode("utf-8", "surrogatepass")
        out.write(b"%d\n" % len(r))
        out.write(r)
        out.flush()


import threading
threading.stack_size(512 * 1024 * 1024)
t = threading.Thread(target=main)
t.start()
t.join()
