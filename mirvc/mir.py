"""Parser of rustc's textual MIR (-Zunpretty=mir) and resolver of callee names to bodies."""
import os, re


class Unsupported(Exception):
    """The code uses something outside the verifier's reach (never a verdict about the code)."""


# ------------------------------------------------------------------ types

class Ty:
    __slots__ = ("name", "args", "_h")

    def __init__(self, name, args=()):
        self.name, self.args = name, tuple(args)
        self._h = hash((name, self.args))

    def __eq__(self, o):
        return isinstance(o, Ty) and self.name == o.name and self.args == o.args

    def __hash__(self):
        return self._h

    def __repr__(self):
        if self.name == "&":
            return "&" + repr(self.args[0])
        if self.name == "&mut":
            return "&mut " + repr(self.args[0])
        if self.name == "()":
            return "(" + ", ".join(map(repr, self.args)) + ")"
        return self.name + ("<" + ", ".join(map(repr, self.args)) + ">" if self.args else "")


def split_top(s, sep=","):
    """Splits at the top level with respect to (), [], {}, <> and string literals."""
    out, d, cur, i, n = [], 0, [], 0, len(s)
    while i < n:
        c = s[i]
        if c == '"':
            j = i + 1
            while j < n and s[j] != '"':
                j += 2 if s[j] == "\\" else 1
            cur.append(s[i:j + 1])
            i = j + 1
            continue
        if c in "([{<":
            d += 1
        elif c in ")]}" or (c == ">" and s[i - 1] not in "-="):
            d -= 1
        if c == sep and d == 0:
            out.append("".join(cur).strip())
            cur = []
        else:
            cur.append(c)
        i += 1
    t = "".join(cur).strip()
    if t or out:
        out.append(t)
    return [x for x in out if x != ""]


_tycache = {}


def parse_ty(s):
    s = s.strip()
    t = _tycache.get(s)
    if t is None:
        t = _tycache[s] = _parse_ty(s)
    return t


def _parse_ty(s):
    if s.startswith("&"):
        s = s[1:].lstrip()
        m = re.match(r"'[\w_]+\s*", s)
        if m:
            s = s[m.end():]
        if s.startswith("mut "):
            return Ty("&mut", [parse_ty(s[4:])])
        return Ty("&", [parse_ty(s)])
    if s.startswith("*const ") or s.startswith("*mut "):
        return Ty("*", [parse_ty(s.split(" ", 1)[1])])
    if s.startswith("("):
        return Ty("()", [parse_ty(x) for x in split_top(s[1:-1])])
    if s.startswith("["):
        inner = split_top(s[1:-1], ";")
        return Ty("[]", [parse_ty(inner[0])])
    if s.startswith("{closure@") or s.startswith("{"):
        return Ty(s)
    if s.startswith("<"):
        return Ty(s)
    if s.startswith("dyn ") or s.startswith("impl "):
        return Ty(s)
    if s.startswith("fn(") or s.startswith("for<"):
        return Ty(s)
    m = re.match(r"^([\w:!]+?)(?:::)?<(.*)>$", s, re.S)
    if m:
        args = [a for a in split_top(m.group(2)) if not a.startswith("'")]
        return Ty(m.group(1).split("::")[-1], [parse_ty(a) for a in args])
    return Ty(s.split("::")[-1])


# ------------------------------------------------------------------ places, operands

class Place:
    __slots__ = ("local", "proj")

    def __init__(self, local, proj):
        self.local, self.proj = local, proj

    def __repr__(self):
        return "%s%s" % (self.local, "".join("." + str(p) for p in self.proj))


def parse_place(s):
    s = s.strip()
    p, rest = _place(s, 0)
    if rest != len(s):
        raise Unsupported("place " + s)
    return p


def _place(s, i):
    if s[i] == "(":
        if s[i + 1] == "*":
            p, j = _place(s, i + 2)
            assert s[j] == ")", s
            p = Place(p.local, p.proj + [("deref",)])
            j += 1
        else:
            p, j = _place(s, i + 1)
            if s.startswith(" as ", j):
                k = s.index(")", j)
                p = Place(p.local, p.proj + [("variant", s[j + 4:k].split("::")[-1])])
                j = k + 1
            elif s[j] == ".":
                k = j + 1
                while s[k].isdigit():
                    k += 1
                idx = int(s[j + 1:k])
                assert s[k] == ":", s
                # the type, up to the matching parenthesis
                d, e = 0, k + 1
                while True:
                    c = s[e]
                    if c in "([{<":
                        d += 1
                    elif c in ")]}" or (c == ">" and s[e - 1] not in "-="):
                        if d == 0 and c == ")":
                            break
                        d -= 1
                    e += 1
                p = Place(p.local, p.proj + [("field", idx, parse_ty(s[k + 1:e]))])
                j = e + 1
            elif s[j] == ")":
                j += 1
            else:
                raise Unsupported("place " + s)
    else:
        m = re.match(r"_\d+", s[i:])
        if not m:
            raise Unsupported("place " + s)
        p, j = Place(m.group(0), []), i + m.end()
    while j < len(s) and s[j] == "[":
        k = s.index("]", j)
        t = s[j + 1:k]
        if re.match(r"^_\d+$", t):
            p = Place(p.local, p.proj + [("index", t)])
        else:
            m = re.match(r"^(-?\d+) of (\d+)$", t)
            if m:
                p = Place(p.local, p.proj + [("constindex", int(m.group(1)), int(m.group(2)))])
            else:
                raise Unsupported("place projection [" + t + "]")
        j = k + 1
    return p, j


class Op:
    """copy/move place, or const"""
    __slots__ = ("kind", "v")

    def __init__(self, kind, v):
        self.kind, self.v = kind, v

    def __repr__(self):
        return "%s %r" % (self.kind, self.v)


def parse_op(s):
    s = s.strip()
    if s.startswith("no_retag "):
        s = s[9:]
    if s.startswith("copy "):
        return Op("copy", parse_place(s[5:]))
    if s.startswith("move "):
        return Op("move", parse_place(s[5:]))
    if s.startswith("const "):
        return Op("const", s[6:])
    if re.match(r"^[_(]", s):
        return Op("copy", parse_place(s))
    return Op("const", s)


# ------------------------------------------------------------------ functions

class Fn:
    def __init__(self, name, header, lines):
        self.name, self.header, self.lines = name, header, lines
        self._parsed = False
        self.promoted = {}

    def parse(self):
        if self._parsed:
            return self
        self._parsed = True
        h = self.header
        i = h.index("(_1") if "(_1" in h else h.rindex("()")
        # argument list: from i to the matching parenthesis
        d = 0
        for j in range(i, len(h)):
            if h[j] in "([{<":
                d += 1
            elif h[j] in ")]}" or (h[j] == ">" and h[j - 1] not in "-="):
                d -= 1
                if d == 0:
                    break
        self.args, self.locals = [], {}
        for a in split_top(h[i + 1:j]):
            n, t = a.split(":", 1)
            self.args.append(n.strip())
            self.locals[n.strip()] = parse_ty(t)
        m = re.match(r"^\s*->\s*(.*?)\s*\{\s*$", h[j + 1:], re.S)
        self.ret = parse_ty(m.group(1)) if m else Ty("()")
        self.debug = {}
        self.blocks = {}
        self.cleanup = set()
        cur = None
        buf = ""
        for l in self.lines:
            s = l.strip()
            if cur is None:
                m = re.match(r"^let (?:mut )?(_\d+): (.*);$", s)
                if m:
                    self.locals[m.group(1)] = parse_ty(m.group(2))
                    continue
                m = re.match(r"^debug (\w+) => (.*);$", s)
                if m:
                    self.debug[m.group(1)] = m.group(2)
                    continue
                m = re.match(r"^(bb\d+)( \(cleanup\))?: \{$", s)
                if m:
                    cur = m.group(1)
                    if m.group(2):
                        self.cleanup.add(cur)
                    self.blocks[cur] = []
                continue
            if s == "}" and not buf:
                cur = None
                continue
            buf = (buf + " " + s) if buf else s
            if buf.endswith(";") and balanced(buf):
                if cur not in self.cleanup:
                    self.blocks[cur].append(parse_stmt(buf[:-1]))
                buf = ""
        self._loops()
        return self

    def succ(self, b):
        st = self.blocks[b]
        if not st:
            return []
        t = st[-1]
        k = t[0]
        if k == "goto":
            r = [t[1]]
        elif k == "switch":
            r = [x for _, x in t[2]] + ([t[3]] if t[3] else [])
        elif k == "call":
            r = [t[4]] if t[4] else []
        elif k in ("assert", "drop"):
            r = [t[-1]] if t[-1] else []
        else:
            r = []
        return [x for x in r if x in self.blocks and x not in self.cleanup]

    def _loops(self):
        """Natural loops: head -> set of blocks."""
        order, seen = [], set()
        stack = [("bb0", iter(self.succ("bb0")))]
        seen.add("bb0")
        while stack:
            b, it = stack[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    stack.append((s, iter(self.succ(s))))
                    break
            else:
                order.append(b)
                stack.pop()
        rpo = order[::-1]
        preds = {b: [] for b in rpo}
        for b in rpo:
            for s in self.succ(b):
                preds[s].append(b)
        idx = {b: i for i, b in enumerate(rpo)}
        idom = {"bb0": "bb0"}
        ch = True
        while ch:
            ch = False
            for b in rpo[1:]:
                ps = [p for p in preds[b] if p in idom]
                n = ps[0]
                for p in ps[1:]:
                    a, c = n, p
                    while a != c:
                        while idx[a] > idx[c]:
                            a = idom[a]
                        while idx[c] > idx[a]:
                            c = idom[c]
                    n = a
                if idom.get(b) != n:
                    idom[b] = n
                    ch = True

        def dom(a, b):
            while True:
                if a == b:
                    return True
                if b == "bb0":
                    return False
                b = idom[b]
        self.loops = {}
        for b in rpo:
            for s in self.succ(b):
                if dom(s, b):
                    body = self.loops.setdefault(s, {s})
                    st = [b]
                    while st:
                        x = st.pop()
                        if x not in body:
                            body.add(x)
                            st += preds[x]
        self.reach = seen


def balanced(s):
    """Whether all brackets outside string literals are closed."""
    d, i, n = 0, 0, len(s)
    while i < n:
        c = s[i]
        if c == '"':
            i += 1
            while i < n and s[i] != '"':
                i += 2 if s[i] == "\\" else 1
            if i >= n:
                return False
        elif c in "([{":
            d += 1
        elif c in ")]}":
            d -= 1
        i += 1
    return d == 0


_BIN = {"Add", "Sub", "Mul", "Div", "Rem", "BitXor", "BitAnd", "BitOr", "Shl", "Shr", "Eq", "Ne", "Lt", "Le", "Gt", "Ge", "AddWithOverflow", "SubWithOverflow",
        "MulWithOverflow", "AddUnchecked", "SubUnchecked", "MulUnchecked", "ShlUnchecked", "ShrUnchecked", "Cmp", "Offset"}
_UN = {"Not", "Neg", "PtrMetadata"}


def target(s):
    m = re.search(r"(?:return|success): (bb\d+)", s)
    return m.group(1) if m else None


def parse_stmt(s):
    if s.startswith(("StorageLive(", "StorageDead(")):
        return (s[:11], s[12:-1])
    if s.startswith(("FakeRead", "PlaceMention", "AscribeUserType", "nop", "Retag", "Coverage", "ConstEvalCounter", "BackwardIncompatibleDropHint")):
        return ("nop",)
    if s in ("return", "unreachable", "resume"):
        return (s,)
    if s.startswith("goto -> "):
        return ("goto", s[8:])
    if s.startswith(("falseEdge", "falseUnwind")):
        return ("goto", re.search(r"(?:real|imaginary): (bb\d+)", s).group(1))
    m = re.match(r"^switchInt\((.*)\) -> \[(.*)\]$", s)
    if m:
        tg, other = [], None
        for x in split_top(m.group(2)):
            a, b = x.split(": ")
            if a == "otherwise":
                other = b
            else:
                tg.append((int(a), b))
        return ("switch", parse_op(m.group(1)), tg, other)
    m = re.match(r"^drop\((.*)\) -> (.*)$", s)
    if m:
        return ("drop", parse_place(m.group(1)), target(m.group(2)))
    m = re.match(r"^assert\((.*)\) -> (.*)$", s, re.S)
    if m:
        parts = split_top(m.group(1))
        c, neg = parts[0], False
        if c.startswith("!"):
            c, neg = c[1:], True
        return ("assert", parse_op(c), neg, parts[1] if len(parts) > 1 else "", target(m.group(2)))
    # assignment or call
    i = top_eq(s)
    if i is None:
        if "-> unwind" in s or "-> [" in s or s.endswith("unreachable"):
            return ("call", None, s.split("(")[0], [], None)
        raise Unsupported("statement " + s[:120])
    dst, rhs = parse_place(s[:i]), s[i + 3:]
    m = re.search(r" -> (\[return: .*\]|unwind .*|\[unwind.*\])$", rhs)
    if m:
        call = rhs[:m.start()]
        if not call.endswith(")"):
            raise Unsupported("call " + call[:100])
        # the argument list is the last top-level parenthesis
        k = arg_open(call)
        args = [parse_op(a) for a in split_top(call[k + 1:-1])]
        return ("call", dst, call[:k], args, target(m.group(1)))
    return ("assign", dst, parse_rvalue(rhs))


def arg_open(call):
    """Index of the parenthesis opening the argument list (scans forward over strings)."""
    d, i, n, opens = 0, 0, len(call), []
    last = None
    while i < n:
        c = call[i]
        if c == '"':
            i += 1
            while call[i] != '"':
                i += 2 if call[i] == "\\" else 1
        elif c in "([{":
            opens.append(i)
        elif c in ")]}":
            last = opens.pop()
        i += 1
    return last


def top_eq(s):
    d = 0
    for i, c in enumerate(s):
        if c in "([{<":
            d += 1
        elif c in ")]}" or (c == ">" and s[i - 1] not in "-="):
            d -= 1
        elif d == 0 and s.startswith(" = ", i):
            return i
        elif c == '"':
            return None
    return None


def parse_rvalue(s):
    s = s.strip()
    if s.startswith("no_retag "):
        s = s[9:]
    if s.startswith("&"):
        r = s[1:]
        if r.startswith("raw "):
            return ("ref", "raw", parse_place(r.split(" ", 2)[2]))
        if r.startswith("mut "):
            return ("ref", "mut", parse_place(r[4:]))
        if r.startswith("fake "):
            return ("ref", "shared", parse_place(r.split(" ")[-1]))
        return ("ref", "shared", parse_place(r))
    if s.startswith("discriminant("):
        return ("discr", parse_place(s[13:-1]))
    if s.startswith("copy_for_deref "):
        return ("use", Op("copy", parse_place(s[15:])))
    m = re.match(r"^(\w+)\((.*)\)$", s, re.S)
    if m and m.group(1) in _BIN:
        a, b = split_top(m.group(2))
        return ("bin", m.group(1), parse_op(a), parse_op(b))
    if m and m.group(1) in _UN:
        return ("un", m.group(1), parse_op(m.group(2)))
    if m and m.group(1) in ("Len",):
        return ("len", parse_place(m.group(2)))
    if s.startswith(("copy ", "move ", "const ")):
        # cast?
        m = re.match(r"^(.*) as (.*) \((\w+(?:\(.*\))?)(?:,.*)?\)$", s, re.S)
        if m and not s.startswith("const \"") and m.group(1).count("(") == m.group(1).count(")"):
            return ("cast", parse_op(m.group(1)), parse_ty(m.group(2)), m.group(3))
        return ("use", parse_op(s))
    if s.startswith("["):
        inner = s[1:-1]
        semi = split_top(inner, ";")
        if len(semi) == 2:
            return ("repeat", parse_op(semi[0]), semi[1])
        return ("array", [parse_op(x) for x in split_top(inner)])
    if s.startswith("("):
        return ("tuple", [parse_op(x) for x in split_top(s[1:-1])])
    if s.startswith("{closure@"):
        i = s.index("}") + 1
        rest = s[i:].strip()
        ops = []
        if rest.startswith("{"):
            for f in split_top(rest[1:-1]):
                ops.append(parse_op(f.split(": ", 1)[1]))
        return ("closure", s[:i], ops)
    # aggregate: path, path(args), path { f: op, .. }
    m = re.match(r"^([^({]*?) ?\{(.*)\}$", s, re.S)
    if m:
        fs = []
        for f in split_top(m.group(2)):
            a, b = f.split(": ", 1)
            fs.append((a, parse_op(b)))
        return ("aggs", m.group(1), fs)
    if s.endswith(")"):
        i = arg_open(s)
        return ("aggt", s[:i], [parse_op(x) for x in split_top(s[i + 1:-1])])
    return ("aggt", s, [])


# ------------------------------------------------------------------ crate

def strip_generics(s):
    out, d = [], 0
    i = 0
    while i < len(s):
        c = s[i]
        if c == "<":
            d += 1
        elif c == ">" and s[i - 1] not in "-=":
            d -= 1
        elif d == 0:
            out.append(c)
        i += 1
    return re.sub(r"(::)+", "::", "".join(out)).strip(":")


class Crate:
    def __init__(self, text, src):
        self.src = src
        self.fns = {}          # plain name -> Fn
        self.inherent = {}     # (type, method) -> Fn
        self.traits = {}       # (trait, type string, method) -> Fn
        self.closures = {}     # '{closure@..}' span -> Fn
        self.consts = {}
        self.files = {}
        self.structs = {}      # name -> [(field, Ty)]
        self.enums = {}        # name -> [(variant, [(field, Ty)])]
        self.derives = set()   # (type, trait)
        self._defs()
        self._split(text)

    # -- source
    def source(self, f):
        if f not in self.files:
            with open(os.path.join(self.src, f)) as fh:
                self.files[f] = fh.read()
        return self.files[f]

    def _defs(self):
        for d, _, fs in os.walk(os.path.join(self.src, "src")):
            for f in fs:
                if not f.endswith(".rs"):
                    continue
                t = strip_comments(self.source(os.path.relpath(os.path.join(d, f), self.src)))
                for m in re.finditer(r"\b(struct|enum)\s+(\w+)\s*(<[^{;(]*>)?\s*(where[^{;]*)?([{(;])", t):
                    kind, name, op = m.group(1), m.group(2), m.group(5)
                    if op == ";":
                        self.structs[name] = []
                        continue
                    j = match_close(t, m.end() - 1)
                    body = t[m.end():j]
                    if kind == "struct":
                        self.structs[name] = parse_fields(body, op == "{")
                    else:
                        vs = []
                        for v in split_top(strip_attrs(body)):
                            v = v.strip()
                            mm = re.match(r"^(\w+)\s*([({])?", v)
                            if not mm:
                                continue
                            if mm.group(2):
                                k = match_close(v, mm.end() - 1)
                                vs.append((mm.group(1), parse_fields(v[mm.end():k], mm.group(2) == "{")))
                            else:
                                vs.append((mm.group(1), []))
                        self.enums[name] = vs

    def _split(self, text):
        pos = 0
        for m in re.finditer(r"^(fn|const|static) (.*?)$(.*?)^}$", text, re.M | re.S):
            kind, head, body = m.groups()
            if kind != "fn":
                mm = re.match(r"^((?:.*<impl at [^>]*>)?.*?): (.*) = \{$", head.strip())
                if mm and len(body) < 200000:
                    self.consts[mm.group(1)] = (mm.group(2), body)
                continue
            i = head.index("(_1") if "(_1" in head else (head.index("()") if "()" in head else head.index("("))
            name = head[:i]
            fn = Fn(name, head, body.split("\n"))
            self._register(name, fn)

    def impl_path(self, name):
        """The path of an item of an inherent impl, with the type in the place of the impl's position."""
        m = re.search(r"<impl at ([^:>]+):(\d+):(\d+): (\d+):(\d+)>::(.*)$", name)
        if not m or m.group(2) != m.group(4):
            return None
        try:
            t = " ".join(self.source(m.group(1)).split("\n")[int(m.group(2)) - 1][int(m.group(3)) - 1:int(m.group(5)) - 1].split())
            trait, ty = parse_impl(t)
        except (OSError, IndexError, ValueError):
            return None
        return None if trait is not None else [base_name(ty)] + m.group(6).split("::")

    def _register(self, name, fn):
        mc = re.search(r"\{closure#", name)
        if mc:
            self.fns[name] = fn
            m = re.search(r"\{closure@([^}]*)\}", fn.header)
            if m:
                self.closures[m.group(1)] = fn
            return
        m = re.search(r"<impl at ([^:>]+):(\d+):(\d+): (\d+):(\d+)>::(\w+)$", name)
        if m:
            f, l1, c1, l2, c2 = m.group(1), int(m.group(2)), int(m.group(3)), int(m.group(4)), int(m.group(5))
            lines = self.source(f).split("\n")
            if l1 == l2:
                t = lines[l1 - 1][c1 - 1:c2 - 1]
            else:
                t = "\n".join([lines[l1 - 1][c1 - 1:]] + lines[l1:l2 - 1] + [lines[l2 - 1][:c2 - 1]])
            t = " ".join(t.split())
            meth = m.group(6)
            if t.startswith("impl"):
                trait, ty = parse_impl(t)
                fn.impl = (trait, ty)
                if trait is None:
                    self.inherent[(base_name(ty), meth)] = fn
                else:
                    self.traits.setdefault((base_name(trait), norm_self(ty), meth), fn)
                    fn.trait_full = trait
            else:
                # a derive: the type is the next struct/enum in the source
                rest = "\n".join(lines[l1 - 1:])
                mm = re.search(r"\b(?:struct|enum)\s+(\w+)", rest)
                if mm:
                    self.derives.add((mm.group(1), t))
            return
        self.fns[name.split("::")[-1]] = fn


def strip_comments(t):
    t = re.sub(r"/\*.*?\*/", "", t, flags=re.S)
    return re.sub(r"//[^\n]*", "", t)


def strip_attrs(t):
    out, i = [], 0
    while i < len(t):
        if t[i] == "#" and i + 1 < len(t) and t[i + 1] == "[":
            i = match_close(t, i + 1) + 1
            continue
        out.append(t[i])
        i += 1
    return "".join(out)


def match_close(t, i):
    op = t[i]
    cl = {"(": ")", "{": "}", "[": "]"}[op]
    d, n = 0, len(t)
    while i < n:
        c = t[i]
        if c == '"':
            i += 1
            while t[i] != '"':
                i += 2 if t[i] == "\\" else 1
        elif c == op:
            d += 1
        elif c == cl:
            d -= 1
            if d == 0:
                return i
        i += 1
    raise Unsupported("unbalanced source")


def parse_fields(body, named):
    fs = []
    for k, f in enumerate(split_top(strip_attrs(body))):
        f = re.sub(r"^pub(\([^)]*\))?\s+", "", f.strip())
        if not f:
            continue
        if named:
            a, b = f.split(":", 1)
            fs.append((a.strip(), parse_ty(b)))
        else:
            fs.append((str(k), parse_ty(f)))
    return fs


def parse_impl(t):
    t = t[4:].strip()
    if t.startswith("<"):
        d = 0
        for i, c in enumerate(t):
            if c == "<":
                d += 1
            elif c == ">" and t[i - 1] not in "-=":
                d -= 1
                if d == 0:
                    break
        t = t[i + 1:].strip()
    t = re.split(r"\bwhere\b", t)[0].strip()
    d = 0
    for i in range(len(t)):
        if t[i] == "<":
            d += 1
        elif t[i] == ">" and t[i - 1] not in "-=":
            d -= 1
        elif d == 0 and t.startswith(" for ", i):
            return t[:i].strip(), t[i + 5:].strip()
    return None, t


def base_name(ty):
    return strip_generics(re.sub(r"^&\s*('\w+\s*)?(mut\s+)?", "", ty.strip())).split("::")[-1].strip()


def norm_self(ty):
    """Self type reduced to ref-ness and base name."""
    ty = ty.strip()
    r = ""
    while ty.startswith("&"):
        ty = re.sub(r"^&\s*('\w+\s*)?", "", ty)
        if ty.startswith("mut "):
            r += "&mut "
            ty = ty[4:]
        else:
            r += "&"
    return r + strip_generics(ty).split("::")[-1].strip()
