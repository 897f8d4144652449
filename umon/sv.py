"""A small SystemVerilog interpreter: it executes the RTL of hw/ so that monitors can watch it.

The subset is the synthesizable one: ANSI/non-ANSI ports, parameters, packed vectors and unpacked
arrays, assign, always_ff / always_comb / always, if / case / for, generate, instances, `include /
`define / `ifdef.  Widths and signedness follow IEEE 1800 (context-determined operands, self-determined
shift amounts, concatenations and conditions).  Values are two-state; every register is given a random
value before reset, so state a reset does not set shows up as a difference between two runs.

A design is elaborated into one flat list of signals; each process becomes a Python function generated
from its AST.  `Sim.poke/peek/settle/edge` drive it: combinational processes run until nothing changes,
an edge runs every always_ff on the old values and then commits the non-blocking writes.
"""
import os
import random
import re


class SVError(Exception):
    """The source does not parse or does not elaborate."""


class SVUnsupported(SVError):
    """The source uses SystemVerilog this interpreter does not know: nothing can be said about it."""


# words whose presence explains why a text is not understood here
BEYOND = set("""struct union class interface package import export task fork foreach modport property sequence assert assume cover
 bind program clocking extends virtual string real shortreal time realtime event wait disable force release deassign specify
 primitive table chandle const static ref do randcase iff expect let nettype checker type""".split())


# ------------------------------------------------------------------ preprocessor
def _strip(text):
    out, i, n = [], 0, len(text)
    while i < n:
        if text[i] == '"':
            j = i + 1
            while j < n and text[j] != '"':
                j += 2 if text[j] == "\\" else 1
            out.append(text[i:j + 1])
            i = j + 1
        elif text.startswith("//", i):
            while i < n and text[i] != "\n":
                i += 1
        elif text.startswith("/*", i):
            j = text.find("*/", i + 2)
            if j < 0:
                raise SVError("unterminated comment")
            out.append("\n" * text.count("\n", i, j) or " ")
            i = j + 2
        else:
            out.append(text[i])
            i += 1
    return "".join(out)


def preprocess(path, defines, seen=None, depth=0, preset=()):
    """Text of `path` with includes expanded and macros replaced; defines is updated in place.
    A macro named in `preset` selects the configuration: `define lines of names in preset[1] are ignored."""
    if depth > 20:
        raise SVError("include depth: " + path)
    if not os.path.exists(path):
        raise SVError("no such file: " + path)
    with open(path, errors="replace") as f:
        text = _strip(f.read())
    text = text.replace("\\\n", " ")
    out = []
    stack = []          # [taken-now, taken-ever]

    def sub(line):
        for _ in range(20):
            m = re.search(r"`([A-Za-z_]\w*)", line)
            if not m:
                return line
            if m.group(1) not in defines:
                raise SVError(f"{os.path.basename(path)}: undefined macro `{m.group(1)}")
            line = line[:m.start()] + " " + defines[m.group(1)] + " " + line[m.end():]
            line = line if "`" in line else line
        return line

    for line in text.split("\n"):
        s = line.strip()
        live = all(a for a, _ in stack)
        m = re.match(r"`(ifdef|ifndef|elsif|else|endif|define|undef|include|timescale|default_nettype"
                     r"|resetall|celldefine|endcelldefine)\b\s*(.*)$", s)
        if m:
            d, rest = m.group(1), m.group(2).strip()
            if d in ("ifdef", "ifndef"):
                on = ((rest.split() or [""])[0] in defines) == (d == "ifdef")
                stack.append([on, on])
            elif d == "elsif":
                on = not stack[-1][1] and rest in defines
                stack[-1] = [on, stack[-1][1] or on]
            elif d == "else":
                stack[-1] = [not stack[-1][1], True]
            elif d == "endif":
                if not stack:
                    raise SVError("`endif without `ifdef: " + path)
                stack.pop()
            elif live and d == "define":
                mm = re.match(r"(\w+)\s*(.*)$", rest)
                if not (preset and mm.group(1) in preset):
                    defines[mm.group(1)] = mm.group(2).strip()
            elif live and d == "undef":
                defines.pop(rest, None)
            elif live and d == "include":
                mm = re.match(r'"([^"]+)"', rest)
                if not mm:
                    raise SVError("include: " + rest)
                p = os.path.normpath(os.path.join(os.path.dirname(path), mm.group(1)))
                out.append(preprocess(p, defines, seen, depth + 1, preset))
            continue
        if live:
            out.append(sub(line))
    if stack:
        raise SVError("unterminated `ifdef: " + path)
    return "\n".join(out)


# ------------------------------------------------------------------ lexer
TOK = re.compile(r"""\s+
 |(?P<num>(?:\d[\d_]*)?\s*'\s*[sS]?[bBoOdDhH]\s*[0-9a-fA-FxXzZ?_]+|'[01xXzZ](?![\w'])|\d[\d_]*)
 |(?P<id>[A-Za-z_$][\w$]*|\\\S+)
 |(?P<str>"[^"]*")
 |(?P<op><<<|>>>|===|!==|<<=|>>=|<=|>=|==|!=|&&|\|\||<<|>>|~&|~\||~\^|\^~|\+\+|--|\+=|-=|\*=|\|=|&=|\^=
     |\*\*|::|\+:|-:|->|[-+*/%&|^~!<>=?:;,.(){}\[\]@\#'])
""", re.X)


def lex(text):
    toks, i = [], 0
    while i < len(text):
        m = TOK.match(text, i)
        if not m:
            raise SVError("cannot read: " + text[i:i + 30].split("\n")[0])
        if m.lastgroup:
            toks.append((m.lastgroup, m.group(m.lastgroup), i))
        i = m.end()
    toks.append(("eof", "", len(text)))
    return toks


KEYWORDS = set("""module endmodule input output inout logic wire reg bit int integer parameter localparam
 assign always always_ff always_comb always_latch begin end if else case casez casex endcase default for
 generate endgenerate genvar posedge negedge or signed unsigned initial function endfunction unique
 unique0 priority automatic tri byte shortint longint var typedef enum inside return while repeat break continue void final
 supply0 supply1""".split())
TYPES = {"logic", "wire", "reg", "bit", "int", "integer", "tri", "byte", "shortint", "longint", "var"}
FIXED = {"int": 32, "integer": 32, "byte": 8, "shortint": 16, "longint": 64}


# ------------------------------------------------------------------ parser
class Parser:
    def __init__(self, text):
        self.t = lex(text)
        self.i = 0
        self.types = {}         # typedef name -> type
        self.text = text

    def peek(self, k=0):
        return self.t[min(self.i + k, len(self.t) - 1)][1]

    def kind(self, k=0):
        return self.t[min(self.i + k, len(self.t) - 1)][0]

    def next(self):
        t = self.t[self.i]
        self.i += 1
        return t[1]

    def fail(self, what):
        pos = self.t[min(self.i, len(self.t) - 1)][2]
        line = self.text.count("\n", 0, pos) + 1
        words = {v for k, v, _ in self.t if k == "id"}
        raise (SVUnsupported if words & BEYOND or "<<{" in self.text or ">>{" in self.text else SVError)(f"syntax: {what} at '{self.peek()}' (preprocessed line {line})")

    def accept(self, s):
        if self.peek() == s and self.kind() != "str":
            self.i += 1
            return True
        return False

    def expect(self, s):
        if not self.accept(s):
            self.fail(f"expected '{s}'")

    def ident(self):
        if self.kind() != "id" or self.peek() in KEYWORDS:
            self.fail("expected a name")
        return self.next()

    # --- expressions
    BIN = [["||"], ["&&"], ["|"], ["^", "~^", "^~"], ["&"], ["==", "!=", "===", "!=="],
           ["<", "<=", ">", ">="], ["<<", ">>", "<<<", ">>>"], ["+", "-"], ["*", "/", "%"], ["**"]]

    def expr(self):
        c = self.binary(0)
        if self.accept("?"):
            a = self.expr()
            self.expect(":")
            return ("?", c, a, self.expr())
        return c

    def binary(self, lv):
        if lv == len(self.BIN):
            return self.unary()
        a = self.binary(lv + 1)
        while self.kind() == "op" and self.peek() in self.BIN[lv]:
            op = self.next()
            a = ("bin", op, a, self.binary(lv + 1))
        if lv == 6 and self.accept("inside"):
            self.expect("{")
            any_ = None
            while not self.accept("}"):
                if self.accept("["):
                    lo = self.expr()
                    self.expect(":")
                    hi = self.expr()
                    self.expect("]")
                    one = ("bin", "&&", ("bin", ">=", a, lo), ("bin", "<=", a, hi))
                else:
                    one = ("bin", "==", a, self.expr())
                any_ = one if any_ is None else ("bin", "||", any_, one)
                if self.peek() != "}":
                    self.expect(",")
            a = any_
        return a

    def unary(self):
        if self.kind() == "op" and self.peek() in ("~", "!", "-", "+", "&", "|", "^", "~&", "~|", "~^", "^~"):
            op = self.next()
            return ("un", op, self.unary())
        return self.primary()

    def number(self, s):
        s = s.replace("_", "").replace(" ", "").replace("\t", "").replace("\n", "")
        if "'" not in s:
            return ("num", int(s), 32, True)
        w, r = s.split("'", 1)
        if r in ("0", "1", "x", "z", "X", "Z"):
            return ("fill", 1 if r == "1" else 0)
        sg = r[0] in "sS"
        r = r[1:] if sg else r
        base = {"b": 2, "o": 8, "d": 10, "h": 16}[r[0].lower()]
        digits = re.sub(r"[xXzZ?]", "0", r[1:])
        if digits != r[1:] and base != 10:
            bits = {2: 1, 8: 3, 16: 4}[base]
            care = int("".join(("0" if q in "xXzZ?" else "1") * bits for q in r[1:]), 2)
            width = int(w) if w else 32
            care |= mask(width) & ~mask(bits * len(r[1:]))
            return ("num", int(digits, base) & mask(width), width, sg, care & mask(width))
        try:
            v = int(digits, base)
        except ValueError:
            self.fail("number " + s)
        width = int(w) if w else 32
        return ("num", v & ((1 << width) - 1), width, sg)

    def primary(self):
        k, p = self.kind(), self.peek()
        if k == "num":
            n = self.number(self.next())
            if self.peek() == "'" and self.peek(1) == "(":
                self.i += 2
                e = self.expr()
                self.expect(")")
                return ("cast", n, e)
            return n
        if p == "(":
            self.next()
            e = self.expr()
            self.expect(")")
            return self.suffix(e)
        if p == "{":
            self.next()
            first = self.expr()
            if self.peek() == "{":
                parts = self.concat_tail()
                self.expect("}")
                return self.suffix(("rep", first, ("cat", parts)))
            parts = [first]
            while self.accept(","):
                parts.append(self.expr())
            self.expect("}")
            return self.suffix(("cat", parts))
        if p == "'" and self.peek(1) == "{":
            self.i += 2
            default, parts = None, []
            while not self.accept("}"):
                if self.accept("default"):
                    self.expect(":")
                    default = self.expr()
                else:
                    parts.append(self.expr())
                    if self.peek() == "{":          # '{n{value}}
                        body = self.concat_tail()
                        parts[-1] = ("patrep", parts[-1], body)
                if self.peek() != "}":
                    self.expect(",")
            return ("pat", default, parts)
        if k == "id" and p.startswith("$"):
            f = self.next()
            args = []
            if self.accept("("):
                args.append(self.expr())
                while self.accept(","):
                    args.append(self.expr())
                self.expect(")")
            return ("sys", f, args)
        if k == "id" and p not in KEYWORDS:
            n = self.next()
            if self.peek() == "(" and self.kind() == "op":
                self.next()
                args = []
                while not self.accept(")"):
                    args.append(self.expr())
                    if self.peek() != ")":
                        self.expect(",")
                return self.suffix(("call", n, args))
            if self.peek() == "'" and self.peek(1) == "(":
                self.i += 2
                e = self.expr()
                self.expect(")")
                if n in self.types:
                    return self.type_cast(self.types[n], e)
                return ("cast", ("id", n), e)
            if self.peek() == "." and self.kind(1) == "id":
                while self.accept("."):
                    n += "." + self.ident()
            return self.suffix(("id", n))
        if (p in FIXED or p in ("logic", "bit", "reg", "unsigned", "signed")) and self.peek(1) == "'":
            self.i += 3
            e = self.expr()
            self.expect(")")
            if p in ("signed", "unsigned"):
                return ("sys", "$" + p, [e])
            return self.type_cast((p in FIXED, FIXED.get(p), [], True), e)
        self.fail("expected an expression")

    def type_cast(self, ty, e):
        """a cast to a named or built-in type: the width of the type, and its sign"""
        signed, fixed, ds, _ = ty
        w = ("num", fixed or 1, 32, True)
        for a, b in ds:
            if b is None:
                raise SVUnsupported("packed dimension of one number")
            up = ("bin", ">=", a, b)
            n = ("bin", "+", ("?", up, ("bin", "-", a, b), ("bin", "-", b, a)), ("num", 1, 32, True))
            w = ("bin", "*", w, n)
        return ("sys", "$signed" if signed else "$unsigned", [("cast", w, e)])

    def concat_tail(self):
        self.expect("{")
        parts = [self.expr()]
        while self.accept(","):
            parts.append(self.expr())
        self.expect("}")
        return parts

    def suffix(self, e):
        while self.peek() == "[" and self.kind() == "op":
            self.next()
            a = self.expr()
            if self.accept(":"):
                b = self.expr()
                e = ("part", e, a, b)
            elif self.peek() in ("+:", "-:"):
                op = self.next()
                b = self.expr()
                e = ("ipart", op, e, a, b)
            else:
                e = ("idx", e, a)
            self.expect("]")
        return e

    # --- declarations
    def dims(self):
        ds = []
        while self.peek() == "[":
            self.next()
            a = self.expr()
            b = None
            if self.accept(":"):
                b = self.expr()
            self.expect("]")
            ds.append((a, b))
        return ds

    def typ(self):
        """(signed, fixed-width or None, packed dims)"""
        fixed, signed, seen = None, False, False
        if self.peek() in self.types and self.kind() == "id":
            sg, fx, ds, _ = self.types[self.next()]
            return sg, fx, self.dims() + ds, True
        while self.peek() in TYPES:
            t = self.next()
            seen = True
            if t in FIXED:
                fixed, signed = FIXED[t], True
        if self.peek() in ("signed", "unsigned"):
            signed = self.next() == "signed"
            seen = True
        return signed, fixed, self.dims(), seen

    def is_type(self):
        return self.peek() in TYPES or (self.kind() == "id" and self.peek() in self.types)

    def typedef(self):
        """enum members become constants; the name becomes a type"""
        out = []
        if self.accept("enum"):
            ty = self.typ()
            if not ty[3] and not ty[2]:
                ty = (True, 32, [], True)
            self.expect("{")
            last = None
            while not self.accept("}"):
                n = self.ident()
                if self.peek() == "[":
                    raise SVUnsupported("enum ranges")
                v = self.expr() if self.accept("=") else (("num", 0, 32, True) if last is None else
                                                          ("bin", "+", ("id", last), ("num", 1, 32, True)))
                out.append(("localparam", n, v, ty))
                last = n
                if self.peek() != "}":
                    self.expect(",")
        elif self.is_type() or self.peek() in ("signed", "unsigned", "["):
            ty = self.typ()
        else:
            raise SVUnsupported("typedef " + self.peek())
        return ty, out

    def function(self):
        self.accept("automatic")
        void = self.accept("void")
        ty = self.typ() if self.is_type() or self.peek() in ("signed", "unsigned", "[") else (False, None, [], False)
        name = self.ident()
        args, decls, body = [], [], []
        if self.accept("("):
            t, d = (False, None, [], False), "input"
            while not self.accept(")"):
                if self.peek() in ("input", "output", "inout"):
                    d = self.next()
                    t = (False, None, [], False)
                if self.is_type() or self.peek() in ("[", "signed", "unsigned"):
                    t = self.typ()
                if d != "input":
                    raise SVUnsupported("function outputs")
                n = self.ident()
                if self.dims():
                    raise SVUnsupported("array arguments")
                if self.accept("="):
                    raise SVUnsupported("default arguments")
                args.append((n, t))
                if self.peek() != ")":
                    self.expect(",")
        self.expect(";")
        while not self.accept("endfunction"):
            if self.kind() == "eof":
                self.fail("expected endfunction")
            if self.peek() == "input":
                self.next()
                t = self.typ()
                while True:
                    args.append((self.ident(), t))
                    if not self.accept(","):
                        break
                self.expect(";")
            elif self.is_type() or self.peek() == "automatic":
                body += self.local_decl()
            else:
                body.append(self.stmt())
        if self.accept(":"):
            self.ident()
        if void:
            raise SVUnsupported("void functions")
        return [("function", name, ty, args, ("block", body))]

    def local_decl(self):
        self.accept("automatic")
        ty, out = self.typ(), []
        while True:
            n = self.ident()
            ds = self.dims()
            out.append(("local", ty, n, ds, self.expr() if self.accept("=") else None))
            if not self.accept(","):
                break
        self.expect(";")
        return out

    def module(self):
        self.accept("automatic")
        name = self.ident()
        params, ports, items = [], [], []
        if self.accept("#"):
            self.expect("(")
            while not self.accept(")"):
                while self.peek() in ("parameter", "localparam"):
                    self.next()
                ty = self.typ() if self.is_type() or self.peek() in ("[", "signed", "unsigned") else None
                n = self.ident()
                if self.dims():
                    raise SVUnsupported("array parameters")
                self.expect("=")
                params.append((n, self.expr(), ty))
                if self.peek() != ")":
                    self.expect(",")
        if self.accept("("):
            d, ty = None, (False, None, [], False)
            while not self.accept(")"):
                if self.peek() in ("input", "output", "inout"):
                    d = self.next()
                    ty = self.typ()
                elif self.is_type() or self.peek() == "[":
                    ty = self.typ()
                n = self.ident()
                ports.append((d, ty, n, self.dims()))
                if self.peek() != ")":
                    self.expect(",")
        self.expect(";")
        while not self.accept("endmodule"):
            if self.kind() == "eof":
                self.fail("expected endmodule")
            items += self.item()
        if self.accept(":"):
            self.ident()
        return dict(name=name, params=params, ports=ports, items=items)

    def block_items(self):
        """generate block body: begin..end or one item"""
        if self.accept("begin"):
            label = self.ident() if self.accept(":") else None
            its = []
            while not self.accept("end"):
                its += self.item()
            if self.accept(":"):
                self.ident()
            return label, its
        return None, self.item()

    def item(self):
        p = self.peek()
        if p == ";":
            self.next()
            return []
        if p in ("parameter", "localparam"):
            self.next()
            ty = self.typ() if self.is_type() or self.peek() in ("[", "signed", "unsigned") else None
            out = []
            while True:
                n = self.ident()
                if self.dims():
                    raise SVUnsupported("array parameters")
                self.expect("=")
                out.append((p, n, self.expr(), ty))
                if not self.accept(","):
                    break
            self.expect(";")
            return out
        if p in ("input", "output", "inout"):
            self.next()
            ty = self.typ()
            out = []
            while True:
                n = self.ident()
                out.append(("portdecl", p, ty, n, self.dims()))
                if not self.accept(","):
                    break
            self.expect(";")
            return out
        if p == "genvar":
            self.next()
            self.ident()
            while self.accept(","):
                self.ident()
            self.expect(";")
            return []
        if p == "typedef":
            self.next()
            ty, out = self.typedef()
            n = self.ident()
            if self.dims():
                raise SVUnsupported("typedef of an array")
            self.types[n] = ty
            self.expect(";")
            return out
        if p == "function":
            self.next()
            return self.function()
        if p == "enum" or self.is_type():
            out = []
            ty = None
            if p == "enum":
                ty, out = self.typedef()
            else:
                ty = self.typ()
            while True:
                n = self.ident()
                ds = self.dims()
                init = self.expr() if self.accept("=") else None
                out.append(("decl", ty, n, ds, init, p))
                if not self.accept(","):
                    break
            self.expect(";")
            return out
        if p == "assign":
            self.next()
            out = []
            while True:
                lv = self.lvalue()
                self.expect("=")
                out.append(("assign", lv, self.expr()))
                if not self.accept(","):
                    break
            self.expect(";")
            return out
        if p in ("always", "always_ff", "always_comb", "always_latch"):
            self.next()
            sens = None
            if self.accept("@"):
                sens = []
                if self.accept("*"):
                    sens = None
                else:
                    self.expect("(")
                    if self.accept("*"):
                        sens = None
                    else:
                        while True:
                            e = self.next() if self.peek() in ("posedge", "negedge") else ""
                            sens.append((e, self.expr()))
                            if not (self.accept("or") or self.accept(",")):
                                break
                    self.expect(")")
            return [("always", p, sens, self.stmt())]
        if p == "initial":
            self.next()
            self.stmt()
            return []
        if p in ("generate", "endgenerate"):
            self.next()
            return []
        if p == "for":
            self.next()
            self.expect("(")
            if self.peek() in ("genvar", "int", "integer"):
                self.next()
                self.accept("unsigned")
            v = self.ident()
            self.expect("=")
            a = self.expr()
            self.expect(";")
            c = self.expr()
            self.expect(";")
            st = self.step(v)
            self.expect(")")
            label, its = self.block_items()
            return [("genfor", v, a, c, st, label, its)]
        if p == "if":
            self.next()
            self.expect("(")
            c = self.expr()
            self.expect(")")
            a = self.block_items()
            b = self.block_items() if self.accept("else") else (None, [])
            return [("genif", c, a[1], b[1])]
        if p == "case":
            self.next()
            self.expect("(")
            e = self.expr()
            self.expect(")")
            arms, rest = [], []
            while not self.accept("endcase"):
                if self.accept("default"):
                    self.accept(":")
                    rest = self.block_items()[1]
                else:
                    labels = [self.expr()]
                    while self.accept(","):
                        labels.append(self.expr())
                    self.expect(":")
                    arms.append((labels, self.block_items()[1]))
            for labels, its in reversed(arms):
                c = None
                for l in labels:
                    one = ("bin", "==", e, l)
                    c = one if c is None else ("bin", "||", c, one)
                rest = [("genif", c, its, rest)]
            return rest
        if p == "begin":
            return self.block_items()[1]
        if self.kind() == "id" and p not in KEYWORDS:
            mod = self.next()
            params = []
            if self.accept("#"):
                self.expect("(")
                params = self.conns()
            out = []
            while True:
                inst = self.ident()
                ds = self.dims()
                if ds:
                    self.fail("arrays of instances")
                self.expect("(")
                out.append(("inst", mod, params, inst, self.conns()))
                if not self.accept(","):
                    break
            self.expect(";")
            return out
        self.fail("expected a module item")

    def conns(self):
        out = []
        while not self.accept(")"):
            if self.accept("."):
                if self.accept("*"):
                    out.append(("*", None))
                else:
                    n = self.ident()
                    if self.accept("("):
                        e = None if self.peek() == ")" else self.expr()
                        self.expect(")")
                    else:
                        e = ("id", n)
                    out.append((n, e))
            else:
                out.append((None, self.expr()))
            if self.peek() != ")":
                self.expect(",")
        return out

    # --- statements
    def lvalue(self):
        if self.peek() == "{":
            self.next()
            parts = [self.lvalue()]
            while self.accept(","):
                parts.append(self.lvalue())
            self.expect("}")
            return ("cat", parts)
        return self.suffix(("id", self.ident()))

    def step(self, v):
        if self.peek() in ("++", "--"):
            op = self.next()
            self.ident()
            return ("bin", op[0], ("id", v), ("num", 1, 32, True))
        self.ident()
        if self.peek() in ("++", "--"):
            op = self.next()
            return ("bin", op[0], ("id", v), ("num", 1, 32, True))
        if self.peek() in ("+=", "-=", "*="):
            op = self.next()
            return ("bin", op[0], ("id", v), self.expr())
        self.expect("=")
        return self.expr()

    def stmt(self):
        p = self.peek()
        if self.accept(";"):
            return ("block", [])
        if self.accept("begin"):
            if self.accept(":"):
                self.ident()
            body = []
            while not self.accept("end"):
                if self.kind() == "eof":
                    self.fail("expected end")
                if (self.is_type() and self.peek(1) != "'") or self.peek() == "automatic":
                    body += self.local_decl()
                else:
                    body.append(self.stmt())
            if self.accept(":"):
                self.ident()
            return ("block", body)
        if p in ("unique", "unique0", "priority"):
            self.next()
            return self.stmt()
        if self.accept("return"):
            e = self.expr()
            self.expect(";")
            return ("return", e)
        if p in ("break", "continue"):
            self.next()
            self.expect(";")
            return (p,)
        if p in ("while", "repeat"):
            self.next()
            self.expect("(")
            c = self.expr()
            self.expect(")")
            return (p, c, self.stmt())
        if self.accept("if"):
            self.expect("(")
            c = self.expr()
            self.expect(")")
            a = self.stmt()
            b = self.stmt() if self.accept("else") else None
            return ("if", c, a, b)
        if p in ("case", "casez", "casex"):
            self.next()
            self.expect("(")
            e = self.expr()
            self.expect(")")
            arms, default = [], None
            while not self.accept("endcase"):
                if self.accept("default"):
                    self.accept(":")
                    default = self.stmt()
                else:
                    labels = [self.expr()]
                    while self.accept(","):
                        labels.append(self.expr())
                    self.expect(":")
                    arms.append((labels, self.stmt()))
            return ("case", e, arms, default, p)
        if self.accept("foreach"):
            self.expect("(")
            a = ("id", self.ident())
            self.expect("[")
            v = self.ident()
            self.expect("]")
            self.expect(")")
            one = ("num", 1, 32, True)
            return ("for", v, ("sys", "$low", [a]), ("bin", "<=", ("id", v), ("sys", "$high", [a])), ("bin", "+", ("id", v), one), self.stmt(), True)
        if self.accept("for"):
            self.expect("(")
            local = self.peek() in ("int", "integer")
            if local:
                self.next()
                self.accept("unsigned")
            v = self.ident()
            self.expect("=")
            a = self.expr()
            self.expect(";")
            c = self.expr()
            self.expect(";")
            st = self.step(v)
            self.expect(")")
            return ("for", v, a, c, st, self.stmt(), local)
        if self.kind() == "id" and p.startswith("$"):
            self.next()
            if self.accept("("):
                while not self.accept(")"):
                    self.expr() if self.kind() != "str" else self.next()
                    self.accept(",")
            self.expect(";")
            return ("block", [])
        lv = self.lvalue()
        if self.peek() in ("++", "--"):
            op = self.next()
            self.expect(";")
            return ("=", lv, ("bin", op[0], lv, ("num", 1, 32, True)))
        if self.peek() in ("+=", "-=", "*=", "|=", "&=", "^="):
            op = self.next()
            e = self.expr()
            self.expect(";")
            return ("=", lv, ("bin", op[0], lv, e))
        op = self.next()
        if op not in ("=", "<="):
            self.i -= 1
            self.fail("expected an assignment")
        e = self.expr()
        self.expect(";")
        return (op, lv, e)

    def source(self):
        mods = {}
        while self.kind() != "eof":
            if self.accept(";"):
                continue
            if self.accept("module"):
                m = self.module()
                mods[m["name"]] = m
            elif self.accept("typedef"):
                ty, consts = self.typedef()
                self.types[self.ident()] = ty
                self.expect(";")
                if consts:
                    raise SVUnsupported("enum outside a module")
            else:
                self.fail("expected a module")
        return mods


def _instances(items):
    for it in items:
        if it[0] == "inst":
            yield it[1]
        elif it[0] == "genfor":
            yield from _instances(it[6])
        elif it[0] == "genif":
            yield from _instances(it[2])
            yield from _instances(it[3])


def load(path, defines=None, preset=()):
    """Modules of a file and its includes; a module named nowhere is looked up as <name>.sv beside it,
    as the synthesis scripts do by analysing a whole folder."""
    d = dict(defines or {})
    mods = Parser(preprocess(path, d, preset=preset)).source()
    todo = list(mods)
    while todo:
        for n in _instances(mods[todo.pop()]["items"]):
            beside = os.path.join(os.path.dirname(path), n + ".sv")
            if n not in mods and os.path.exists(beside):
                for k, v in Parser(preprocess(beside, d, preset=preset)).source().items():
                    if k not in mods:
                        mods[k] = v
                        todo.append(k)
    return mods


# ------------------------------------------------------------------ elaboration
class Sig:
    """w: width of one word; pd: packed dimensions (low bound, descending, size), outermost first; dims: (0, words) of an
    array, whose declared dimensions are ud: (low bound, size), outermost first"""
    __slots__ = ("i", "w", "pd", "ud", "dims", "signed", "name")

    def __init__(self, i, w, pd, ud, signed, name):
        self.i, self.name = i, name
        self.set(w, pd, ud, signed)

    def set(self, w, pd, ud, signed):
        self.w, self.pd, self.ud, self.signed = w, pd, ud, signed
        n = 1
        for _, k in ud:
            n *= k
        self.dims = (0, n) if ud else None


class Const(int):
    """A constant with a type of its own."""
    w, signed = 32, True


def typed(v, w, signed):
    c = Const(_sx(v & mask(w), w) if signed else v & mask(w))
    c.w, c.signed = w, signed
    return c


class Func:
    def __init__(self, item, sc):
        self.item, self.sc, self.code = item, sc, None


class Scope:
    def __init__(self, path):
        self.path, self.names = path, {}

    def child(self, suffix):
        s = Scope(self.path)
        s.names = dict(self.names)
        return s


def mask(w):
    return (1 << w) - 1


def _sx(v, w):
    return v - (1 << w) if v >> (w - 1) & 1 else v


def _idiv(a, b):
    if b == 0:
        return 0
    q = abs(a) // abs(b)
    return q if (a < 0) == (b < 0) else -q


def _imod(a, b):
    return 0 if b == 0 else a - b * _idiv(a, b)


class Sim:
    """An elaborated design."""

    def __init__(self, mods, top, params=None, seed=0):
        self.mods = mods
        self.sigs = []
        self.rng = random.Random(seed)
        self.comb, self.ff = [], []         # (fn, reads) / (fn, [(edge, sig)])
        self.returns, self.steps = [], []
        self.procs = set()                  # which of comb are processes rather than continuous assignments
        self.ns = {"_sx": _sx, "_idiv": _idiv, "_imod": _imod}
        self.n = 0
        if top not in mods:
            raise SVError("no module " + top)
        self.top = self.instance(top, params or {}, top, None)
        self.S = [None] * len(self.sigs)
        for s in self.sigs:
            self.S[s.i] = ([self.rng.getrandbits(s.w) for _ in range(s.dims[1])] if s.dims
                           else self.rng.getrandbits(s.w))
        self.deps = [[] for _ in self.sigs]
        for k, (_, reads) in enumerate(self.comb):
            for r in reads:
                self.deps[r].append(k)
        self.dirty = set(range(len(self.comb)))
        self.evals = 0
        self.last = {}
        self.settle()
        self.last = {e[1]: self.S[e[1]] for _, es in self.ff for e in es}

    # ---------- constants
    def const(self, e, sc):
        f = self.compile_expr(e, sc, {}, None)
        w = self.width(e, sc, {})
        try:
            v = eval(f[0] if isinstance(f, tuple) else f, dict(self.ns, S=[]))      # only constants inside
        except (NameError, IndexError):
            raise SVUnsupported("constant function")
        return _sx(v & mask(w), w) if self.is_signed(e, sc, {}) else v

    def param(self, e, ty, sc):
        """Value of a parameter: converted to its declared type, or of the type of its expression."""
        v = self.const(e, sc)
        if ty is not None and (ty[1] or ty[2] or ty[3]):
            w, _, _, signed = self.shape(ty, [], sc)
            return typed(v, w, signed)
        return typed(v, self.width(e, sc, {}), self.is_signed(e, sc, {}))

    def shape(self, ty, ds, sc):
        signed, fixed, packed, _ = ty
        pd = [(0, True, fixed)] if fixed else []
        for a, b in packed:
            if b is None:
                raise SVUnsupported("packed dimension of one number")
            a, b = self.const(a, sc), self.const(b, sc)
            pd.append((min(a, b), a >= b, abs(a - b) + 1))
        if len(pd) > 1 and fixed:
            pd = pd[1:] + pd[:1]
        w = 1
        for _, _, n in pd:
            w *= n
        ud = []
        for a, b in ds:
            a = self.const(a, sc)
            a, b = (0, a - 1) if b is None else (a, self.const(b, sc))
            ud.append((min(a, b), abs(a - b) + 1))
        return w, pd, ud, signed

    def declare(self, sc, n, ty, ds, path):
        w, pd, ud, signed = self.shape(ty, ds, sc)
        if w > 4096:
            raise SVError("vector too wide: " + n)
        old = sc.names.get(n)
        if isinstance(old, Sig) and old.name == path + "." + n:
            # a port declared again with its range: same signal
            old.set(w, pd, ud or old.ud, signed)
            return old
        s = Sig(len(self.sigs), w, pd, ud, signed, path + "." + n)
        self.sigs.append(s)
        sc.names[n] = s
        return s

    def instance(self, mod, params, path, _parent):
        m = self.mods[mod]
        sc = Scope(path)
        left = dict(params)
        for n, e, ty in m["params"]:
            if n in left and ty is not None and (ty[1] or ty[2] or ty[3]):
                w, _, _, signed = self.shape(ty, [], sc)
                sc.names[n] = typed(left.pop(n), w, signed)
            else:
                sc.names[n] = left.pop(n) if n in left else self.param(e, ty, sc)
        for it in m["items"]:
            if it[0] == "function":
                sc.names[it[1]] = Func(it, sc)
        body_params = {it[1] for it in m["items"] if it[0] == "parameter"}
        for n in list(left):
            if n not in body_params:
                raise SVError(f"{mod} has no parameter {n}")
        # non-ANSI parameters come first so that ports can use them
        for it in m["items"]:
            if it[0] in ("parameter", "localparam"):
                try:
                    sc.names[it[1]] = left[it[1]] if it[1] in left else self.param(it[2], it[3], sc)
                except SVUnsupported:
                    raise
                except SVError:
                    pass
        ports = []
        for d, ty, n, ds in m["ports"]:
            if d is None:                       # non-ANSI: direction in the body
                ports.append([None, n])
                continue
            self.declare(sc, n, ty, ds, path)
            ports.append([d, n])
        for it in m["items"]:
            if it[0] == "portdecl":
                self.declare(sc, it[3], it[2], it[4], path)
                for p in ports:
                    if p[1] == it[3]:
                        p[0] = it[1]
        self.items(m["items"], sc, path)
        sc.ports = ports
        for d, n in ports:
            if d is None or not isinstance(sc.names.get(n), Sig):
                raise SVError(f"{mod}: port {n} is not declared")
        return sc

    def items(self, items, sc, path):
        for it in items:
            if it[0] == "decl":
                s = self.declare(sc, it[2], it[1], it[3], path)
                if it[4] is not None and it[5] in ("wire", "tri"):
                    self.comb_assign(("id", it[2]), it[4], sc)
            elif it[0] in ("parameter", "localparam") and it[1] not in sc.names:
                sc.names[it[1]] = self.param(it[2], it[3], sc)
            elif it[0] == "function" and it[1] not in sc.names:
                sc.names[it[1]] = Func(it, sc)
        for it in items:
            k = it[0]
            if k == "assign":
                self.comb_assign(it[1], it[2], sc)
            elif k == "always":
                self.always(it, sc)
            elif k == "genfor":
                _, v, a, c, st, label, its = it
                sub = sc.child("")
                sub.names[v] = self.const(a, sc)
                guard = 0
                while self.const(c, sub):
                    g = sub.child("")
                    pre = f"{path}.{label or 'gen'}[{sub.names[v]}]"
                    self.items(its, g, pre)
                    sub.names[v] = self.const(st, sub)
                    guard += 1
                    if guard > 5000:
                        raise SVError("generate loop does not end")
            elif k == "genif":
                its = it[2] if self.const(it[1], sc) else it[3]
                self.items(its, sc.child(""), path)
            elif k == "inst":
                self.connect(it, sc, path)

    def implicit(self, e, sc, path):
        """An undeclared name in a port connection is a one-bit wire."""
        if e is not None and e[0] == "id" and e[1] not in sc.names:
            self.declare(sc, e[1], (False, None, [], False), [], path)

    def connect(self, it, sc, path):
        _, mod, pc, inst, conns = it
        for _, e in conns:
            self.implicit(e, sc, path)
        if mod not in self.mods:
            raise SVError(f"{path}: no module {mod}")
        m = self.mods[mod]
        params = {}
        for k, (n, e) in enumerate(pc):
            params[n if n is not None else m["params"][k][0]] = self.const(e, sc)
        child = self.instance(mod, params, f"{path}.{inst}", sc)
        got = {}
        for k, (n, e) in enumerate(conns):
            if n == "*":
                for d, pn in child.ports:
                    if pn in sc.names:
                        got.setdefault(pn, ("id", pn))
                continue
            if n is None:
                if k >= len(child.ports):
                    raise SVError(f"{mod}: too many ports")
                n = child.ports[k][1]
            if n not in [p[1] for p in child.ports]:
                raise SVError(f"{path}.{inst}: {mod} has no port {n}")
            if n in got:
                raise SVError(f"{path}.{inst}: port {n} connected twice")
            got[n] = e
        for d, n in child.ports:
            e = got.get(n)
            if e is None:
                continue
            s = child.names[n]
            if d == "input":
                if s.dims:
                    src = sc.names[e[1]]
                    self.raw_comb(f"W({s.i}, list(S[{src.i}]))", [src.i])
                else:
                    reads = set()
                    code = self.compile_assign_value(e, s.w, sc, reads)
                    self.raw_comb(f"W({s.i}, {code})", reads)
            else:
                if s.dims:
                    dst = sc.names[e[1]]
                    self.raw_comb(f"W({dst.i}, list(S[{s.i}]))", [s.i])
                else:
                    inner = Scope("")
                    inner.names = dict(sc.names)
                    inner.names["\0port"] = s
                    self.comb_assign(e, ("id", "\0port"), inner)

    # ---------- code generation
    def raw_comb(self, code, reads):
        self.n += 1
        self.comb.append((self.function([code], f"c{self.n}"), sorted(reads)))

    def function(self, lines, name):
        src = f"def {name}(S, W, N):\n" + "\n".join("    " + l for l in (lines or ["pass"]))
        exec(compile(src, name, "exec"), self.ns)
        return self.ns[name]

    def comb_assign(self, lv, e, sc):
        reads = set()
        lines = []
        self.emit_assign(lines, "", "=", lv, e, sc, {}, reads)
        self.n += 1
        self.comb.append((self.function(lines, f"c{self.n}"), sorted(reads)))

    def always(self, it, sc):
        _, kind, sens, body = it
        reads = set()
        lines = []
        self.emit(body, lines, "", sc, {}, reads)
        self.n += 1
        fn = self.function(lines, f"p{self.n}")
        edges = [s for s in sens or [] if s[0]]
        if edges:
            es = []
            for e, x in edges:
                if x[0] != "id" or not isinstance(sc.names.get(x[1]), Sig):
                    raise SVError("event expression")
                es.append((e, sc.names[x[1]].i))
            self.ff.append((fn, es))
        elif kind == "always_ff":
            raise SVError("always_ff without an edge")
        else:
            if sens:
                # the listed names wake it up, and nothing else
                reads = set()
                for _, x in sens:
                    self.compile_expr(x, sc, {}, reads)
            self.procs.add(len(self.comb))
            self.comb.append((fn, sorted(reads)))

    def lookup(self, n, sc, loc):
        if n in loc:
            return loc[n]
        if n not in sc.names:
            raise SVError(f"{sc.path}: unknown name {n}")
        return sc.names[n]

    # --- widths
    def width(self, e, sc, loc):
        k = e[0]
        if k == "num":
            return e[2]
        if k == "fill":
            return 1
        if k == "id":
            o = self.lookup(e[1], sc, loc)
            if isinstance(o, Func):
                raise SVUnsupported("call without parentheses")
            return 32 if isinstance(o, str) else getattr(o, "w", 32)
        if k in ("idx", "part", "ipart"):
            o = self.base(e, sc, loc)
            if o is not None:
                return self.path(e, o, sc, loc, None)[2]
            if k == "idx":
                return 1
            if k == "part":
                return abs(self.const_in(e[2], sc) - self.const_in(e[3], sc)) + 1
            return self.const_in(e[4], sc)
        if k == "call":
            return self.func(e[1], sc, loc)[1]
        if k == "bin":
            if e[1] in ("==", "!=", "===", "!==", "<", "<=", ">", ">=", "&&", "||"):
                return 1
            if e[1] in ("<<", ">>", "<<<", ">>>", "**"):
                return self.width(e[2], sc, loc)
            return max(self.width(e[2], sc, loc), self.width(e[3], sc, loc))
        if k == "un":
            return self.width(e[2], sc, loc) if e[1] in ("~", "-", "+") else 1
        if k == "?":
            return max(self.width(e[2], sc, loc), self.width(e[3], sc, loc))
        if k == "cat":
            return sum(self.width(p, sc, loc) for p in e[1])
        if k == "rep":
            return self.const_in(e[1], sc) * self.width(e[2], sc, loc)
        if k == "cast":
            return self.const_in(e[1], sc)
        if k == "sys":
            if e[1] in ("$signed", "$unsigned"):
                return self.width(e[2][0], sc, loc)
            return 32
        raise SVError("expression " + k)

    def const_in(self, e, sc):
        return self.const(e, sc)

    def base(self, e, sc, loc):
        while e[0] in ("idx", "part", "ipart"):
            e = e[2] if e[0] == "ipart" else e[1]
        if e[0] != "id":
            return None
        o = self.lookup(e[1], sc, loc)
        return o if isinstance(o, Sig) else None

    def is_signed(self, e, sc, loc):
        k = e[0]
        if k == "num":
            return e[3]
        if k == "fill":
            return True
        if k == "id":
            o = self.lookup(e[1], sc, loc)
            if isinstance(o, Func):
                raise SVUnsupported("call without parentheses")
            return True if isinstance(o, str) else getattr(o, "signed", True)
        if k == "idx":
            o = self.base(e, sc, loc)
            n, x = 0, e
            while x[0] == "idx":
                n, x = n + 1, x[1]
            return bool(o is not None and o.ud and x[0] == "id" and n == len(o.ud) and o.signed)
        if k in ("part", "ipart", "cat", "rep"):
            return False
        if k == "call":
            return self.func(e[1], sc, loc)[2]
        if k == "bin":
            if e[1] in ("==", "!=", "===", "!==", "<", "<=", ">", ">=", "&&", "||"):
                return False
            if e[1] in ("<<", ">>", "<<<", ">>>", "**"):
                return self.is_signed(e[2], sc, loc)
            return self.is_signed(e[2], sc, loc) and self.is_signed(e[3], sc, loc)
        if k == "un":
            return self.is_signed(e[2], sc, loc) if e[1] in ("~", "-", "+") else False
        if k == "?":
            return self.is_signed(e[2], sc, loc) and self.is_signed(e[3], sc, loc)
        if k == "cast":
            return self.is_signed(e[2], sc, loc)
        if k == "sys":
            return e[1] != "$unsigned"
        return False

    def ext(self, code, w, L, signed):
        """code: value in [0, 2^w) -> value in [0, 2^L)"""
        if L > w and signed:
            return f"(_sx({code}, {w}) & {mask(L)})"
        return code

    def compile_expr(self, e, sc, loc, reads, L=None, signed=None):
        """Code whose value is an int in [0, 2^L)."""
        w = self.width(e, sc, loc)
        own = self.is_signed(e, sc, loc)
        L = w if L is None else max(L, w)
        sg = own if signed is None else (signed and own)
        k = e[0]
        C = lambda x, l=None, s=None: self.compile_expr(x, sc, loc, reads, l, s)
        if k == "num":
            return self.ext(str(e[1] & mask(w)), w, L, sg)
        if k == "fill":
            return str(mask(L) if e[1] else 0)
        if k == "id":
            o = self.lookup(e[1], sc, loc)
            if isinstance(o, int):
                return self.ext(str(int(o) & mask(w)), w, L, sg)
            if isinstance(o, str):
                return self.ext(f"({o} & {mask(32)})", 32, L, sg)
            if reads is not None:
                reads.add(o.i)
            elif reads is None:
                raise SVError(f"{e[1]} is not a constant")
            if o.dims:
                raise SVUnsupported(f"array {e[1]} used as a value")
            return self.ext(f"S[{o.i}]", w, L, sg)
        if k in ("idx", "part", "ipart"):
            return self.ext(self.select(e, sc, loc, reads), w, L, sg)
        if k == "call":
            name, fw, _, argt, freads = self.func(e[1], sc, loc)
            if len(argt) != len(e[2]):
                raise SVError(f"{e[1]}: {len(e[2])} arguments")
            if reads is None:
                raise SVUnsupported("constant function")
            reads |= freads
            args = [self.compile_assign_value(x, q, sc, reads, loc) for x, q in zip(e[2], argt)]
            return self.ext(f"{name}({', '.join(['S', 'W'] + args)})", w, L, sg)
        if k == "pat":
            raise SVUnsupported("assignment pattern")
        if k == "bin":
            op = e[1]
            if op in ("&&", "||"):
                j = "and" if op == "&&" else "or"
                return f"(1 if ({C(e[2])} {j} {C(e[3])}) else 0)"
            if op in ("==", "!=", "===", "!==", "<", "<=", ">", ">="):
                m = max(self.width(e[2], sc, loc), self.width(e[3], sc, loc))
                s = self.is_signed(e[2], sc, loc) and self.is_signed(e[3], sc, loc)
                a, b = C(e[2], m, s), C(e[3], m, s)
                if s:
                    a, b = f"_sx({a}, {m})", f"_sx({b}, {m})"
                return f"(1 if {a} {op[:2]} {b} else 0)"
            if op in ("<<", "<<<"):
                return f"(({C(e[2], L, sg)} << min({C(e[3])}, 4200)) & {mask(L)})"
            if op == ">>" or (op == ">>>" and not sg):
                return f"({C(e[2], L, sg)} >> min({C(e[3])}, 4200))"
            if op == ">>>":
                return f"((_sx({C(e[2], L, sg)}, {L}) >> min({C(e[3])}, 4200)) & {mask(L)})"
            if op == "**":
                return f"(pow({C(e[2], L, sg)}, {C(e[3])}) & {mask(L)})"
            a, b = C(e[2], L, sg), C(e[3], L, sg)
            if op in ("/", "%"):
                f = "_idiv" if op == "/" else "_imod"
                if sg:
                    a, b = f"_sx({a}, {L})", f"_sx({b}, {L})"
                return f"({f}({a}, {b}) & {mask(L)})"
            if op in ("~^", "^~"):
                return f"(({a} ^ {b}) ^ {mask(L)})"
            if op in ("&", "|", "^"):
                return f"({a} {op} {b})"
            return f"(({a} {op} {b}) & {mask(L)})"
        if k == "un":
            op = e[1]
            if op in ("~", "-", "+"):
                a = C(e[2], L, sg)
                return {"~": f"({a} ^ {mask(L)})", "-": f"((-{a}) & {mask(L)})", "+": a}[op]
            a = C(e[2])
            m = mask(self.width(e[2], sc, loc))
            return {"!": f"(0 if {a} else 1)", "&": f"(1 if {a} == {m} else 0)", "|": f"(1 if {a} else 0)",
                    "^": f"(({a}).bit_count() & 1)", "~&": f"(0 if {a} == {m} else 1)",
                    "~|": f"(0 if {a} else 1)", "~^": f"(1 - (({a}).bit_count() & 1))",
                    "^~": f"(1 - (({a}).bit_count() & 1))"}[op]
        if k == "?":
            return f"({C(e[2], L, sg)} if {C(e[1])} else {C(e[3], L, sg)})"
        if k == "cat":
            parts, sh = [], 0
            for p in reversed(e[1]):
                parts.append(f"({C(p)} << {sh})")
                sh += self.width(p, sc, loc)
            return "(" + " | ".join(parts) + ")"
        if k == "rep":
            n, pw = self.const_in(e[1], sc), self.width(e[2], sc, loc)
            if n < 0:
                raise SVError("negative replication")
            m = sum(1 << (pw * q) for q in range(n))
            return f"({C(e[2])} * {m})"
        if k == "cast":
            return self.ext(f"({C(e[2], w)} & {mask(w)})", w, L, sg)
        if k == "sys":
            if e[1] in ("$signed", "$unsigned"):
                return self.ext(C(e[2][0]), w, L, sg)
            if e[1] == "$clog2":
                v = self.const_in(e[2][0], sc)
                return str(max(0, (v - 1).bit_length()))
            if e[1] == "$bits":
                return str(self.width(e[2][0], sc, loc))
            if e[1] in ("$low", "$high", "$left", "$right", "$size"):
                o = self.base(e[2][0], sc, loc) if e[2][0][0] == "id" and len(e[2]) == 1 else None
                if o is None:
                    raise SVUnsupported("dimensions of an expression")
                lo, down, n = (o.ud[0][0], None, o.ud[0][1]) if o.ud else o.pd[0] if o.pd else (0, True, 1)
                if down is None and e[1] in ("$left", "$right"):
                    raise SVUnsupported("direction of an array")
                return str({"$low": lo, "$high": lo + n - 1, "$size": n, "$left": lo + n - 1 if down else lo,
                            "$right": lo if down else lo + n - 1}[e[1]])
            if e[1] in ("$countones", "$onehot", "$onehot0"):
                a = C(e[2][0])
                return {"$countones": f"({a}).bit_count()", "$onehot": f"(1 if ({a}).bit_count() == 1 else 0)",
                        "$onehot0": f"(1 if ({a}).bit_count() <= 1 else 0)"}[e[1]]
            raise SVUnsupported("system function " + e[1])
        raise SVError("expression " + k)

    def path(self, e, o, sc, loc, reads):
        """(word code or None, offset code, width) of a chain of selects on signal o; reads None: the width alone is wanted."""
        chain, x = [], e
        while x[0] in ("idx", "part", "ipart"):
            chain.append(x)
            x = x[2] if x[0] == "ipart" else x[1]
        chain.reverse()
        C = (lambda q: self.index(q, sc, loc, reads)) if reads is not None else (lambda q: "0")
        word = None
        if o.ud:
            if len(chain) < len(o.ud) or any(q[0] != "idx" for q in chain[:len(o.ud)]):
                raise SVUnsupported(f"part of array {o.name} as a whole")
            for (lo, n), q in zip(o.ud, chain):
                i = f"_in({C(q[2])} - {lo}, {n})"
                word = i if word is None else f"({word} * {n} + {i})"
            chain = chain[len(o.ud):]
        self.ns["_in"] = lambda i, n: i if 0 <= i < n else -10 ** 9
        pd, off, w = list(o.pd), "0", o.w
        for q in chain:
            if not pd:
                if q[0] == "idx" and w == 1:
                    # select of a scalar
                    off = f"({off} + {C(q[2])})"
                    continue
                raise SVError(f"select of the scalar {o.name}")
            lo, up, n = pd[0]
            each = w // n
            if q[0] == "idx":
                off = f"({off} + ({C(q[2])} - {lo}) * {each})" if up else f"({off} + ({lo + n - 1} - {C(q[2])}) * {each})"
                pd, w = pd[1:], each
                continue
            if q[0] == "part":
                a, b = self.const_in(q[2], sc), self.const_in(q[3], sc)
                if (a < b) == up and a != b:
                    raise SVError("reversed part select")
                k = abs(a - b) + 1
                st = str(min(a, b) - lo if up else lo + n - 1 - max(a, b))
            else:
                k = self.const_in(q[4], sc)
                if up:
                    st = f"({C(q[3])} - {lo})" if q[1] == "+:" else f"({C(q[3])} - {k - 1 + lo})"
                else:
                    st = f"({lo + n - k} - {C(q[3])})" if q[1] == "+:" else f"({lo + n - 1} - {C(q[3])})"
            off = f"({off} + {st} * {each})"
            pd, w = [(0, up, k)] + pd[1:], each * k
        return word, off, w

    def select(self, e, sc, loc, reads):
        """Code of a bit/part/word select."""
        o = self.base(e, sc, loc)
        self.ns["_ip"] = lambda v, i, n: ((v >> i) if i >= 0 else (v << min(-i, 5000))) & mask(n)
        self.ns["_word"] = lambda a, i: a[i] if 0 <= i < len(a) else 0
        if o is not None:
            if reads is None:
                raise SVError(f"{o.name} is not a constant")
            reads.add(o.i)
            word, off, n = self.path(e, o, sc, loc, reads)
            src = f"S[{o.i}]" if word is None else f"_word(S[{o.i}], {word})"
            return src if off == "0" and n == o.w else f"_ip({src}, {off}, {n})"
        inner = e[2] if e[0] == "ipart" else e[1]
        src = self.compile_expr(inner, sc, loc, reads)
        C = lambda x: self.index(x, sc, loc, reads)
        if e[0] == "idx":
            return f"_ip({src}, {C(e[2])}, 1)"
        if e[0] == "part":
            a, b = self.const_in(e[2], sc), self.const_in(e[3], sc)
            if a < b:
                raise SVError("reversed part select")
            return f"_ip({src}, {b}, {a - b + 1})"
        n = self.const_in(e[4], sc)
        return f"_ip({src}, {C(e[3])}{'' if e[1] == '+:' else f' - {n - 1}'}, {n})"

    def func(self, n, sc, loc):
        """(python name, result width, signed, argument widths, signals read)"""
        f = self.lookup(n, sc, loc)
        if not isinstance(f, Func):
            raise SVError(f"{n} is not a function")
        if f.code == "busy":
            raise SVUnsupported("recursive function")
        if f.code is None:
            f.code = "busy"
            _, name, ty, args, body = f.item
            inner = f.sc.child("")
            inner.path = f"{f.sc.path}.{name}()"
            first = len(self.sigs)
            ret = self.declare(inner, name, ty, [], inner.path)
            sigs = [self.declare(inner, a, t, [], inner.path) for a, t in args]
            self.n += 1
            py = f"f{self.n}"
            head = [f"W({s.i}, a{k})" for k, s in enumerate(sigs)] + [f"W({ret.i}, 0)"]
            lines, reads = [], set()
            self.returns.append(ret)
            self.emit(body, lines, "", inner, {}, reads)
            self.returns.pop()
            text = f"def {py}({', '.join(['S', 'W'] + [f'a{k}' for k in range(len(sigs))])}):\n" + "\n".join(
                "    " + l for l in head + lines + [f"return S[{ret.i}]"])
            exec(compile(text, py, "exec"), self.ns)
            own = set(range(first, len(self.sigs)))
            f.code = (py, ret.w, ret.signed, [s.w for s in sigs], reads - own)
        return f.code

    def index(self, x, sc, loc, reads):
        code = self.compile_expr(x, sc, loc, reads)
        if self.is_signed(x, sc, loc):
            code = f"_sx({code}, {self.width(x, sc, loc)})"
        return code

    def compile_assign_value(self, e, w, sc, reads, loc=None):
        loc = loc or {}
        L = max(w, self.width(e, sc, loc))
        return f"({self.compile_expr(e, sc, loc, reads, L)} & {mask(w)})"

    # --- statements
    def lv_width(self, lv, sc, loc):
        return sum(self.lv_width(p, sc, loc) for p in lv[1]) if lv[0] == "cat" else self.width(lv, sc, loc)

    def emit_assign(self, lines, ind, op, lv, e, sc, loc, reads):
        if lv[0] == "id" and isinstance(loc.get(lv[1]), str):
            code = self.compile_expr(e, sc, loc, reads, 32)
            if self.is_signed(e, sc, loc):
                lines.append(f"{ind}{loc[lv[1]]} = _sx({code} & {mask(32)}, 32)")
            else:
                lines.append(f"{ind}{loc[lv[1]]} = _sx({code} & {mask(32)}, 32)")
            return
        o = self.lookup(lv[1], sc, loc) if lv[0] == "id" else None
        if isinstance(o, Sig) and o.ud:
            self.n += 1
            t, words = f"v{self.n}", o.dims[1]
            src = self.lookup(e[1], sc, loc) if e[0] == "id" else None
            if isinstance(src, Sig) and src.dims and src.dims[1] == words and src.w == o.w:
                reads.add(src.i)
                lines.append(f"{ind}{t} = list(S[{src.i}])")
            elif e[0] == "pat":
                vals = []
                for q in e[2]:
                    vals += q[2] * self.const_in(q[1], sc) if q[0] == "patrep" else [q]
                if len(vals) != words:
                    if e[1] is None or vals:
                        raise SVError(f"pattern of {len(vals)} for {words} words")
                    vals = [e[1]] * words
                lines.append(f"{ind}{t} = [{', '.join(self.compile_assign_value(q, o.w, sc, reads, loc) for q in vals)}]")
            else:
                raise SVUnsupported("assignment to an array")
            for k in range(words):
                lines.append(f"{ind}W({o.i}, {t}[{k}], {k}, 0, {o.w})" if op == "=" else f"{ind}N.append(({o.i}, {t}[{k}], {k}, 0, {o.w}))")
            return
        w = self.lv_width(lv, sc, loc)
        self.n += 1
        t = f"v{self.n}"
        lines.append(f"{ind}{t} = {self.compile_assign_value(e, w, sc, reads, loc)}")
        self.store(lines, ind, op, lv, t, sc, loc, reads)

    def store(self, lines, ind, op, lv, t, sc, loc, reads):
        if lv[0] == "cat":
            sh = 0
            for p in reversed(lv[1]):
                pw = self.lv_width(p, sc, loc)
                self.store(lines, ind, op, p, f"(({t} >> {sh}) & {mask(pw)})", sc, loc, reads)
                sh += pw
            return
        o = self.base(lv, sc, loc)
        if o is None:
            raise SVError(f"assignment to {lv[1]}")
        word, lo, n = self.path(lv, o, sc, loc, reads)
        if o.ud and word is None:
            raise SVError(f"assignment to array {o.name}")
        word = word or "None"
        full = lv[0] == "id"
        if op == "=":
            if full:
                lines.append(f"{ind}W({o.i}, {t})")
            else:
                lines.append(f"{ind}W({o.i}, {t}, {word}, {lo}, {n})")
        else:
            lines.append(f"{ind}N.append(({o.i}, {t}, {word}, {lo}, {n}))")

    def emit(self, s, lines, ind, sc, loc, reads):
        k = s[0]
        if k == "block":
            loc = dict(loc)
            if not s[1]:
                lines.append(ind + "pass")
            for x in s[1]:
                if x[0] == "local" and x[1][1] == 32 and x[1][0] and not x[3] and not x[1][2]:
                    self.n += 1
                    loc[x[2]] = f"l{self.n}"
                    init = f"_sx({self.compile_expr(x[4], sc, loc, reads, 32)} & {mask(32)}, 32)" if x[4] else "0"
                    lines.append(f"{ind}l{self.n} = {init}")
                elif x[0] == "local":
                    sc = sc.child("")
                    loc.pop(x[2], None)
                    self.n += 1
                    o = self.declare(sc, x[2], x[1], x[3], f"{sc.path}.local{self.n}")
                    if x[4]:
                        self.emit_assign(lines, ind, "=", ("id", x[2]), x[4], sc, loc, reads)
                    else:
                        lines.append(f"{ind}pass")
                else:
                    self.emit(x, lines, ind, sc, loc, reads)
        elif k == "if":
            lines.append(f"{ind}if {self.compile_expr(s[1], sc, loc, reads)}:")
            self.emit(s[2], lines, ind + "    ", sc, loc, reads)
            if s[3] is not None:
                lines.append(f"{ind}else:")
                self.emit(s[3], lines, ind + "    ", sc, loc, reads)
        elif k == "case":
            _, e, arms, default, kind = s
            alls = [e] + [l for ls, _ in arms for l in ls]
            w = max(self.width(x, sc, loc) for x in alls)
            sg = all(self.is_signed(x, sc, loc) for x in alls)
            self.n += 1
            t = f"v{self.n}"
            lines.append(f"{ind}{t} = {self.compile_expr(e, sc, loc, reads, w, sg)}")
            kw = "if"
            for ls, body in arms:
                conds = []
                for l in ls:
                    care = l[4] if l[0] == "num" and len(l) > 4 and kind != "case" else None
                    code = self.compile_expr(l, sc, loc, reads, w, sg)
                    conds.append(f"{t} == {code}" if care is None else
                                 f"(({t} ^ {code}) & {care | mask(w) & ~mask(l[2])}) == 0")
                cond = " or ".join(conds)
                lines.append(f"{ind}{kw} {cond}:")
                self.emit(body, lines, ind + "    ", sc, loc, reads)
                kw = "elif"
            if default is not None:
                if kw == "if":
                    self.emit(default, lines, ind, sc, loc, reads)
                else:
                    lines.append(f"{ind}else:")
                    self.emit(default, lines, ind + "    ", sc, loc, reads)
        elif k == "for":
            _, v, a, c, st, body, _ = s
            self.n += 1
            var = f"l{self.n}"
            loc = dict(loc)
            lines.append(f"{ind}{var} = _sx({self.compile_expr(a, sc, loc, reads, 32)} & {mask(32)}, 32)")
            loc[v] = var
            lines.append(f"{ind}while {self.compile_expr(c, sc, loc, reads)}:")
            go_on = f"{var} = _sx({self.compile_expr(st, sc, loc, reads, 32)} & {mask(32)}, 32)"
            self.steps.append(go_on)
            self.emit(body, lines, ind + "    ", sc, loc, reads)
            self.steps.pop()
            lines.append(f"{ind}    {go_on}")
        elif k in ("while", "repeat"):
            self.n += 1
            var = f"g{self.n}"
            lines.append(f"{ind}{var} = " + ("100000" if k == "while" else self.compile_expr(s[1], sc, loc, reads)))
            lines.append(f"{ind}while {var} > 0" + (f" and {self.compile_expr(s[1], sc, loc, reads)}:" if k == "while" else ":"))
            lines.append(f"{ind}    {var} -= 1")
            self.steps.append("pass")
            self.emit(s[2], lines, ind + "    ", sc, loc, reads)
            self.steps.pop()
        elif k in ("break", "continue"):
            if not self.steps:
                raise SVError(k + " outside a loop")
            if k == "continue":
                lines.append(ind + self.steps[-1])
            lines.append(ind + k)
        elif k == "return":
            if not self.returns:
                raise SVError("return outside a function")
            r = self.returns[-1]
            lines.append(f"{ind}W({r.i}, {self.compile_assign_value(s[1], r.w, sc, reads, loc)})")
            lines.append(f"{ind}return S[{r.i}]")
        elif k in ("=", "<="):
            self.emit_assign(lines, ind, k, s[1], s[2], sc, loc, reads)
        else:
            raise SVError("statement " + k)

    # ---------- execution
    def _write(self, i, v, word=None, lo=0, n=None):
        S = self.S
        s = self.sigs[i]
        if n is not None:
            if word is not None:
                if not 0 <= word < s.dims[1]:
                    return
                cur = S[i][word]
            else:
                cur = S[i]
            m = mask(n)
            new = 0
            if lo >= s.w or lo <= -n:
                return
            if lo >= 0:
                new = (cur & ~(m << lo)) | ((v & m) << lo)
            else:
                m = m >> -lo
                new = (cur & ~m) | ((v >> -lo) & m)
            new &= mask(s.w)
            if new == cur:
                return
            if word is not None:
                S[i] = list(S[i])
                S[i][word] = new
            else:
                S[i] = new
        else:
            if S[i] == v:
                return
            S[i] = v
        self.dirty.update(self.deps[i])

    def settle(self):
        budget = 200 * (len(self.comb) + 10)
        while self.dirty:
            k = min(self.dirty)
            self.dirty.discard(k)
            nba = []
            self.comb[k][0](self.S, self._write, nba)
            if k in self.procs:
                self.dirty.discard(k)       # a process does not wait for what it writes itself
            for x in nba:
                self._write(*x)
            budget -= 1
            self.evals += 1
            if budget < 0:
                raise SVError("combinational logic does not settle")

    def poke(self, **kw):
        """Set top-level inputs, settle and run whatever edges that produces."""
        for n, v in kw.items():
            s = self.top.names[n]
            if s.dims:
                self._write(s.i, [x & mask(s.w) for x in v])
            else:
                self._write(s.i, v & mask(s.w))
        for _ in range(100):
            self.settle()
            fire = []
            now = {i: self.S[i] for i in self.last}
            for fn, es in self.ff:
                if any((self.last[i] & 1, now[i] & 1) == ((0, 1) if e == "posedge" else (1, 0)) for e, i in es):
                    fire.append(fn)
            self.last = now
            if not fire:
                return
            nba = []
            for fn in fire:
                fn(self.S, self._write, nba)
                self.evals += 1
            for x in nba:
                self._write(*x)
        raise SVError("edges do not settle")

    def peek(self, name):
        o = self.top.names[name]
        return self.S[o.i] if isinstance(o, Sig) else o

    def find(self, suffix):
        for s in self.sigs:
            if s.name.endswith(suffix):
                return self.S[s.i]
        raise KeyError(suffix)

    def reset(self, rst="rst_n", on=0, **inputs):
        self.poke(clk=0, **{rst: 1 - on}, **inputs)
        self.poke(**{rst: on})
        self.poke(**{rst: 1 - on})

    def tick(self):
        self.poke(clk=1)
        self.poke(clk=0)
