"""Mechanical extraction of Rust items from /repo for the Verus layer.

Works on tokens-with-positions of the source with comments blanked out, so that brace
matching is not confused by comments, strings or char literals.  Nothing is rewritten
here except what `Fn.emit` states: a named result and the contract go between signature
and body, loop invariants go in front of the n-th loop body, and ghost statements go at
structural places (body start, loop body start / end).  The executable tokens are those of
the repository, in order.
"""
import re, pathlib


class Lost(Exception):
    """an item or an annotation anchor is not there any more: undecided, never an alarm"""


def blank_comments(t):
    out = list(t)
    i, n = 0, len(t)
    while i < n:
        c = t[i]
        if t.startswith("//", i):
            j = t.find("\n", i)
            j = n if j < 0 else j
            for k in range(i, j):
                out[k] = " "
            i = j
        elif t.startswith("/*", i):
            d, j = 1, i + 2
            while j < n and d:
                if t.startswith("/*", j):
                    d += 1; j += 2
                elif t.startswith("*/", j):
                    d -= 1; j += 2
                else:
                    j += 1
            for k in range(i, j):
                if out[k] != "\n":
                    out[k] = " "
            i = j
        elif c == '"':
            j = i + 1
            while j < n and t[j] != '"':
                j += 2 if t[j] == "\\" else 1
            i = j + 1
        elif c == "'":
            m = re.match(r"'(\\.[^']*|[^\\'])'", t[i:i + 12])
            i += len(m.group(0)) if m else 1
        else:
            i += 1
    return "".join(out)


def match(t, i, o="{", c="}"):
    """index just after the bracket matching t[i]"""
    d, n = 0, len(t)
    while i < n:
        ch = t[i]
        if ch == '"':
            i += 1
            while i < n and t[i] != '"':
                i += 2 if t[i] == "\\" else 1
        elif ch == "'":
            m = re.match(r"'(\\.[^']*|[^\\'])'", t[i:i + 12])
            if m:
                i += len(m.group(0)) - 1
        elif ch == o:
            d += 1
        elif ch == c:
            d -= 1
            if d == 0:
                return i + 1
        i += 1
    raise Lost("unbalanced " + o)


class Src:
    def __init__(self, path):
        self.path = path
        p = pathlib.Path("/repo") / path
        if not p.exists():
            raise Lost("file gone: " + path)
        self.t = blank_comments(p.read_text())
        # test modules and the like are not part of the code under contract
    def struct(self, name):
        m = re.search(r"\bpub\s+(?:struct|enum)\s+%s\s*\{" % name, self.t)
        if not m:
            raise Lost("struct %s in %s" % (name, self.path))
        e = match(self.t, m.end() - 1)
        txt = self.t[m.start():e]
        # fields become visible to the specifications (the only change to the declaration)
        head, body = txt.split("{", 1)
        body = re.sub(r"(^|[,{\n])(\s*)(?:pub(?:\([a-z]+\))?\s+)?([a-z_][a-z_0-9]*)\s*:", r"\1\2pub \3:", body)
        return head + "{" + body
    def impls(self, ty):
        for m in re.finditer(r"\bimpl(?:\s*<[^>{]*>)?\s+(?:[\w:<>]+\s+for\s+)?%s(?:<[^>{]*>)?\s*\{" % ty, self.t):
            yield m.start(), m.end(), match(self.t, m.end() - 1)
    def fn_spans(self, ty):
        """name -> (signature, body incl. braces) for functions of the inherent impls (or free, ty None)"""
        res = {}
        spans = [(m, e) for _, m, e in self.impls(ty)] if ty else [(0, len(self.t))]
        for a, b in spans:
            i = a
            while True:
                m = re.compile(r"\b(?:pub(?:\([a-z]+\))?\s+)?(?:const\s+)?fn\s+(\w+)").search(self.t, i, b)
                if not m:
                    break
                p = self.t.index("(", m.end())
                q = match(self.t, p, "(", ")")
                br = self.t.index("{", q)
                sc = self.t.find(";", q)
                if 0 <= sc < br:
                    i = sc
                    continue
                e = match(self.t, br)
                res[m.group(1)] = (self.t[m.start():br].rstrip(), self.t[br:e])
                i = e
        return res
    def const(self, ty, name):
        spans = [(m, e) for _, m, e in self.impls(ty)] if ty else [(0, len(self.t))]
        for a, b in spans:
            m = re.compile(r"\b(?:pub(?:\([a-z]+\))?\s+)?const\s+%s\s*:[^;]*;" % name).search(self.t, a, b)
            if m:
                return m.group(0)
        raise Lost("const %s::%s" % (ty, name))


def float_neg(t):
    """Verus has no unary minus on doubles: `-e` becomes `fneg(e)`, where e is the operand
    (a primary expression with its field / call / index postfixes).  Integer literals keep theirs."""
    i = 0
    while i < len(t):
        if t[i] == "-" and t[i + 1:i + 2] not in (">", "="):
            j = i - 1
            while j >= 0 and t[j] in " \t\n":
                j -= 1
            prev = t[j] if j >= 0 else "("
            word = re.search(r"(\w+)$", t[:j + 1])
            unary = prev in "(,=<>+-*/{}[;|&!:%" or (word and word.group(1) in ("return", "in", "if", "while", "match"))
            if unary:
                k = i + 1
                while t[k] in " \t\n":
                    k += 1
                m = re.match(r"\d[\d_]*(?![\d.eE_]|f64)", t[k:])
                if not m:
                    e = k
                    if t[e] == "(":
                        e = match(t, e, "(", ")")
                    else:
                        mm = re.match(r"\d[\d_]*(\.[\d_]*)?([eE][+-]?\d+)?|[\w:]+", t[e:])
                        if not mm:
                            i += 1
                            continue
                        e += len(mm.group(0))
                    while True:
                        if t[e:e + 1] == "(":
                            e = match(t, e, "(", ")")
                        elif t[e:e + 1] == "[":
                            e = match(t, e, "[", "]")
                        elif re.match(r"\.[A-Za-z_]\w*", t[e:]):
                            e += len(re.match(r"\.\w+", t[e:]).group(0))
                        else:
                            break
                    t = t[:i] + "fneg(" + t[k:e] + ")" + t[e:]
                    i += 5
                    continue
        i += 1
    return t


# constants Verus has no literal for
FLOAT_REWRITES = [(r"\bf64::NAN\b", "f64_nan()"), (r"\bCoordinate::NULL_ORDINATE\b", "f64_nan()"), (r"\bSelf::NULL_ORDINATE\b", "f64_nan()"),
                  (r"\bf64::MAX\b", "f64_max()"), (r"\bf64::INFINITY\b", "f64_inf()"),
                  (r"\b(?:std::|core::)?f64::consts::PI\b", "f64_pi()")]
CONST_REWRITES = []  # per property, see verus_layer.generate

LOOP = re.compile(r"\b(while|for|loop)\b")


def find_loops(body):
    """[(kind, start of keyword, index of the loop body's '{')] in textual order"""
    res = []
    for m in LOOP.finditer(body):
        # 'for' in a type/trait position does not occur inside function bodies here
        i = m.end()
        d = 0
        while True:
            c = body[i]
            if c in "([":
                d += 1
            elif c in ")]":
                d -= 1
            elif c == "{" and d == 0:
                break
            i += 1
        res.append((m.group(1), m.start(), i))
    return res


def continue_loops(body):
    """Verus has no `continue` in for loops: `for i in A..B { .. }` holding one becomes the while loop it stands for.
    Returns the text and the indices of the loops rewritten."""
    conv = set()
    n = 0
    while True:
        ls = find_loops(body)
        if n >= len(ls):
            return body, conv
        k, a, b = ls[n]
        e = match(body, b)
        if k == "for" and re.search(r"\bcontinue\b", body[b:e]):
            m = re.match(r"for\s+(\w+)\s+in\s+(.+?)\.\.(?!=)(.+?)\s*$", body[a:b], re.S)
            if m:
                v = m.group(1) if m.group(1) != "_" else "u"
                new = "{ let %s__a = %s; let %s__e = %s; let mut %s__n = %s__a; while %s__n < %s__e " % (v, m.group(2), v, m.group(3), v, v, v, v)
                inner = "{ let %s = %s__n; %s__n = %s__n + 1; %s } }" % (v, v, v, v, body[b + 1:e - 1])
                body = body[:a] + new + inner + body[e:]
                conv.add(n)
        n += 1


def fresh(x, lvars):
    """Annotation text whose bound variables are told apart from the loop variables of the code (written $v in annotations)"""
    for m in re.finditer(r"(?:forall|exists|choose|,)\s*\|([^|]*:[^|]*)\|", x):
        for w in re.findall(r"(\w+)\s*:", m.group(1)):
            if w in lvars:
                x = re.sub(r"(?<![\w.$])%s(?!\w)" % w, w + "__q", x)
    return x


class Fn:
    """Contract and ghost annotations of one function."""
    def __init__(self, name, requires="", ensures="", ret="r", loops=(), start="", end="", attrs="", after=(), before=(), key=None,
                 decreases="", external=False, opens=None, subst=(), fneg=True):
        self.fneg = fneg
        self.name, self.requires, self.ensures, self.ret = name, requires, ensures, ret
        self.loops, self.start, self.end, self.attrs = list(loops), start, end, attrs
        self.after, self.before = list(after), list(before)   # (regex over the body, ghost text)
        self.decreases = decreases
        self.external = external
        self.subst = list(subst)

    def emit(self, sig, body, vac=False, stub=False):
        s = sig
        for a, b in self.subst:
            s = re.sub(a, b, s)
            body = re.sub(a, b, body)
        m = re.search(r"->\s*(.+)$", s, re.S)
        if m:
            s = s[:m.start()] + "-> (%s: %s)" % (self.ret, m.group(1).strip())
        if not s.startswith("pub"):
            s = "pub " + s
        con = ""
        if self.requires.strip():
            con += "\n    requires " + self.requires.strip().rstrip(",") + ","
        if self.ensures.strip():
            con += "\n    ensures " + self.ensures.strip().rstrip(",") + ","
        if self.decreases.strip():
            con += "\n    decreases " + self.decreases.strip().rstrip(",") + ","
        # Verus has no compound assignment on doubles: `p op= e;` becomes `p = p op (e);` (p a place without calls)
        body = re.sub(r"(?<![\w.\])])((?:\*\s*)?[A-Za-z_]\w*(?:\.\w+|\[[\w.+\- ]*\])*)\s*([-+*/])=(?!=)\s*([^;{}]*);", r"\1 = \1 \2 (\3);", body)
        for a, b in FLOAT_REWRITES + CONST_REWRITES:
            body = re.sub(a, b, body)
        if self.fneg:
            body = float_neg(body)
        if self.external or stub:
            return "#[verifier::external_body]\n" + s + con + "\n{ unimplemented!() }\n"   # used by contract only
        edits = []  # (pos, text)
        body, conv = continue_loops(body)
        ls = find_loops(body)
        kinds = ["for" if n in conv else k for n, (k, _, _) in enumerate(ls)]
        want = [l.get("kind") for l in self.loops]
        if kinds != want:
            raise Lost("%s: loops are %s, annotations are for %s" % (self.name, kinds, want))
        lvars = []
        for k, a, b in ls:
            mm = re.match(r"for\s+(\w+)\s+in", body[a:b]) or re.match(r"while (\w+?)__n <", body[a:b])
            lvars.append(mm.group(1) if mm else "_")
        for n, ((k, a, b), ann) in enumerate(zip(ls, self.loops)):
            # $v: the variable of this for loop, $v0, $v1, ...: of the n-th loop
            def lv(x):
                x = fresh(x, lvars)
                return re.sub(r"\$v(\d*)", lambda q: lvars[int(q.group(1))] if q.group(1) else lvars[n], x)
            if n in conv and ann.get("inv"):
                v = lvars[n]
                ann = dict(ann, inv=re.sub(r"\$v(?!\d)", v + "__n", ann["inv"].strip()).rstrip(",") + ", %s__a <= %s__e ==> %s__a <= %s__n <= %s__e, decreases %s__e - %s__n" % ((v,) * 7))
            ann = {key: lv(x) if isinstance(x, str) else x for key, x in ann.items()}
            inv = ann.get("inv", "")
            txt = "\n" + inv.strip() + "\n" if inv.strip() else ""
            if k == "for" and ann.get("iter"):
                # `for x in e` gets Verus' ghost iterator name: `for x in it: e`
                mm = re.compile(r"\bin\b").search(body, a, b)
                edits.append((mm.end(), " %s:" % ann["iter"]))
            edits.append((b, txt))
            st = ann.get("start", "")
            if vac:
                st += "\n proof { if vacuity_probe(%d) {\n assert(false);\n } }" % n
            if st:
                at = b + 1 if n not in conv else body.index(";", body.index("__n + 1", b)) + 1
                edits.append((at, "\n" + st + "\n"))
            if ann.get("end"):
                e = match(body, b)
                edits.append((e - 1, "\n" + ann["end"] + "\n"))
            if ann.get("after"):
                e = match(body, b)
                edits.append((e, "\n" + ann["after"] + "\n"))
            if ann.get("before"):
                edits.append((a, "\n" + ann["before"] + "\n"))
        for rx, g in self.after:
            mm = list(re.finditer(rx, body))
            if len(mm) != 1:
                raise Lost("%s: anchor %r found %d times" % (self.name, rx, len(mm)))
            edits.append((mm[0].end(), "\n" + g + "\n"))
        for rx, g in self.before:
            mm = list(re.finditer(rx, body))
            if len(mm) != 1:
                raise Lost("%s: anchor %r found %d times" % (self.name, rx, len(mm)))
            edits.append((mm[0].start(), "\n" + g + "\n"))
        st = self.start
        if vac:
            st += "\n proof { if vacuity_probe(-1) {\n assert(false);\n } }"
        if st:
            edits.append((1, "\n" + st + "\n"))
        if self.end:
            edits.append((len(body) - 1, "\n" + self.end + "\n"))
        for pos, txt in sorted(edits, key=lambda e: -e[0]):
            body = body[:pos] + txt + body[pos:]
        at = (self.attrs + "\n") if self.attrs else ""
        if self.loops:
            at += "#[verifier::loop_isolation(false)]\n#[verifier::allow_complex_invariants]\n"   # facts about what the loop does not assign stay known
        return at + s + con + "\n" + body + "\n"


def calls(body):
    return set(re.findall(r"(?:\b(\w+)::|\.|\b)(\w+)\s*\(", body))
