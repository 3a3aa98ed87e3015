"""Contracts on the real source, by mechanical extraction, decided by Verus.

`extract` copies /repo's current text token for token, and does only this to it:
  - leaves out `use` lines, attributes, `#[test]`/`#[cfg(test)]` items and the items a job names in `drop`
  - inserts, at the places a job names: contracts after a function's signature (and a name for its result), proof
    blocks at the beginning of its body, loop invariants, contracts of closures
  - rewrites the few forms Verus does not take, each listed in the evidence (`mut self` to a local copy, `break X` out
    of a loop that is its function's result to `return X`)
  - gives functions without a contract whose body is one expression that expression as their postcondition
Nothing of the verified text is written by hand but specifications.
"""
import json, os, re, subprocess, time

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("TELDA_REPO", "/repo")


class Lost(Exception):
    """An anchor is not there any more"""


# ---------------------------------------------------------------- a lexer, as far as needed

TOK = re.compile(r"""
    (?P<ws>\s+)
  | (?P<lc>//[^\n]*)
  | (?P<raw>b?r(?P<h>\#*)".*?"(?P=h))
  | (?P<str>b?"(?:\\.|[^"\\])*")
  | (?P<chr>b?'(?:\\(?:x[0-9a-fA-F]{2}|u\{[^}]*\}|.)|[^'\\])')
  | (?P<life>'[A-Za-z_]\w*)
  | (?P<id>[A-Za-z_]\w*)
  | (?P<num>[0-9]\w*(?:\.(?![.A-Za-z_])\w*)?)
  | (?P<p>::|->|=>|<=|>=|==|!=|&&|\|\||\.\.=|\.\.|<<=|>>=|[-+*/%^&|]=|.)
""", re.X | re.S)


def lex(s):
    out, i = [], 0
    while i < len(s):
        if s.startswith("/*", i):
            d, j = 1, i + 2
            while d and j < len(s):
                if s.startswith("/*", j):
                    d, j = d + 1, j + 2
                elif s.startswith("*/", j):
                    d, j = d - 1, j + 2
                else:
                    j += 1
            out.append(("ws", s[i:j]))
            i = j
            continue
        m = TOK.match(s, i)
        k = m.lastgroup
        if k == "h":
            k = "raw"
        t = m.group(0)
        out.append(("ws" if k in ("ws", "lc") else k, t))
        i = m.end()
    return out


OPEN, CLOSE = {"(": ")", "[": "]", "{": "}"}, {")", "]", "}"}


def group_end(t, i):
    """Index of the token that closes the group t[i] opens"""
    d = 0
    for j in range(i, len(t)):
        if t[j][0] == "p":
            if t[j][1] in OPEN:
                d += 1
            elif t[j][1] in CLOSE:
                d -= 1
                if d == 0:
                    return j
    raise Lost("unbalanced brackets")


def text(t):
    return "".join(x[1] for x in t)


def norm(t):
    return " ".join(x[1] for x in t if x[0] != "ws")


def items(t):
    """Splits tokens into items: (attributes, header tokens, body tokens or None)"""
    out, i = [], 0
    while i < len(t):
        if t[i][0] == "ws":
            i += 1
            continue
        attrs = []
        while i < len(t) and t[i][1] == "#":
            j = i + 1
            while t[j][1] != "[":
                j += 1
            e = group_end(t, j)
            attrs.append(norm(t[i:e + 1]))
            i = e + 1
            while i < len(t) and t[i][0] == "ws":
                i += 1
        if i >= len(t):
            break
        start = i
        while True:
            if i >= len(t):
                raise Lost("item without an end")
            k = t[i][1]
            if k == ";":
                out.append((attrs, t[start:i + 1], None))
                i += 1
                break
            if k == "{" and not const_like(t[start:i]):
                e = group_end(t, i)
                out.append((attrs, t[start:i], t[i:e + 1]))
                i = e + 1
                # a macro call or tuple struct ends here
                break
            if k in OPEN:
                i = group_end(t, i)
            i += 1
    return out


def const_like(h):
    w = [x[1] for x in h if x[0] == "id"]
    return "const" in w[:3] and "fn" not in w or "static" in w[:2] or (w and w[0] == "use")


def fn_name(h):
    w = [x for x in h if x[0] != "ws"]
    for i, x in enumerate(w):
        if x == ("id", "fn"):
            return w[i + 1][1]
        if x[1] in OPEN and x[1] != "(":
            return None
    return None


def item_name(h):
    f = fn_name(h)
    if f:
        return "fn " + f
    w = [x for x in h if x[0] != "ws"]
    ids = [x[1] for x in w if x[0] == "id" and x[1] not in ("pub", "crate", "unsafe")]
    if ids and ids[0] in ("const", "static", "struct", "enum", "trait", "mod", "type"):
        return " ".join(ids[:2])
    if ids and ids[0] == "impl":
        return norm(h)
    return norm(h)[:60]


# ---------------------------------------------------------------- functions

def sig_parts(h):
    """(index of '(' of the parameters, index of its end, index of '->' or None, index of where or None)"""
    i = next(j for j, x in enumerate(h) if x == ("id", "fn"))
    # generics
    j = i + 1
    depth = 0
    while True:
        x = h[j][1]
        if x == "<":
            depth += 1
        elif x == ">":
            depth -= 1
        elif x == "(" and depth == 0:
            break
        j += 1
    e = group_end(h, j)
    arrow = next((k for k in range(e, len(h)) if h[k][1] == "->"), None)
    where = next((k for k in range(e, len(h)) if h[k] == ("id", "where")), None)
    return j, e, arrow, where


def single_expr(body):
    inner = [x for x in body[1:-1]]
    s = [x[1] for x in inner if x[0] != "ws"]
    if not s or any(x in (";", "{", "!", "return", "loop", "while", "for", "let") for x in s):
        return None
    return text(inner).strip()


def do_fn(h, body, c, notes, where):
    """One function with its contract c (dict: ret, spec, proof, loops, closures, trusted), or without (None)"""
    name = fn_name(h)
    j, e, arrow, wh = sig_parts(h)
    h = list(h)
    auto = None
    if c is None and body is not None and arrow is not None:
        x = single_expr(body)
        if x is not None and not any(t[1] == "mut" for t in h[j:e]):
            auto = x
    ret = (c or {}).get("ret", "res" if (auto or (c and arrow is not None)) else None)
    params = h[j:e + 1]
    pn = norm(params)
    unself = False
    if re.match(r"\( mut self\b", pn):
        k = next(i for i in range(len(params)) if params[i] == ("id", "mut"))
        params = params[:k] + params[k + 2:]
        unself = True
        notes.append("%s: `mut self` is `self`, copied into a local that is used instead" % name)
    for p in (c or {}).get("by_ref", []):
        k = next((i for i in range(len(params) - 1) if params[i] == ("id", p) and params[i + 1] == ("p", ":")), None)
        if k is not None:
            m = k - 2 if k > 1 and params[k - 2] == ("id", "mut") else k
            params = params[:m] + [params[k], params[k + 1], ("ws", " &mut ")] + params[k + 2:]
            notes.append("%s: `%s` is passed by reference, to say what it is afterwards" % (name, p))
    out = text(h[:j]) + text(params)
    end = wh if wh is not None else len(h)
    if arrow is not None:
        ty = text(h[arrow + 1:end]).strip().rstrip(";").strip()
        if c and c.get("ret_ty"):
            ty = c["ret_ty"]
        out += " -> (%s: %s)" % (ret, ty) if ret else " -> %s" % ty
    else:
        out += " "
    if wh is not None:
        out += " " + text(h[wh:]).rstrip(";").rstrip()
    if c:
        out += "\n" + c.get("spec", "") + "\n"
    elif auto:
        out += "\n    ensures res == (%s)\n" % auto
        notes.append("%s: its one expression is its postcondition" % name)
    if body is None:
        return out + ";"
    if c and c.get("trusted"):
        return "    #[verifier::external_body]\n" + out + "{ unimplemented!() }"
    body = ref_arms(let_patterns(writes(asserts(list(body), notes, name), notes, name), notes, name), notes, name)
    if unself:
        body = [("id", "this") if t == ("id", "self") else t for t in body]
        body[0:1] = [("p", "{"), ("ws", " let mut this = self; ")]
    if c:
        if c.get("break_is_return"):
            body = break_to_return(body, notes, name)
        for pat, *ins in c.get("closures", []):
            body = closure(body, pat, ins[0], name, *ins[1:])
        if c.get("str_match"):
            body = str_matches(body, notes)
        if c.get("values_mut"):
            body = each_value(body, notes, name)
        if c.get("over_map"):
            body = over_map(body, notes, name, bool(c.get("copies")))
        if c.get("step_by"):
            body = step_by(body, notes, name)
        if c.get("at_exits"):
            body = at_exits(body, c["at_exits"], notes, name)
        body = loops(body, c.get("loops", []), name, c.get("loop_ends", []), c.get("loop_starts", []))
        body = around(body, c.get("around", []), notes, name)
        for var, ghost in c.get("after", []):
            body = after_let(body, var, ghost)
        body = body[:1] + [("ws", "\n" + c.get("proof", "") + "\n")] + body[1:]
    attr = "".join("    #[%s]\n" % a for a in (c or {}).get("attrs", []))
    return attr + out + text(body)


def asserts(body, notes, name):
    """assert_eq!(a, b, ..) to assert!((a) == (b)), assert_ne! alike"""
    out, i = [], 0
    while i < len(body):
        if body[i] in (("id", "assert_eq"), ("id", "assert_ne")) and body[i + 1][1] == "!" and body[i + 2][1] == "(":
            e = group_end(body, i + 2)
            args, cur, j = [], [], i + 3
            while j < e:
                if body[j][0] == "p" and body[j][1] in OPEN:
                    k = group_end(body, j)
                    cur += body[j:k + 1]
                    j = k + 1
                    continue
                if body[j] == ("p", ","):
                    args.append(cur)
                    cur = []
                else:
                    cur.append(body[j])
                j += 1
            args.append(cur)
            op = "==" if body[i][1] == "assert_eq" else "!="
            out += [("id", "assert"), ("p", "!"), ("p", "("), ("p", "(")] + args[0] + [("p", ")"), ("ws", " "), ("p", op),
                    ("ws", " "), ("p", "(")] + args[1] + [("p", ")"), ("p", ")")]
            notes.append("%s: %s!(a, b) is assert!((a) %s (b))" % (name, body[i][1], op))
            i = e + 1
            continue
        out.append(body[i])
        i += 1
    return out


def step_by(body, notes, name):
    """`for P in R.step_by(S) B` to the loop it stands for: P goes from R.start by S while it is below R.end"""
    i = 0
    n = 0
    while i < len(body):
        if body[i] == ("id", "for"):
            j = i + 1
            while body[j] != ("id", "in"):
                j += 1
            k = j + 1
            hit = None
            while body[k][1] != "{":
                if body[k] == ("id", "step_by"):
                    hit = k
                if body[k][1] in ("(", "["):
                    k = group_end(body, k)
                k += 1
            if hit is None:
                i += 1
                continue
            d = hit - 1
            while body[d][1] != ".":
                d -= 1
            a = hit + 1
            while body[a][1] != "(":
                a += 1
            e = group_end(body, a)
            if norm(body[e + 1:k]):
                i += 1
                continue
            pat, rng, by = text(body[i + 1:j]).strip(), text(body[j + 1:d]).strip(), text(body[a + 1:e]).strip()
            if not re.fullmatch(r"\w+", pat):
                i += 1
                continue
            end = group_end(body, k)
            head = ("{ let range_ = %s; let step_ = %s; let mut cur_ = range_.start; while cur_ < range_.end" % (rng, by))
            first = " let %s = cur_; cur_ = next_(cur_, step_, range_.end); " % pat
            body = (body[:i] + lex(head) + [body[k]] + lex(first) + body[k + 1:end + 1] + lex(" }") + body[end + 1:])
            n += 1
            notes.append("%s: `for %s in %s.step_by(%s)` is the `while` loop it stands for" % (name, pat, rng, by))
        i += 1
    return body


def bindings(p, e):
    """A pattern of `&`, `ref`, tuples and names as `let`s of places, or None"""
    if p and p[0][1] == "&":
        return bindings(p[1:], "(*%s)" % e)
    if len(p) == 2 and p[0] == ("id", "ref") and p[1][0] == "id":
        return "let %s = &%s; " % (p[1][1], e)
    if len(p) == 1 and p[0][0] == "id":
        return "" if p[0][1] == "_" else "let %s = %s; " % (p[0][1], e)
    if p and p[0][1] == "(" and group_end(p, 0) == len(p) - 1:
        parts = [bindings(x, "%s.%d" % (e, k)) for k, x in enumerate(split_args(p[1:-1]))]
        return None if None in parts else "".join(parts)
    if len(p) > 2 and p[0][0] == "id" and p[1][1] == "{" and group_end(p, 1) == len(p) - 1:
        parts = []
        for x in split_args(p[2:-1]):
            if not x or x[0][1] == "..":
                continue
            if len(x) > 2 and x[1][1] == ":":
                parts.append(bindings(x[2:], "%s.%s" % (e, x[0][1])))
            elif x[0] == ("id", "ref"):
                parts.append(bindings(x, "%s.%s" % (e, x[1][1])))
            else:
                parts.append(bindings(x, "%s.%s" % (e, x[0][1])))
        return None if None in parts else "".join(parts)
    return None


def let_patterns(body, notes, name):
    """`let &S { a, .. } = x;` and `let [a, b @ ..] = x;` to one `let` for each name"""
    i = 0
    while i < len(body):
        if body[i] == ("id", "let"):
            j = next(k for k in range(i + 1, len(body)) if body[k][0] != "ws")
            if body[j][1] in ("&", "["):
                d = j
                while body[d] != ("p", "="):
                    d = (group_end(body, d) if body[d][0] == "p" and body[d][1] in OPEN else d) + 1
                e = d
                while body[e] != ("p", ";"):
                    e = (group_end(body, e) if body[e][0] == "p" and body[e][1] in OPEN else e) + 1
                pat = [t for t in body[j:d] if t[0] != "ws"]
                if body[j][1] == "&":
                    b = bindings(pat, "pat_")
                else:
                    b, parts = "", split_args(pat[1:-1])
                    for k, x in enumerate(parts):
                        if len(x) == 1 and x[0][0] == "id":
                            b += "let %s = pat_[%d]; " % (x[0][1], k)
                        elif len(x) == 3 and x[0][0] == "id" and x[1][1] == "@" and x[2][1] == ".." and k == len(parts) - 1:
                            b += "let %s = tail_(&pat_, %d); " % (x[0][1], k)
                        elif x:
                            b = None
                            break
                if b is not None:
                    notes.append("%s: `let %s` binds its names one after the other" % (name, norm(pat)))
                    new = lex(" let pat_ = %s; %s" % (text(body[d + 1:e]).strip(), b))
                    body = body[:i] + new + body[e + 1:]
                    i += len(new)
                    continue
        i += 1
    return body


def writes(body, notes, name):
    """`write!(W, "a{}b{c}", x)` to `W.put_(&[..])`-like calls of the stand-in, piece by piece in order"""
    out, i = [], 0
    while i < len(body):
        if body[i] == ("id", "write") and body[i + 1][1] == "!" and body[i + 2][1] == "(":
            e = group_end(body, i + 2)
            args = [a for a in split_args([t for t in body[i + 3:e]]) if text(a).strip()]
            w, fmt, rest = text(args[0]).strip(), text(args[1]).strip(), [text(a).strip() for a in args[2:]]
            parts = re.split(r"(\{\w*\})", fmt[1:-1])
            if not any("{" in x or "}" in x for x in parts[::2]):
                ps = []
                for k, x in enumerate(parts):
                    if k % 2:
                        ps.append("str_(&%s)" % (x[1:-1] or "(%s)" % rest.pop(0)))
                    elif x:
                        ps.append('"%s"' % x)
                out += lex("%s.put%d_(%s)" % (w, len(ps), ", ".join(ps)))
                notes.append("%s: `write!(%s, %s, ..)` writes its pieces in order" % (name, w, fmt))
                i = e + 1
                continue
        out.append(body[i])
        i += 1
    return out


def over_map(body, notes, name, copies=False):
    """`for P in E B` to a `while` loop that takes the items of E, a stand-in collection, by their number"""
    i = 0
    while i < len(body):
        if body[i] == ("id", "for"):
            j = i + 1
            while body[j] != ("id", "in"):
                if body[j][1] in ("(", "["):
                    j = group_end(body, j)
                j += 1
            k = j + 1
            while body[k][1] != "{":
                if body[k][1] in ("(", "["):
                    k = group_end(body, k)
                k += 1
            pat, e = text(body[i + 1:j]).strip(), text(body[j + 1:k]).strip()
            if ".step_by" in e or ".." in e:
                i += 1
                continue
            end = group_end(body, k)
            head = "{ let it_ = %s; let mut n_: usize = 0; while n_ < it_.count_()" % e
            binds = bindings([t for t in body[i + 1:j] if t[0] != "ws"], "item_")
            first = " let item_ = it_.item_(n_); n_ = n_ + 1; " + (binds if binds else "let %s = %sitem_; " % (pat, "*" * copies))
            body = (body[:i] + lex(head) + [body[k]] + lex(first) + body[k + 1:end + 1] + lex(" }") + body[end + 1:])
            notes.append("%s: `for %s in %s` takes the items in order in a `while` loop" % (name, pat, e))
        i += 1
    return body


def around(body, calls, notes, name):
    """Ghost code before and after each statement that is a call of one of these functions"""
    for fn, before, afters in calls:
        i = nth = 0
        while i < len(body) - 1:
            if body[i] == ("id", fn) and body[i + 1][1] == "(":
                e = group_end(body, i + 1)
                if e + 1 < len(body) and body[e + 1][1] == ";":
                    args = [text(x).strip() for x in split_args(body[i + 2:e])]
                    start, recv, rest = i, "", 1
                    if last_tok(body, i) == "." and i > 1 and body[i - 2][0] == "id":
                        start, recv, rest = i - 2, body[i - 2][1], 0
                    if last_tok(body, start) in (";", "{", "}"):
                        # the arguments, but what the call changes, become locals that ghost code can name
                        b = "{ " + "".join("let arg%d_ = %s; " % (k, x) for k, x in enumerate(args) if k >= rest)
                        call = "%s%s(%s);" % (recv + "." if recv else "", fn, ", ".join(
                            args[:rest] + ["arg%d_" % k for k in range(rest, len(args))]))
                        after = afters if isinstance(afters, str) else afters[min(nth, len(afters) - 1)]
                        nth += 1
                        new = ([("ws", b + before.replace("RECV", recv))] + lex(call)
                               + [("ws", after.replace("RECV", recv) + " }")])
                        body = body[:start] + new + body[e + 2:]
                        notes.append("%s: the arguments of %s are locals" % (name, fn))
                        i = start + len(new)
                        continue
            i += 1
    return body


def each_value(body, notes, name):
    """`for P in M.values_mut() B` to a `while` loop that takes the values of M, a stand-in collection, by their number"""
    i = 0
    while i < len(body):
        if body[i] == ("id", "for"):
            j = next(x for x in range(i, len(body)) if body[x] == ("id", "in"))
            k = j + 1
            while body[k][1] != "{":
                k = (group_end(body, k) if body[k][1] in ("(", "[") else k) + 1
            pat, m = text(body[i + 1:j]).strip(), re.fullmatch(r"(\w+) \. values_mut \( \)", norm(body[j + 1:k]))
            if m and re.fullmatch(r"\w+", pat):
                end = group_end(body, k)
                head = "{ let mut n_: usize = 0; while n_ < %s.count_()" % m.group(1)
                first = " let %s = %s.value_mut_(n_); n_ = n_ + 1; " % (pat, m.group(1))
                body = body[:i] + lex(head) + [body[k]] + lex(first) + body[k + 1:end + 1] + lex(" }") + body[end + 1:]
                notes.append("%s: `for %s in %s.values_mut()` takes the values in order in a `while` loop" % (name, pat, m.group(1)))
        i += 1
    return body


def ref_arms(t, notes, name):
    """The arm `& P ( x ) => E` of a match to `P ( x ) => { let x = * x ; E }`"""
    i = 0
    while i < len(t):
        m = re.match(r"& ((?:\w+ :: )*\w+) \( ((?:\w+ , )*\w+) (?:, )?\) =>", norm(t[i:i + 40])) if t[i][1] == "&" else None
        if m:
            j = next(x for x in range(i, len(t)) if t[x][1] == "=>")
            k = next(x for x in range(j + 1, len(t)) if t[x][0] != "ws")
            if t[k][1] == "{":
                e = z = group_end(t, k) + 1
            else:
                e = k
                while t[e][1] not in (",", "}"):
                    e = (group_end(t, e) if t[e][0] == "p" and t[e][1] in OPEN else e) + 1
            xs = [x for x in m.group(2).split(" , ") if x != "_"]
            t = t[:i] + lex("%s(%s) => { %s" % (m.group(1).replace(" ", ""), m.group(2).replace(" ", ""), "".join("let %s = *%s; " % (x, x) for x in xs))) + t[k:e] + lex(" }") + t[e:]
            notes.append("%s: a pattern `&P(x)` is `P(x)` and `x` the place it names" % name)
        i += 1
    return t


def messages(t, notes):
    """Texts made for messages are left out: `format!(..)` and `"..".to_string()` to `message_()`"""
    out, i, n = [], 0, 0
    while i < len(t):
        if t[i] == ("id", "format") and t[i + 1][1] == "!" and t[i + 2][1] == "(":
            out += lex("message_()")
            i = group_end(t, i + 2) + 1
            n += 1
            continue
        m = re.match(r" \. (to_string \( \)|into \( \))", " " + norm(t[i + 1:i + 6])) if t[i][0] == "str" else None
        if m:
            out += lex("message_()")
            i += 1
            while t[i][1] != ")":
                i += 1
            i += 1
            n += 1
            continue
        out.append(t[i])
        i += 1
    if n:
        notes.append("the texts of messages are left out (`format!`, `to_string`)")
    return out


def str_matches(t, notes):
    """`match E { "a" | "b" => X, .. c => Y }` to the `if`s it stands for"""
    i = 0
    while i < len(t):
        if t[i] == ("id", "match"):
            j = i + 1
            while t[j][1] != "{":
                j = (group_end(t, j) if t[j][1] in ("(", "[") else j) + 1
            e = group_end(t, j)
            k = next(x for x in range(j + 1, len(t)) if t[x][0] != "ws")
            if t[k][0] == "str":
                arms, k = [], j + 1
                while text(t[k:e]).strip():
                    a = next(x for x in range(k, e) if t[x][1] == "=>")
                    b = next(x for x in range(a + 1, e) if t[x][0] != "ws")
                    if t[b][1] == "{":
                        z = group_end(t, b) + 1
                        nxt = next((x for x in range(z, e) if t[x][0] != "ws"), e)
                        after = nxt + 1 if nxt < e and t[nxt][1] == "," else z
                    else:
                        z = b
                        while z < e and t[z][1] != ",":
                            z = (group_end(t, z) if t[z][0] == "p" and t[z][1] in OPEN else z) + 1
                        after = z + 1
                    arms.append(([x for x in t[k:a] if x[0] != "ws"], t[b:z]))
                    k = after
                new, last = "", arms[-1]
                ok = all(all(x[0] == "str" or x[1] == "|" for x in p) for p, _ in arms[:-1]) and len(last[0]) == 1 and last[0][0][0] == "id"
                if ok:
                    for p, x in arms[:-1]:
                        new += "if %s { %s } else " % (" || ".join("str_eq_(m_, %s)" % y[1] for y in p if y[0] == "str"), text(x))
                    bind = "" if last[0][0][1] == "_" else "let %s = m_; " % last[0][0][1]
                    new = lex("{ let m_ = %s; %s{ %s%s } }" % (text(t[i + 1:j]).strip(), new, bind, text(last[1])))
                    t = t[:i] + new + t[e + 1:]
                    notes.append("a `match` of strings is the `if`s it stands for")
        i += 1
    return t


def hoisted(t, notes):
    """Functions inside of functions, without generics, taken out of them"""
    i, n = 0, 0
    while i < len(t):
        if t[i] == ("id", "fn") and last_tok(t, i) == "{":
            # the function this is the beginning of
            o = i
            while t[o][1] != "{":
                o -= 1
            s = o
            while t[s] != ("id", "fn"):
                if t[s][1] in (";", "}"):
                    break
                s -= 1
            if t[s] == ("id", "fn"):
                e = i
                while t[e][1] != "{":
                    e = (group_end(t, e) if t[e][1] in ("(", "[") else e) + 1
                e = group_end(t, e) + 1
                t = t[:s] + t[i:e] + [("ws", "\n")] + t[s:i] + t[e:]
                n += 1
                i = e
        i += 1
    if n:
        notes.append("functions inside of functions are beside them")
    return t


def at_exits(body, code, notes, name):
    """code where the function returns, with the result as ret_: what is dropped there, written out"""
    i, tail = 1, 1
    while i < len(body) - 1:
        x = body[i]
        if x == ("id", "return"):
            e = i
            while body[e][1] != ";":
                e = (group_end(body, e) if body[e][0] == "p" and body[e][1] in OPEN else e) + 1
            new = lex("{ let ret_ = %s; %s return ret_; }" % (text(body[i + 1:e]).strip(), code))
            body = body[:i] + new + body[e + 1:]
            i += len(new)
            continue
        i += 1
    i = 1
    while i < len(body) - 1:
        x = body[i]
        if x[0] == "p" and x[1] in OPEN:
            i = group_end(body, i)
            nxt = next((k for k in range(i + 1, len(body)) if body[k][0] != "ws"), i)
            if body[i][1] == "}" and body[nxt][1] not in (".", "?", "else", "}", ")", ",", ";") and nxt < len(body) - 1:
                tail = i + 1
        elif x[1] == ";":
            tail = i + 1
        i += 1
    if not text(body[tail:-1]).strip():
        raise Lost("no value at the end of " + name)
    notes.append("%s: the drop of its locals is written out where it returns" % name)
    return body[:tail] + lex(" let ret_ = %s; %s ret_ " % (text(body[tail:-1]).strip(), code)) + body[-1:]


def after_let(body, var, ghost):
    """Ghost code after `let var = ..;` (`let mut var`)"""
    for i in range(len(body)):
        if body[i] == ("id", "let"):
            j = i + 1
            while body[j][0] == "ws" or body[j] == ("id", "mut"):
                j += 1
            if body[j] != ("id", var):
                continue
            while body[j][1] != ";":
                if body[j][1] in OPEN:
                    j = group_end(body, j)
                j += 1
            return body[:j + 1] + [("ws", " " + ghost + " ")] + body[j + 1:]
    return body


def last_tok(t, i):
    i -= 1
    while i >= 0 and t[i][0] == "ws":
        i -= 1
    return t[i][1] if i >= 0 else ""


def split_args(t):
    out, i, k = [[]], 0, 0
    while i < len(t):
        if t[i][1] in ("(", "[", "{"):
            e = group_end(t, i)
            out[-1] += t[i:e + 1]
            i = e + 1
        elif t[i][1] == ",":
            out.append([])
            i += 1
        else:
            out[-1].append(t[i])
            i += 1
    return out


def break_to_return(body, notes, name):
    """In a body that is one loop: `break X` to `return X`"""
    out = list(body)
    s = [x for x in body if x[0] != "ws"]
    if not (s[1] == ("id", "loop") and s[2][1] == "{" and s[-1][1] == "}" and s[-2][1] == "}"):
        return body
    n = sum(1 for x in body if x[0] == "id" and x[1] in ("loop", "while", "for"))
    if n != 1:
        return body
    for i, x in enumerate(out):
        if x == ("id", "break"):
            k = next(j for j in range(i + 1, len(out)) if out[j][0] != "ws")
            if out[k][1] not in (";", "}", ","):
                out[i] = ("id", "return")
                notes.append("%s: `break` with the result of the function is `return`" % name)
    return out


def loops(body, invs, name, ends=(), starts=()):
    """Invariants of the loops in order, and ghost code at their ends and beginnings"""
    out, i, k = [], 0, 0
    stop = {}
    while i < len(body):
        x = body[i]
        if x[0] == "id" and x[1] in ("loop", "while", "for") and k < len(invs):
            j = i + 1
            while body[j][1] != "{":
                if body[j][1] in ("(", "["):
                    j = group_end(body, j)
                j += 1
            out += body[i:j] + [("ws", "\n" + invs[k] + "\n")]
            if k < len(ends):
                stop[group_end(body, j)] = ends[k]
            i = j
            if k < len(starts):
                out += [body[j], ("ws", " " + starts[k] + " ")]
                i = j + 1
            k += 1
            continue
        if i in stop:
            out.append(("ws", " " + stop[i] + " "))
        out.append(x)
        i += 1
    return out


def closure(body, pat, ins, name, head=None, bind=False):
    """`pat` is the normalised head of the closure (`| a |`); `ins` its contract. The body becomes a block.
    head: what stands for the head; bind: the names of the head are bound in the block, of x_ in `head`"""
    p, _, ahead = pat.partition(" ~ ")
    p = p.split()
    for i in range(len(body)):
        # match p at i, white space aside
        j, k = i, 0
        while k < len(p) and j < len(body):
            if body[j][0] == "ws":
                if k == 0:
                    break
                j += 1
                continue
            if body[j][1] != p[k]:
                break
            j, k = j + 1, k + 1
        if k == len(p):
            while body[j][0] == "ws":
                j += 1
            if ahead and body[j][1] != ahead:
                continue
            if head:
                lets = " let %s = x_; " % text(body[i + 1:j]).strip().rstrip("|").strip() if bind else ""
                body = body[:i] + [("ws", head)] + body[j:]
                j = i + 1
                if lets:
                    e = j
                    while not (body[e][0] == "p" and (body[e][1] in CLOSE or body[e][1] == ",")):
                        e = (group_end(body, e) if body[e][0] == "p" and body[e][1] in OPEN else e) + 1
                    return body[:j] + [("ws", " " + ins + " {" + lets)] + body[j:e] + [("ws", " }")] + body[e:]
            if body[j][1] == "{":
                return body[:j] + [("ws", " " + ins + " ")] + body[j:]
            # up to the end of the argument
            d, e = 0, j
            while True:
                t = body[e][1]
                if body[e][0] == "p" and t in OPEN:
                    e = group_end(body, e)
                elif body[e][0] == "p" and (t in CLOSE or t == ","):
                    break
                e += 1
            return body[:j] + [("ws", " " + ins + " { ")] + body[j:e] + [("ws", " }")] + body[e:]
    return body  # without its contract; the proof then decides


def rename(t, rs, notes):
    """Calls of library functions Verus cannot name become calls of the stand-ins of the prelude"""
    for pat, rep in rs:
        p, out, i, n = pat.split(), [], 0, 0
        while i < len(t):
            j, k = i, 0
            while k < len(p) and j < len(t) and (t[j][1] == p[k] or k and t[j][0] == "ws"):
                k += t[j][1] == p[k]
                j += 1
            if k == len(p):
                out.append(("id", rep))
                i = j
                n += 1
            else:
                out.append(t[i])
                i += 1
        t = out
        if n:
            notes.append("`%s` is called as `%s`" % (pat.replace(" ", ""), rep))
    return t


def str_bytes(name, length, h, notes):
    """A constant string, as the array of the bytes it is"""
    s = [x[1] for x in h if x[0] == "str"]
    if len(s) != 1 or re.search(r"\\[^n0trx\\\"']", s[0]):
        raise Lost("%s is not one string" % name)
    b = eval(s[0]).encode()
    notes.append("%s is the array of its bytes, %s their number" % (name, length))
    return "pub const %s: usize = %d;\npub const %s: [u8; %d] = [%s];\n" % (length, len(b), name, len(b), ", ".join(map(str, b)))


# ---------------------------------------------------------------- a job

def extract(job):
    """(text, functions under contract, trusted functions, notes, marks)"""
    notes, funs, trusted = [], [], []
    out = ["use vstd::prelude::*;\nverus! {\n", job.get("prelude", "")]
    seen = set()
    for src in job["sources"]:
        t = rename(lex(open(os.path.join(REPO, src["file"])).read()), job.get("rename", []) + src.get("rename", []), notes)
        if job.get("messages"):
            t = messages(t, notes)
        if job.get("hoist"):
            t = hoisted(t, notes)
        out.append("\n// ---- %s\n" % src["file"])
        for attrs, h, b in items(t):
            n = item_name(h)
            if any("cfg ( test )" in a or "# [ test ]" in a for a in attrs):
                continue
            if n.startswith("use ") or norm(h).startswith("use ") or norm(h).startswith("pub use ") or n.startswith("mod "):
                continue
            if any("macro" in a for a in attrs):
                continue
            if "only" in src and not any(re.fullmatch(p, n) for p in src["only"]):
                continue
            if any(re.fullmatch(p, n) for p in src.get("drop", [])):
                continue
            cs = job["contracts"]
            if fn_name(h):
                c = cs.get(n)
                seen.add(n)
                out.append(do_fn(h, b, c, notes, n) + "\n")
                (trusted if c and c.get("trusted") else funs).append(fn_name(h)) if c else None
            elif b is not None and (n.startswith("impl") or n.startswith("trait")):
                hd = text(h)
                key = n
                if key in job.get("headers", {}):
                    hd = job["headers"][key]
                out.append(hd + "{\n" + job.get("inside", {}).get(key, "") + "\n")
                seen.add(key)
                for a2, h2, b2 in items(b[1:-1]):
                    f = fn_name(h2)
                    if not f:
                        if "methods" not in src:
                            out.append(text(h2) + text(b2 or []) + "\n")
                        continue
                    k = key + " :: " + f
                    seen.add(k)
                    if k in job.get("skip", ()) or "methods" in src and not any(
                            re.fullmatch(p, f) for p in src["methods"]):
                        continue
                    c = cs.get(k)
                    out.append(do_fn(h2, b2, c, notes, k) + "\n")
                    if c:
                        (trusted if c.get("trusted") else funs).append(k.split(" for ")[-1])
                out.append("}\n")
            elif n.split()[-1] in job.get("str_bytes", {}):
                out.append(str_bytes(n.split()[-1], job["str_bytes"][n.split()[-1]], h, notes))
                seen.add(n)
            else:
                w = text(h) + (text(b) if b else "")
                if n in job.get("copy", []) and any("Copy" in a for a in attrs):
                    w = "#[derive(Clone, Copy)] " + w
                if n in job.get("public", []):
                    w = re.sub(r"(?m)^(\s+)(?:pub )?(\w+:)", r"\1pub \2", re.sub(r"^(?:pub )?struct", "pub struct", w))
                    notes.append("%s: its fields are public" % n)
                for pat, rep in job.get("rewrite_items", {}).get(n, []):
                    w2 = re.sub(pat, rep, w)
                    if w2 != w:
                        notes.append("%s: %s" % (n, rep))
                    w = w2
                out.append(w + "\n")
                seen.add(n)
    for k in job["contracts"]:
        if k not in seen:
            raise Lost("%s is not in the source any more" % k)
    out.append(job.get("epilogue", ""))
    out.append("\nfn main() {}\n}\n")
    return "".join(out), funs, trusted, notes


SKIP_ERR = re.compile(r"aborting due to|^error: \d+")


def run(jobname, timeout, trust=False):
    """A proof the solver finds with another seed is a proof too"""
    t0 = time.time()
    r = run1(jobname, timeout, trust)
    n, first = 0, r
    while r["violated"] and not r["noanswer"] and n < 3 and (time.time() - t0) * (n + 2) / (n + 1) < timeout:
        n += 1
        r = run1(jobname, timeout, trust, ["--smt-option", "smt.random_seed=%d" % n])
    if n and (r["violated"] or r["noanswer"]):
        r = first
    r["seconds"] = round(time.time() - t0, 2)
    return r


def run1(jobname, timeout, trust=False, more=[]):
    """trust: without the bodies the job lists under by_kani, which Kani has proved against the same contracts"""
    import importlib
    mod = importlib.import_module("verus." + jobname)
    job = mod.JOB
    if trust:
        job = dict(job, at_least=1, contracts={
            k: dict(c, trusted=True) if k in job["by_kani"] else c for k, c in job["contracts"].items()})
    t0 = time.time()
    r = {"obligations": 0, "discharged": 0, "violated": [], "noanswer": None, "output": "", "functions": [],
         "trusted": list(job.get("trusted", [])), "extraction": [], "seconds": 0.0,
         "cmd": "verus .build/verus/%s.rs" % jobname, "job": jobname,
         "search": job.get("search"), "stand_in": job.get("stand_in"), "by_kani": job.get("by_kani"),
         "kani": job.get("kani", [])}
    try:
        src, funs, trusted, notes = extract(job)
    except Lost as e:
        r["noanswer"] = str(e)
        return r
    except Exception as e:
        r["noanswer"] = "extraction: %r" % e
        return r
    d = os.path.join(V, ".build", "verus")
    os.makedirs(d, exist_ok=True)
    f = os.path.join(d, jobname + ".rs")
    open(f, "w").write(src)
    try:
        p = subprocess.run(["verus", f, "--output-json", "--triggers-mode", "silent", "--multiple-errors", "5"]
                           + job.get("args", []) + more, cwd=d, capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        r["noanswer"] = "verus ran out of time"
        return r
    r["seconds"] = round(time.time() - t0, 2)
    r["output"] = p.stderr[-15000:]
    r["functions"] = funs
    r["extraction"] = notes
    r["trusted"] += ["body not verified here: " + x for x in trusted]
    try:
        j = json.loads(p.stdout)["verification-results"]
    except Exception:
        r["noanswer"] = "verus gave no result\n" + p.stderr[-3000:]
        return r
    errs = [b for b in re.split(r"\n(?=error)", "\n" + p.stderr) if b.strip().startswith("error")]
    errs = [b for b in errs if not SKIP_ERR.search(b.split("\n")[0])]
    r["obligations"] = j.get("verified", 0) + j.get("errors", 0)
    r["discharged"] = j.get("verified", 0)
    if j.get("success") and not errs:
        if j.get("verified", 0) < job["at_least"]:
            r["noanswer"] = "only %d obligations" % j.get("verified", 0)
        return r
    lines = src.split("\n")
    bad = []
    for b in errs:
        first = b.split("\n")[0]
        if j.get("encountered-vir-error") or not j.get("errors") or re.search(r"rlimit|Resource limit", first):
            r["noanswer"] = first + "\n" + b[:1500]
            return r
        m = re.search(r"--> .*?:(\d+):", b)
        fn = ""
        if m:
            fn = next((re.search(r"\bfn\s+(\w+)", l).group(1) for l in reversed(lines[:int(m.group(1))])
                       if re.search(r"\bfn\s+(\w+)", l)), "")
        g = [int(x) for x in re.findall(r"^\s*(\d+)\s*[|/]", b, re.M)]
        fns = {next((re.search(r"\bfn\s+(\w+)", l).group(1) for l in reversed(lines[:n])
                     if re.search(r"\bfn\s+(\w+)", l)), "") for n in g}
        bad.append("%s (in %s)" % (first.replace("error: ", ""), ", ".join(sorted(fns | {fn}))))
    if not bad:
        r["noanswer"] = "verus failed without an obligation\n" + p.stderr[-2000:]
        return r
    r["violated"] = bad
    return r


def replay(name, nt, crate, sh, left):
    """Searches a failing input on the real code, natively, for the replay file"""
    rc, o = sh(["cargo", "build", "--offline", "--quiet", "--bin", "search", "--target-dir", nt], left(40), crate)
    if rc != 0:
        return False, "the search does not build:\n" + o[-2000:]
    cmd = [os.path.join(nt, "debug", "search"), name]
    if name == "assembles":
        rc, o = sh(["cargo", "build", "--offline", "--quiet", "--bin", "tc", "--target-dir", nt], left(40), REPO)
        if rc != 0:
            return False, "tc does not build:\n" + o[-2000:]
        cmd = ["env", "TELDA_TC=" + os.path.join(nt, "debug", "tc")] + cmd
    rc, o = sh(cmd, min(120, left(20)))
    if rc not in (0, 1):
        return None, "exit %s\n%s" % (rc, o[-4000:])
    return rc == 1, "exit %s\n%s" % (rc, o[-4000:])
