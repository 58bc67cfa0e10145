"""Reference model of C17 preprocessing: tokens, macro definitions, Prosser's hide-set expansion."""
import re

LEX = re.compile(r"""
  (?P<ws>(?:[ \t\v\f\r\n]|//[^\n]*|/\*.*?\*/)+)
| (?P<str>(?:u8|u|U|L)?"(?:\\.|[^"\\\n])*")
| (?P<chr>(?:u|U|L)?'(?:\\.|[^'\\\n])*')
| (?P<num>\.?[0-9](?:[eEpP][+-]|[0-9A-Za-z_.]|[\x80-\U0010ffff])*)
| (?P<id>[A-Za-z_$\x80-\U0010ffff][A-Za-z0-9_$\x80-\U0010ffff]*)
| (?P<p>\.\.\.|<<=|>>=|->|\+\+|--|<<|>>|<=|>=|==|!=|&&|\|\||[*/%+\-&^|]=|\#\#|.)
""", re.X | re.S)

class Tok:
    __slots__ = ("s", "k", "ws", "hs", "nl")
    def __init__(self, s, k, ws=False, hs=frozenset()):
        self.s, self.k, self.ws, self.hs = s, k, ws, hs
    def copy(self, ws=None, hs=None):
        return Tok(self.s, self.k, self.ws if ws is None else ws, self.hs if hs is None else hs)

def lex(text):
    out, ws, pos = [], False, 0
    while pos < len(text):
        m = LEX.match(text, pos)
        if m.lastgroup == "ws":
            ws = True
        else:
            out.append(Tok(m.group(), m.lastgroup, ws))
            ws = False
        pos = m.end()
    return out

def spell(toks):
    return [t.s for t in toks]

class Invalid(Exception):
    pass

class Macro:
    __slots__ = ("name", "params", "variadic", "body")
    def __init__(self, name, params, variadic, body):
        self.name, self.params, self.variadic, self.body = name, params, variadic, body

PLACE = "place"

class Model:
    def __init__(self, limit=4000):
        self.macros = {}
        self.saved = []
        self.steps = 0
        self.limit = limit
        self.maxdepth = 0
    def define(self, line):
        """line: the text after #define"""
        toks = lex(line)
        name = toks[0]
        params, variadic, i = None, False, 1
        if len(toks) > 1 and toks[1].s == "(" and not toks[1].ws:
            params, i = [], 2
            while toks[i].s != ")":
                if toks[i].s == "...":
                    variadic = True
                elif toks[i].s != ",":
                    params.append(toks[i].s)
                i += 1
            i += 1
        body = toks[i:]
        if body:
            body[0] = body[0].copy(ws=False)
        m = Macro(name.s, params, variadic, body)
        if params is not None:
            names = params + (["__VA_ARGS__"] if variadic else [])
            if any(t.s == "#" and (n + 1 == len(body) or body[n + 1].s not in names) for n, t in enumerate(body)):
                raise Invalid("#")
        if body and (body[0].s == "##" or body[-1].s == "##"):
            raise Invalid("##")
        old = self.macros.get(name.s)
        if old and (old.params, old.variadic, [(t.s, t.ws) for t in old.body]) != (m.params, m.variadic, [(t.s, t.ws) for t in m.body]):
            raise Invalid("redefinition")
        self.macros[name.s] = m
    def undef(self, name):
        self.macros.pop(name, None)
    def push(self, name):
        self.saved.append((name, self.macros.get(name)))
    def pop(self, name):
        for i in range(len(self.saved) - 1, -1, -1):
            if self.saved[i][0] == name:
                m = self.saved.pop(i)[1]
                if m:
                    self.macros[name] = m
                else:
                    self.macros.pop(name, None)
                return
    def expand(self, toks, depth=0):
        out = []
        inp = list(reversed(toks))
        self.maxdepth = max(self.maxdepth, depth)
        while inp:
            self.steps += 1
            if self.steps > self.limit:
                raise Invalid("too long")
            t = inp.pop()
            m = self.macros.get(t.s) if t.k == "id" else None
            if m is None or t.s in t.hs:
                out.append(t)
                continue
            if m.params is None:
                rep = self.subst(m, [], t.hs | {m.name}, t, depth)
            else:
                if not inp or inp[-1].s != "(":
                    out.append(t)
                    continue
                inp.pop()
                args, cur, d = [], [], 1
                while True:
                    if not inp:
                        raise Invalid("unterminated")
                    a = inp.pop()
                    if a.s == "(":
                        d += 1
                    elif a.s == ")":
                        d -= 1
                        if d == 0:
                            break
                    if a.s == "," and d == 1 and not (m.variadic and len(args) >= len(m.params)):
                        args.append(cur)
                        cur = []
                    else:
                        cur.append(a)
                args.append(cur)
                n = len(m.params)
                if m.variadic:
                    if n == 0 and len(args) == 1:
                        pass
                    elif len(args) < n + 1:
                        raise Invalid("arguments")
                elif n == 0:
                    if args != [[]]:
                        raise Invalid("arguments")
                    args = []
                elif len(args) != n:
                    raise Invalid("arguments")
                rep = self.subst(m, args, (t.hs & a.hs) | {m.name}, t, depth)
            if rep:
                rep[0] = rep[0].copy(ws=t.ws)
            inp.extend(reversed(rep))
        return out
    def subst(self, m, args, hs, origin, depth):
        names = list(m.params or [])
        if m.variadic:
            names.append("__VA_ARGS__")
        out, i, body, paste = [], 0, m.body, False
        cache = {}
        def add(t, p):
            if p and out:
                last = out[-1]
                if last.k == PLACE:
                    out[-1] = t.copy(ws=last.ws)
                elif t.k != PLACE:
                    j = lex(last.s + t.s)
                    if len(j) != 1:
                        raise Invalid("paste")
                    j[0].ws = last.ws
                    j[0].hs = last.hs & t.hs
                    out[-1] = j[0]
            else:
                out.append(t)
        pend = False
        while i < len(body):
            t = body[i]
            ws = t.ws or pend
            if t.s == "##":
                if i == 0 or i == len(body) - 1:
                    raise Invalid("edge")
                paste = True
                i += 1
                continue
            pend = False
            if t.s == "#" and m.params is not None:
                i += 1
                if i >= len(body) or body[i].s not in names:
                    raise Invalid("#")
                arg = args[names.index(body[i].s)]
                s = ""
                for n, a in enumerate(arg):
                    if n and a.ws:
                        s += " "
                    s += re.sub(r'([\\"])', r'\\\1', a.s) if a.k in ("str", "chr") else a.s
                j = lex('"' + s + '"')
                if len(j) != 1 or j[0].k != "str":
                    raise Invalid("stringize")
                add(Tok('"' + s + '"', "str", ws), paste)
            elif t.k == "id" and t.s in names:
                if t.s == "__VA_ARGS__" and paste and body[i - 2].s == ",":
                    raise Invalid("comma paste is an extension")
                arg = args[names.index(t.s)]
                nextp = i + 1 < len(body) and body[i + 1].s == "##"
                if not paste and not nextp:
                    k = t.s
                    if k not in cache:
                        cache[k] = self.expand([a.copy() for a in arg], depth + 1)
                    arg = cache[k]
                if arg:
                    for n, a in enumerate(arg):
                        add(a.copy(ws=ws if n == 0 else a.ws), paste and n == 0)
                elif paste or nextp:
                    add(Tok("", PLACE, ws), paste)
                else:
                    pend = ws
            else:
                add(t.copy(ws=ws), paste)
            paste = False
            i += 1
        res, w = [], False
        for t in out:
            w = w or t.ws
            if t.k == PLACE:
                continue
            res.append(t.copy(ws=w, hs=t.hs | hs))
            w = False
        return res
