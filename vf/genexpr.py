"""What an expression in generated code means: enough of Rust to compare two spellings of a value."""


class Unknown(Exception):
    pass


def canonical(toks):
    """toks: nested list of ('id', name) ('p', name) ('lit', value) ('g', delimiter, [..]) -> nested tuples"""
    p = Parser(toks)
    r = p.expr()
    if p.i != len(toks):
        raise Unknown()
    return r


PASS = {"to_owned", "to_string", "into", "clone", "as_str", "as_ref", "borrow"}
WRAP = {("Arc", "new"), ("Box", "new"), ("Rc", "new"), ("String", "from"), ("Into", "into"), ("ToOwned", "to_owned"), ("ToString", "to_string"), ("Arc", "from"), ("str", "to_owned")}


class Parser:
    def __init__(self, toks):
        self.t, self.i = toks, 0

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else ("end",)

    def next(self):
        x = self.peek()
        self.i += 1
        return x

    def punct(self, *ns):
        if self.peek()[0] == "p" and self.peek()[1] in ns:
            return self.next()[1]
        return None

    def expr(self):
        l = self.unary()
        while self.peek()[0] == "p" and self.peek()[1] in ("add", "sub", "star", "rem", "div"):
            o = self.next()[1]
            r = self.unary()
            l = ("bin", o, l, r)
        return l

    def unary(self):
        if self.punct("sub"):
            return ("neg", self.unary())
        if self.punct("and", "star"):
            return self.unary()
        return self.postfix(self.atom())

    def postfix(self, x):
        while True:
            if self.punct("dot"):
                n = self.next()
                if n[0] != "id":
                    raise Unknown()
                ty = self.turbofish()
                if self.peek()[0] == "g" and self.peek()[1] == "Parenthesis":
                    args = self.args(self.next()[2])
                    x = self.method(x, n[1], ty, args)
                else:
                    x = ("field", x, n[1])
            elif self.punct("question"):
                raise Unknown()
            else:
                return x

    def method(self, x, n, ty, args):
        if n in PASS and not args:
            return x
        if n == "parse" and not args:
            return ("parsed", ty, x)
        if n in ("unwrap", "expect") and x[0] in ("parsed",):
            return ("value",) + x[1:]
        return ("method", n, ty, x, tuple(args))

    def turbofish(self):
        if self.peek() == ("p", "colon2") and self.peek(1) == ("p", "lt"):
            self.i += 2
            return self.type_until_gt()
        return None

    def type_until_gt(self):
        last, d = None, 1
        while True:
            x = self.next()
            if x == ("end",):
                raise Unknown()
            if x == ("p", "lt"):
                d += 1
            elif x == ("p", "gt"):
                d -= 1
                if d == 0:
                    return last
            elif x[0] == "id":
                last = x[1]
            elif x[0] != "p":
                raise Unknown()

    def args(self, toks):
        out = []
        p = Parser(toks)
        while p.i < len(toks):
            out.append(p.expr())
            if p.i < len(toks) and not p.punct("comma"):
                raise Unknown()
        return out

    def atom(self):
        x = self.next()
        if x[0] == "lit":
            return x
        if x[0] == "g" and x[1] in ("Parenthesis", "None"):
            a = self.args(x[2])
            return a[0] if len(a) == 1 else ("tuple",) + tuple(a)
        if x[0] == "g" and x[1] == "Brace":
            a = Parser(x[2])
            e = a.expr()
            if a.i != len(x[2]):
                raise Unknown()
            return e
        path = []
        if x == ("p", "lt"):
            path.append(self.type_until_gt())
        elif x == ("p", "colon2"):
            n = self.next()
            if n[0] != "id":
                raise Unknown()
            path.append(n[1])
        elif x[0] == "id":
            path.append(x[1])
        else:
            raise Unknown()
        ty = None
        while self.peek() == ("p", "colon2"):
            if self.peek(1) == ("p", "lt"):
                ty = self.turbofish()
                continue
            self.i += 1
            n = self.next()
            if n[0] != "id":
                raise Unknown()
            path.append(n[1])
        if self.peek() == ("p", "bang"):
            if path == ["compile_error"] or path[-1] == "compile_error":
                self.i += 1
                self.next()
                return ("compile_error",)
            raise Unknown()
        nx = self.peek()
        if nx[0] == "g" and nx[1] == "Parenthesis":
            a = self.args(self.next()[2])
            if tuple(path[-2:]) in WRAP and len(a) == 1:
                return a[0]
            if path[-1] in ("from_str", "try_from") and len(a) == 1 and len(path) > 1:
                return ("parsed", path[-2], a[0])
            return ("new", path[-1], ty, tuple(a))
        if nx[0] == "g" and nx[1] == "Brace" and path[-1][:1].isupper():
            fs = []
            p = Parser(self.next()[2])
            while p.i < len(p.t):
                n = p.next()
                if n[0] != "id":
                    raise Unknown()
                if p.punct("colon"):
                    fs.append((n[1], p.expr()))
                else:
                    raise Unknown()
                if p.i < len(p.t) and not p.punct("comma"):
                    raise Unknown()
            return ("struct", path[-1], tuple(sorted(fs, key=lambda x: x[0])))
        if len(path) == 1 and path[0] in ("true", "false"):
            return ("lit", path[0])
        return ("path", path[-1])
