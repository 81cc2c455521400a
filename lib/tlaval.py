"""Reads values as TLC prints them."""
import re

_TOK = re.compile(r'\s*(<<|>>|\|->|:>|@@|\.\.|[\[\](){},]|"(?:[^"\\]|\\.)*"|-?\d+|[A-Za-z_]\w*)')


class Reader:
    def __init__(self, s, i=0):
        self.s, self.i = s, i

    def peek(self):
        m = _TOK.match(self.s, self.i)
        return m.group(1) if m else None

    def next(self):
        m = _TOK.match(self.s, self.i)
        if not m:
            raise ValueError("unreadable TLC value at %r" % self.s[self.i:self.i + 40])
        self.i = m.end()
        return m.group(1)

    def value(self):
        t = self.next()
        if t == "<<":
            return self.items(">>")
        if t == "{":
            return self.items("}")
        if t == "[":
            out = {}
            while self.peek() != "]":
                k = self.next()
                assert self.next() == "|->"
                out[k] = self.value()
                if self.peek() == ",":
                    self.next()
            self.next()
            return out
        if t == "(":
            out = {}
            while True:
                k = self.value()
                assert self.next() == ":>"
                out[str(k)] = self.value()
                if self.next() == ")":
                    return out
        if t[0] == '"':
            return t[1:-1].replace('\\"', '"').replace("\\\\", "\\")
        if t in ("TRUE", "FALSE"):
            return t == "TRUE"
        try:
            return int(t)
        except ValueError:
            return t

    def items(self, end):
        out = []
        while self.peek() != end:
            out.append(self.value())
            if self.peek() == ",":
                self.next()
        self.next()
        return out


def read(s, i=0):
    return Reader(s, i).value()


def diff(a, b, path=""):
    """first few differences of two values"""
    if isinstance(a, dict) and isinstance(b, dict):
        out = []
        for k in sorted(set(a) | set(b)):
            if k not in a or k not in b:
                out.append("%s.%s only in %s" % (path, k, "first" if k in a else "second"))
            else:
                out += diff(a[k], b[k], path + "." + k)
        return out
    if isinstance(a, list) and isinstance(b, list):
        out = []
        if len(a) != len(b):
            out.append("%s: lengths %d and %d" % (path, len(a), len(b)))
        for k in range(min(len(a), len(b))):
            out += diff(a[k], b[k], "%s[%d]" % (path, k))
        return out
    return [] if a == b else ["%s: %s and %s" % (path, a, b)]
