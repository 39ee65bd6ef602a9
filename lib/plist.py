"""Reader of the property-list dialect of Xcode project files, written from its grammar (strings, lists, dictionaries, comments)."""

BARE = set("ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789_$/:.-")
SIMPLE = {"a": "\a", "b": "\b", "f": "\f", "n": "\n", "r": "\r", "t": "\t", "v": "\v", "\n": "\n"}


class Bad(Exception):
    pass


class Reader:
    def __init__(self, text):
        self.s, self.i = text, 0

    def blank(self):
        s = self.s
        while self.i < len(s):
            if s[self.i] in " \t\r\n\v\f":
                self.i += 1
            elif s.startswith("//", self.i):
                j = s.find("\n", self.i)
                self.i = len(s) if j < 0 else j
            elif s.startswith("/*", self.i):
                j = s.find("*/", self.i + 2)
                if j < 0:
                    raise Bad("comment without end")
                self.i = j + 2
            else:
                return

    def want(self, c):
        self.blank()
        if not self.s.startswith(c, self.i):
            raise Bad(f"{c!r} expected at {self.s[max(0, self.i - 60):self.i + 40]!r}")
        self.i += 1

    def peek(self):
        self.blank()
        return self.s[self.i:self.i + 1]

    def string(self):
        s = self.s
        self.blank()
        q = s[self.i:self.i + 1]
        if q in ('"', "'") and q:
            out = []
            self.i += 1
            while True:
                if self.i >= len(s):
                    raise Bad("string without end")
                c = s[self.i]
                self.i += 1
                if c == q:
                    return "".join(out)
                if c != "\\":
                    out.append(c)
                    continue
                c = s[self.i]
                self.i += 1
                if c in "uU":
                    digits = s[self.i:self.i + 4]
                    if len(digits) != 4 or any(d not in "0123456789abcdefABCDEF" for d in digits):
                        raise Bad(f"bad escape \\{c}{digits!r}")
                    out.append(chr(int(digits, 16)))
                    self.i += 4
                elif c in "01234567":
                    j = self.i
                    while j < self.i + 2 and s[j] in "01234567":
                        j += 1
                    out.append(chr(int(s[self.i - 1:j], 8)))
                    self.i = j
                else:
                    out.append(SIMPLE.get(c, c))
        j = self.i
        while j < len(s) and s[j] in BARE:
            j += 1
        if j == self.i:
            raise Bad(f"value expected at {s[max(0, self.i - 60):self.i + 40]!r}")
        out, self.i = s[self.i:j], j
        return out

    def value(self):
        c = self.peek()
        if c == "{":
            self.i += 1
            d = {}
            while self.peek() != "}":
                k = self.string()
                self.want("=")
                v = self.value()
                self.want(";")
                if k in d:
                    raise Bad(f"key {k!r} twice")
                d[k] = v
            self.i += 1
            return d
        if c == "(":
            self.i += 1
            out = []
            while self.peek() != ")":
                out.append(self.value())
                if self.peek() != ",":
                    break
                self.i += 1
            self.want(")")
            return out
        return self.string()


def read(text):
    if not text.startswith("// !$*UTF8*$!\n"):
        raise Bad("no encoding line")
    r = Reader(text)
    v = r.value()
    r.blank()
    if r.i != len(text):
        raise Bad(f"text after the end: {text[r.i:r.i + 60]!r}")
    return v
