"""C22: generated XML round-trips and is rewritten only when it changes (the real easy_xml module, expat as the reader)."""
import itertools
import os
import sys
import xml.parsers.expat

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import gypdrv  # noqa: E402,F401
import vf  # noqa: E402

import gyp.easy_xml as easy_xml  # noqa: E402

ALPHA = ["a", " ", "<", ">", "&", '"', "'", "\n", "\r", "\t", ";", "]", "#", "\u00e9", "\u65e5"]
ENCODINGS = ["utf-8", "Windows-1252"]
LOCALES = [(None, None), ("en_US", "UTF-8"), ("en_US", "ISO8859-1"), ("de_DE", "cp1252")]


def strings(n):
    for k in range(n + 1):
        for t in itertools.product(ALPHA, repeat=k):
            yield "".join(t)


def parse(data):
    """What an XML reader sees: [name, attributes, children...] with texts joined."""
    root, stack = [], []
    p = xml.parsers.expat.ParserCreate()
    p.buffer_text = True

    def start(name, attrs):
        e = [name, dict(attrs)]
        (stack[-1] if stack else root).append(e)
        stack.append(e)

    def text(s):
        e = stack[-1]
        if len(e) > 2 and isinstance(e[-1], str):
            e[-1] += s
        else:
            e.append(s)

    p.StartElementHandler, p.EndElementHandler, p.CharacterDataHandler = start, lambda n: stack.pop(), text
    p.Parse(data, True)
    return root[0]


def norm(spec, pretty=False):
    """The specification as a reader should see it; pretty printing may add white space around child elements only."""
    rest = spec[1:]
    attrs = {}
    if rest and isinstance(rest[0], dict):
        attrs, rest = rest[0], rest[1:]
    out = [spec[0], dict(attrs)]
    for c in rest:
        if isinstance(c, str):
            if len(out) > 2 and isinstance(out[-1], str):
                out[-1] += c
            elif c:
                out.append(c)
        else:
            out.append(norm(c, pretty))
    return out


def strip(tree):
    """Drops the white space pretty printing put between child elements."""
    kids = tree[2:]
    if any(isinstance(k, list) for k in kids):
        kids = [strip(k) for k in kids if isinstance(k, list) or k.strip()]
    return tree[:2] + kids


def written(path, spec, encoding, pretty, win32, loc):
    import locale
    locale.getdefaultlocale = lambda *a: loc
    locale.getencoding = lambda: loc[1] or "utf-8"
    easy_xml.WriteXmlIfChanged(spec, path, encoding=encoding, pretty=pretty, win32=win32)
    with open(path, "rb") as f:
        return f.read()


SPECS = [
    lambda s, t: ["e", {"k": s}],
    lambda s, t: ["e", s] if s else ["e"],
    lambda s, t: ["e", {"k": s, "j": t}, t],
    lambda s, t: ["e", ["c", {"k": s}], ["c", t]],
    lambda s, t: ["e", {"k": t}, ["c", {"a": s}, ["d", s], ["d"]], ["c"]],
]
MIXED = [lambda s, t: ["e", s + "x", ["c", t], "y" + s], lambda s, t: ["e", s, t, ["c"], t]]


def text_job(part, item):
    kind, first = item
    path = os.path.join(vf.scratch("c22"), "f.xml")
    seconds = ["", "<", "a b", "\u00e9"]
    for s in ([first + x for x in strings(3 if vf.THOROUGH else 2)] if kind == "long" else [first]):
        for t in seconds if kind == "short" else seconds[:1]:
            for i, mk in enumerate(SPECS + MIXED):
                spec = mk(s, t)
                for pretty in (False, True):
                    if pretty and i >= len(SPECS):
                        continue
                    part.add()
                    text = easy_xml.XmlToString(spec, pretty=pretty)
                    got = parse(text.encode("utf-8"))
                    if pretty:
                        got = strip(got)
                    if got != norm(spec):
                        raise vf.Bad(f"{spec!r} (pretty={pretty}) reads back as {got!r}", f"str:{spec!r}"[:80], text=text)
                    if text != easy_xml.XmlToString(spec, pretty=pretty):
                        raise vf.Bad(f"{spec!r}: not reproducible")
                    if kind != "short":
                        continue
                    for enc in ENCODINGS:
                        for win32 in (False, True):
                            for loc in LOCALES:
                                if (loc[0] or win32) and (i > 1 and not vf.THOROUGH):
                                    continue
                                part.add()
                                b = written(path, spec, enc, pretty, win32, loc)
                                got = parse(b)
                                if pretty:
                                    got = strip(got)
                                if got != norm(spec):
                                    raise vf.Bad(f"{spec!r} ({enc}, pretty={pretty}, win32={win32}, locale {loc}) reads back as {got!r}", f"file:{spec!r}"[:80], text=repr(b))
                                if win32 and b.count(b"\n") != b.count(b"\r\n"):
                                    raise vf.Bad(f"{spec!r}: mixed line ends {b!r}")
            part.seen((kind, s, t))
    vf.rmtree(os.path.dirname(path))


DOCS = [["e"], ["e", "x"], ["e", "xy"], ["e", {"k": "\u00e9\n"}], ["e", ["c"], ["c", "\u65e5"]], ["f", ["c", ["d", "1\t2"]]]]
OLD = [None, b"", b"junk", b"\xff\xfe\x00bad bytes", b'<?xml version="1.0" encoding="utf-8"?><e/>\n', b'<?xml version="1.0" encoding="utf-8"?><e/>\r\n']


def hist_job(part, item):
    enc, pretty, win32, loc = item
    path = os.path.join(vf.scratch("c22"), "f.xml")
    for hist in itertools.product(range(len(DOCS)), repeat=3 if vf.THOROUGH else 2):
        for old in OLD:
            part.add()
            part.seen((item, hist, old))
            if os.path.exists(path):
                os.unlink(path)
            if old is not None:
                with open(path, "wb") as f:
                    f.write(old)
            prev = None
            for k in hist:
                want = easy_xml.XmlToString(DOCS[k], enc, pretty)
                if prev is not None:
                    os.utime(path, ns=(10 ** 18, 10 ** 18))
                b = written(path, DOCS[k], enc, pretty, win32, loc)
                got = parse(b)
                if (strip(got) if pretty else got) != norm(DOCS[k]):
                    raise vf.Bad(f"{item}: {DOCS[k]} written over {prev or old!r} reads back as {got}", f"{item}:{k}")
                if prev is not None:
                    touched = os.stat(path).st_mtime_ns != 10 ** 18
                    if touched != (b != prev):
                        raise vf.Bad(f"{item}: writing {'the same' if b == prev else 'another'} document {'touches' if touched else 'does not touch'} the file",
                                     f"{item}:touch")
                    part.count("rewrites_judged")
                prev = b
            del want
    vf.rmtree(os.path.dirname(path))


def job(part, item):
    kind, x = item
    if kind == "hist":
        hist_job(part, x)
    else:
        text_job(part, item)


def main():
    c = vf.Check("C22", "model_checking",
                 "a distinct string (all up to length 4 quick, 5 thorough, over 15 characters) in every text and attribute position of every tree shape, parsed back with "
                 "expat; plus every history of 2 (thorough 3) writes of 6 documents over 6 old contents x encodings x default encodings x line ends, bytes and mtime judged",
                 ["characters XML cannot hold at all are out of scope", "pretty printing is judged only where text and elements are not mixed"])
    items = [("short", s) for s in strings(1)] + [("short", s) for s in strings(2) if len(s) == 2]
    items += [("long", s) for s in strings(2) if len(s) == 2]
    items += [("hist", x) for x in itertools.product(ENCODINGS, (False, True), (False, True), LOCALES)]
    vf.pmap(c, job, items, chunk=4)
    c.sample("['e', {'k': '<\\t\\u65e5'}] in Windows-1252 with default encoding UTF-8")
    return c.finish()


vf.main(main)
