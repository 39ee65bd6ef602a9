"""C02: pathnames keep naming the same file when settings cross files."""
import itertools
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import gypdrv  # noqa: E402
import vf  # noqa: E402

DIRS = [".", "a", "a/b", "c", "../o", "..", "a/b/c"]
SHAPES = ["f.c", "d/f.c", "../f.c", "../../f.c", "./f.c", ".", "..", "d/", "../d/", "d//f.c", "d/../f.c", "a b.c", "7",
          "~x", "f$x.c", "x-y", "x<y", "../../../../f.c", "@f"]
VERBATIM = ["/abs/f.c", "$(V)/f", "-lfoo", "-I../x", '"/abs/x"', "'$(X)/f'", '"-x"', "$f", "/"]
EXPAND = {"<(val)/f": "vv/f", ">(val)/f": "vv/f", "^(val)/f": "vv/f", "<!(echo vv)/f": "vv/f"}

PATHKEYS = ["include_dirs", "x_dir", "x_dirs", "x_file", "x_files", "x_path", "x_paths", "y_dirs+", "z_files=",
            "w_paths?", "inputs", "outputs", "files", "a_b_dirs"]
TEXTKEYS = ["defines", "cflags", "xdir", "xfiles", "dir", "path", "x_dirx", "x_diry", "x_pathy", "x_dirss", "x_filess", "ldflags", "_x", "x_",
            "dirs", "file", "directory", "mydirs", "d_i_r", "x_dir_y", "x_profile", "sourcesx", "xsources"]
TOPKEYS = ["sources", "libraries", "product_dir"]


def payload(shape, top):
    d = {}
    for k in PATHKEYS + TEXTKEYS + (TOPKEYS if top else []):
        base = k.rstrip("=+?")
        if base in ("x_dir", "x_file", "x_path", "product_dir", "x_dirx", "xdir"):
            d[k] = shape
        else:
            d[k] = [shape]
    d["nested"] = {"n_dirs": [shape], "n_text": [shape], "deeper": {"m_path": shape, "m": shape}}
    d["dictlist"] = [{"q_files": [shape], "q": [shape], "destination": shape}]
    if top:
        d["copies"] = [{"destination": shape, "files": [shape]}]
    return d


def walk(obj, want, prefix=()):
    """Yields (is_path, where, value) of a received payload."""
    for k, v in obj.items():
        if isinstance(v, dict):
            yield from walk(v, want, prefix + (k,))
        elif isinstance(v, list) and v and isinstance(v[0], dict):
            for x in v:
                yield from walk(x, want, prefix + (k,))
        else:
            ispath = k in [p.rstrip("=+?") for p in PATHKEYS] or k in TOPKEYS or k in (
                "n_dirs", "m_path", "q_files", "destination", "files")
            for x in v if isinstance(v, list) else [v]:
                yield ispath, prefix + (k,), x, (len(v) if isinstance(v, list) else 1)


def ident(base, path):
    # the case directory is at depth 6, so no '..' chain in the alphabet escapes it
    return os.path.normpath(os.path.join("/r/1/2/3/4/w", base, path))


def check_received(part, where, src_dir, dst_dir, shape, got, top, same_file=False):
    n = 0
    for ispath, key, val, count in walk(got, None):
        n += 1
        tag = f"{where} {shape!r} written in {src_dir}/, received in {dst_dir}/ under {'.'.join(key)}"
        if count != 1:
            part.violation(f"{tag}: {count} items instead of one", f"count:{where}:{src_dir}:{dst_dir}:{shape}:{key}")
        if shape in EXPAND and shape[0] == "<" and where.endswith("_settings") and ispath:
            # expanded before it travels: by then it is a relative path like any other
            if ident(src_dir, EXPAND[shape]) != ident(dst_dir, val):
                part.violation(f"{tag}: {val!r} names another file", f"file:{where}:{src_dir}:{dst_dir}:{shape}:{key}")
        elif shape in EXPAND:
            want = EXPAND[shape]
            if val != want:
                part.violation(f"{tag}: want {want!r}, got {val!r}", f"expand:{where}:{shape}:{key}")
        elif shape in VERBATIM or not ispath:
            if val != shape:
                part.violation(f"{tag}: must be left as written, got {val!r}", f"verbatim:{where}:{src_dir}:{dst_dir}:{shape}:{key}")
        else:
            if not isinstance(val, str) or os.path.isabs(val) or ident(src_dir, shape) != ident(dst_dir, val):
                part.violation(f"{tag}: {val!r} names another file", f"file:{where}:{src_dir}:{dst_dir}:{shape}:{key}")
            elif shape.endswith("/") != val.endswith("/"):
                part.violation(f"{tag}: trailing slash changed: {val!r}", f"slash:{where}:{src_dir}:{dst_dir}:{shape}:{key}")
    need = len(PATHKEYS) + len(TEXTKEYS) + 4 + 3 + (len(TOPKEYS) + 2 if top else 0)
    if n != need:
        part.violation(f"{where} {src_dir}->{dst_dir} {shape!r}: {n} of {need} settings arrived: {got}",
                       f"missing:{where}:{src_dir}:{dst_dir}:{shape}")
    part.add()
    part.count("values_compared", n)
    if src_dir != dst_dir:
        part.seen((where, src_dir, dst_dir, shape))


def collect(r, tgt, top):
    t = r.targets[tgt]
    d = dict(t["configurations"]["Default"])
    if top:
        for k in TOPKEYS + ["copies"]:
            d[k] = t[k]
    return d


def P(d, f):
    return os.path.normpath(os.path.join(d, f))


def rel(to, fro):
    return os.path.relpath("/r/w/" + to, os.path.normpath("/r/w/" + fro)) if not to.startswith("..") and not fro.startswith("..") else None


def relpath(target_dir, from_dir, name):
    return os.path.join(os.path.relpath(os.path.normpath("/r/1/2/3/4/w/" + target_dir), os.path.normpath("/r/1/2/3/4/w/" + from_dir)), name)


def project(part, item):
    kind, S, D, M = item
    shapes = SHAPES + VERBATIM + list(EXPAND)
    files = {}
    base = "1/2/3/4/w"
    if kind == "include":
        tg = []
        for i, sh in enumerate(shapes):
            files[f"{base}/{S}/s{i}.gypi"] = payload(sh, True)
            tg.append({"target_name": f"t{i}", "type": "none", "variables": {"val": "vv"},
                       "includes": [relpath(S, D, f"s{i}.gypi")]})
        files[f"{base}/{D}/d.gyp"] = {"targets": tg}
        top = True
    elif kind == "include2":  # S included by M included by D
        tg = []
        for i, sh in enumerate(shapes):
            files[f"{base}/{S}/s{i}.gypi"] = payload(sh, True)
            files[f"{base}/{M}/m{i}.gypi"] = {"includes": [relpath(S, M, f"s{i}.gypi")]}
            tg.append({"target_name": f"t{i}", "type": "none", "variables": {"val": "vv"},
                       "includes": [relpath(M, D, f"m{i}.gypi")]})
        files[f"{base}/{D}/d.gyp"] = {"targets": tg}
        top = True
    elif kind == "cmdline":
        # -I file: its target_defaults reach every loaded file; one run per shape
        for i, sh in enumerate(shapes):
            fs = {f"{base}/{S}/s.gypi": {"target_defaults": payload(sh, False)},
                  f"{base}/{D}/d.gyp": {"targets": [{"target_name": "t", "type": "none", "variables": {"val": "vv"}}]}}
            r = gypdrv.run(fs, args=["-Dval=vv", "-I", P(S, "s.gypi"), P(D, "d.gyp")], cwd=base)
            if not r.ok:
                part.violation(f"cmdline include {S}->{D} {sh!r}: {r.stderr[-300:]}", f"fail:cmdline:{S}:{D}:{sh}")
                continue
            check_received(part, "cmdline", S, D, sh, collect(r, f"{P(D, 'd.gyp')}:t#target", False), False)
        return
    else:  # dependent settings
        st, dt = [], []
        for i, sh in enumerate(shapes):
            t = {"target_name": f"s{i}", "type": "static_library", kind: payload(sh, False), "variables": {"val": "vv"}}
            st.append(t)
            dt.append({"target_name": f"t{i}", "type": "executable", "variables": {"val": "vv"},
                       "dependencies": [relpath(S, D, "s.gyp") + f":s{i}"]})
        files[f"{base}/{S}/s.gyp"] = {"targets": st}
        files[f"{base}/{D}/d.gyp"] = {"targets": dt}
        top = False
    r = gypdrv.run(files, args=[P(D, "d.gyp")], cwd=base)
    if not r.ok:
        part.violation(f"{item}: gyp failed: {r.stderr[-500:]}", f"fail:{item}")
        return
    for i, sh in enumerate(shapes):
        check_received(part, kind, S, D, sh, collect(r, f"{P(D, 'd.gyp')}:t{i}#target", top), top)
    part.sample({"channel": kind, "from": S, "to": D, "shape": shapes[2],
                 "include_dirs": r.targets[f"{P(D, 'd.gyp')}:t2#target"]["configurations"]["Default"]["include_dirs"]})


def filters(part, item):
    """A '!' list written in another directory removes the same files it names there."""
    S, D, name = item
    base = "1/2/3/4/w"
    mine = relpath(S, D, name)
    files = {f"{base}/{S}/s.gypi": {"sources!": [name], "sources": ["kept.c"], "sources/": [["exclude", "^zz/"]]},
             f"{base}/{D}/d.gyp": {"targets": [{"target_name": "t", "type": "none", "includes": [relpath(S, D, "s.gypi")],
                                                "sources": [os.path.normpath(mine), "own.c", "zz/q.c"]}]}}
    r = gypdrv.run(files, args=[P(D, "d.gyp")], cwd=base)
    part.add()
    part.seen(("filter",) + item)
    if not r.ok:
        part.violation(f"filter {item}: {r.stderr[-300:]}", f"filter:{item}")
        return
    t = r.targets[f"{P(D, 'd.gyp')}:t#target"]
    got = [ident(D, x) for x in t["sources"]]
    want = [ident(D, "own.c"), ident(S, "kept.c")]
    ex = [ident(D, x) for x in t.get("sources_excluded", [])]
    if sorted(got) != sorted(want) or sorted(ex) != sorted([ident(S, name), ident(D, "zz/q.c")]):
        part.violation(f"filter {item}: kept {t['sources']}, excluded {t.get('sources_excluded')}", f"filter:{item}")


def run():
    ck = vf.Check("C02", "exploration",
                  "a case is (channel, source dir, receiving dir, path shape); all path and text sections are compared for each; "
                  "non-trivial when the two directories differ")
    pairs = list(itertools.product(DIRS, DIRS))
    work = [(k, S, D, None) for k in ("include", "direct_dependent_settings", "all_dependent_settings", "link_settings") for S, D in pairs]
    chain = DIRS if vf.THOROUGH else [".", "a", "../o", "a/b"]
    work += [("include2", S, D, M) for S in chain for D in chain for M in chain]
    work += [("cmdline", S, D, None) for S, D in (pairs if vf.THOROUGH else itertools.product([".", "a", "../o"], [".", "a/b", "c", ".."]))]
    vf.pmap(ck, project, work, chunk=4)
    vf.pmap(ck, filters, [(S, D, n) for S, D in pairs for n in ("f.c", "d/f.c", "../f.c")], chunk=10)
    return ck.finish()


if __name__ == "__main__":
    vf.main(run)
