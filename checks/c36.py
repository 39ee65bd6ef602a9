"""C36: Visual Studio discovery over every set of installations within the bounds, on the real finder, against an independent selector."""
import itertools
import ntpath
import os
import re
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import nodelab  # noqa: E402
import vf  # noqa: E402

C = "Microsoft.VisualStudio.Component."
TOOLS = {"x64": [C + "VC.Tools.x86.x64"], "arm64": [C + "VC.Tools.ARM64"], "both": [C + "VC.Tools.ARM64", C + "VC.Tools.x86.x64"], "express": ["Microsoft.VisualStudio.WDExpress"], "none": [C + "VC.Tools.ARM"]}
SDKS = {"10": ([C + "Windows10SDK.17763"], "10.0.17763.0"), "11": ([C + "Windows11SDK.22621"], "10.0.22621.0"),
        "several": ([C + "Windows10SDK.19041", C + "Windows11SDK.22000", C + "Windows10SDK.9999", C + "Windows81SDK"], "10.0.22000.0"), "desktop": ([C + "Windows10SDK.16299.Desktop"], "10.0.16299.0"),
        "uwp": ([C + "Windows10SDK.16299.UWP", C + "Windows10SDK.IpOverUsb"], None), "uwp higher": ([C + "Windows10SDK.99999.UWP", C + "Windows10SDK.17134"], "10.0.17134.0"),
        "8.1": ([C + "Windows81SDK"], "8.1"), "none": ([C + "Windows10SDKx"], None)}
BASE = "Microsoft.VisualStudio.VC.MSBuild.Base"
CUR, ARM = "MSBuild\\Current\\Bin\\MSBuild.exe", "MSBuild\\Current\\Bin\\arm64\\MSBuild.exe"
MSB = {"package": ([BASE], []), "file": ([], [CUR]), "both files": ([], [CUR, ARM]), "both": ([BASE], [CUR, ARM]), "none": ([], [])}
VERSIONS = {"15.9.28307.665": 2017, "16.11.33423.256": 2019, "17.8.34330.188": 2022, "17.2.32505.173": 2022, "18.0.11111.1": None, "14.0.25420.1": None, "nonsense": None}
PATHS = ["C:\\VS\\One", "D:\\Program Files (x86)\\Microsoft Visual Studio\\Two"]
TOOLSET = {2013: "v120", 2015: "v140", 2017: "v141", 2019: "v142", 2022: "v143"}
OLD = {"14.0": (2015, "C:\\Old14\\VC\\", "C:\\MSB\\14.0\\bin"), "12.0": (2013, "C:\\Old12\\VC", "C:\\MSB\\12.0\\bin\\")}


def inst(path, version, msb, tools, sdk):
    return {"path": path, "version": version, "msb": msb, "tools": tools, "sdk": sdk,
            "packages": MSB[msb][0] + ["Other.Package"] + TOOLS[tools] + SDKS[sdk][0], "exists": MSB[msb][1]}


def judge(i, arch):
    """(year, {acceptable msbuild}, toolset, sdk) of a usable installation, else None."""
    year = VERSIONS.get(i["version"])
    if not year:
        return None
    t = i["tools"]
    if not (t in ("x64", "both", "express") or (t == "arm64" and arch == "arm64")):
        return None
    sdk = SDKS[i["sdk"]][1]
    if sdk is None:
        return None
    pkg, files = BASE in i["packages"], i["exists"]
    if year == 2017 and pkg:
        ms = "MSBuild\\15.0\\Bin\\MSBuild.exe"
    elif arch == "arm64" and ARM in files:
        ms = ARM
    elif CUR in files or (pkg and year == 2019):
        ms = CUR
    else:
        return None
    return year, i["path"] + "\\" + ms, TOOLSET[year], sdk


def norm(p):
    return ntpath.normpath(p).lower()


def expect(x):
    """Acceptable results, newest year first by set: [] when nothing may be found."""
    arch, req, node = x["arch"], x["request"], x["node"]
    prompt = x["env"].get("VCINSTALLDIR")
    prompt = norm(prompt + "\\..") if prompt else None

    def fits(year, path):
        if req and re.fullmatch(r"\d{4}", req):
            if int(req) != year:
                return False
        elif req and norm(req) != norm(path):
            return False
        if prompt and norm(path) != prompt:
            return False
        return not (year == 2017 and node >= 22) and not (year == 2015 and node >= 19) and not (year == 2013 and node >= 9)
    out = []
    listed = x["powershell"] == "works"
    for i in x["machine"]:
        if prompt and norm(i["path"]) == prompt and "VSCMD_VER" in x["env"]:
            # what the prompt says of itself is believed
            m = re.match(r"(\d+)\.(\d+)\.(\d+)\.", x["env"].get("WindowsSDKVersion", ""))
            year = VERSIONS.get(x["env"]["VSCMD_VER"])
            if m and year and fits(year, i["path"]):
                j = judge(dict(i, packages=i["packages"] + [BASE], tools="both", version=x["env"]["VSCMD_VER"], sdk="10"), arch)
                if j:
                    out.append((j[0], i["path"], x["env"]["VSCMD_VER"], j[1], j[2], f"10.0.{m.group(3)}.0"))
        if listed or (x["vssetup"] and x["powershell"] != "broken"):
            j = judge(i, arch)
            if j and fits(j[0], i["path"]):
                out.append((j[0], i["path"], i["version"], j[1], j[2], j[3]))
    for v, (year, vc, ms) in OLD.items():
        o = x["old"].get(v)
        if o and o["msbuild"]:
            path = ntpath.normpath(vc + "\\..")
            if fits(year, path):
                out.append((year, path, v, ntpath.join(ntpath.normpath(ms), "MSBuild.exe"), TOOLSET[year], None))
    top = max((o[0] for o in out), default=None)
    return [o for o in out if o[0] == top]


def cases():
    both = {v: {"vc": vc, "msbuild": ms, "in": 32} for v, (_, vc, ms) in OLD.items()}
    olds = [{}, {"14.0": both["14.0"]}, {"12.0": both["12.0"]}, both, {"14.0": dict(both["14.0"], msbuild=None), "12.0": both["12.0"]}]

    def case(machine, **kw):
        x = {"machine": machine, "old": {}, "vssetup": False, "powershell": "works", "node": 20, "request": None, "env": {}, "arch": "x64"}
        x.update(kw)
        return x
    # one installation of every kind
    for v, m, t, s in itertools.product(VERSIONS, MSB, TOOLS, SDKS):
        i = inst(PATHS[1], v, m, t, s)
        for setup, arch in itertools.product((False, True), ("x64", "arm64")):
            yield case([i], vssetup=setup, arch=arch)
        # its own command prompt, with and without what the prompt tells
        if s in ("10", "none"):
            for sdk, ver, setup, node in itertools.product((None, "10.0.19041.0\\"), (None, v), (False, True), (20, 22)):
                env = {"VCINSTALLDIR": PATHS[1] + "\\VC\\"}
                if sdk:
                    env["WindowsSDKVersion"] = sdk
                if ver:
                    env["VSCMD_VER"] = ver
                yield case([i], env=env, vssetup=setup, node=node)
    # requests, Node.js versions, old versions in the registry
    good = {v: inst(p, v, "both", "both", "10") for v, p in zip(VERSIONS, PATHS * 4)}
    requests = [None, "2013", "2015", "2017", "2019", "2022", "2023", "15", "2022x", "x2022", "2019.5", PATHS[0], PATHS[1], PATHS[0].upper() + "\\", "C:/VS/One", "C:\\Old14", "c:\\old12\\", "C:\\VS", "C:\\VS\\One\\..\\One", "relative\\dir"]
    nodes = [8, 9, 18, 19, 20, 21, 22, 23, 26]
    for vs in [()] + [(v,) for v in VERSIONS] + list(itertools.permutations(list(VERSIONS)[:5], 2)):
        ms = [dict(good[v], path=PATHS[n]) for n, v in enumerate(vs)]
        for req, node, old in itertools.product(requests, nodes, olds):
            if vf.THOROUGH or len(vs) < 2 or (old in (olds[0], olds[3]) and node in (8, 18, 20, 22)):
                yield case(ms, request=req, node=node, old=old)
                if node in (18, 22) or vf.THOROUGH:
                    yield case(ms, request=req, node=node, old=old, vssetup=True)
                    for n in range(len(ms)):
                        yield case(ms, request=req, node=node, old=old, vssetup=len(vs) == 1, env={"VCINSTALLDIR": PATHS[n] + "\\VC\\", "VSCMD_VER": vs[n], "WindowsSDKVersion": "10.0.19041.0\\"})
                    yield case(ms, request=req, node=node, old=old, env={"VCINSTALLDIR": "E:\\Elsewhere\\VC"})
    for old, node, req in itertools.product(olds, nodes, requests):
        yield case([], old=old, node=node, request=req, env={"VCINSTALLDIR": "C:\\Old14\\VC\\"})
    # where the registry has them
    for arch, a, b, req, node in itertools.product(("x64", "arm64", "ia32"), (None, 32, 64), (None, 32, 64), (None, "2013", "2015"), (8, 18)):
        yield case([], arch=arch, node=node, request=req, old={v: dict(both[v], **{"in": w}) for v, w in zip(both, (a, b)) if w})
    # PowerShell does not help
    for ps, v, setup, old, req in itertools.product(("broken", "garbage", "object"), VERSIONS, (False, True), olds, (None, "2022", "2015")):
        yield case([good[v]], powershell=ps, vssetup=setup, old=old, node=8, request=req)
        yield case([good[v]], powershell=ps, vssetup=setup, old=old, node=20, request=req, env={"VCINSTALLDIR": good[v]["path"] + "\\VC", "VSCMD_VER": v, "WindowsSDKVersion": "10.0.19041.0"})
    # two installations, complete or not
    some_m, some_t, some_s = ["both", "none"], ["both", "none"], ["10", "uwp"]
    if vf.THOROUGH:
        some_m, some_t, some_s = ["both", "package", "file", "none"], ["both", "express", "none"], ["10", "8.1", "uwp"]
    kinds = [dict(zip(("msb", "tools", "sdk"), k)) for k in itertools.product(some_m, some_t, some_s)]
    for (v1, v2), k1, k2, setup, node, req in itertools.product(itertools.product(list(VERSIONS)[:5], repeat=2), kinds, kinds, (False, True), (20, 22), (None, "2019", PATHS[1])):
        yield case([inst(PATHS[0], v1, **k1), inst(PATHS[1], v2, **k2)], vssetup=setup, node=node, request=req)
    # three complete ones in every order
    for vs in itertools.permutations(list(VERSIONS)[:4], 3):
        for broken in itertools.product((False, True), repeat=3):
            ms = [inst(f"C:\\VS{n}", v, "both", "none" if b else "both", "10") for n, (v, b) in enumerate(zip(vs, broken))]
            for node, setup in itertools.product((20, 22), (False, True)):
                yield case(ms, node=node, vssetup=setup)


def main():
    c = vf.Check("C36", "model_checking",
                 "the real finder on every installation over 7 versions x 5 MSBuild x 5 toolset x 8 SDK states, every ordered pair of them over reduced states, triples, registry states, command prompts, "
                 "18 requests, 9 Node.js versions, with and without VSSetup and PowerShell; the result compared with an independent selector",
                 ["among installations of the same product year any may be chosen", "PowerShell and reg.exe are scripted"])
    todo = list(cases())
    results = nodelab.batch("vs.js", todo)
    for x, r in zip(todo, results):
        c.add()
        want = expect(x)
        told = (f"Node.js {x['node']} on {x['arch']}, request {x['request']}, environment {x['env']}, VSSetup {x['vssetup']}, PowerShell {x['powershell']}, registry {sorted(x['old'])}, installed "
                f"{[(i['path'], i['version'], i['msb'], i['tools'], i['sdk']) for i in x['machine']]}")
        c.seen(told)
        if "error" in r:
            c.violation(f"{told}: {r['error']}", "throws:" + told, case=x, stack=r["stack"])
            continue
        r = r["ok"]
        c.count("found" if "found" in r else "refused")
        if "found" not in r:
            if want:
                c.violation(f"{told}: found nothing, should find {want[0]}", "nothing:" + told, case=x)
            elif not r["text"]:
                c.violation(f"{told}: fails without a report", "silent:" + told, case=x)
            continue
        f = r["found"]
        got = (f["year"], norm(f["path"]), f["version"], norm(f["msBuild"]), f["toolset"], f["sdk"])
        if got not in [(w[0], norm(w[1]), w[2], norm(w[3])) + w[4:] for w in want]:
            c.violation(f"{told}: found {f}, should be {want[:1] or 'an error'}", "found:" + told, case=x)
        elif not f["version"].startswith(f"{f['major']}.{f['minor']}"):
            c.violation(f"{told}: version {f}", "version:" + told, case=x)
        c.sample({"case": told[:300], "found": f["path"], "version": f["version"]})
    return c.finish()


vf.main(main)
