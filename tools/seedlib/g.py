"""Demonstration helper: runs the gyp of the current directory's checkout on a project in a scratch directory."""
import atexit, os, pickle, pprint, shutil, subprocess, sys, tempfile

REPO = os.getcwd()
TMP = tempfile.mkdtemp(prefix="demo")
atexit.register(shutil.rmtree, TMP, True)
GEN = '''
import pickle, os, gyp.common
generator_default_variables = {"OS": "linux", "EXECUTABLE_PREFIX": "", "EXECUTABLE_SUFFIX": "", "STATIC_LIB_PREFIX": "lib",
 "STATIC_LIB_SUFFIX": ".a", "SHARED_LIB_PREFIX": "lib", "SHARED_LIB_SUFFIX": ".so", "INTERMEDIATE_DIR": "$(obj)/int",
 "SHARED_INTERMEDIATE_DIR": "$(obj)/gen", "PRODUCT_DIR": "$(prod)", "LIB_DIR": "$(lib)", "SHARED_LIB_DIR": "$(slib)", "RULE_INPUT_ROOT": "$(root)",
 "RULE_INPUT_DIRNAME": "$(dir)", "RULE_INPUT_PATH": "$(path)", "RULE_INPUT_EXT": "$(ext)", "RULE_INPUT_NAME": "$(name)", "CONFIGURATION_NAME": "$(conf)",
 "LINKER_SUPPORTS_ICF": 0}
generator_wants_static_library_dependencies_adjusted = True
def GenerateOutput(target_list, target_dicts, data, params):
    with open(os.environ["DEMO_OUT"], "wb") as f:
        pickle.dump((target_list, target_dicts, data), f)
'''


class R:
    pass


def run(files, args=("a.gyp",), fmt=None, env=None, cwd=None, timeout=60, flags=("--no-parallel", "--depth=.")):
    d = cwd or tempfile.mkdtemp(dir=TMP)
    for n, c in files.items():
        p = os.path.join(d, n)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "w") as f:
            f.write(c if isinstance(c, str) else pprint.pformat(c, sort_dicts=False))
    gen = os.path.join(TMP, "demogen.py")
    with open(gen, "w") as f:
        f.write(GEN)
    out = os.path.join(TMP, "out.pickle")
    if os.path.exists(out):
        os.unlink(out)
    e = dict(os.environ, DEMO_OUT=out, PYTHONDONTWRITEBYTECODE="1", PYTHONPATH=os.path.join(REPO, "gyp", "pylib"))
    e.update(env or {})
    p = subprocess.run([sys.executable, os.path.join(REPO, "gyp", "gyp_main.py"), *flags, "-f", fmt or gen, *args],
                       cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    r = R()
    r.rc, r.out, r.dir = p.returncode, p.stdout.decode("utf-8", "replace"), d
    r.flat = r.targets = r.data = None
    if os.path.exists(out):
        with open(out, "rb") as f:
            r.flat, r.targets, r.data = pickle.load(f)
    return r


def expect(cond, *what):
    if not cond:
        print("FAIL", *what)
        sys.exit(1)
