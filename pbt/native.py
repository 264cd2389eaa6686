"""Builds the compiled extensions from the repository's current sources and runs cases in processes that use them.

Two variants: "c" compiles the C files committed in the repository (what the project's setup scripts install);
"pyx" first translates the .pyx files, core_common.py (with core_common.pxd) and matmul.py with Cython.
Everything is written below build/ (ignored by git), keyed by the sources.
"""
import os, sys, json, glob, hashlib, shutil, subprocess, fcntl, select, time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("PBT_REPO", "/repo")
NAMES = ("matmul", "core_common", "eps_maps_c", "tdvp_calc_C", "allclose")
PURE = ("matmul", "core_common")
VARIANTS = ("c", "pyx")

HELPER = r"""
#define PY_SSIZE_T_CLEAN
#include <Python.h>
#include <stdlib.h>
#include <complex.h>
#include <string.h>
#include <omp.h>
static double _Complex *table = 0; static int Q1, Q2; static long calls;
static double _Complex h(int s, int t, int u, int v) { calls++; return table[((s * Q2 + t) * Q1 + u) * Q2 + v]; }
static PyObject *set_table(PyObject *self, PyObject *args)
{
    const char *b; Py_ssize_t n;
    if (!PyArg_ParseTuple(args, "y#ii", &b, &n, &Q1, &Q2)) return 0;
    free(table); table = malloc(n + 16); memcpy(table, b, n); calls = 0;
    Py_RETURN_NONE;
}
static PyObject *capsule(PyObject *self, PyObject *args) { return PyCapsule_New((void *)h, "h_nn", 0); }
static PyObject *threads(PyObject *self, PyObject *args)
{
    int n; if (!PyArg_ParseTuple(args, "i", &n)) return 0;
    omp_set_dynamic(0); omp_set_num_threads(n); Py_RETURN_NONE;
}
static PyMethodDef M[] = {{"set_table", set_table, METH_VARARGS, ""}, {"capsule", capsule, METH_NOARGS, ""},
                          {"threads", threads, METH_VARARGS, ""}, {0}};
static struct PyModuleDef D = {PyModuleDef_HEAD_INIT, "pbt_helper", 0, -1, M};
PyMODINIT_FUNC PyInit_pbt_helper(void) { return PyModule_Create(&D); }
"""


class BuildError(Exception):
    pass


def _sources():
    d = os.path.join(REPO, "evoMPS")
    fs = [os.path.join(d, n + e) for n in NAMES for e in (".c", ".pyx", ".pxd")] + [os.path.join(d, n + ".py") for n in PURE]
    return sorted(f for f in fs if os.path.exists(f))


def _run(jobs):
    ps = [(c, subprocess.Popen(c, cwd=w, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)) for c, w in jobs]
    for c, p in ps:
        out = p.communicate()[0]
        if p.returncode:
            for _, o in ps:
                o.poll() is None and o.kill()
            raise BuildError("%s: %s" % (" ".join(c[-3:]), out.decode(errors="replace")[-1500:]))


def build():
    """-> directory with one overlay of the package per variant; builds it if the sources changed."""
    import sysconfig, numpy
    h = hashlib.sha256((os.path.realpath(REPO) + HELPER).encode())
    h.update(repr(sorted(os.listdir(os.path.join(REPO, "evoMPS")))).encode())
    for f in _sources() + [os.path.abspath(__file__)]:
        h.update(os.path.basename(f).encode())
        h.update(open(f, "rb").read())
    top = os.path.join(ROOT, "build")
    os.makedirs(top, exist_ok=True)
    dest = os.path.join(top, "native-" + h.hexdigest()[:16])
    with open(os.path.join(top, "lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        if os.path.exists(os.path.join(dest, "ok")):
            return dest
        for old in sorted(glob.glob(os.path.join(top, "native-*")), key=os.path.getmtime)[:-3]:
            shutil.rmtree(old, ignore_errors=True)
        shutil.rmtree(dest, ignore_errors=True)
        src = os.path.join(dest, "src")
        os.makedirs(os.path.join(src, "evoMPS"))
        for f in glob.glob(os.path.join(REPO, "evoMPS", "*.p*")):
            if f.endswith((".py", ".pyx", ".pxd")):
                shutil.copy(f, os.path.join(src, "evoMPS"))
        tr = os.path.join(dest, "translated")
        os.makedirs(tr)
        jobs = [([sys.executable, "-m", "cython", "-w", src, "evoMPS/%s.%s" % (n, "py" if n in PURE else "pyx"),
                  "-o", os.path.join(tr, n + ".c")], src) for n in NAMES]
        _run(jobs)
        suf = sysconfig.get_config_var("EXT_SUFFIX")
        inc = ["-I" + sysconfig.get_paths()["include"], "-I" + numpy.get_include()]
        with open(os.path.join(dest, "pbt_helper.c"), "w") as f:
            f.write(HELPER)
        jobs = []
        for v in VARIANTS:
            ov = os.path.join(dest, v, "evoMPS")
            os.makedirs(ov)
            for f in glob.glob(os.path.join(REPO, "evoMPS", "*.py")):
                os.symlink(os.path.realpath(f), os.path.join(ov, os.path.basename(f)))
            for n in NAMES:
                c = os.path.join(REPO, "evoMPS", n + ".c") if v == "c" else os.path.join(tr, n + ".c")
                jobs.append((["gcc", "-O1", "-w", "-fPIC", "-shared", "-fopenmp", "-fwrapv"] + inc + ["-o", os.path.join(ov, n + suf), c], dest))
        jobs.append((["gcc", "-O1", "-w", "-fPIC", "-shared", "-fopenmp"] + inc + ["-o", os.path.join(dest, "pbt_helper" + suf),
                      os.path.join(dest, "pbt_helper.c")], dest))
        _run(jobs)
        shutil.rmtree(src)
        shutil.rmtree(tr)
        with open(os.path.join(dest, "ok"), "w") as f:
            f.write("built")
    return dest


class Server(object):
    """A process that imports the compiled package and runs one case at a time."""

    def __init__(self, variant):
        dest = build()
        e = dict(os.environ)
        e["PYTHONPATH"] = os.pathsep.join([os.path.join(dest, variant), dest, ROOT])
        e.pop("PBT_SHOW", None)
        self.p = subprocess.Popen([sys.executable, "-m", "pbt.worker", "serve"], cwd=ROOT, env=e, stdin=subprocess.PIPE,
                                  stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)

    def ask(self, req, timeout):
        """-> reply, or None when the process died or hung"""
        try:
            self.p.stdin.write((json.dumps(req) + "\n").encode())
            self.p.stdin.flush()
        except (IOError, OSError):
            return None
        if not select.select([self.p.stdout], [], [], timeout)[0]:
            self.close()
            return None
        line = self.p.stdout.readline()
        return json.loads(line.decode()) if line.strip() else None

    def close(self):
        self.p.kill()
        self.p.wait()


_servers = {}


def ask(variant, req, timeout=150):
    s = _servers.get(variant)
    if s is None:
        s = _servers[variant] = Server(variant)
    r = s.ask(req, timeout)
    if r is None:
        s.close()
        rc = s.p.returncode
        del _servers[variant]
        return dict(status="died", message="the process using the compiled extensions died or hung (exit status %s)" % rc, worst={})
    return r
