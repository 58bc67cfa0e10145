"""Building the compiler under test from /repo's working tree, and running tools."""
import os, re, resource, shutil, signal, subprocess, glob
from engine import BuildError

REPO = os.environ.get("VERIF_REPO", "/repo")

ENV = {"PATH": "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin", "LC_ALL": "C", "HOME": "/tmp", "TMPDIR": os.environ.get("TMPDIR", "/tmp")}

class R:
    __slots__ = ("rc", "out", "err", "timeout")
    def __init__(self, rc, out, err, timeout=False):
        self.rc, self.out, self.err, self.timeout = rc, out, err, timeout

def limits(cpu, mem, fsize=256 << 20):
    def f():
        os.setsid()
        if cpu:
            resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 1))
        if mem:
            resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        resource.setrlimit(resource.RLIMIT_FSIZE, (fsize, fsize))
    return f

def run(argv, cwd=None, cpu=20, mem=None, wall=None, env=None, stdin=None, binary=False):
    """rc<0: signal. CPU limit decides hangs; the wall limit is only a backstop."""
    p = subprocess.Popen(argv, cwd=cwd, stdin=subprocess.PIPE if stdin is not None else subprocess.DEVNULL, stdout=subprocess.PIPE,
                         stderr=subprocess.PIPE, env=env or ENV, preexec_fn=limits(cpu, mem))
    to = False
    try:
        o, e = p.communicate(stdin, timeout=wall or (cpu or 20) * 6 + 30)
    except subprocess.TimeoutExpired:
        to = True
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        o, e = p.communicate()
    if p.returncode in (-signal.SIGXCPU, -signal.SIGKILL):
        to = True
    if not binary:
        o, e = o.decode("utf-8", "replace"), e.decode("utf-8", "replace")
    return R(p.returncode, o, e, to)

def config_text():
    """What /opt/vp/build.sh makes of config.def.h, with absolute include paths."""
    t = open(os.path.join(REPO, "config.def.h")).read()
    t = t.replace('\t"/usr/include/",', '\t"/usr/include/",\n\t"/usr/include/x86_64-linux-gnu/",')
    t = re.sub(r'"include/linux/?"', '"%s/include/linux/"' % REPO, t)
    return t

def sources(src=None):
    src = src or os.path.join(REPO, "src")
    return sorted(glob.glob(src + "/*.c") + glob.glob(src + "/*/*.c"))

def build(work, name="cc", flags=("-O1", "-g"), cc="gcc", extra=(), config=None):
    """Compiles /repo/src out of tree into work/name; returns the path."""
    d = os.path.join(work, name + ".obj")
    os.makedirs(d)
    cfg = os.path.join(d, "config.h")
    open(cfg, "w").write(config or config_text())
    src = os.path.join(REPO, "src")
    jobs = []
    for s in sources(src):
        o = os.path.join(d, os.path.relpath(s, src).replace("/", "_")[:-2] + ".o")
        jobs.append((s, o))
    mk = os.path.join(d, "mk")
    with open(mk, "w") as f:
        f.write("all: %s\n\t@%s %s -o %s %s\n" % (" ".join(o for _, o in jobs), cc, " ".join(flags), os.path.join(work, name), " ".join(o for _, o in jobs)))
        for s, o in jobs:
            f.write("%s: %s\n\t@%s %s %s -w -I%s -I%s -DCONFIG_PATH='\"%s\"' -c %s -o %s\n" % (o, s, cc, " ".join(flags), " ".join(extra), src, d, cfg, s, o))
    r = run(["make", "-j8", "-f", mk, "all"], cpu=300, wall=600)
    if r.rc != 0:
        raise BuildError((r.out + r.err)[-3000:])
    shutil.rmtree(d)
    return os.path.join(work, name)

def build_gen2(work, cc1, name="cc2"):
    """The compiler compiled by the compiler under test (cc1)."""
    d = os.path.join(work, name + ".obj")
    os.makedirs(d)
    cfg = os.path.join(d, "config.h")
    open(cfg, "w").write(config_text())
    src = os.path.join(REPO, "src")
    mk = os.path.join(d, "mk")
    jobs = []
    for s in sources(src):
        o = os.path.join(d, os.path.relpath(s, src).replace("/", "_")[:-2] + ".o")
        jobs.append((s, o))
    with open(mk, "w") as f:
        f.write("all: %s\n\t@gcc -no-pie -w -o %s %s\n" % (" ".join(o for _, o in jobs), os.path.join(work, name), " ".join(o for _, o in jobs)))
        for s, o in jobs:
            f.write("%s: %s\n\t@%s -I%s -I%s -DCONFIG_PATH='\"%s\"' -c %s -o %s\n" % (o, s, cc1, src, d, cfg, s, o))
    r = run(["make", "-j8", "-f", mk, "all"], cpu=300, wall=600, cwd=REPO)
    if r.rc != 0:
        return None, (r.out + r.err)[-3000:]
    shutil.rmtree(d)
    return os.path.join(work, name), None
