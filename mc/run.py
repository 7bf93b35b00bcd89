"""Runs the real oclint executable in a scratch install tree and collects what it reports."""
import atexit, json, os, shutil, subprocess, tempfile


class RunError(Exception):
    pass


_scratch = tempfile.mkdtemp(prefix="oclv-")       # one directory per check run, workers (forked) included
_owner = os.getpid()


def _clean():
    if os.getpid() == _owner:
        shutil.rmtree(_scratch, ignore_errors=True)


atexit.register(_clean)


class Inst:
    """A scratch installation: bin/oclint, lib/oclint/{rules,reporters}, etc/.  Removed on close."""

    def __init__(self, tree, rules=None, reporters=("MCRawReporter",)):
        self.tree = tree
        self.root = tempfile.mkdtemp(prefix="i", dir=_scratch)
        self.home = self.root + "/home"
        self.etc = self.root + "/inst/etc"
        self.exe = self.root + "/inst/bin/oclint"
        for d in ("/inst/bin", "/inst/lib/oclint/rules", "/inst/lib/oclint/reporters", "/inst/etc", "/home", "/work"):
            os.makedirs(self.root + d)
        os.symlink(tree.exe, self.exe)
        self.rules_dir = self.root + "/inst/lib/oclint/rules"
        self.reporters_dir = self.root + "/inst/lib/oclint/reporters"
        for name, so in tree.rules.items():
            if rules is None or name in rules:
                os.symlink(so, f"{self.rules_dir}/{os.path.basename(so)}")
        for name, so in {**tree.reporters, **tree.extra}.items():
            if reporters is None and name.endswith("Reporter") or reporters and name in reporters:
                os.symlink(so, f"{self.reporters_dir}/{os.path.basename(so)}")
        for name, so in tree.extra.items():
            if name.endswith("Rule") and (rules is None or name in rules):
                os.symlink(so, f"{self.rules_dir}/{os.path.basename(so)}")
        self.n = 0

    def close(self):
        shutil.rmtree(self.root, ignore_errors=True)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def env(self, **kw):
        e = {"PATH": "/usr/bin:/bin", "HOME": self.home, "LANG": "C", "TZ": "UTC"}
        e.update(kw)
        return {k: v for k, v in e.items() if v is not None}

    def workdir(self):
        self.n += 1
        d = f"{self.root}/work/{os.getpid()}-{self.n}"
        os.makedirs(d)
        return d

    def exec(self, args, cwd, env=None, timeout=120, stdout=None, **kw):
        p = subprocess.run([self.exe, *args], cwd=cwd, env=env or self.env(), stdin=subprocess.DEVNULL,
                           stdout=stdout or subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, **kw)
        return p

    def lint(self, files, opts=(), clang=(), order=None, timeout=60, keep=False, lang_ok=True):
        """files: {name: text}; analyses `order` (default: all) with a fixed compile command. Returns (report dict, process)."""
        d = self.workdir()
        try:
            for n, t in files.items():
                p = os.path.join(d, n)
                os.makedirs(os.path.dirname(p), exist_ok=True)
                with open(p, "wb") as f:
                    f.write(t if isinstance(t, bytes) else t.encode())
            names = list(order if order is not None else files)
            p = self.exec(["-report-type", "mcraw", "-max-priority-1=999999", "-max-priority-2=999999",
                           "-max-priority-3=999999", *opts, *names, "--", "-w", "-fsyntax-only", *clang], d, timeout=timeout)
            if p.returncode not in (0, 6):
                raise RunError(f"oclint exit {p.returncode}\n{p.stderr[-2000:].decode(errors='replace')}\n{p.stdout[-500:]}")
            r = json.loads(p.stdout)
            r["rc"] = p.returncode
            pre = d + "/"
            for k in ("v", "e", "w", "b"):
                for v in r[k]:
                    if v[3].startswith(pre):
                        v[3] = v[3][len(pre):]
            return r
        finally:
            if not keep:
                shutil.rmtree(d, ignore_errors=True)
