"""Every sequence of up to four (thorough five) commits, light and annotated tags, branches and detachments in a scratch git
repository, with every kind of working tree, plus archives, release directories, written version files, trees without history or
without git; the shipped _version.py and the build-time versioneer.py asked in each. Every combination of rendered pieces and style,
and every small set of archive reference names, against an independent reading of the documented formats."""
import importlib.util
import itertools
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile

REPO = "/repo"
PEP440 = re.compile(r"^v?(\d+!)?\d+(\.\d+)*([-_.]?(a|b|c|rc|alpha|beta|pre|preview)[-_.]?\d*)?((-\d+)|([-_.]?(post|rev|r)[-_.]?\d*))?([-_.]?dev[-_.]?\d*)?(\+[a-z0-9]+([-_.][a-z0-9]+)*)?$", re.I)
STYLES = [None, "default", "pep440", "pep440-branch", "pep440-pre", "pep440-post", "pep440-post-branch", "pep440-old", "git-describe", "git-describe-long"]
TREES = ["clean", "modified", "staged", "deleted", "untracked"]


def cases(tier):
    for s in STYLES:
        yield {"id": "render/%s" % s, "kind": "render", "style": s}
    yield {"id": "keywords", "kind": "keywords", "depth": 3 if tier == "quick" else 4}
    n = 4 if tier == "quick" else 5
    ops = ["commit", "tag", "atag", "branch"] + (["detach", "merge"] if tier != "quick" else ["detach"])
    for first in itertools.product(ops, repeat=2):
        yield {"id": "git/" + "-".join(first), "kind": "git", "first": first, "ops": ops, "depth": n, "trees": TREES, "cost": 9}
    yield {"id": "git/short", "kind": "git", "first": None, "ops": ops, "depth": 1, "trees": TREES, "cost": 3}
    yield {"id": "directories", "kind": "dirs"}
    yield {"id": "archives", "kind": "archives", "cost": 3}
    yield {"id": "installed", "kind": "installed"}
    for seq in ([], ["tag"], ["tag", "commit"]):
        for tree in ("clean", "modified"):
            yield {"id": "built/%s/%s" % ("-".join(seq), tree), "kind": "built", "seq": seq, "tree": tree, "cost": 6}


def load(path, name):
    spec = importlib.util.spec_from_file_location(name, path)
    m = importlib.util.module_from_spec(spec)
    sys.modules[name] = m
    try:
        spec.loader.exec_module(m)
    finally:
        sys.modules.pop(name, None)
    return m


def both():
    return [("_version.py", load(REPO + "/pyrichlet/_version.py", "shipped_version")), ("versioneer.py", load(REPO + "/versioneer.py", "build_versioneer"))]


# ------------------------------------------------------------------ documented formats
def expected(style, tag, distance, dirty, branch, short):
    """the format each style documents"""
    style = style or "default"
    plus = "." if tag and "+" in tag else "+"
    changed = distance or dirty
    other = branch != "master"
    if style in ("default", "pep440"):
        if tag is None:
            return "0+untagged.%d.g%s%s" % (distance, short, ".dirty" if dirty else "")
        return tag + ("%s%d.g%s%s" % (plus, distance, short, ".dirty" if dirty else "") if changed else "")
    if style == "pep440-branch":
        if tag is None:
            return "0%s+untagged.%d.g%s%s" % (".dev0" if other else "", distance, short, ".dirty" if dirty else "")
        return tag + ("%s%s%d.g%s%s" % (".dev0" if other else "", plus, distance, short, ".dirty" if dirty else "") if changed else "")
    if style == "pep440-pre":
        if tag is None:
            return "0.post0.dev%d" % distance
        if not distance:
            return tag
        m = re.match(r"^(.*)\.post(\d*)$", tag)
        return "%s.post%d.dev%d" % (m.group(1), int(m.group(2) or 0) + 1, distance) if m else "%s.post0.dev%d" % (tag, distance)
    if style == "pep440-post":
        if tag is None:
            return "0.post%d%s+g%s" % (distance, ".dev0" if dirty else "", short)
        return tag + (".post%d%s%sg%s" % (distance, ".dev0" if dirty else "", plus, short) if changed else "")
    if style == "pep440-post-branch":
        if tag is None:
            return "0.post%d%s+g%s%s" % (distance, ".dev0" if other else "", short, ".dirty" if dirty else "")
        return tag + (".post%d%s%sg%s%s" % (distance, ".dev0" if other else "", plus, short, ".dirty" if dirty else "") if changed else "")
    if style == "pep440-old":
        if tag is None:
            return "0.post%d%s" % (distance, ".dev0" if dirty else "")
        return tag + (".post%d%s" % (distance, ".dev0" if dirty else "") if changed else "")
    tail = "-dirty" if dirty else ""
    if tag is None:
        return short + tail
    if style == "git-describe":
        return tag + ("-%d-g%s" % (distance, short) if distance else "") + tail
    return tag + "-%d-g%s" % (distance, short) + tail


def render(case, ctx):
    style = case["style"]
    for name, m in both():
        for tag, distance, dirty, branch, short in itertools.product([None, "0.1", "1.0.2", "2.0rc1", "0.9a1", "v1.0", "1.0+local", "1.2.post3", "1.2.post", "2021.4.1"], [0, 1, 2, 12], [False, True],
                                                                     ["master", "main", None, "feature-1"], ["abc1234", "0123456", "1234567890"]):
            pieces = {"long": short + "f" * 33, "short": short, "error": None, "branch": branch, "dirty": dirty, "closest-tag": tag, "distance": distance, "date": "2020-01-01T00:00:00+0000"}
            before = dict(pieces)
            got = m.render(pieces, style)
            ctx.ops += 1
            what = "%s render(%s, %r)" % (name, before, style)
            want = {"version": expected(style, tag, distance, dirty, branch, short), "full-revisionid": before["long"], "dirty": dirty, "error": None, "date": before["date"]}
            ctx.check(got == want, "render", lambda: "%s = %s, documented %s" % (what, got, want))
            # one post segment and no local part in the middle: what the style can do with any tag
            if "git" not in str(style) and not (tag and "post" in tag and "-p" in str(style)) and not (tag and "+" in tag and "-" in str(style)) and not (tag and "post" in tag and style == "pep440-old"):
                ctx.check(PEP440.match(got["version"]), "pep440", lambda: "%s = %r is not a PEP 440 version" % (what, got["version"]))
            ctx.state(name, got["version"])
        for err in ("unable to parse", "x"):
            r = m.render({"long": "f" * 40, "error": err}, style)
            ctx.check(r["error"] == err and r["full-revisionid"] == "f" * 40 and isinstance(r["version"], str), "error", lambda: "%s render of an error gives %s" % (name, r))
        try:
            m.render({"long": "f" * 40, "short": "f", "error": None, "branch": None, "dirty": False, "closest-tag": None, "distance": 0}, "no-such-style")
            ctx.fail("style", "%s renders an unknown style" % name)
        except ValueError:
            pass
        ctx.execs += 1


def keywords(case, ctx):
    refs = ["HEAD -> master", "master", "origin/release-3", "tag: 1.0", "tag: 1.0rc1", "tag: 2.0", "tag: foo", "1.5", "tag: v3"]
    mods = both()
    for n in range(0, case["depth"] + 1):
        for sub in itertools.permutations(refs, n):
            for fmt in (" (%s)", "%s", "(%s) "):
                kw = {"refnames": fmt % ", ".join(sub), "full": " " + "ab" * 20 + " ", "date": "2020-01-02 03:04:05 +0200"}
                tags = {r[5:] for r in sub if r.startswith("tag: ")} or {r for r in sub if re.search(r"\d", r)}
                good = {t for t in tags if re.match(r"\d", t)}
                outs = []
                for name, m in mods:
                    got = m.git_versions_from_keywords(dict(kw), "", False)
                    ctx.ops += 1
                    outs.append(got)
                    what = "%s keywords %r" % (name, kw["refnames"])
                    ctx.check(got["full-revisionid"] == "ab" * 20 and got["dirty"] is False, "keywords", lambda: "%s give %s" % (what, got))
                    if good:
                        v = got["version"]
                        ctx.check(v in good and got["error"] is None and got["date"] == "2020-01-02T03:04:05+0200", "keywords", lambda: "%s give %s, tags %s" % (what, got, good))
                        ctx.check(not (v == "1.0rc1" and "1.0" in good), "keywords", lambda: "%s give the release candidate of a release" % what)
                    else:
                        ctx.check(got["version"] == "0+unknown" and got["error"], "keywords", lambda: "%s give %s without a version tag" % (what, got))
                ctx.check(outs[0] == outs[1], "copies", lambda: "the copies disagree on %s: %s" % (kw, outs))
                ctx.state(tuple(sorted(good)), n)
    for name, m in mods:
        for kw in ({}, {"refnames": "$Format:%d$", "full": "$Format:%H$", "date": "$Format:%ci$"}):
            try:
                m.git_versions_from_keywords(kw, "", False)
                ctx.fail("keywords", "%s takes %s for an archive" % (name, kw))
            except m.NotThisMethod:
                pass
    ctx.execs += 1


# ------------------------------------------------------------------ trees on disk
ENV = {"GIT_CONFIG_NOSYSTEM": "1", "GIT_CONFIG_GLOBAL": "/dev/null", "GIT_AUTHOR_NAME": "a", "GIT_AUTHOR_EMAIL": "a@b", "GIT_COMMITTER_NAME": "a", "GIT_COMMITTER_EMAIL": "a@b",
       "GIT_AUTHOR_DATE": "2020-01-02T03:04:05+0200", "GIT_COMMITTER_DATE": "2020-01-02T03:04:05+0200", "LC_ALL": "C", "GIT_TERMINAL_PROMPT": "0"}


class Scratch:
    def __enter__(self):
        self.base = tempfile.mkdtemp(prefix="mc-u05-")
        self.old = dict(os.environ), os.getcwd()
        for k in [k for k in os.environ if k.startswith("GIT_")]:
            del os.environ[k]
        os.environ.update(ENV, GIT_CEILING_DIRECTORIES=self.base)
        return self.base

    def __exit__(self, *a):
        os.chdir(self.old[1])
        os.environ.clear()
        os.environ.update(self.old[0])
        shutil.rmtree(self.base, ignore_errors=True)


def lay(root):
    os.makedirs(root + "/pyrichlet")
    for f in ("setup.cfg", "setup.py", "versioneer.py", "pyrichlet/_version.py", ".gitattributes"):
        shutil.copy(os.path.join(REPO, f), os.path.join(root, f))
    open(root + "/pyrichlet/__init__.py", "w").close()
    return root


def git(root, *args):
    r = subprocess.run(["git", *args], cwd=root, capture_output=True, text=True)
    if r.returncode:
        raise RuntimeError("git %s: %s" % (args, r.stderr))
    return r.stdout.strip()


def ask(root):
    """the answers of the shipped and of the build-time copy of the tree at root"""
    err = os.dup(2)
    null = os.open(os.devnull, os.O_WRONLY)
    os.dup2(null, 2)
    try:
        os.chdir(root)
        a = load(root + "/pyrichlet/_version.py", "tree_version").get_versions()
        argv, sys.argv = sys.argv, [root + "/setup.py"]
        try:
            b = load(root + "/versioneer.py", "tree_versioneer").get_versions()
        finally:
            sys.argv = argv
        return a, b
    finally:
        os.dup2(err, 2)
        os.close(err)
        os.close(null)
        os.chdir("/")


class History:
    """model of the history: commits on a line (merges count their side commit), tags by commit"""

    def __init__(self, root):
        self.root = lay(root)
        git(root, "init", "-q", "-b", "master")
        git(root, "add", "-A")
        git(root, "commit", "-qm", "c0")
        self.n, self.t, self.b = 1, 0, 0
        self.tags = {}       # commit count at the tag -> names
        self.branch = "master"

    def apply(self, op):
        r = self.root
        if op == "commit":
            with open(r + "/f", "a") as f:
                f.write("x%d\n" % self.n)
            git(r, "add", "-A")
            git(r, "commit", "-qm", "c")
            self.n += 1
        elif op in ("tag", "atag"):
            self.t += 1
            name = ["1.0", "1.1rc1", "2.0", "10.3.1"][self.t % 4]
            if op == "tag":
                git(r, "tag", name)
            else:
                git(r, "tag", "-a", name, "-m", "annotated")
            self.tags.setdefault(self.n, []).append((op == "atag", name))
        elif op == "branch":
            self.b += 1
            self.branch = "work%d" % self.b
            git(r, "checkout", "-q", "-b", self.branch)
        elif op == "detach":
            git(r, "checkout", "-q", "--detach")
        elif op == "merge":
            cur = git(r, "rev-parse", "HEAD")
            git(r, "checkout", "-q", "-b", "side%d" % self.n)
            with open(r + "/side", "a") as f:
                f.write("y%d\n" % self.n)
            git(r, "add", "-A")
            git(r, "commit", "-qm", "side")
            side = git(r, "rev-parse", "HEAD")
            git(r, "checkout", "-q", cur)
            git(r, "merge", "-q", "--no-ff", "-m", "m", side)
            self.n += 2

    def tree(self, kind):
        r = self.root
        if kind == "modified":
            with open(r + "/pyrichlet/__init__.py", "a") as f:
                f.write("#\n")
        elif kind == "staged":
            with open(r + "/new", "w") as f:
                f.write("#\n")
            git(r, "add", "new")
        elif kind == "deleted":
            os.unlink(r + "/setup.py")
        elif kind == "untracked":
            with open(r + "/loose", "w") as f:
                f.write("#\n")

    def clean(self):
        git(self.root, "reset", "-q", "--hard")
        git(self.root, "clean", "-qfd")


def histories(case, ctx):
    ops = case["ops"]
    if case["first"] is None:
        seqs = [()] + [(o,) for o in ops]
    else:
        seqs = [tuple(case["first"])] + [tuple(case["first"]) + rest for k in range(1, case["depth"] - 1) for rest in itertools.product(ops, repeat=k)]
    with Scratch() as base:
        for q, seq in enumerate(seqs):
            if sum(o in ("tag", "atag") for o in seq) > 4:
                continue
            h = History("%s/%d" % (base, q))
            for o in seq:
                h.apply(o)
            head = git(h.root, "rev-parse", "HEAD")
            for tree in case["trees"]:
                h.tree(tree)
                what = "history %s, tree %s" % (list(seq), tree)
                try:
                    a, b = ask(h.root)
                except Exception as e:
                    ctx.fail("raised", "%s: asking for the version raised %s: %s" % (what, type(e).__name__, e))
                    h.clean()
                    continue
                ctx.execs += 2
                ctx.ops += len(seq) + 1
                ctx.check(a == b, "copies", lambda: "%s: the shipped copy says %s, the build-time copy %s" % (what, a, b))
                dirty = tree in ("modified", "staged", "deleted")
                if h.tags:
                    at = max(h.tags)
                    names = [n for ann, n in h.tags[at] if ann] or [n for ann, n in h.tags[at]]
                    d = h.n - at
                else:
                    names, d = [None], h.n
                shorts = re.findall(r"g([0-9a-f]{7,40})", a["version"])
                short = shorts[-1] if shorts else head[:7]
                want = [expected("pep440", n, d, dirty, None, short) for n in names]
                ctx.check(a["version"] in want and head.startswith(short), "version", lambda: "%s: version %r, expected %s (HEAD %s)" % (what, a["version"], want, head))
                ctx.check(a["full-revisionid"] == head and a["dirty"] == dirty and a["error"] is None and a["date"] == "2020-01-02T03:04:05+0200", "fields", lambda: "%s: %s (HEAD %s)" % (what, a, head))
                ctx.check(PEP440.match(a["version"]), "pep440", lambda: "%s: %r is not a PEP 440 version" % (what, a["version"]))
                ctx.state(re.sub("g[0-9a-f]{7,}", "gX", a["version"]))
                h.clean()
            shutil.rmtree(h.root)
            if len(ctx.viol) > 4:
                return
    ctx.sample({"histories": [list(s) for s in seqs[:4]], "last": a})


def directories(ctx):
    with Scratch() as base:
        n = 0
        for name, levels in itertools.product(["pyrichlet-1.2.3", "pyrichlet-2.0rc1", "pyrichlet-", "other-1.0", "pyrichlet", "pyrichlet_1.0"], range(4)):
            n += 1
            root = lay(os.path.join(base, str(n), name, *["sub%d" % k for k in range(levels)]))
            a, b = ask(root)
            ctx.execs += 2
            ctx.ops += 1
            what = "release directory %s, %d levels up" % (name, levels)
            ctx.check(a == b, "copies", lambda: "%s: the copies disagree: %s / %s" % (what, a, b))
            if name.startswith("pyrichlet-") and levels < 3:
                ctx.check(a["version"] == name[len("pyrichlet-"):] and a["error"] is None, "directory", lambda: "%s: %s" % (what, a))
            else:
                ctx.check(a["version"] == "0+unknown" and a["error"], "directory", lambda: "%s: %s" % (what, a))
            ctx.state(what, a["version"])
            # a repository without any commit
            git(root, "init", "-q", "-b", "master")
            a2, b2 = ask(root)
            ctx.check(a2 == a and b2 == b, "empty", lambda: "%s with an empty repository: %s instead of %s" % (what, a2, a))
            # no git on the path
            path = os.environ["PATH"]
            os.environ["PATH"] = base
            try:
                git_free = ask(root)
            finally:
                os.environ["PATH"] = path
            ctx.check(git_free == (a, b), "no-git", lambda: "%s without git: %s instead of %s" % (what, git_free, a))
            ctx.execs += 4
            # the file written into a source distribution
            m = load(root + "/versioneer.py", "writer")
            for v in ("1.4", "1.4+3.gabcdef1.dirty", "0+untagged.7.g0000000"):
                ver = {"version": v, "full-revisionid": "ab" * 20, "dirty": "dirty" in v, "error": None, "date": "2020-01-02T03:04:05+0200"}
                out, sys.stdout = sys.stdout, open(os.devnull, "w")
                try:
                    m.write_to_version_file(root + "/pyrichlet/_version.py", ver)
                finally:
                    sys.stdout.close()
                    sys.stdout = out
                a, b = ask(root)
                ctx.execs += 2
                ctx.check(a == ver and b == ver, "written", lambda: "a distribution written as %s reads as %s and %s" % (ver, a, b))
            shutil.rmtree(os.path.join(base, str(n)))


def archives(ctx):
    """a git archive of each tagging, unpacked where there is no repository"""
    with Scratch() as base:
        for n, seq in enumerate(itertools.chain([()], itertools.product(["commit", "tag", "atag", "branch"], repeat=1), itertools.product(["commit", "tag", "atag", "branch"], repeat=2))):
            h = History("%s/%d" % (base, n))
            for o in seq:
                h.apply(o)
            head = git(h.root, "rev-parse", "HEAD")
            out = "%s/out%d" % (base, n)
            os.makedirs(out)
            git(h.root, "archive", "-o", out + ".tar", "HEAD")
            subprocess.run(["tar", "xf", out + ".tar", "-C", out], check=True)
            a, b = ask(out)
            ctx.execs += 2
            ctx.ops += len(seq) + 1
            what = "archive of %s" % (list(seq),)
            names = [t for _, t in h.tags.get(h.n, [])]
            ctx.check(a == b, "copies", lambda: "%s: the copies disagree: %s / %s" % (what, a, b))
            ctx.check(a["full-revisionid"] == head and a["dirty"] is False, "archive", lambda: "%s: %s, commit %s" % (what, a, head))
            if names:
                ctx.check(a["version"] in names and a["date"] == "2020-01-02T03:04:05+0200" and a["error"] is None, "archive", lambda: "%s tagged %s: %s" % (what, names, a))
            elif h.b == 0:
                ctx.check(a["version"] == "0+unknown", "archive", lambda: "%s without a tag: %s" % (what, a))
            ctx.check(PEP440.match(a["version"]), "pep440", lambda: "%s: %r" % (what, a["version"]))
            ctx.state(a["version"], len(names))


def built(case, ctx):
    """the package built from a tree reports the version of that tree, wherever it is imported"""
    with Scratch() as base:
        h = History(base + "/t")
        shutil.copy(REPO + "/README.md", h.root)
        shutil.copy(REPO + "/MANIFEST.in", h.root)
        with open(h.root + "/pyrichlet/__init__.py", "w") as g:
            g.write("from . import _version\n__version__ = _version.get_versions()['version']\n")
        git(h.root, "add", "-A")
        git(h.root, "commit", "-qm", "c1")
        h.n += 1
        for o in case["seq"]:
            h.apply(o)
        h.tree(case["tree"])
        a, b = ask(h.root)
        r = subprocess.run([sys.executable, "setup.py", "-q", "build", "--build-lib", base + "/out"], cwd=h.root, capture_output=True, text=True)
        if not ctx.check(r.returncode == 0, "build", lambda: "building a tree with history %s fails: %s" % (case["seq"], r.stderr[-600:])):
            return
        r = subprocess.run([sys.executable, "-c", "import json, pyrichlet; print(json.dumps([pyrichlet._version.get_versions(), pyrichlet.__version__, pyrichlet.__file__]))"],
                           cwd="/", env=dict(os.environ, PYTHONPATH=base + "/out", PYTHONDONTWRITEBYTECODE="1"), capture_output=True, text=True)
        got, v, path = json.loads(r.stdout)
        ctx.execs += 1
        ctx.ops += 2
        ctx.check(path.startswith(base) and got == a == b and v == a["version"], "build", lambda: "history %s, tree %s: the tree's version is %s, the built package's %s (%s)" % (case["seq"], case["tree"], a, got, v))
        ctx.state(case["id"])


def installed(ctx):
    import pyrichlet
    v = pyrichlet._version.get_versions()
    ctx.check(pyrichlet.__version__ == v["version"] and PEP440.match(v["version"]), "installed", lambda: "pyrichlet.__version__ is %r, get_versions() %s" % (pyrichlet.__version__, v))
    ctx.execs += 1
    ctx.ops += 1
    ctx.state(v["error"])


def execute(case, ctx):
    k = case["kind"]
    if k == "render":
        render(case, ctx)
    elif k == "keywords":
        keywords(case, ctx)
    elif k == "git":
        histories(case, ctx)
    elif k == "dirs":
        directories(ctx)
    elif k == "built":
        built(case, ctx)
    elif k == "archives":
        archives(ctx)
    else:
        installed(ctx)
