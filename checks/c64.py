"""Batch Level 2 processing: every queued image is handed to the processor once and the queue keeps its state."""
import os
import re
import shutil
import signal
import subprocess
import tarfile
import time
import zipfile

from hypothesis import strategies as st

from harness import Outcome

ID = "C64"
RULE = ("a case is a history of 1-4 batches on one queue (images as directories, tar, tar.gz and zip archives, corrupt archives, failing images; images requeued and appended in between; some batches killed while an image is processed), "
        "with a recording stand-in for the image processor; one evaluation = one image in one batch; distinct non-trivial = images processed, in batches with images of another state")
TIERS = {"quick": dict(examples=600, budget=30), "thorough": dict(examples=3000, budget=85)}
ASSUMPTIONS = ["missing images: only judged never to be called done", "batches are killed only with one process at a time", "the lockfile programs are replaced by equivalent ones that wait for shorter intervals", "images have different names"]
KINDS = ["dir", "dir", "dir", "tar.gz", "tar", "zip", "granule"]


@st.composite
def strategy_(draw, tier):
    img = st.fixed_dictionaries(dict(kind=st.sampled_from(KINDS), ok=st.sampled_from([True, True, True, False]), corrupt=st.sampled_from([False, False, False, True]), missing=st.sampled_from([False]*9 + [True]),
                                     where=st.integers(0, 3), state=st.sampled_from(["QUEUED", "QUEUED", "QUEUED", "DONE", "FAIL"])))
    steps = draw(st.lists(st.fixed_dictionaries(dict(nproc=st.sampled_from([1, 1, 2, 4]), crash=st.sampled_from([False, False, True]), requeue=st.integers(0, 7), append=st.lists(img, max_size=2))), min_size=1, max_size=2 if tier == "quick" else 4))
    return dict(images=draw(st.lists(img, min_size=1, max_size=5)), steps=steps, messy=draw(st.booleans()), crlf=draw(st.booleans()), similar=draw(st.sampled_from(["none", "none", "prefix", "dot", "nested"])), seed=draw(st.integers(0, 999)), spaced=draw(st.booleans()), rush=draw(st.sampled_from([0, 0, 0, 0, 0, 6])))


def strategy(tier):
    return strategy_(tier)


STANDIN = """#!/bin/bash
if [ "$1" == "-d" ]; then exit 0; fi
REC=%(rec)s
N=$(mktemp "$REC/call.XXXXXX")
{ echo "$1"; echo "$2"; ls -A "$1" 2>/dev/null | sort; } > "$N"
if [ -e "$1/crash" ] && [ -e "$REC/../crashes" ]; then touch "$REC/../crashed"; sleep 60; fi
if [ -e "$REC/../rush" ]; then sleep "0.$(printf '%%03d' $((400 - 10#$(date +%%3N) %% 400)))"; else sleep 0.0$((RANDOM %% 3)); fi
if [ -e "$1/fail" ]; then echo "it failed"; exit 1; fi
echo "it worked"
exit 0
"""

RM = """#!/bin/bash
for a in "$@"; do
  case "$a" in
    -*) ;;
    *) p=$(readlink -m -- "$a"); case "$p" in %(root)s/*) ;; *) echo "refused: $a" >> %(root)s/refused; exit 1;; esac ;;
  esac
done
exec /bin/rm "$@"
"""


def make(root, n, im, similar):
    """an image on disk; returns path in the queue and the files the processor must see"""
    base = "LC08_%02d" % n
    d = "%s/l1/p%d" % (root, im["where"])
    if similar == "prefix" and n % 2:
        base = "LC08_%02d0" % (n-1)
    if similar == "dot":
        base = "LC08.%02d" % n if n % 2 == 0 else "LC08_%02d" % (n-1)
        d = root + "/l1/p0"
    if similar == "nested" and n % 2:
        base = "LC08_%02d" % (n-1)
        d = root + "/mirror" + root + "/l1/p0"
    elif similar == "nested":
        d = root + "/l1/p0"
    os.makedirs(d, exist_ok=True)
    kind = im["kind"] if similar not in ("dot", "nested") else "dir"
    files = {"B1.TIF": b"x"*50, "MTL.txt": b"meta"}
    if not im["ok"]:
        files["fail"] = b""
    if im.get("crash"):
        files["crash"] = b""
    if kind in ("dir", "granule"):
        p = d + "/" + base + ("" if kind == "dir" else ".SAFE/GRANULE/L1C_%s" % base)
        if not im["missing"]:
            os.makedirs(p, exist_ok=True)
            for f, b in files.items():
                open(p + "/" + f, "wb").write(b)
        return p, files, kind
    p = d + "/" + base + "." + kind
    if im["missing"]:
        return p, files, kind
    if im["corrupt"]:
        open(p, "wb").write(b"this is no archive"*20)
        return p, files, kind
    if kind == "zip":
        with zipfile.ZipFile(p, "w") as z:
            z.writestr(base + ".SAFE/", b"")
            for f, b in files.items():
                z.writestr(base + ".SAFE/" + f, b)
    else:
        t = root + "/pack%d" % n
        os.makedirs(t)
        extra = dict(files)
        extra["LC08_GCP.txt"] = b"not needed"
        with tarfile.open(p, "w:gz" if kind == "tar.gz" else "w") as z:
            for f, b in extra.items():
                open(t + "/" + f, "wb").write(b)
                z.add(t + "/" + f, f)
        shutil.rmtree(t)
    return p, files, kind


def snapshot(root):
    out = {}
    for top in ("l1", "mirror"):
        for r, ds, fs in os.walk(root + "/" + top):
            for f in fs:
                p = os.path.join(r, f)
                out[p] = open(p, "rb").read()
            for d in ds:
                out[os.path.join(r, d)] = None
    return out


def batch(root, uid, timeout):
    """run one batch; returns (exit code, output, killed, timed out)"""
    env = dict(os.environ, PATH=root + "/path:/usr/bin:/bin:/usr/sbin:/sbin", HOME=root + "/home", LANG="C.UTF-8", LC_ALL="C.UTF-8", TMPDIR=root + "/scratch")
    kw = dict(user=uid, group=uid, extra_groups=[]) if uid else {}
    logf = open(root + "/stdout", "wb")
    p = subprocess.Popen([root + "/bin/force-level2", root + "/l2.prm"], cwd=root, env=env, stdout=logf, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, start_new_session=True, **kw)
    t = time.time()
    killed = late = False
    while p.poll() is None:
        time.sleep(0.01)
        if os.path.exists(root + "/crashed") and not killed:
            killed = True
            subprocess.run(["pkill", "-KILL", "-s", str(p.pid)])
        if time.time() - t > timeout:
            late = True
            subprocess.run(["pkill", "-KILL", "-s", str(p.pid)])
            break
    p.wait()
    subprocess.run(["pkill", "-KILL", "-s", str(p.pid)])
    logf.close()
    return p.returncode, open(root + "/stdout", "rb").read().decode("utf-8", "replace"), killed, late


def read_queue(f):
    rows = []
    for line in open(f, newline="").read().split("\n"):
        if line.strip():
            rows.append(tuple(line.split()))
    return rows


def run_case(case, ctx):
    out = Outcome()
    out.evals = 1
    out.nontrivial = 0
    root = os.path.realpath(ctx.dir)
    uid = 65534
    for p in (root, os.path.dirname(root), os.path.dirname(os.path.dirname(root))):
        if "force-verif" in p:
            os.chmod(p, 0o755)
    for d in ("bin", "path", "home", "log", "tmp", "prov", "l2", "l1", "rec", "scratch", "mirror"):
        os.makedirs(root + "/" + d)
    shutil.copy(ctx.exe("force-level2"), root + "/bin/force-level2")
    shutil.copytree(ctx.exe("force-misc"), root + "/bin/force-misc", ignore=shutil.ignore_patterns("runtime-data"))
    lock = "#!/bin/bash\n" + "for k in {1..1500}; do mkdir \"$1.lock\" 2>/dev/null && exit 0; sleep 0.02; done\nexit 4\n"
    for f, t in (("path/lockfile-create", lock), ("path/lockfile-remove", "#!/bin/bash\nrmdir \"$1.lock\"\n"), ("bin/force-l2ps", STANDIN % dict(rec=root + "/rec")), ("path/rm", RM % dict(root=root))):
        open(root + "/" + f, "w").write(t)
        os.chmod(root + "/" + f, 0o755)
    images = [dict(i) for i in case["images"]]
    if case["rush"]:
        # images that are finished at the same time
        images += [dict(kind="dir", ok=n % 3 > 0, corrupt=False, missing=False, where=n, state="QUEUED") for n in range(case["rush"])]
        case = dict(case, steps=[dict(s, nproc=6, crash=False) for s in case["steps"]])
        open(root + "/rush", "w").close()
    rows, info, k = [], {}, 0

    def add(im):
        nonlocal k
        path, files, kind = make(root, k, im, case["similar"])
        k += 1
        if path in info:
            return
        info[path] = dict(im, files=sorted(files), kind=kind)
        rows.append([path, im["state"]])

    for n, im in enumerate(images):
        im["crash"] = n == 1 or n == 3
        add(im)
    open(root + "/home/.parallel-will-cite", "w").close()
    os.makedirs(root + "/home/.parallel", exist_ok=True)
    open(root + "/home/.parallel/will-cite", "w").close()

    def write_queue(first):
        t = ""
        for n, (p, s) in enumerate(rows):
            sep = ["  ", "\t", " ", " \t "][n % 4] if case["messy"] and first else " "
            t += ("  " if case["messy"] and first and n % 3 == 1 else "") + p + sep + s + (" " if case["messy"] and first and n % 2 else "") + ("\r\n" if case["crlf"] and first else "\n")
        with open(root + "/queue.txt", "w", newline="") as fp:
            fp.write(t)

    write_queue(True)
    for num, step in enumerate(case["steps"]):
        if num:
            for n, r in enumerate(rows):
                if r[1] != "QUEUED" and (step["requeue"] >> (n % 3)) & 1:
                    r[1] = "QUEUED"
            for im in step["append"]:
                add(im)
            write_queue(False)
        eq = " = " if case["spaced"] else "="
        with open(root + "/l2.prm", "w") as fp:
            fp.write("++PARAM_LEVEL2_START++\n" + "".join("%s%s%s\n" % (a, eq, b) for a, b in (
                ("FILE_QUEUE", root + "/queue.txt"), ("DIR_LEVEL2", root + "/l2"), ("DIR_LOG", root + "/log"), ("DIR_PROVENANCE", root + "/prov"), ("DIR_TEMP", root + "/tmp"),
                ("NPROC", step["nproc"]), ("DELAY", 0), ("TIMEOUT_ZIP", 30), ("TIER", 1))) + "++PARAM_LEVEL2_END++\n")
        crash = step["crash"] and step["nproc"] == 1
        for f in ("crashes", "crashed"):
            if os.path.exists(root + "/" + f):
                os.remove(root + "/" + f)
        if crash:
            open(root + "/crashes", "w").close()
        shutil.rmtree(root + "/rec")
        os.makedirs(root + "/rec")
        for top in ("", "/home", "/log", "/tmp", "/prov", "/l2", "/rec", "/scratch", "/queue.txt", "/l2.prm"):
            os.chown(root + top, uid, uid)
        for r_, ds, fs in os.walk(root + "/home"):
            for f in ds + fs:
                os.chown(os.path.join(r_, f), uid, uid)
        before = snapshot(root)
        rc, text, killed, late = batch(root, uid, 60)
        if late:
            out.label("too slow")
            return out
        queued = [r for r in rows if r[1] == "QUEUED"]
        calls = []
        for f in sorted(os.listdir(root + "/rec")):
            c = open(root + "/rec/" + f).read().split("\n")
            calls.append((c[0], c[1], [x for x in c[2:] if x]))
        where = "batch %d (%d processes)" % (num + 1, step["nproc"])
        if os.path.exists(root + "/refused"):
            out.fail("rm", "%s: removal outside of the temporary directory: %s" % (where, open(root + "/refused").read()[:200]))
            return out
        if snapshot(root) != before:
            out.fail("images", "%s: the images themselves were changed" % where)
        if not queued:
            out.evals += 1
            if rc == 0 or calls:
                out.fail("empty", "%s: nothing queued, but exit code %s and %d calls" % (where, rc, len(calls)))
            continue
        # what the processor must have been given
        ran = {}
        for a, prm, files in calls:
            b = os.path.realpath(a)
            src = [q for q in info if (info[q]["kind"] in ("dir", "granule") and q == a) or
                   (info[q]["kind"] not in ("dir", "granule") and b.startswith(root + "/tmp/") and os.path.basename(b).replace(".SAFE", "") == os.path.basename(q)[:-len(info[q]["kind"])-1])]
            if len(src) != 1:
                out.fail("call", "%s: the processor was called for %s, which is not in the queue" % (where, a))
                return out
            ran[src[0]] = ran.get(src[0], 0) + 1
            if prm != root + "/l2.prm":
                out.fail("call", "%s: parameter file %s" % (where, prm))
            if files != info[src[0]]["files"]:
                out.fail("call", "%s: the processor saw %s of image %s instead of %s" % (where, files, src[0], info[src[0]]["files"]))
        after = read_queue(root + "/queue.txt")
        if [a[0] for a in after] != [r[0] for r in rows]:
            out.fail("queue", "%s: images of the queue %s instead of %s" % (where, [a[0] for a in after], [r[0] for r in rows]))
            return out
        states = [a[1] if len(a) == 2 else a for a in after]
        mixed = len(queued) < len(rows)
        for n, r in enumerate(rows):
            im = info[r[0]]
            out.evals += 1
            archive = im["kind"] not in ("dir", "granule")
            c = ran.get(r[0], 0)
            if r[1] != "QUEUED":
                if c or states[n] != r[1]:
                    out.fail("state", "%s: image %s was %s, is now %s and was processed %d times" % (where, r[0], r[1], states[n], c))
                continue
            if im["missing"]:
                if c or states[n] not in ("QUEUED", "FAIL"):
                    out.fail("state", "%s: missing image %s is %s" % (where, r[0], states[n]))
            elif archive and im["corrupt"]:
                if killed and states[n] == "QUEUED":
                    pass
                elif c or states[n] != "FAIL":
                    out.fail("state", "%s: corrupt archive %s is %s, processed %d times" % (where, r[0], states[n], c))
            elif c > 1:
                out.fail("state", "%s: image %s processed %d times" % (where, r[0], c))
            elif killed and c and "crash" in im["files"]:
                if states[n] != "QUEUED":
                    out.fail("state", "%s: image %s is %s though processing was interrupted" % (where, r[0], states[n]))
            elif killed and not c:
                if states[n] != "QUEUED":
                    out.fail("state", "%s: image %s is %s though it was not processed" % (where, r[0], states[n]))
            else:
                want = "DONE" if im["ok"] else "FAIL"
                if c != 1 or states[n] != want:
                    out.fail("state", "%s: image %s is %s, expected %s; processed %d times" % (where, r[0], states[n], want, c))
                else:
                    out.nontrivial += int(mixed or len(queued) > 1)
                    log = "%s/log/%s.log" % (root, os.path.basename(r[0]))
                    t = open(log).read() if os.path.exists(log) else ""
                    if case["similar"] != "nested" and (r[0] not in t or "signaled " + want not in t):
                        out.fail("log", "%s: log of image %s: %r" % (where, r[0], t[-200:]))
        if killed:
            out.label("killed")
            for f in ("queue.txt.lock", "queue.txt.tmp"):
                if os.path.exists(root + "/" + f):
                    out.label("interrupted update")
                    return out
            shutil.rmtree(root + "/tmp")
            os.makedirs(root + "/tmp")
        else:
            if rc != 0:
                out.fail("exit", "%s: exit code %s %s" % (where, rc, text[-300:]))
            left = os.listdir(root + "/tmp")
            left = [x for x in left if not any(info[q]["missing"] or info[q]["corrupt"] for q in info if os.path.basename(q).startswith(x.replace(".SAFE", "")))]
            if left:
                out.fail("temp", "%s: files left in the temporary directory: %s" % (where, left[:3]))
        out.label("%d processes" % step["nproc"])
        if out.fails:
            return out
        for r, s in zip(rows, states):
            r[1] = s
    out.label(case["similar"])
    return out
