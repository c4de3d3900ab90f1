#!/usr/bin/env python3
"""Runs the check of one property.   check.py C01      (VERIF_SEED, VERIF_TIER from the environment)
   check.py --build            build everything
   check.py --replay FILE      re-run a saved failing case
"""
import atexit
import concurrent.futures, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("PYSTD_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
CXX = "/usr/bin/clang++-20"
# libc functions that a harness replaces in the code under test
WRAP = {"faults": ("fopen fread stat mmap rename opendir pthread_create pthread_mutex_lock pthread_mutex_trylock "
                   "pthread_mutex_unlock").split()}
LINK = "/usr/bin/clang++-18"  # the sanitizer runtimes of this image belong to clang 18

# property -> harness sources and the year namespaces they are compiled for
from table import CHECKS  # noqa: E402

SAN = ("-fsanitize=address,bounds,shift,signed-integer-overflow,bool,enum,return,unreachable,"
       "integer-divide-by-zero,vla-bound -fno-sanitize-recover=all").split()
COV = ["-fsanitize-coverage=inline-8bit-counters,trace-cmp"]
# -Wno-everything: the diagnostics of the code under test are not judged here
BASE = ("-std=c++26 -O1 -g1 -fno-omit-frame-pointer -DPYSTD_HAS_REGEX -Wno-everything "
        "-ftrivial-auto-var-init=pattern").split()


def digest(paths, extra):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(p.encode())
        with open(p, "rb") as f:
            h.update(f.read())
    return h.hexdigest()[:20]


def files(d, exts):
    return [os.path.join(d, f) for f in sorted(os.listdir(d)) if f.endswith(exts)]


def run(cmd, log):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if r.returncode:
        log.append(" ".join(cmd) + "\n" + r.stdout[-4000:])
    return r.returncode == 0


class Builder:
    def __init__(self, pid=None):
        self.pid = pid
        self.inc = os.path.join(BUILD, "include")
        os.makedirs(self.inc, exist_ok=True)
        with open(os.path.join(REPO, "include/pystd_config.hpp.in")) as f:
            cfg = re.sub(r"#mesondefine\s+(\w+)", r"#define \1", f.read())
        path = os.path.join(self.inc, "pystd_config.hpp")
        if not os.path.exists(path) or open(path).read() != cfg:
            with open(path, "w") as f:
                f.write(cfg)
        self.hdrs = files(os.path.join(REPO, "include"), (".hpp", ".in"))
        self.srcs = files(os.path.join(REPO, "src"), (".cpp",))
        self.srchdrs = files(os.path.join(REPO, "src"), (".hpp",))
        self.incflags = ["-I" + self.inc, "-I" + os.path.join(REPO, "include"), "-I" + os.path.join(REPO, "src"),
                         "-I" + os.path.join(REPO, "tools")]
        self.tools = files(os.path.join(REPO, "tools"), (".cpp",))
        self.log = []
        # the tools are included inside namespaces, so the headers they use must come first
        names = sorted({m for t in self.tools for m in re.findall(r"^\s*#\s*include\s*<([^>]+)>", open(t).read(), re.M)})
        text = "".join("#include <%s>\n" % n for n in names if not n.endswith(".cpp"))
        path = os.path.join(self.inc, "tool_includes.hpp")
        if not os.path.exists(path) or open(path).read() != text:
            with open(path, "w") as f:
                f.write(text)

    def compile(self, src, flags, deps, tag):
        key = digest(deps + [src], tag + " ".join(flags))
        obj = os.path.join(BUILD, "obj", "%s-%s.o" % (tag, key))
        if os.path.exists(obj):
            return obj
        os.makedirs(os.path.dirname(obj), exist_ok=True)
        tmp = obj + ".%d.tmp" % os.getpid()
        if not run([CXX] + flags + self.incflags + ["-c", src, "-o", tmp], self.log):
            return None
        os.replace(tmp, obj)
        return obj

    def harnesses(self, wanted):
        """wanted: list of (name, year). Returns {(name, year): binary}."""
        hdeps = files(os.path.join(VERIF, "harness"), (".hpp", ".inc"))
        jobs = {}
        with concurrent.futures.ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
            for s in self.srcs:
                jobs["lib", s] = ex.submit(self.compile, s, BASE + SAN + COV + ["-nostdinc++"], self.hdrs + self.srchdrs,
                                           "lib-" + os.path.basename(s)[:-4])
            jobs["eng"] = ex.submit(self.compile, os.path.join(VERIF, "harness/pbt.cpp"),
                                    [f for f in BASE if f != "-O1"] + ["-O2"], hdeps, "pbt")
            for name, year in wanted:
                jobs[name, year] = ex.submit(self.compile, os.path.join(VERIF, "harness", name + ".cpp"),
                                             BASE + SAN + COV + ["-DYEAR=%d" % year],
                                             hdeps + self.hdrs + self.srchdrs + (self.tools if name == "tools" else []),
                                             "%s-%d" % (name, year))
            objs = {k: v.result() for k, v in jobs.items()}
        failed = [k for k, o in objs.items() if o is None]
        if failed:
            self.give_up(failed, "build error", [k for k in failed if k not in wanted])
        common = [o for k, o in objs.items() if k == "eng" or k[0] == "lib"]
        out = {}

        def link(k):
            ins = [objs[k]] + common
            wrap = ["-Wl,--wrap=" + w for w in WRAP.get(k[0], [])]
            binp = os.path.join(BUILD, "bin", "%s-%d-%s" % (k[0], k[1], digest(ins, " ".join(wrap))))
            if not os.path.exists(binp):
                os.makedirs(os.path.dirname(binp), exist_ok=True)
                tmp = binp + ".%d.tmp" % os.getpid()
                if not run([LINK, "-fsanitize=address,undefined", "-g"] + ins + wrap + ["-lpcre2-8", "-lpthread", "-o", tmp],
                           self.log):
                    return None
                os.replace(tmp, binp)
            return binp

        with concurrent.futures.ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
            res = {k: ex.submit(link, k) for k in wanted}
            for k, v in res.items():
                out[k] = v.result()
        if any(o is None for o in out.values()):
            self.give_up([k for k, o in out.items() if o is None], "link error", [])
        self.prune()
        return out

    def give_up(self, failed, what, not_ours):
        text = what + ": " + ", ".join(str(k) for k in failed) + "\n" + "\n".join(self.log)
        sys.stdout.write(text)
        # The library compiles and a program that only uses its public interface does not: what the property speaks of
        # can not even be called.  (A compiler that was killed or crashed says nothing about the code.)
        if self.pid and not not_ours and re.search(r"(?<!fatal )error: |undefined (reference|symbol)", text) and \
                "clang frontend command failed" not in text and "unable to execute command" not in text and \
                "No space left" not in text:
            os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
            path = os.path.join(VERIF, "replays", "%s-build.txt" % self.pid)
            with open(path, "w") as f:
                f.write("PROP %s build\n" % self.pid + text)
            print("\nVIOLATION property=%s replay=%s" % (self.pid, path))
            sys.exit(1)
        sys.exit(2)

    def prune(self):
        """Keep the cache small."""
        for d, keep in (("obj", 400), ("bin", 120)):
            p = os.path.join(BUILD, d)
            if not os.path.isdir(p):
                continue
            fs = sorted((os.path.join(p, f) for f in os.listdir(p)), key=os.path.getmtime)
            for f in fs[:-keep]:
                try:
                    os.unlink(f)
                except OSError:
                    pass


def known_findings():
    res = []
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"KNOWN-FINDING: property=(\w+) id=(\S+) (.*)", line)
            if m:
                res.append(m.groups())
    return res


def check(pid, seed, tier, only=None, scale=1.0, first=False):
    t0 = time.time()
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    replays = os.path.join(VERIF, "replays")
    os.makedirs(replays, exist_ok=True)
    spec = CHECKS[pid]
    wanted = [(h, y) for h, years in spec["harness"] for y in years]
    bins = Builder(pid).harnesses(wanted)
    build_s = time.time() - t0
    parts, bad, err = [], False, None
    wall = 200 if tier == "quick" else 3600
    quick_deadline = time.time() + (600 if tier == "quick" else 6 * 3600)
    env = dict(os.environ, LC_ALL="C.UTF-8", PYSTD_REPO=REPO, VERIF_BUILD=BUILD)
    scratch = tempfile.mkdtemp(prefix="pystd-pbt-")
    atexit.register(shutil.rmtree, scratch, True)
    env["PBT_SCRATCH"] = scratch
    env.pop("ASAN_OPTIONS", None)
    env.pop("UBSAN_OPTIONS", None)
    for k in wanted:
        jf = os.path.join(BUILD, "out-%s-%s-%d.json" % (pid, k[0], k[1]))
        if os.path.exists(jf):
            os.unlink(jf)
        cmd = [bins[k], "--id", pid, "--tier", tier, "--seed", str(seed), "--outdir", replays, "--json", jf,
               "--wall", str(min(wall, max(5, quick_deadline - time.time()))), "--scale", str(scale)]
        if only:
            cmd += ["--only", only]
        if first:
            cmd += ["--first"]
        r = subprocess.run(cmd, stdout=subprocess.PIPE, text=True, errors="replace", env=env)
        sys.stdout.write(r.stdout)
        sys.stdout.flush()
        if r.returncode == 3 and only:
            continue
        if r.returncode == 1 and first:
            return 1
        if r.returncode not in (0, 1):
            err = "%s ended with status %d" % (cmd[0], r.returncode)
            continue
        bad |= r.returncode == 1
        parts += json.load(open(jf))
        os.unlink(jf)
    for p, fid, text in known_findings():
        if p == pid and fid in spec.get("findings", {}):
            print("KNOWN-FINDING: property=%s id=%s %s" % (p, fid, text))
    labels = {}
    for p in parts:
        for l, n in p["labels"].items():
            labels[l] = labels.get(l, 0) + n
    rules = sorted({p["rule"] for p in parts})
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": sum(p["evaluations"] for p in parts),
            "distinct_nontrivial": sum(p["distinct_nontrivial"] for p in parts),
            "rule": " | ".join(rules),
            "samples": [s for p in parts for s in p["samples"]][:24],
            "choices_drawn": sum(p["choices"] for p in parts),
            "labels": labels,
            "per_property_function": [
                {k: p[k] for k in ("prop", "evaluations", "nontrivial", "distinct_nontrivial", "edges",
                                   "stopped_by_time", "unreproduced", "wall_s")} for p in parts],
            "build_s": round(build_s, 1),
        },
        "assumptions": ["sanitizer build of the current sources (clang 20, ASan+UBSan subset, assertions on)",
                        "oracles in /verif/harness are right"],
        "wall_s": round(time.time() - t0, 2),
        "violations": sum(1 for p in parts if p["violated"]),
    }
    if not ev["coverage"]["samples"]:
        ev["coverage"]["samples"] = ["no sample: every part of this run ended in a violation"]
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    print("%s: %d cases, %d distinct non-trivial, %.1f s (build %.1f s)%s" % (
        pid, ev["coverage"]["evaluations"], ev["coverage"]["distinct_nontrivial"], ev["wall_s"], build_s,
        ", VIOLATED" if bad else ""))
    if bad:
        return 1
    if err:
        print("error:", err)
        return 2
    return 0


def main():
    a = sys.argv[1:]
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    tier = os.environ.get("VERIF_TIER", "quick") or "quick"
    if a and a[0] == "--build":
        wanted = sorted({(h, y) for c in CHECKS.values() for h, years in c["harness"] for y in years})
        Builder().harnesses(wanted)
        print("built", len(wanted), "harness programs")
        return 0
    if a and a[0] == "--replay":
        scratch = tempfile.mkdtemp(prefix="pystd-pbt-")
        atexit.register(shutil.rmtree, scratch, True)
        prop = open(a[1]).readline().split()[1]
        name = os.path.basename(a[1]).split("-")[0]
        b = Builder(name).harnesses([(h, y) for h, years in CHECKS[name]["harness"] for y in years])
        if a[1].endswith("-build.txt"):
            print("it builds now")
            return 0
        for p in b.values():
            if any(l.split()[1] == prop for l in subprocess.run([p, "--list"], stdout=subprocess.PIPE, text=True).stdout.split("\n") if l):
                return subprocess.run([p, "--replay", a[1]], env=dict(os.environ, ASAN_OPTIONS="symbolize=1", VERIF_BUILD=BUILD, PYSTD_REPO=REPO,
                                                                              PBT_SCRATCH=scratch)).returncode
        return 2
    only, scale = None, 1.0
    if "--only" in a:
        only = a[a.index("--only") + 1]
    if "--scale" in a:
        scale = float(a[a.index("--scale") + 1])
    if "--tier" in a:
        tier = a[a.index("--tier") + 1]
    return check(a[0], seed, tier, only, scale, "--first" in a)


if __name__ == "__main__":
    sys.exit(main())
