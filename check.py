#!/usr/bin/env python3
"""Decides one property: compiles its harness together with /repo's current headers
to LLVM IR, executes the IR symbolically (build/symir), replays every reported
counterexample and a sample of the explored paths natively, and writes
evidence/<id>.json.

  check.py ID [--tier quick|thorough] [--entry NAME] [--keep] [-D MACRO]

Exit status: 0 the property held on everything explored, 1 a violation that the
native replay confirmed, 2 no answer (see stderr)."""
import argparse, concurrent.futures, glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time, traceback

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(HERE, "build")
ENGINE = os.path.join(HERE, "engine")
HARNESS = os.path.join(HERE, "harness")
LLVM = "/usr/lib/llvm-18/bin"
CLANG = [LLVM + "/clang++", "-std=c++17", "-O1", "-Xclang", "-disable-llvm-passes", "-fno-builtin", "-w",
         "-U_FORTIFY_SOURCE", "-gline-tables-only"]
PASSES = "function(sroa,early-cse,simplifycfg)"
JOBS = max(1, min(16, os.cpu_count() or 1))
ENV = {k: v for k, v in os.environ.items() if k not in ("CXXFLAGS", "CFLAGS", "CPPFLAGS", "LDFLAGS", "CPATH",
       "CPLUS_INCLUDE_PATH", "ASAN_OPTIONS", "UBSAN_OPTIONS")}
ENV["PATH"] = "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
ENV["LC_ALL"] = "C"


class NoAnswer(Exception):
    pass


def sh(cmd, timeout=600, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout, env=ENV,
                          errors="replace", **kw)


def must(cmd, what, timeout=600):
    r = sh(cmd, timeout)
    if r.returncode != 0:
        raise NoAnswer("%s failed:\n%s" % (what, (r.stderr or r.stdout)[-6000:]))
    return r


def setup():
    """Builds the engine and the runtime model (independent of /repo)."""
    os.makedirs(BUILD, exist_ok=True)
    srcs = [os.path.join(ENGINE, f) for f in ("symir.cpp", "decode.cpp", "decode.hpp", "expr.hpp", "state.hpp")]
    exe = os.path.join(BUILD, "symir")
    if not os.path.exists(exe) or any(os.path.getmtime(s) > os.path.getmtime(exe) for s in srcs):
        must(["make", "-s", "-C", ENGINE, "OUT=" + BUILD, "-B"], "building the engine", 1200)
    rt = os.path.join(BUILD, "rt.bc")
    srcs = [os.path.join(ENGINE, f) for f in ("rt.cpp", "rt_common.hpp", "sym.hpp")]
    if not os.path.exists(rt) or any(os.path.getmtime(s) > os.path.getmtime(rt) for s in srcs):
        must(CLANG + ["-emit-llvm", "-c", os.path.join(ENGINE, "rt.cpp"), "-o", rt + ".tmp"], "building the runtime model")
        os.rename(rt + ".tmp", rt)


def entries_of(src):
    """ENTRY(name) or ENTRY_T(name) (thorough tier only), each preceded by // lines that state its bounds."""
    out = []
    doc = []
    for line in open(src):
        m = re.match(r"\s*ENTRY(_T|_Q)?\((\w+)\)", line)
        if m:
            out.append((m.group(2), m.group(1) or "", " ".join(doc)))
            doc = []
        elif line.startswith("//"):
            doc.append(line[2:].strip())
        elif line.strip():
            doc = []
    return out


def only_entries(text, keep):
    """The harness with every other entry blanked out (line numbers stay)."""
    lines = text.split("\n")
    i = 0
    while i < len(lines):
        m = re.match(r"\s*ENTRY(_T|_Q)?\((\w+)\)", lines[i])
        if not m or m.group(2) in keep:
            i += 1
            continue
        depth = 0
        while True:
            bare = re.sub(r"'(\\.|[^'\\])'", "", re.sub(r'"(\\.|[^"\\])*"', "", lines[i])).split("//")[0]
            opened = "{" in bare
            depth += bare.count("{") - bare.count("}")
            lines[i] = ""
            i += 1
            if (depth <= 0 and (opened or "}" in bare)) or i >= len(lines):
                break
    return "\n".join(lines)


class Check:
    def __init__(self, pid, tier, seed, defines=(), entry=None, keep=False, deadline=None):
        self.pid, self.tier, self.seed, self.defines = pid, tier, seed, list(defines)
        if tier == "thorough":
            self.defines.append("THOROUGH")
        self.src = os.path.join(HARNESS, pid + ".cpp")
        self.entries = [e for e in entries_of(self.src) if e[1] == "" or (e[1] == "_T") == (tier == "thorough")]
        if entry:
            self.entries = [e for e in self.entries if e[0] in entry]
        self.keep = keep
        self.tmp = tempfile.mkdtemp(prefix="symir-%s-" % pid)
        self.native = {}
        self.deadline = deadline or (240.0 if tier == "quick" else 780.0)
        self.t0 = time.time()
        self.stats = {}
        self.functions, self.lines, self.reach = set(), set(), {}
        self.per_entry = []
        self.violations, self.samples, self.errors, self.rejected = [], [], [], []
        self.undecided = []

    def flags(self):
        return ["-I" + REPO + "/include", "-I" + ENGINE, "-I" + HARNESS, "-include", HARNESS + "/prelude.hpp"] + \
            ["-D" + d for d in self.defines]

    # ---------------------------------------------------------------- the solver's side
    def compile(self):
        raw, lnk, self.bc = (os.path.join(self.tmp, n) for n in ("raw.bc", "link.bc", "check.bc"))
        r = sh(CLANG + self.flags() + ["-emit-llvm", "-c", self.src, "-o", raw])
        if r.returncode != 0:
            self.separate(r.stderr)
            must(CLANG + self.flags() + ["-emit-llvm", "-c", self.src, "-o", raw], "compiling the harness to LLVM IR")
        must([LLVM + "/llvm-link", raw, os.path.join(BUILD, "rt.bc"), "-o", lnk], "llvm-link")
        must([LLVM + "/opt", "-passes=" + PASSES, lnk, "-o", self.bc], "opt")

    def separate(self, err):
        """Sets the entries aside that do not compile with the current headers."""
        probe = os.path.join(self.tmp, "probe.cpp")
        with open(probe, "w") as f:
            f.write("#include <lru/lru.hpp>\nint main() { LRU::Cache<int, int> c(1); c.insert(1, 2); return c.contains(1); }\n")
        must(CLANG + self.flags() + ["-fsyntax-only", probe], "compiling the headers")
        text = open(self.src).read()

        def one(e):
            src = os.path.join(self.tmp, "only-%s.cpp" % e[0])
            with open(src, "w") as f:
                f.write(only_entries(text, {e[0]}))
            c = sh(CLANG + self.flags() + ["-fsyntax-only", src])
            if c.returncode == 0:
                return None
            g = sh(["/usr/bin/g++", "-std=c++17", "-w", "-fsyntax-only"] + self.flags() + [src])
            return (e, g.returncode != 0 and " error: " in g.stderr, c.stderr)
        with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
            bad = [b for b in ex.map(one, self.entries) if b]
        if not bad:
            raise NoAnswer("compiling the harness to LLVM IR failed:\n" + err[-4000:])
        self.rejected = bad
        self.entries = [e for e in self.entries if e not in [b[0] for b in bad]]
        self.src = os.path.join(self.tmp, self.pid + ".cpp")
        with open(self.src, "w") as f:
            f.write(only_entries(text, {e[0] for e in self.entries}))

    def rejections(self):
        """Uses of the public interface that both compilers reject now: the property has nothing left to hold of."""
        for e, both, err in self.rejected:
            first = [l for l in err.splitlines() if " error: " in l][:1]
            if both:
                yield {"entry": e[0], "kind": "rejected", "msg": "a use of the interface that the property is about does not compile any more",
                       "where": (first or ["?"])[0][-300:], "values": [], "names": [], "replay_result": "g++ and clang reject the entry"}
            else:
                # the official build accepts it, but it cannot be encoded: not explored
                self.undecided.append(e[0] + ": clang rejects it: " + (first or ["?"])[0])

    def explore(self):
        left = [e for e in self.entries]
        for i, (name, _, doc) in enumerate(left):
            remaining = self.deadline - (time.time() - self.t0)
            budget = remaining if i == len(left) - 1 else max(4.0, remaining / (len(left) - i) * 1.6, remaining * 0.4)
            budget = max(4.0, min(budget, remaining))
            out = os.path.join(self.tmp, "out-" + name)
            os.makedirs(out)
            cmd = [os.path.join(BUILD, "symir"), self.bc, "--out", out, "--entries", name, "--jobs", str(JOBS),
                   "--deadline", "%.1f" % budget, "--samples", "2", "--seed", str(self.seed), "--max-violations", "6"]
            t = time.time()
            r = sh(cmd, timeout=budget * 3 + 120)
            if r.returncode != 0:
                raise NoAnswer("the engine failed on %s (%d): %s" % (name, r.returncode, r.stderr[-2000:]))
            st = {}
            reach = set()
            viol = []
            for f in sorted(glob.glob(out + "/*")):
                for line in open(f, errors="replace"):
                    k, _, rest = line.rstrip("\n").partition(" ")
                    if k == "S":
                        a, b = rest.split()
                        st[a] = st.get(a, 0) + (float(b) if "." in b else int(b))
                    elif k == "V":
                        v = json.loads(rest)
                        v["entry"] = name
                        viol.append(v)
                    elif k == "T":
                        s = json.loads(rest)
                        s["entry"] = name
                        self.samples.append(s)
                    elif k == "R":
                        reach.add(rest)
                    elif k == "E":
                        self.errors.append(name + ": " + rest)
                    elif k == "F":
                        self.functions.add(rest)
                    elif k == "L":
                        self.lines.add(rest)
            self.violations += viol
            for a, b in st.items():
                self.stats[a] = self.stats.get(a, 0) + b
            complete = not (st.get("killed") or st.get("unknown") or st.get("enum_cut") or st.get("errors"))
            if not st.get("paths") and not viol and not st.get("killed"):
                self.errors.append(name + ": no path reaches the end of the harness (vacuous)")
            self.per_entry.append({"entry": name, "bounds": doc, "paths": st.get("paths", 0), "exhaustive_within_bounds": complete,
                                   "abandoned_paths": st.get("killed", 0), "reached": sorted(reach),
                                   "wall_s": round(time.time() - t, 2)})
            shutil.rmtree(out)
            if viol:
                break

    # ---------------------------------------------------------------- the real code's side
    def build_native(self, kind):
        if kind in self.native:
            return self.native[kind]
        ents = os.path.join(self.tmp, "entries.inc")
        with open(ents, "w") as f:
            for e in self.entries:
                f.write("ENTRY(%s)\n" % e[0])
        exe = os.path.join(self.tmp, "native-" + kind)
        cmd = ["/usr/bin/g++", "-std=c++17", "-w", "-g1"] + self.flags()
        if kind == "asan":
            cmd += ["-O1", "-fsanitize=address,undefined", "-fno-sanitize=vptr", "-fno-sanitize-recover=all"]
        else:
            cmd += ["-O1"]
        objs = []
        cov = ["-fsanitize-coverage=trace-pc"] if "__sym_cost" in open(self.src).read() else []
        for s, extra in ((self.src, cov), (os.path.join(ENGINE, "native_rt.cpp"), ["-DSYM_ENTRIES=\"%s\"" % ents])):
            o = os.path.join(self.tmp, "%s-%s.o" % (kind, os.path.basename(s)))
            objs.append((cmd + extra + ["-c", s, "-o", o], o))
        with concurrent.futures.ThreadPoolExecutor(2) as ex:
            list(ex.map(lambda c: must(c[0], "compiling the native replay"), objs))
        must(cmd + [o for _, o in objs] + ["-o", exe], "linking the native replay")
        self.native[kind] = exe
        return exe

    def run_native(self, kind, item, timeout=20):
        exe = self.build_native(kind)
        args = [item["entry"]] + [str(v) for v in item["values"]]
        cmd = [exe] + args
        if kind == "valgrind":
            cmd = ["valgrind", "-q", "--error-exitcode=99", "--leak-check=full", "--errors-for-leak-kinds=definite,indirect,possible",
                   "--child-silent-after-fork=yes"] + cmd
        env = dict(ENV, ASAN_OPTIONS="exitcode=99:detect_leaks=0:detect_stack_use_after_return=1:abort_on_error=0",
                   UBSAN_OPTIONS="print_stacktrace=1:exitcode=99")
        try:
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace",
                               timeout=timeout, env=env, cwd=self.tmp)
            return r.returncode, r.stdout, r.stderr
        except subprocess.TimeoutExpired as e:
            return "timeout", (e.stdout or b"").decode(errors="replace") if isinstance(e.stdout, bytes) else (e.stdout or ""), ""

    def confirm(self, v):
        """Replays a counterexample against the real code; returns a description or None."""
        if v["kind"] == "rejected":
            src = os.path.join(self.tmp, "only.cpp")
            with open(src, "w") as f:
                f.write(only_entries(open(self.src).read(), {v["entry"]}))
            r = sh(["/usr/bin/g++", "-std=c++17", "-w", "-fsyntax-only"] + self.flags() + [src])
            v["native"] = {"g++": r.stderr[:3000]}
            return "g++ rejects it" if r.returncode else None
        kinds = ["asan", "valgrind"]
        if v["kind"] in ("leak", "uninit", "undefined", "uninitialised"):
            kinds = ["valgrind", "asan"]
        for k in kinds:
            rc, out, err = self.run_native(k, v, 40)
            v.setdefault("native", {})[k] = {"exit": rc, "tail": (out[-600:] + err[:1500])}
            if rc == 0 or rc == 78:
                continue
            if rc == 77:
                return "%s replay: %s" % (k, out.strip().splitlines()[-1] if out.strip() else "check failed")
            if rc == "timeout":
                return "%s replay: does not terminate" % k
            first = [l for l in err.splitlines() if "ERROR" in l or "runtime error" in l or "==" in l][:2]
            return "%s replay: exit %s %s" % (k, rc, " | ".join(x.strip() for x in first))
        return None

    def validate_samples(self, limit):
        """Replays sampled explored paths natively: the observations have to agree."""
        ok, bad = 0, []
        step = max(1, len(self.samples) // limit)
        chosen = self.samples[::step][:limit]

        def one(s):
            rc, out, err = self.run_native("plain", s)
            got = [int(l[2:]) for l in out.splitlines() if l.startswith("O ")]
            want = [x & 0xFFFFFFFFFFFFFFFF for x in s["trace"]]
            return rc == 0 and got == want, rc, got, want, out[-300:] + err[-600:]
        if not chosen:
            return 0, [], []
        self.build_native("plain")
        with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
            for s, (good, rc, got, want, tail) in zip(chosen, ex.map(one, chosen)):
                if good:
                    ok += 1
                else:
                    bad.append({"entry": s["entry"], "values": s["values"], "exit": rc, "native": got[:60], "model": want[:60], "tail": tail})
        return ok, bad, chosen

    # ---------------------------------------------------------------- result
    def describe(self, item):
        return {"entry": item["entry"], "inputs": [[n, v] for n, v in zip(item.get("names", []), item["values"])]}

    def run(self):
        setup()
        self.compile()
        self.explore()
        known = []
        kf = os.path.join(HERE, "known_findings.json")
        if os.path.exists(kf):
            known = [k for k in json.load(open(kf)).get("known", []) if k["property"] == self.pid]
        reported, unconfirmed, matched = [], [], set()
        for v in self.violations:
            why = self.confirm(v)
            if why is None:
                unconfirmed.append(v)
                continue
            k = next((k for k in known if k["entry"] == v["entry"] and k["message"] in v["msg"]), None)
            if k:
                matched.add(k["what"])
            else:
                v["replay_result"] = why
                reported.append(v)
                if len(reported) >= 3:
                    break
        if not reported:
            reported += list(self.rejections())
        validated, bad, chosen = (0, [], [])
        if not self.violations:
            validated, bad, chosen = self.validate_samples(24 if self.tier == "quick" else 64)
            # An explored path on which the code that g++ makes fails the property
            # although the code that clang makes does not (g++ is the compiler of
            # the official build): a violation, shown by the native run.
            for b in bad:
                if b["exit"] != 77 and b["tail"] == "":
                    continue
                v = dict(entry=b["entry"], values=b["values"], kind="compiler", msg="the code g++ generates fails on an explored path", where="native run")
                why = self.confirm(v)
                if why and (": check" in why or "FAILED" in why or "exit 99" in why):
                    v["replay_result"] = why
                    reported.append(v)
                    break
        replay = None
        if reported:
            d = os.path.join(HERE, "evidence", "replay")
            os.makedirs(d, exist_ok=True)
            v = reported[0]
            replay = os.path.join(d, "%s-%s.json" % (self.pid, hashlib.sha1(json.dumps([v["entry"], v["values"]]).encode()).hexdigest()[:10]))
            json.dump({"property": self.pid, "entry": v["entry"], "kind": v["kind"], "message": v["msg"], "where": v["where"],
                       "values": v["values"], "inputs": self.describe(v)["inputs"], "defines": self.defines, "replay_result": v["replay_result"],
                       "native": v.get("native"), "how": "python3 check.py %s --replay %s" % (self.pid, os.path.basename(replay))}, open(replay, "w"), indent=1)
        st = self.stats
        files = sorted({l.rsplit(":", 1)[0].split("/lru/")[-1] for l in self.lines})
        cov = {
            "states": int(st.get("forks", 0) + st.get("paths", 0)), "transitions": int(st.get("steps", 0)),
            "traces_validated_against_impl": validated,
            "samples": [self.describe(s) for s in (chosen or self.samples)[:3]],
            "exhaustive": bool(self.per_entry) and all(e["exhaustive_within_bounds"] for e in self.per_entry) and not self.rejected and len(self.per_entry) == len(self.entries),
            "explanation": "states: states at which symbolic execution branched, plus completed paths; transitions: LLVM instructions executed "
                           "symbolically; every assertion and memory access of every path was decided by constant folding or Z3.",
            "entries": self.per_entry,
            "not_explored": self.undecided,
            "paths": int(st.get("paths", 0)),
            "solver": {"queries": int(st.get("queries", 0)), "sat": int(st.get("sat", 0)), "unsat": int(st.get("unsat", 0)),
                       "unknown": int(st.get("unknown", 0)), "answered_by_cache": int(st.get("cache_hits", 0)), "seconds": round(st.get("solver_s", 0), 2)},
            "assertions_checked": int(st.get("asserts", 0)), "assertions_needing_solver": int(st.get("asserts_solved", 0)),
            "memory_accesses_checked": int(st.get("mem_checks", 0)), "symbolic_branches": int(st.get("branches_sym", 0)),
            "library_functions_encoded": len([f for f in self.functions if "3LRU" in f]),
            "functions_encoded": len(self.functions),
            "library_lines_encoded": len(self.lines), "library_files_encoded": files,
            "functions": demangle(sorted(f for f in self.functions if f.startswith("_ZN3LRU") or f.startswith("_ZNK3LRU")))[:400],
        }
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": "model_checking", "coverage": cov,
              "assumptions": [
                  "Bounds: see coverage.entries; nothing is claimed beyond them.",
                  "clang 18 IR of /repo's headers (own Optional, as the official build selects); out-of-line libstdc++/libc functions are modelled (engine/rt.cpp).",
                  "Single thread; the bucket counts of hash tables are small (a valid rehash policy), heap addresses are abstract.",
              ],
              "wall_s": round(time.time() - self.t0, 2), "violations": len(reported)}
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        if os.environ.get("VERIF_LINES"):   # development aid: which lines of the library were executed
            open(os.path.join(os.environ["VERIF_LINES"], self.pid), "w").write("\n".join(sorted(self.lines)) + "\n")
        json.dump(ev, open(os.path.join(HERE, "evidence", self.pid + ".json"), "w"), indent=1)
        for k in known:
            if k["what"] in matched:
                print("KNOWN-FINDING: property=%s %s" % (self.pid, k["what"]))
        for e in self.per_entry:
            print("  %-22s paths=%-8d %s %.1fs" % (e["entry"], e["paths"], "complete" if e["exhaustive_within_bounds"] else "cut(%d)" % e["abandoned_paths"], e["wall_s"]))
        print("%s %s: paths=%d steps=%.2fM queries=%d solver=%.1fs validated=%d wall=%.1fs" % (
            self.pid, self.tier, cov["paths"], cov["transitions"] / 1e6, cov["solver"]["queries"], cov["solver"]["seconds"], validated, ev["wall_s"]))
        if reported:
            for v in reported:
                print("  %s [%s] %s (%s) at %s" % (v["entry"], v["kind"], v["msg"], v["replay_result"], v["where"][:300]))
            print("VIOLATION property=%s replay=%s" % (self.pid, os.path.relpath(replay, HERE)))
            return 1
        if unconfirmed:
            raise NoAnswer("counterexamples that the real code does not reproduce: " + json.dumps(unconfirmed[:2])[:4000])
        if bad:
            raise NoAnswer("the native run disagrees with the model: " + json.dumps(bad[:2])[:4000])
        for u in self.undecided:
            print("  not explored: " + u)
        if self.undecided and not self.per_entry:
            self.errors += self.undecided
        if self.errors:
            raise NoAnswer("not everything could be encoded: " + "; ".join(self.errors[:5])[:3000])
        return 0

    def close(self):
        if self.keep:
            print("kept " + self.tmp)
        else:
            shutil.rmtree(self.tmp, ignore_errors=True)


def demangle(names):
    if not names:
        return []
    r = subprocess.run(["c++filt", "-p"], input="\n".join(names), stdout=subprocess.PIPE, text=True)
    return sorted(set(n[:160] for n in r.stdout.splitlines()))


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--entry", action="append")
    ap.add_argument("--keep", action="store_true")
    ap.add_argument("--deadline", type=float)
    ap.add_argument("--setup", action="store_true")
    ap.add_argument("--replay", help="replay a recorded counterexample against the real code")
    a = ap.parse_args()
    if a.setup:
        setup()
        return 0
    c = Check(a.property, a.tier, a.seed, entry=a.entry, keep=a.keep, deadline=a.deadline)
    try:
        if a.replay:
            p = a.replay if os.path.exists(a.replay) else os.path.join(HERE, "evidence", "replay", a.replay)
            v = json.load(open(p))
            why = c.confirm(v)
            print(json.dumps(v["native"], indent=1))
            print(why or "not reproduced")
            return 1 if why else 0
        return c.run()
    except NoAnswer as e:
        print("NO ANSWER for %s: %s" % (a.property, e), file=sys.stderr)
        return 2
    except subprocess.TimeoutExpired as e:
        print("NO ANSWER for %s: %s" % (a.property, e), file=sys.stderr)
        return 2
    except Exception:
        traceback.print_exc()
        print("NO ANSWER for %s: the driver failed" % a.property, file=sys.stderr)
        return 2
    finally:
        c.close()


if __name__ == "__main__":
    sys.exit(main())
