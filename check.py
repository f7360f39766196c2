#!/usr/bin/env python3
"""check.py <property id>     decides one property on /repo's current source (see DESIGN.md)
   check.py --setup            builds everything once, to fail early when a tool is missing

Stages: Verus (functions extracted from /repo/src on this run), Kani (harnesses in place on the real crate), and the native
search (the same executable contracts on concrete inputs; a bounded stand-in, never counted as proved).
Exit 0: held.  Exit 1 with a VIOLATION line: broken.  Exit 2: nothing could be decided.
"""
import concurrent.futures as cf
import glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
sys.path.insert(0, os.path.join(HERE, "tools"))
from properties_config import PROPS, HOOK_NEEDS, UNITS, WHOLE_DOMAIN  # noqa: E402

TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
THOROUGH = TIER == "thorough"


def sh(cmd, timeout=None, **kw):
    """Runs a command in its own process group; returns (rc, output); rc is None on a timeout."""
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace",
                         start_new_session=True, **kw)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except ProcessLookupError:
            pass
        out, _ = p.communicate()
        return None, out or ""


def closure(hooks):
    """The hooks and what they need, in a stable order."""
    todo, seen = list(hooks), []
    while todo:
        h = todo.pop(0)
        if h not in seen:
            seen.append(h)
            todo += HOOK_NEEDS.get(h, [])
    return sorted(seen)


HOOKS_DIR = os.path.join(HERE, "harness", "hooks")


def rust_env(hooks):
    e = dict(os.environ)
    e["RESCAN_VERIF_DIR"] = HOOKS_DIR
    e["RUSTFLAGS"] = "-Awarnings " + " ".join('--cfg rescan_verif="%s"' % h for h in hooks)
    e["CARGO_NET_OFFLINE"] = "true"
    e.pop("CARGO_TARGET_DIR", None)
    return e


class Run:
    def __init__(self, pid):
        self.pid = pid
        self.conf = PROPS[pid]
        self.t0 = time.time()
        base = os.path.join(HERE, ".build")
        os.makedirs(base, exist_ok=True)
        self.dir = tempfile.mkdtemp(prefix=pid + "-", dir=base)
        self.notes = []          # what this run could not do, in words
        self.violations = []     # dicts: what, replay, found
        self.obl = 0             # obligations attempted by Verus and Kani
        self.dis = 0             # of these, discharged
        self.functions = []      # functions under contract, with back end
        self.solver_s = 0.0
        self.libs = set()        # units on libraries that were proved
        self.cmds = []
        self.trusted = []
        self.assumed = list(self.conf.get("assumptions", []))
        self.search = {}         # contract -> measured numbers
        self.failed_obl = []     # undecided obligations (named)
        self.tool_fail = []      # obligations lost to the tool
        self.decided = False     # something was explored or proved
        self.specs = os.path.join(HERE, "specs")
        self.renames = []
        self.kani_ok = set()     # harnesses that succeeded
        self.extra_hooks = set()  # hooks of harnesses taken in on demand

    def prepare(self):
        """Builds the extractor and reads the contracts with the names the current source uses."""
        global HOOKS_DIR
        import renames
        import verus_stage
        self.vx = verus_stage.build_vx(self, sh)
        self.renames = renames.find(self.vx) if self.vx else []
        if self.renames:
            HOOKS_DIR, self.specs = renames.adapt(self.renames, os.path.join(self.dir, "adapted"))
            self.notes.append("contracts read with the new names: " + ", ".join(
                "%s %s%s is now %s" % (k, (o + "::") if o else "", a, b) for k, _, o, a, b in self.renames))

    # ---------- native search ----------
    def build_search(self, hooks):
        """Builds the search binary; drops hooks that no longer compile against the source."""
        hooks = closure(hooks)
        adapted = bool(self.renames)
        while hooks:
            td = os.path.join(self.dir, "search")
            rc, out = sh(["cargo", "build", "--offline", "--locked", "--target-dir", td], timeout=300,
                         cwd=os.path.join(HERE, "harness", "search"), env=rust_env(hooks))
            if rc == 0:
                return os.path.join(td, "debug", "search"), hooks
            bad = set(re.findall(r"/hooks/(\w+)\.rs", out)) & set(hooks)
            if "spec.inc" in out or "common.inc" in out or "setcontracts.inc" in out:
                inc = re.findall(r"--> [^\n]*?hooks/(\w+)\.inc", out)
                if inc and not bad:
                    bad = set(hooks)
            if bad and adapted:
                # Perhaps it was fine as it stood.
                adapted = False
                for h in bad:
                    shutil.copyfile(os.path.join(HERE, "harness", "hooks", h + ".rs"), os.path.join(HOOKS_DIR, h + ".rs"))
                continue
            # A hook that needs a dropped hook goes with it.
            grew = True
            while grew:
                grew = False
                for h in hooks:
                    if h not in bad and set(HOOK_NEEDS.get(h, [])) & bad:
                        bad.add(h)
                        grew = True
            self.notes.append("hooks that do not compile against the current source: %s" % (sorted(bad) or "unknown"))
            with open(os.path.join(HERE, "evidence", self.pid + ".build.log"), "w") as f:
                f.write(out)
            if not bad:
                return None, []
            hooks = [h for h in hooks if h not in bad]
        return None, []

    def run_search(self, again=False):
        contracts = self.conf.get("search", [])
        if not contracts:
            return
        if not again:
            want = set()
            for c in contracts:
                want.add(ENTRY_HOOK[c.split("::")[0]])
            want |= self.extra_hooks
            self.bin, self.hooks = self.build_search(want)
        hooks = self.hooks
        if not self.bin:
            self.notes.append("native search: no harness could be built")
            return
        live = [c for c in contracts if ENTRY_HOOK[c.split("::")[0]] in hooks]
        secs = self.conf.get("search_s", 6) * (12 if THOROUGH else 1)
        if again:
            secs = max(40, secs)
        outdir = os.path.join(self.dir, "replay")
        os.makedirs(outdir, exist_ok=True)
        # Contracts of libraries ("deps") take part once, as a check of what is assumed.
        own = [c for c in live if "_deps" not in c]
        reps = max(1, 8 // max(1, len(own)))
        jobs = [(c, SEED * 1000003 + k + (500 if again else 0)) for c in own for k in range(reps)]
        if not again:
            jobs += [(c, SEED * 1000003) for c in live if c not in own]

        env = dict(os.environ, VERIF_DICT=os.path.join(self.dir, "dict"))
        try:
            import literals
            self.new_constants = literals.write(env["VERIF_DICT"])
        except Exception as e:
            self.notes.append("no constants of the source for the search: %s" % e)

        def one(j):
            c, seed = j
            d = os.path.join(outdir, "%s-%d" % (c.replace("::", "."), seed))
            os.makedirs(d, exist_ok=True)
            return c, sh([self.bin, "search", str(seed), str(secs), d, c], timeout=secs + 120, env=env)

        with cf.ThreadPoolExecutor(8) as ex:
            for c, (rc, out) in ex.map(one, jobs):
                m = re.search(r"^DONE \S+ cases=(\d+) held=(\d+) distinct=(\d+)", out, re.M)
                f = re.search(r"^FAILED (\S+) (\S+) ?(.*)$", out, re.M)
                if m:
                    s = self.search.setdefault(c, {"cases": 0, "held": 0, "distinct": 0})
                    for k, v in zip(("cases", "held", "distinct"), m.groups()):
                        s[k] += int(v)
                    self.decided = True
                elif f:
                    self.input_found(c, f.group(2), f.group(3), "search")
                elif rc is None or rc != 0:
                    # An abort (stack overflow, out of memory, a failure in a destructor) or a hang is a failure as well,
                    # but without the recorded input: record the seed that leads to it.
                    self.notes.append("search of %s ended with %s: %s" % (c, rc, out[-300:]))
                    if rc in (-4, -6, -7, -8, -11):
                        p = os.path.join(HERE, "evidence", "%s.%s.replay" % (self.pid, c.replace("::", ".")))
                        with open(p, "w") as g:
                            g.write("contract %s\nsearch seed %d: the process was ended by signal %d\n%s\n" % (c, j_seed(jobs, c), -rc, out[-2000:]))
                        self.violations.append({"what": "%s: the process dies (signal %d)" % (c, -rc), "replay": p, "found": True, "key": c})
        lost = [c for c in contracts if c not in live]
        if lost and not again:
            self.notes.append("contracts without a harness on this source: " + ", ".join(lost))

    def input_found(self, contract, path, message, how):
        if any(v["key"] == contract for v in self.violations):
            return
        dst = os.path.join(HERE, "evidence", "%s.%s.replay" % (self.pid, contract.replace("::", ".")))
        shutil.copyfile(path, dst)
        rc, out = sh([self.bin, "replay", dst], timeout=120)
        self.violations.append({"what": "%s: %s" % (contract, message), "replay": dst, "found": rc == 1, "key": contract,
                                "how": how})

    # ---------- Kani ----------
    def second_opinion(self):
        """An obligation refused by Verus in a function whose contract Kani decides over the whole domain: Kani decides.
        Its harnesses are run now if they are not among those of this property."""
        asked = {}
        for f in self.failed_obl:
            if f["kind"] == "verus":
                unit, fn = f["name"].split(" ", 1)[1].split("::", 1)
                hs = WHOLE_DOMAIN.get(unit + "::" + fn) or WHOLE_DOMAIN.get(fn)
                if hs:
                    asked[f["name"]] = hs
        if not asked:
            return
        ran = {n for _, n in self.conf.get("kani", [])}
        new = sorted({h for hs in asked.values() for h in hs if h[1] not in ran})
        if new:
            self.extra_hooks |= {h for h, _ in new}
            self.run_kani(new, "second")
        for f in list(self.failed_obl):
            hs = asked.get(f["name"])
            if hs and all(n in self.kani_ok for _, n in hs):
                self.failed_obl.remove(f)
                self.notes.append("%s: not proved by Verus on this text (%s); proved by Kani over the whole domain (%s)"
                                  % (f["name"], f["what"][:200], ", ".join(n for _, n in hs)))

    def run_kani(self, harnesses=None, tag="kani"):
        harnesses = self.conf.get("kani", []) if harnesses is None else harnesses
        if not harnesses:
            return
        hooks = closure(sorted({h[0] for h in harnesses}))
        names = [h[1] for h in harnesses]
        td = os.path.join(self.dir, "kani")
        js = os.path.join(self.dir, tag + ".json")
        cap = 700 if THOROUGH else 240
        cmd = ["cargo", "kani", "--target-dir", td, "-j", "8", "--output-format", "terse", "-Z", "unstable-options", "-Z", "stubbing",
               "--harness-timeout", "%ds" % cap, "--export-json", js, "--exact"]
        for n in names:
            cmd += ["--harness", n]
        self.cmds.append("cargo kani --exact --harness <each of %d> (RUSTFLAGS %s)" % (len(names), rust_env(hooks)["RUSTFLAGS"]))
        rc, out = sh(cmd, timeout=cap + 200, cwd=REPO, env=rust_env(hooks))
        if not os.path.exists(js):
            self.notes.append("Kani produced no result: " + out[-600:])
            self.tool_fail += ["kani " + n for n in names]
            return
        d = json.load(open(js))
        res = {r["harness_id"]: r for r in d["verification_results"]["results"]}
        retry = []
        for hook, n in harnesses:
            r = res.get(n)
            if r is None:
                self.tool_fail.append("kani " + n)
                self.notes.append("Kani reports nothing for " + n)
                continue
            self.kani_result(hook, n, r, retry)
        for hook, n in retry:
            self.kani_again(hook, n, td)

    @staticmethod
    def kani_failures(r):
        bad = [c for c in r.get("checks", []) if c.get("status", "").lower() in ("failure", "failed")]
        unwind = [c for c in bad if "unwind" in (c.get("category", "") + c.get("description", "")).lower()
                  or "recursion" in c.get("description", "").lower()]
        unsup = [c for c in bad if "unsupported" in (c.get("category", "") + c.get("description", "")).lower()]
        return [c for c in bad if c not in unwind and c not in unsup], unwind, unsup

    def kani_result(self, hook, n, r, retry):
        self.solver_s += r.get("duration_ms", 0) / 1000.0
        checks = r.get("checks", [])
        live = [c for c in checks if c.get("status", "").lower() != "unreachable"]
        self.obl += max(1, len(live))
        if r["status"].lower() == "success" and live:
            self.dis += len(live)
            self.decided = True
            self.kani_ok.add(n)
            self.functions.append("%s (Kani/CBMC, %d checks, %.1f s)" % (n, len(live), r.get("duration_ms", 0) / 1000.0))
            return
        real, unwind, unsup = self.kani_failures(r)
        ok = [c for c in live if c.get("status", "").lower() == "success"]
        if unwind or not real:
            self.dis += 0 if not live else min(len(ok), len(live) - 1)
            if unwind and retry is not None:
                retry.append((hook, n))
            else:
                self.tool_fail.append("kani " + n)
                self.notes.append("Kani could not decide %s (%s)" % (n, "unwinding" if unwind else "unsupported construct" if unsup else "timeout or tool error"))
            return
        self.dis += min(len(ok), len(live) - 1)
        self.failed_obl.append({"name": n, "hook": hook, "kind": "kani",
                                "what": "; ".join(sorted({c.get("description", "?") for c in real}))[:400],
                                "contract": self.kani_contract(hook, n)})

    @staticmethod
    def kani_contract(hook, n):
        if "verif_deps" in n:
            return "rescan_verif_deps_numbers::%s" % n.split("::")[-1]
        if "verif_place" in n:
            return "rescan_verif_ng_place::%s" % n.split("::")[-1]
        entry = {"rose_build_bytecode": "rose", "smallwrite_build": "smallwrite"}.get(hook, hook)
        return "rescan_verif_%s::%s" % (entry, n.split("::")[-1])

    def kani_again(self, hook, n, td):
        """A loop got longer than the bound of the harness: once more with the largest bound the domain needs."""
        js = os.path.join(self.dir, "kani-again.json")
        if os.path.exists(js):
            os.remove(js)
        rc, out = sh(["cargo", "kani", "--target-dir", td, "--output-format", "terse", "-Z", "unstable-options", "-Z", "stubbing",
                      "--harness-timeout", "150s", "--export-json", js, "--exact", "--harness", n, "--unwind", "260"],
                     timeout=220, cwd=REPO, env=rust_env(closure([hook])))
        if not os.path.exists(js):
            self.tool_fail.append("kani " + n)
            return
        for r in json.load(open(js))["verification_results"]["results"]:
            if r["harness_id"] == n:
                self.kani_result(hook, n, r, None)

    def replay_kani(self, f):
        """The verifier's counterexample, replayed on the real code."""
        rc, out = sh(["cargo", "kani", "--target-dir", os.path.join(self.dir, "kani"), "--output-format", "terse",
                      "-Z", "concrete-playback", "--concrete-playback=print", "-Z", "unstable-options", "-Z", "stubbing",
                      "--harness-timeout", "240s", "--exact", "--harness", f["name"]],
                     timeout=300, cwd=REPO, env=rust_env(closure([f["hook"]])))
        log = os.path.join(HERE, "evidence", "%s.%s.kani.log" % (self.pid, f["name"].split("::")[-1]))
        with open(log, "w") as g:
            g.write("failed obligation: %s: %s\n\n%s" % (f["name"], f["what"], out))
        f["log"] = log
        if not getattr(self, "bin", None):
            return False
        for k, block in enumerate(re.findall(r"concrete_vals: Vec<Vec<u8>> = vec!\[(.*?)\n\s*\];", out, re.S)):
            by = []
            for v in re.findall(r"vec!\[([0-9, ]*)\]", block):
                by += [int(x) for x in v.split(",") if x.strip()]
            p = os.path.join(self.dir, "cex%d" % k)
            with open(p, "w") as g:
                g.write("contract %s\nbytes %s\nmessage %s\n" % (f["contract"], "".join("%02x" % b for b in by), f["what"]))
            rc, o = sh([self.bin, "replay", p], timeout=120)
            if rc == 1:
                self.input_found(f["contract"], p, f["what"], "Kani counterexample")
                return True
        return False

    # ---------- Verus ----------
    def run_verus(self):
        import verus_stage
        verus_stage.run(self)

    # ---------- the end ----------
    def finish(self):
        known = json.load(open(os.path.join(HERE, "known-findings.json")))
        listed = [k for k in known.get("known", []) if k["property"] == self.pid]
        new = []
        for v in self.violations:
            hit = [k for k in listed if k["key"] == v["key"] and k.get("match", "") in v["what"]]
            if not hit:
                new.append(v)
        for k in listed:
            print("KNOWN-FINDING: property=%s %s" % (self.pid, k["what"]))
        cases = sum(s["cases"] for s in self.search.values())
        held = sum(s["held"] for s in self.search.values())
        distinct = sum(s["distinct"] for s in self.search.values())
        level = self.conf.get("level", "proof")
        cov = {
            "obligations": self.obl, "discharged": self.dis,
            "checker_cmd": "; ".join(self.cmds) or "none",
            "trusted_base": self.trusted + self.conf.get("trusted", []),
            "functions_under_contract": self.functions,
            "solver_time_s": round(self.solver_s, 2),
            "undecided_by_tool": self.tool_fail,
            "failed_obligations": [f["name"] + ": " + f["what"] for f in self.failed_obl],
            "bounded_stand_in": {
                "label": "bounded; not counted as proved",
                "evaluations": cases, "contract_held": held, "distinct": distinct,
                "rule": "inputs drawn from a seeded generator (uniform, sparse, dense, boundary bytes, constants of the source); a case counts when "
                        "the contract's precondition holds; distinct by the hash of the bytes consumed (first 200000 per contract)",
                "per_contract": self.search,
            },
            "notes": self.notes,
        }
        if level != "proof":
            cov.update({"evaluations": cases, "distinct_nontrivial": distinct, "rule": cov["bounded_stand_in"]["rule"],
                        "samples": self.samples()})
        ev = {"property": self.pid, "tier": TIER, "seed": SEED, "level": level, "coverage": cov,
              "assumptions": self.assumed, "wall_s": round(time.time() - self.t0, 2), "violations": len(new)}
        with open(os.path.join(HERE, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        shutil.rmtree(self.dir, ignore_errors=True)
        for n in self.notes:
            print("note: " + n.strip().replace("\n", " ")[:500])
        print("%s: %d of %d obligations discharged, %d cases of the bounded stand-in, %.0f s"
              % (self.pid, self.dis, self.obl, cases, time.time() - self.t0))
        if new:
            for v in new:
                print("failed: " + v["what"].replace("\n", " ")[:600])
            v = sorted(new, key=lambda v: not v["found"])[0]
            print("VIOLATION property=%s replay=%s%s" % (self.pid, v["replay"], "" if v["found"] else " no-failing-input-found"))
            return 1
        if not self.decided:
            print("error: nothing could be decided")
            return 2
        return 0

    def samples(self):
        return [{"contract": c, "cases": s["cases"]} for c, s in list(self.search.items())[:3]]

    def main(self):
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        for p in glob.glob(os.path.join(HERE, "evidence", self.pid + ".*")):
            os.remove(p)
        self.prepare()
        with cf.ThreadPoolExecutor(1) as ex:
            job = ex.submit(self.run_verus) if self.conf.get("verus") else None
            self.run_kani()
            if job:
                job.result()
        self.second_opinion()
        self.run_search()
        for f in self.failed_obl:
            if f["kind"] == "kani":
                self.replay_kani(f)
        if self.failed_obl and not self.violations and getattr(self, "bin", None):
            # Verus gives no counterexample: look for one among many more inputs of the same contracts.
            self.run_search(again=True)
        elif self.tool_fail and not self.violations and getattr(self, "bin", None):
            # What the tool could not say about the changed source is left to the stand-in: let it look further.
            self.run_search(again=True)
        # A named obligation that fails, with its anchors intact, and no failing input.
        if self.failed_obl and not self.violations:
            for f in self.failed_obl:
                p = os.path.join(HERE, "evidence", "%s.obligation.replay" % self.pid)
                with open(p, "a") as g:
                    g.write("failed obligation: %s\n%s\n\n" % (f["name"], f["what"]))
                    if f.get("rendered"):
                        g.write("verifier output:\n" + f["rendered"] + "\n")
                    if f.get("log") and os.path.exists(f["log"]):
                        g.write(open(f["log"]).read()[-20000:] + "\n")
                self.violations.append({"what": "obligation %s: %s" % (f["name"], f["what"]), "replay": p, "found": False,
                                        "key": f["name"]})
        return self.finish()


def j_seed(jobs, c):
    return next(s for x, s in jobs if x == c)


ENTRY_HOOK = {
    "rescan_verif_bitfield": "bitfield", "rescan_verif_deps": "bitfield", "rescan_verif_deps_numbers": "bitfield", "rescan_verif_charreach": "charreach", "rescan_verif_charreach_native": "charreach",
    "rescan_verif_ue2common": "ue2common", "rescan_verif_depth": "depth", "rescan_verif_lib": "lib",
    "rescan_verif_rose": "rose_build_bytecode", "rescan_verif_parser": "parser",
    "rescan_verif_shortcut_literal": "shortcut_literal", "rescan_verif_ue2string": "ue2string",
    "rescan_verif_report_manager": "report_manager", "rescan_verif_smallwrite": "smallwrite_build",
    "rescan_verif_ng_holder": "ng_holder", "rescan_verif_compiler": "compiler", "rescan_verif_ng": "ng", "rescan_verif_ng_place": "ng",
}


def setup():
    for t in (["cargo", "--version"], ["cargo", "kani", "--version"], ["verus", "--version"]):
        rc, out = sh(t, timeout=120)
        print(" ".join(t), "->", rc, out.strip().splitlines()[0] if out.strip() else "")
        if rc != 0:
            return 2
    return 0


if __name__ == "__main__":
    if sys.argv[1] == "--setup":
        sys.exit(setup())
    sys.exit(Run(sys.argv[1]).main())
