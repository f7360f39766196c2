"""The Verus stage: extract (vx), verify, and say what each failure means.

conf["verus"] lists (unit, [functions]); the functions are those whose contracts the property rests on (None: all of the unit).
The others of the unit are taken by contract, without their bodies.
"""
import concurrent.futures as cf
import glob, json, os, re
from properties_config import DISCHARGED, LIBS

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = "/repo/src"


def build_vx(run, sh):
    td = os.path.join(run.dir, "vx")
    rc, out = sh(["cargo", "build", "--offline", "--locked", "--target-dir", td], timeout=300, cwd=os.path.join(HERE, "tools", "vx"))
    return os.path.join(td, "debug", "vx") if rc == 0 else None


def root(unit):
    """Where the source is that a unit is about: of a library, what cargo links."""
    if unit not in LIBS:
        return SRC
    crate = LIBS[unit][0]
    m = re.search(r'name = "%s"\nversion = "([^"]+)"' % crate, open(os.path.join(SRC, "../Cargo.lock")).read())
    home = os.environ.get("CARGO_HOME") or os.path.expanduser("~/.cargo")
    hits = glob.glob("%s/registry/src/*/%s-%s/src" % (home, crate, m.group(1))) if m else []
    return sorted(hits)[0] if hits else "/nonexistent/%s" % crate


def extract(run, sh, vx, unit, only, stubs, canary):
    tag = unit + ("_canary" if canary else "")
    rs, mp = os.path.join(run.dir, tag + ".rs"), os.path.join(run.dir, tag + ".json")
    cmd = [vx, root(unit), os.path.join(run.specs, unit + ".vs"), rs, mp] + (["--canary"] if canary else [])
    if only:
        cmd += ["--only", ",".join(only)]
    for s in stubs:
        cmd += ["--stub", s]
    rc, out = sh(cmd, timeout=60)
    if rc != 0:
        return None, None, out
    return rs, json.load(open(mp)), out


def verus(run, sh, rs, rlimit):
    """Returns (verified per function, diagnostics) or (None, diagnostics) when nothing was verified."""
    p = rs[:-3]
    rc, _ = sh(["bash", "-c", 'verus "$1" --crate-type=lib --output-json --time-expanded --triggers-mode silent --error-format=json '
                '--multiple-errors 4 --rlimit %d > "$2.out" 2> "$2.err"' % rlimit, "sh", rs, p], timeout=400, cwd=run.dir)
    diags = []
    try:
        for l in open(p + ".err", errors="replace"):
            if l.startswith("{"):
                try:
                    d = json.loads(l)
                except ValueError:
                    continue
                if d.get("level") == "error":
                    diags.append(d)
    except OSError:
        pass
    try:
        j = json.load(open(p + ".out"))
    except (OSError, ValueError):
        return None, diags, {}
    if rc is None:
        return None, diags, j
    per = {}
    for m in j.get("times-ms", {}).get("smt", {}).get("smt-run-module-times", []):
        for f in m.get("function-breakdown", []):
            k = f["function"]
            per[k] = (per.get(k, (True, 0))[0] and f["success"], per.get(k, (True, 0))[1] + f.get("time-micros", 0) / 1e6)
    r = j.get("verification-results", {})
    if r.get("encountered-vir-error") or "verified" not in r:
        return None, diags, j
    return per, diags, j


def again(run, sh, rs, name):
    """Whether the function is proved on its own, by a solver that has seen nothing else, with other seeds."""
    for seed in (0, 1, 2):
        rc, out = sh(["bash", "-c", 'verus "$1" --crate-type=lib --triggers-mode silent --rlimit 60 --verify-root --verify-function "$2" '
                      '--smt-option smt.random_seed=%d --smt-option sat.random_seed=%d 2>&1' % (seed, seed), "sh", rs, name], timeout=150, cwd=run.dir)
        m = re.search(r"verification results:: (\d+) verified, (\d+) errors", out or "")
        if rc == 0 and m and int(m.group(1)) > 0 and m.group(2) == "0":
            return True
        if not m:
            return False
    return False


def owner(mp, d):
    """The extracted function a diagnostic is about."""
    def at(line):
        for f in mp["functions"]:
            if f["start"] <= line < f["end"]:
                return f
        return None
    spans = d.get("spans", [])
    for want in (lambda s: s.get("label") in ("at the end of the function body", "at this exit"),
                 lambda s: s["is_primary"] and not (s.get("label") or "").startswith("failed precondition"),
                 lambda s: not (s.get("label") or "").startswith("failed precondition"), lambda s: True):
        for s in spans:
            if want(s):
                f = at(s["line_start"])
                if f:
                    return f
    return None


def clause(d):
    t = []
    for s in d.get("spans", []):
        x = " ".join(l["text"].strip() for l in s.get("text", [])[:4])
        if x:
            t.append("%s`%s`" % ((s.get("label") + ": ") if s.get("label") else "", x[:160]))
    return d["message"] + (" -- " + "; ".join(t) if t else "")


# What Verus says when it could not prove something; anything else is about the text it was given.
UNPROVED = re.compile(r"^(postcondition not satisfied|precondition not satisfied|assertion failed|invariant not satisfied|loop invariant not satisfied"
                      r"|possible arithmetic underflow|possible division by zero|possible bit shift|decreases not satisfied|could not prove termination"
                      r"|unable to prove|cannot show|possible index out of bounds|bitvector assertion|bitvector ensures|requires not satisfied|ensures not satisfied"
                      r"|loop ensures not satisfied|may fail)", re.I)
TOOL = re.compile(r"rlimit|resource limit|not supported|unsupported|timed? ?out", re.I)


def shapes(run):
    try:
        return json.load(open(os.path.join(run.specs, "shapes.json")))
    except OSError:
        return {}


def run_unit(run, sh, vx, unit, only):
    stubs, canary_job = [], None
    for attempt in range(8):
        rs, mp, out = extract(run, sh, vx, unit, only, stubs, False)
        if rs is None:
            run.tool_fail.append("verus " + unit)
            run.notes.append("extraction of unit %s failed: %s" % (unit, out[-300:]))
            return
        per, diags, j = verus(run, sh, rs, 30)
        # rustc's own errors have a code.
        odd = [d for d in diags if d.get("code") or not UNPROVED.search(d["message"]) and not TOOL.search(d["message"]) and not d["message"].startswith("aborting due to")]
        if per is not None and not odd:
            break
        # Verus rejects the text: take the functions it points at by contract and go on with the others.
        bad = []
        for d in odd or diags:
            f = owner(mp, d)
            if f and f["verify"]:
                bad.append(f["name"])
                run.notes.append("Verus does not accept the current text of %s: %s" % (f["name"], d["message"][:160]))
            elif f and not f["verify"]:
                bad.append(None)
        bad = [b for b in dict.fromkeys(bad) if b and b not in stubs]
        if not bad:
            # The error may be about a helper that was brought in: without its callers it is not needed.
            bad = [f["name"] for f in mp["functions"] if f["verify"] and f["helpers"] and f["name"] not in stubs]
        if not bad:
            run.tool_fail.append("verus " + unit)
            run.notes.append("unit %s is not accepted by Verus: %s" % (unit, "; ".join(d["message"][:200] for d in diags[:3]) or "no result"))
            return
        stubs += bad
        for b in bad:
            run.tool_fail.append("verus %s::%s" % (unit, b))
    else:
        run.tool_fail.append("verus " + unit)
        return
    run.cmds.append("vx /repo/src specs/%s.vs; verus %s.rs" % (unit, unit))
    for g in mp["lost"]:
        run.notes.append("unit %s: %s" % (unit, g))
        if g.startswith("use "):
            # A shim no longer stands for what the code calls: nothing proved with it counts.
            run.tool_fail.append("verus " + unit)
            return
    wanted = [f for f in mp["functions"] if f["contract"] and (f["name"] in only if only else f["verify"] or f["stubbed"])]
    missing = [n for n in (only or []) if n not in [f["name"] for f in mp["functions"]]]
    for n in missing:
        run.obl += 1
        run.tool_fail.append("verus %s::%s" % (unit, n))
        run.notes.append("unit %s: function %s is not in the current source" % (unit, n))
    failed = {}
    for d in diags:
        f = owner(mp, d)
        failed.setdefault(f["name"] if f else None, []).append(d)
    for n in list(failed)[:12]:
        if n and again(run, sh, rs, n):
            run.notes.append("%s: proved on its own, not among the others" % n)
            del failed[n]
    # Vacuity: with assert(false) at the entry every contract has to fail.
    crs, cmp_, _ = extract(run, sh, vx, unit, only, stubs, True)
    vac = set()
    if crs:
        cper, cdiags, _ = verus(run, sh, crs, 30)
        if cper is not None:
            hit = {(owner(cmp_, d) or {}).get("name") for d in cdiags}
            vac = {f["name"] for f in cmp_["functions"] if f["verify"] and f["contract"]} - hit
    # Helpers that have no contract: what they are used in cannot be decided from contracts.
    weak = {}
    known = shapes(run).get(unit, {})
    for f in mp["functions"]:
        if f["lost"]:
            weak[f["name"]] = "; ".join(f["lost"])
        elif f["helpers"]:
            weak[f["name"]] = "calls %s, which has no contract" % ", ".join(f["helpers"])
        elif not f["contract"]:
            weak[f["name"]] = "no contract"
        elif run.renames:
            weak[f["name"]] = "its contract was read with new names"
        elif f["verify"] and f["shape"] != known.get(f["name"], []):
            weak[f["name"]] = "its loops are not those its invariants were written for"
    for f in wanted:
        name = f["name"]
        run.obl += 1
        if not f["verify"]:
            continue
        if name in vac:
            run.tool_fail.append("verus %s::%s" % (unit, name))
            run.notes.append("%s: its contract holds vacuously here" % name)
            continue
        if name not in failed and name not in weak:
            run.dis += 1
            run.decided = True
            run.functions.append("%s (%s:%d; Verus/Z3)" % (name, f["file"], f["line"]))
            continue
        if name not in failed:
            # The contract is proved although an anchor moved: the hint was not needed.
            run.dis += 1
            run.decided = True
            run.functions.append("%s (%s:%d; Verus/Z3)" % (name, f["file"], f["line"]))
            if weak[name] and f["lost"]:
                run.notes.append("%s: %s" % (name, weak[name]))
            continue
        ds = failed[name]
        if name in weak or all(TOOL.search(d["message"]) for d in ds):
            run.tool_fail.append("verus %s::%s" % (unit, name))
            run.notes.append("%s could not be decided by Verus: %s" % (name, weak.get(name) or ds[0]["message"]))
            continue
        run.failed_obl.append({"name": "verus %s::%s" % (unit, name), "kind": "verus", "hook": None, "contract": None,
                               "what": " | ".join(clause(d) for d in ds)[:1500],
                               "rendered": "\n".join(d.get("rendered") or "" for d in ds)})
    # Lemmas and helpers outside the extracted functions.
    names = {f["name"] for f in mp["functions"]}
    for k, (ok, secs) in per.items():
        run.solver_s += secs
    lem = [k for k in per if k.split("::", 1)[-1] not in names and k.startswith(unit + "::")]
    run.obl += len(lem)
    run.dis += sum(1 for k in lem if per[k][0])
    for k in lem:
        if not per[k][0]:
            run.tool_fail.append("verus lemma " + k)
    trusted(run, rs, mp, unit)


def run_lib(run, sh, vx, unit):
    """A library's contracts, from its source. They stay assumptions when that does not succeed: nothing in /repo is at fault."""
    crate = LIBS[unit][0]
    def no(why):
        run.notes.append("the contracts stated on %s were not proved here and stay assumed: %s" % (crate, why))
    rs, mp, out = extract(run, sh, vx, unit, None, [], False)
    if rs is None or mp["lost"] or any(f["lost"] or f["helpers"] for f in mp["functions"]):
        return no((out or "")[-200:] or str(mp and mp["lost"]))
    per, diags, j = verus(run, sh, rs, 30)
    crs, cmp_, _ = extract(run, sh, vx, unit, None, [], True)
    cper, cdiags, _ = verus(run, sh, crs, 30)
    if per is None or diags or cper is None or not all(ok for ok, _ in per.values()):
        return no(diags[0]["message"] if diags else "no result")
    hit = {(owner(cmp_, d) or {}).get("name") for d in cdiags}
    proved = [f for f in mp["functions"] if f["verify"] and f["contract"]]
    if any(f["name"] not in hit for f in proved):
        return no("vacuous contracts")
    run.obl += len(proved)
    run.dis += len(proved)
    run.cmds.append("vx %s specs/%s.vs; verus %s.rs" % (root(unit), unit, unit))
    for f in proved:
        run.functions.append("%s (%s %s:%d; Verus/Z3)" % (f["name"], crate, f["file"], f["line"]))
    lem = [k for k in per if k.split("::", 1)[-1] not in {f["name"] for f in mp["functions"]} and k.startswith(unit + "::")]
    run.obl += len(lem)
    run.dis += len(lem)
    run.solver_s += sum(t for _, t in per.values())
    run.libs.add(unit)
    trusted(run, rs, mp, unit)


def trusted(run, rs, mp, unit):
    text = open(rs).read().split("\n")
    inside = set()
    for f in mp["functions"]:
        inside.update(range(f["start"], f["end"]))
        if not f["verify"] and not f["stubbed"]:
            name = re.escape(f["name"].split("::")[-1].split("@")[0])
            if not any(re.search(r"\b%s\b" % name, l) for i, l in enumerate(text) if not f["start"] <= i + 1 <= f["end"] and not re.match(r"\s*//", l) and not re.search(r"\bfn ", l)):
                continue  # offered, and not used by this source
            if unit in LIBS:
                run.assumed.append("contract of %s (%s %s:%d) is taken as given in unit %s and not proved" % (f["name"], LIBS[unit][0], f["file"], f["line"], unit))
                continue
            run.assumed.append("contract of %s (%s:%d) is taken as given in unit %s; it is discharged elsewhere in this check or by the check of its own property" % (f["name"], f["file"], f["line"], unit))
    out = []
    code = "\n".join(l.split("//")[0] for i, l in enumerate(text) if (i + 1) in inside)
    bodies = "\n".join(l for i, l in enumerate(text) if not re.search(r"assume_specification|\bfn \w+.*unimplemented!", l))

    def called(name):
        # Operators and loops call these without naming them.
        return name in ("eq", "ne", "clone", "next", "index", "index_mut", "drop", "deref") or re.search(r"(?<!fn )\b%s\b(::<[^>]*>)?\(" % name, bodies)
    for i, l in enumerate(text):
        if (i + 1) in inside:
            continue
        if "external_body" in l:
            nxt = " ".join(text[i:i + 3])
            m = re.search(r"\b(fn|struct|enum)\s+(\w+)", nxt)
            if m and (m.group(1) != "fn" or called(m.group(2))):
                of = next((re.match(r"impl(<.*?>)?\s+(.*?)\s*\{", text[k]) for k in range(i, max(-1, i - 60), -1) if re.match(r"impl\b.*\{", text[k])), None)
                of = re.sub(r"<.*", "", of.group(2).split(" for ")[-1]) if of else ""
                by = [u for u, (c, types, names) in LIBS.items() if of in types and m.group(2) in names and u in run.libs]
                out.append("%s %s%s" % (m.group(1), m.group(2), " (%s; proved from the source of %s in unit %s)" % (of, LIBS[by[0]][0], by[0]) if by else ""))
        elif "uninterp spec fn" in l:
            m = re.search(r"spec fn\s+(\w+)", l)
            if m:
                out.append("spec %s (uninterpreted)" % m.group(1))
        elif re.search(r"\baxiom\b|\badmit\(\)|assume\(|assume_specification", l):
            m = re.search(r"assume_specification.*?\[ *([^\[\]]*?(\w+)) *\] *\(", l)
            if m:
                # Of the standard library, what the extracted functions themselves call.
                free = re.match(r"core::(mem|cmp)::(\w+)$", m.group(1).strip())
                if re.search(r"\b%s::%s\(" % free.groups() if free else r"[.:]%s\(" % m.group(2), code):
                    by = DISCHARGED.get(m.group(1).strip())
                    out.append(m.group(1).strip() + (" (proved over all inputs by the Kani harness %s)" % by if by and any(n.endswith("::" + by) for _, n in run.conf.get("kani", [])) else ""))
                continue
            out.append(l.strip()[:100])
    if out:
        run.trusted.append("unit %s, shims stated in specs/%s.vs and not proved: %s" % (unit, unit, ", ".join(dict.fromkeys(out))))


def run(r):
    from check import sh
    import renames
    vx = r.vx
    if not vx:
        r.notes.append("the extractor could not be built")
        r.tool_fail.append("verus")
        return
    for u in r.conf.get("libs", []):
        run_lib(r, sh, vx, u)
    for u in r.conf["verus"]:
        unit, only = (u, None) if isinstance(u, str) else u
        run_unit(r, sh, vx, unit, renames.fn_names(r.renames, only) if only else only)
