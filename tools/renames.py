"""Private names that the current source spells differently than when the contracts were written.

specs/decls.json lists the names the source declared then.  A name that is gone is matched to a new one when that is the only
candidate: a field of the same type at the same place of the same struct, a function of the same owner and signature, a type with
the same fields, a constant with the same value.  The contracts and harnesses are then read with the new spelling.  Whether the
result fits is left to the compiler; an obligation that fails with adapted contracts is not reported as a violation.
"""
import json, os, re, shutil, subprocess

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOT_WORDS = {"new", "len", "get", "push", "main", "build", "index", "fmt", "eq", "default", "from", "next", "clear", "insert", "find", "set"}


def word(old, new, text):
    return re.sub(r"\b%s\b" % re.escape(old), new, text)


def find(vx, src="/repo/src"):
    """[(kind, file, owner, old, new)]"""
    try:
        was = [tuple(r) for r in json.load(open(os.path.join(HERE, "specs", "decls.json")))]
        now = [tuple(r) for r in json.loads(subprocess.run([vx, "--decls", src], capture_output=True, text=True, timeout=60).stdout)]
    except Exception:
        return []
    out = []
    for kind in ("type", "field", "fn", "const"):
        key = lambda r: r[:4]
        now_keys, was_keys = {key(r) for r in now}, {key(r) for r in was}
        gone = [r for r in was if r[0] == kind and key(r) not in now_keys]
        new = [r for r in now if r[0] == kind and key(r) not in was_keys]
        pairs = []
        if kind == "field":
            for owner in {r[1:3] for r in gone}:
                a = [r for r in was if r[0] == kind and r[1:3] == owner]
                b = [r for r in now if r[0] == kind and r[1:3] == owner]
                if len(a) == len(b) and all(x[4] == y[4] for x, y in zip(a, b)):
                    pairs += [(x, y) for x, y in zip(a, b) if x[3] != y[3]]
                else:
                    g, n = [r for r in a if r in gone], [r for r in b if r in new]
                    for x in g:
                        c = [y for y in n if y[4] == x[4]]
                        if len(c) == 1 and sum(1 for z in g if z[4] == x[4]) == 1:
                            pairs.append((x, c[0]))
        else:
            for x in gone:
                # A recursive type or function mentions itself.
                c = [y for y in new if y[1:3] == x[1:3] and word(x[3], "?", x[4]) == word(y[3], "?", y[4])]
                if len(c) == 1 and sum(1 for z in gone if z[1:3] == x[1:3] and word(z[3], "?", z[4]) == word(x[3], "?", x[4])) == 1:
                    pairs.append((x, c[0]))
        for x, y in pairs:
            if any(key(x)[0] == k[0] and x[3] == k[3] and x[1:3] == k[1:3] for k in out):
                continue
            out.append((kind, x[1], x[2], x[3], y[3]))
            if kind == "type":
                # What follows sees the type under its new name.
                was = [(r[0], r[1], word(x[3], y[3], r[2]), word(x[3], y[3], r[3]) if r[0] == "type" else r[3], word(x[3], y[3], r[4])) for r in was]
    return out


def hook_of(f):
    return f[:-3].split("/")[-1]


def adapt(renames, dst):
    """Copies of the hooks and specs in dst, with the new spelling."""
    os.makedirs(dst)
    hooks, specs = os.path.join(dst, "hooks"), os.path.join(dst, "specs")
    shutil.copytree(os.path.join(HERE, "harness", "hooks"), hooks)
    shutil.copytree(os.path.join(HERE, "specs"), specs)
    decl = json.load(open(os.path.join(HERE, "specs", "decls.json")))
    for kind, f, owner, old, new in renames:
        uses = sum(1 for r in decl if r[3] == old)
        everywhere = (uses == 1 or kind == "type") and old not in NOT_WORDS and len(old) > 2
        own = hook_of(f)
        for d in (hooks, specs):
            for n in os.listdir(d):
                p = os.path.join(d, n)
                if not os.path.isfile(p):
                    continue
                mine = n == own + ".rs"
                if not (mine or everywhere):
                    continue
                t = open(p).read()
                if kind == "field":
                    u = re.sub(r"\.%s\b(?!\s*\()" % re.escape(old), "." + new, t)
                    u = re.sub(r"([{,]\s*)%s(\s*:)(?!:)" % re.escape(old), r"\g<1>%s\2" % new, u)
                elif kind == "fn" and not everywhere:
                    u = re.sub(r"(?<!fn )\b%s(\s*\()" % re.escape(old), r"%s\1" % new, t)
                else:
                    u = word(old, new, t)
                if u != t:
                    open(p, "w").write(u)
        if kind == "fn":
            # The path of a function in the specifications.
            for n in os.listdir(specs):
                p = os.path.join(specs, n)
                t = open(p).read()
                a, b = ("%s::%s" % (owner, old), "%s::%s" % (owner, new)) if owner else (old, new)
                u = re.sub(r"(?m)^(@\w+ %s )%s\b" % (re.escape(f), re.escape(a)), r"\g<1>" + b, t)
                if n.endswith(".json") and owner:
                    u = u.replace('"%s"' % a, '"%s"' % b)
                if u != t:
                    open(p, "w").write(u)
    return hooks, specs


def fn_names(renames, names):
    out = []
    for n in names:
        for kind, f, owner, old, new in renames:
            if kind == "fn" and n == ("%s::%s" % (owner, old) if owner else old):
                n = "%s::%s" % (owner, new) if owner else new
            if kind == "type" and n.startswith(old + "::"):
                n = new + n[len(old):]
        out.append(n)
    return out
