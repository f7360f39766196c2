"""The constants of the source: what the search of the bounded stand-in mixes into its inputs.

`python3 tools/literals.py` rewrites specs/literals.json from the tree; a run gives those that are not in it more weight."""
import glob, json, os, re, sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = "/repo/src"
ESC = {"n": 10, "r": 13, "t": 9, "0": 0, "\\": 92, "'": 39, '"': 34}


def code_of(text):
    """Without comments and what only tests compile."""
    text = re.sub(r"#\[cfg\(test\)\]\s*mod\s+\w+\s*\{.*\Z", "", text, flags=re.S)
    return re.sub(r"//[^\n]*", "", text)


def unescape(s):
    out, i = b"", 0
    while i < len(s):
        if s[i] == "\\" and i + 1 < len(s):
            m = re.match(r"\\u\{([0-9a-fA-F_]+)\}", s[i:])
            x = re.match(r"\\x([0-9a-fA-F]{2})", s[i:])
            if m:
                out += chr(int(m.group(1).replace("_", ""), 16)).encode()
                i += m.end()
            elif x:
                out += bytes([int(x.group(1), 16)])
                i += x.end()
            else:
                out += bytes([ESC.get(s[i + 1], ord(s[i + 1]) & 255)])
                i += 2
        else:
            out += s[i].encode()
            i += 1
    return out


def literals(src=SRC):
    nums, texts = set(), set()
    for p in glob.glob(os.path.join(src, "**", "*.rs"), recursive=True):
        try:
            t = code_of(open(p).read())
        except (OSError, UnicodeDecodeError):
            continue
        for m in re.finditer(r"'((?:\\u\{[0-9a-fA-F_]+\}|\\x[0-9a-fA-F]{2}|\\.|[^'\\\n]))'", t):
            b = unescape(m.group(1))
            try:
                nums.add(ord(b.decode()))
            except (UnicodeDecodeError, TypeError):
                nums.add(b[0])
        for m in re.finditer(r'"((?:\\.|[^"\\])*)"', t, re.S):
            b = unescape(m.group(1))
            if 0 < len(b) < 32:
                texts.add(b)
        bare = re.sub(r'"((?:\\.|[^"\\])*)"', '""', t, flags=re.S)
        for m in re.finditer(r"\b(0x[0-9a-fA-F_]+|0b[01_]+|0o[0-7_]+|[0-9][0-9_]*)(?:_?(?:[ui](?:8|16|32|64|128)|[ui]size))?\b", bare):
            s = re.sub(r"_?(?:[ui](?:8|16|32|64|128)|[ui]size)$", "", m.group(0)).replace("_", "")
            try:
                v = int(s, 0) if not re.match(r"0\d+$", s) else int(s)
            except ValueError:
                continue
            if v < 1 << 64:
                nums.add(v)
        for m in re.finditer(r"\b1(?:_?[ui]\w+)?\s*<<\s*([0-9]+)", bare):
            if int(m.group(1)) < 64:
                nums |= {1 << int(m.group(1)), (1 << int(m.group(1))) - 1}
    return nums, texts


def write(path):
    """The dictionary of a run; the number of constants that are new."""
    nums, texts = literals()
    try:
        old = json.load(open(os.path.join(HERE, "specs", "literals.json")))
    except OSError:
        old = {"numbers": [], "texts": []}
    on, ot = set(old["numbers"]), {bytes.fromhex(x) for x in old["texts"]}
    # Small numbers come up by themselves.
    rows = [("new" if n not in on else "old", "n", str(n)) for n in nums if n > 3] + \
           [("new" if x not in ot else "old", "s", x.hex()) for x in texts]
    rows.sort(key=lambda r: (r[0] != "new", r))
    with open(path, "w") as f:
        f.write("".join(" ".join(r) + "\n" for r in rows))
    return sum(r[0] == "new" for r in rows)


if __name__ == "__main__":
    n, t = literals()
    json.dump({"numbers": sorted(n), "texts": sorted(x.hex() for x in t)}, open(os.path.join(HERE, "specs", "literals.json"), "w"), indent=0)
    print(len(n), "numbers,", len(t), "texts")
