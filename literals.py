"""Texts and numbers written in the library's source.  They steer what the drivers try, not what they accept."""
import json, os, re

SRC = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "repo", "src")
HERE = os.path.dirname(os.path.abspath(__file__))
KEPT = os.path.join(HERE, "golden", "literals.json")


def mine(src=SRC):
    words, numbers = set(), set()
    for d, _, fs in os.walk(src):
        for f in fs:
            if not f.endswith(".rs"):
                continue
            text = open(os.path.join(d, f), errors="replace").read()
            text = re.sub(r"(?m)^\s*//.*$", "", text)
            for m in re.finditer(r'"((?:[^"\\\n]|\\.)*)"|\'((?:[^\'\\\n]|\\[^u]|\\u\{[0-9a-fA-F]+\}))\'', text):
                s = m.group(1) if m.group(1) is not None else m.group(2)
                s = re.sub(r"\\u\{([0-9a-fA-F]+)\}", lambda x: chr(int(x.group(1), 16)), s)
                s = re.sub(r"\\(.)", lambda x: {"n": "\n", "t": "\t", "r": "\r", "0": "\0"}.get(x.group(1), x.group(1)), s)
                # shorter than a page, and of characters the specification knows how to lower-case
                if 0 < len(s) <= 60 and "\0" not in s and "{" not in s and all(ok(ord(c)) for c in s):
                    words.add(s)
            for m in re.finditer(r"(?<![\w.])(\d[\d_]*|0x[0-9a-fA-F_]+)(?:_?[iuf](?:8|16|32|64|size))?\b", text):
                n = int(m.group(1).replace("_", ""), 0) if not re.match(r"0\d", m.group(1)) else int(m.group(1).replace("_", ""))
                if 2 <= n <= 1 << 33:
                    numbers.add(n)
    return sorted(words), sorted(numbers)


def ok(c):
    """Does Text!LowerOf lower-case it as Unicode does?"""
    if 0xd800 <= c < 0xe000:
        return False
    up = 65 <= c <= 90 or 192 <= c <= 222 and c != 215 or 913 <= c <= 939 and c != 930 or 1040 <= c <= 1071
    want = [c + 32] if up else {304: [105, 775], 7838: [223]}.get(c, [c])
    return [ord(x) for x in chr(c).lower()] == want


def write(dest):
    words, numbers = mine()
    kept = json.load(open(KEPT))
    new_numbers = [n for n in numbers if n not in kept["numbers"]]
    # limits are often written as a mask or a size in bits
    more = {1 << n for n in new_numbers if n < 20} | {n * k for n in new_numbers for k in (8, 1024)}
    with open(dest, "w") as f:
        json.dump(dict(words=words, new_words=[w for w in words if w not in kept["words"]],
                       new_numbers=sorted(set(new_numbers) | {m for m in more if m <= 100000}) if new_numbers else []), f)


if __name__ == "__main__":
    w, n = mine()
    json.dump(dict(words=w, numbers=n), open(KEPT, "w"), indent=0, ensure_ascii=False)
    print(len(w), len(n), w, n)
