"""The fuzzing dictionary: integers that occur in the source under test."""
import os, re

NUM = re.compile(r"(?<![\w.])(0[xX][0-9a-fA-F_]+|0[bB][01_]+|0[oO]?[0-7_]+|[0-9][0-9_]*)(?![\w.]*\.\d)(?:[uUlL]+)?(?![\w])")


def strip(src):
    """Remove comments, strings and character literals."""
    return re.sub(r'//[^\n]*|/\*.*?\*/|"(?:\\.|[^"\\\n])*"|`[^`]*`|\'(?:\\.|[^\'\\\n])+\'', " ", src, flags=re.S)


def value(tok):
    t = tok.replace("_", "").lower()
    if t.startswith("0x"):
        return int(t[2:], 16)
    if t.startswith("0b"):
        return int(t[2:], 2)
    if t.startswith("0o"):
        return int(t[2:], 8)
    if len(t) > 1 and t[0] == "0" and set(t) <= set("01234567"):
        return int(t, 8)
    return int(t)


def collect(repo):
    seen = set()
    for r, ds, fs in os.walk(repo):
        ds[:] = [d for d in ds if not d.startswith(".")]
        for f in fs:
            if not f.endswith((".go", ".c", ".h", ".s")) or f.endswith("_test.go"):
                continue
            try:
                src = strip(open(os.path.join(r, f), encoding="utf8", errors="replace").read())
            except OSError:
                continue
            for line in src.splitlines():
                toks = NUM.findall(line)
                if toks and "," in line and not re.search(r"return|case", line) and re.fullmatch(r"[\s\w,{}&.:\[\]-]*", line):
                    continue  # a row of a table
                for k in toks:
                    try:
                        v = value(k)
                    except ValueError:
                        continue
                    if 2 < v < 1 << 64:
                        seen.add(v)
                for m in re.finditer(r"\b1\s*<<\s*(\d+)", line):
                    if int(m.group(1)) < 64:
                        seen.add(1 << int(m.group(1)))
    return sorted(seen)


if __name__ == "__main__":
    import sys
    d = collect(sys.argv[1])
    print(len(d), d)
