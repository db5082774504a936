"""automutate.py OUT.py N SEED FILE...: writes a mutate.py specification with N random one-token mutants of the files."""
import ast, io, pathlib, random, re, sys, tokenize
out, n, seed, files = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), sys.argv[4:]
rng = random.Random(seed)
SRC = pathlib.Path("/repo/src/deepwave")
PROPS = {
    "scalar.c": "A01,G01,G03,G04,B01,S01,T01", "scalar_born.c": "A02,G01,G03,G04,B01,S01,T01",
    "acoustic.c": "A03,G02,G04,B01,S01,T01", "elastic.c": "A04,G02,G04,B01,S01,T01",
    "simple_compress.c": "S01", "storage_utils.c": "S01", "common_cpu.h": "A01,B01", "regular_grid.h": "A01,G03",
    "staggered_grid.h": "A03,A04", "regular_grid.py": "R01,M01,P01,A01", "staggered_grid.py": "R01,M01,P01,A04",
    "location_interpolation.py": "H01", "wavelets.py": "M01",
    "common.py": "R01,A03,E01,V01,M01,C01,T02,S01,P01,W01,H01,G04,B01,I01,F01",
    "scalar.py": "A01,R01,G01,T01,V01,T02,P01,G03,G04,B01,S01,W01,E01,I01,F01",
    "scalar_born.py": "A02,R01,G01,T01,V01,T02,P01,G03,G04,B01,S01,W01,E01,I01,F01",
    "acoustic.py": "A03,R01,G02,T01,V01,T02,P01,G04,B01,S01,W01,E01,I01,F01",
    "elastic.py": "A04,R01,G02,T01,V01,T02,P01,G04,B01,S01,W01,E01,I01,F01",
}
SWAPS = [(r"(?<![-+*/=<>!&|(,])\s\+\s", " - "), (r"(?<=[\w\])])\s-\s(?=[\w(\[])", " + "), (r"\s<\s", " <= "), (r"\s<=\s", " < "),
         (r"\s>\s", " >= "), (r"\s>=\s", " > "), (r"==", "!="), (r"!=", "=="), (r"&&", "||"), (r"\|\|", "&&"),
         (r"\band\b", "or"), (r"\bor\b", "and"), (r"\bnot (?=\w)", ""), (r"\b0\b", "1"), (r"\b1\b", "0"), (r"\b1\b", "2"), (r"\b2\b", "1"),
         (r"\bmin\(", "max("), (r"\bmax\(", "min("), (r"\bTrue\b", "False"), (r"\bFalse\b", "True"), (r"\+=", "="), (r"-=", "+="),
         (r"(?<=\s)-(?=[a-zA-Z])", ""), (r"\*\s(?=\w)", "/ "),
         (r"(\w*?)y(\w*)\b", None), (r"(\w*?)x(\w*)\b", None), (r"(\w*?)z(\w*)\b", None),
         (r"\ba([xyz]h?)\b", r"b\1"), (r"\bb([xyz]h?)\b", r"a\1"), (r"(\w+)n_t\b", r"\1_t"), (r"\b(\w+)_batched\b", None)]


def code_lines(f, text):
    lines = text.split("\n")
    ok = set(range(len(lines)))
    if f.endswith(".py"):
        for node in ast.walk(ast.parse(text)):
            if isinstance(node, (ast.FunctionDef, ast.ClassDef, ast.Module)) and node.body and isinstance(node.body[0], ast.Expr) \
                    and isinstance(node.body[0].value, ast.Constant) and isinstance(node.body[0].value.value, str):
                ok -= set(range(node.body[0].lineno - 1, node.body[0].end_lineno))
            if isinstance(node, ast.Raise):
                ok -= set(range(node.lineno - 1, node.end_lineno))
    bad = re.compile(r"^\s*(#|//|/\*|\*|import|from|def |class |@|\"\"\")|is_cuda|warn|GPU|cuda|: Optional|: Union|-> |: List|raise |#endif|#include|DW_NDIM")
    return [i for i in sorted(ok) if lines[i].strip() and not bad.search(lines[i])], lines


def mutants(f):
    text = (SRC / f).read_text()
    idx, lines = code_lines(f, text)
    words = set(re.findall(r"\b[A-Za-z_]\w*\b", text))
    res = []
    for i in idx:
        ln = lines[i].split("  # ")[0]
        for pat, rep in SWAPS:
            for m in re.finditer(pat, ln):
                if rep is None:
                    w = m.group(0)
                    cands = []
                    if w.endswith("_batched"):
                        cands = [x for x in words if x.endswith("_batched") and x != w]
                    else:
                        for a in "xyz":
                            for b in "xyz":
                                if a != b and a in w:
                                    j = w.rfind(a)
                                    c = w[:j] + b + w[j + 1:]
                                    if c in words and len(w) > 1 or (len(w) == 1 and c in words):
                                        cands.append(c)
                    if not cands:
                        continue
                    new = ln[:m.start()] + rng.choice(sorted(cands)) + ln[m.end():]
                else:
                    new = ln[:m.start()] + m.expand(rep) + ln[m.end():]
                if new != ln:
                    res.append((i, lines[i], new))
        s = ln.strip()
        if f.endswith((".c", ".h")) and s.endswith(";") and "=" in s and not re.match(r"(int|bool|DW_DTYPE|void|size_t|u?int64_t|char|FILE)", s) \
                and i and lines[i - 1].rstrip().endswith((";", "{", "}", "#endif")):
            res.append((i, lines[i], ln[:len(ln) - len(ln.lstrip())] + ";"))
    return text, lines, res


M = []
for f in files:
    text, lines, res = mutants(f)
    byline = {}
    for r in res:
        byline.setdefault(r[0], []).append(r)
    keys = sorted(byline)
    for k in rng.sample(keys, min(len(keys), n)):
        i, old, new = rng.choice(byline[k])
        nth = lines[:i].count(old)
        # exact line, by its number
        M.append((f"{f}:{i + 1}:{len(M)}", PROPS[f], f, i + 1, old, new))
pathlib.Path(out).write_text("M = [\n" + "".join(f"  {m!r},\n" for m in M) + "]\n")
print(len(M))
