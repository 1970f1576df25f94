"""Development tool (no check uses it): single-token mutants of the sources, run against the checks whose files they touch.
tools/mutate.py FILE-REGEX COUNT [SEED] : prints survivors and those only a proof noticed."""
import sys, os, re, random, subprocess, shutil, json
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, "/verif")
from specs.meta import META
OPS = [(r"(?<![<>=!+\-*/&|])<(?![<=])", "<="), (r"<=", "<"), (r"(?<![<>=!\-])>(?![>=])", ">="), (r">=", ">"), (r"==", "!="), (r"!=", "=="), (r"&&", "||"), (r"\|\|", "&&"),
       (r"(?<![+\w(,=] )(?<!\+) \+ (?!\+)", " - "), (r" - ", " + "), (r" \* ", " / "), (r" / ", " * "), (r"\+\+", "--"), (r"\+=", "-="), (r"-=", "+="), (r"\b0\b(?![.x])", "1"), (r"\b1\b(?!\.)", "2"), (r"\btrue\b", "false"), (r"\bfalse\b", "true"),
       (r"std::min", "std::max"), (r"std::max", "std::min"), (r"(?<=\()!(?=\w)", ""), (r"\bif \((?!constexpr)", "if (!("), (r"^\s+[\w:>.\-\[\]_]+(?: [+\-*/]?= [^;]*|\([^;{}]*\));\s*$", "DELETE")]
def mutants(f):
    out = []
    lines = open(f).read().split("\n")
    for i, l in enumerate(lines):
        s = l.strip()
        if s.startswith(("//", "#", "*", "/*", "template", "using", "spn_assert", "SPN_DBG", "static_assert", "std::enable_if", "namespace", "include", "public", "friend")) or "spn_assert" in l or "std::is_" in l or "enable_if" in l: continue
        code = l.split("//")[0]
        for pat, rep in OPS:
            for m in re.finditer(pat, code):
                if rep == "DELETE":
                    if re.match(r"\s*(return|const|auto|using|typedef|break)\b", code): continue
                    new = "    ;"
                elif rep.startswith("if (!("):
                    d = 0; j = m.end() - 1
                    for e in range(j, len(code)):
                        d += (code[e] == "(") - (code[e] == ")")
                        if d == 0: break
                    else: continue
                    if ";" in code[j:e]: continue
                    new = code[:m.start()] + "if (!(" + code[j + 1:e] + "))" + code[e + 1:]
                else: new = code[:m.start()] + rep + code[m.end():]
                if "<" in pat or ">" in pat:
                    if "template" in code or re.search(r"[\w:]+<[\w:, *&<>]+>", code) and not re.search(r" [<>]=? ", code): continue
                    if rep in ("<=", ">=", "<", ">") and not (code[m.start() - 1:m.start()] == " "): continue
                out.append((i, l, new))
    return lines, out
def mutants2(f):
    """MODE=2: narrower types, dropped conditions and guards, exchanged statements and identifiers, off-by-one constants, kept state"""
    lines, out = open(f).read().split("\n"), []
    for i, l in enumerate(lines):
        t = l.strip(); code = l.split("//")[0]
        if not t or t.startswith(("//", "#", "*", "/*", "template", "using", "spn_assert", "SPN_", "spn_expect", "static_assert", "std::enable_if", "namespace", "public", "friend", "private", "protected")): continue
        def sub(pat, rep):
            for m in re.finditer(pat, code):
                n = code[:m.start()] + m.expand(rep) + code[m.end():]
                if n != code: out.append((i, l, n))
        sub(r"\bsize_t\b", "uint8_t"); sub(r"\bsize_t\b", "uint16_t"); sub(r"\b(?:int64_t|long long|long)\b", "int32_t"); sub(r"\bint64_t\b", "uint64_t"); sub(r"\bdouble\b", "float"); sub(r"\bfloat\b", "int"); sub(r"\buint32_t\b", "uint16_t"); sub(r"\bunsigned char\b|\buint8_t\b", "int8_t")
        sub(r"(?<=\()([^()&|]+(?:\([^()]*\))?[^()&|]*) (?:&&|\|\|) ([^()&|]+(?:\([^()]*\))?[^()&|]*)(?=\))", r"\1"); sub(r"(?<=\()([^()&|]+(?:\([^()]*\))?[^()&|]*) (?:&&|\|\|) ([^()&|]+(?:\([^()]*\))?[^()&|]*)(?=\))", r"\2")
        sub(r"^(\s*)if \([^;{}]*\) (?:return|continue|break|throw)[^;]*;", r"\1;"); sub(r"\bcontinue;", "break;"); sub(r"\bbreak;", "continue;")
        sub(r"\bm_head\b", "m_tail"); sub(r"\bm_tail\b", "m_head"); sub(r"\bother\.(\w+)", r"\1"); sub(r"\bfirst\b", "last"); sub(r"\blast\b", "first"); sub(r"\bbegin\(\)", "end()"); sub(r"\bmax_size\(\)", "size()"); sub(r"(?<!_)\bsize\(\)", "max_size()"); sub(r"upper", "lower"); sub(r"lower", "upper"); sub(r"high\b", "low"); sub(r"low\b", "high"); sub(r"\bmin", "max"); sub(r"\bmax", "min")
        sub(r"(?<![\w.])([2-9]|[1-9]\d+)(?![\w.])", lambda m: str(int(m.group(0)) + 1)) if False else None
        for m in re.finditer(r"(?<![\w.\"'%])(\d+)(?![\w.\"'])", code):
            for d in (1, -1):
                if int(m.group(0)) + d >= 0: out.append((i, l, code[:m.start()] + str(int(m.group(0)) + d) + code[m.end():]))
        sub(r"^(\s+)(?:const )?(auto|size_t|bool|int|float) (\w+) = ", r"\1static \2 \3 = ")
        sub(r"\((\w+), (\w+)\)", r"(\2, \1)"); sub(r"(\w+) - (\w+)", r"\2 - \1"); sub(r" % [\w.]+(?:\(\))?", ""); sub(r"std::move\((\w+)\)", r"\1"); sub(r"static_cast<[\w: ]+>\(", "("); sub(r"const (\w[\w:<>]*)& (\w+)([,)])", r"const \1 \2\3"); sub(r"return (?!\{|\*this|nullptr)[^;]+;", "return {};"); sub(r"\breturn true\b", "return false"); sub(r"\breturn false\b", "return true")
        if i + 1 < len(lines):
            a, b = l, lines[i + 1]; ok = lambda x: re.match(r"^\s+[\w*:>.\-\[\]_(+]+.*;\s*(//.*)?$", x) and not re.match(r"\s*(return|using|typedef|break|continue|else|if|for|while|case|friend|static_assert|spn_assert|SPN)", x)
            if ok(a) and ok(b) and len(a) - len(a.lstrip()) == len(b) - len(b.lstrip()): out.append((i, l, b + "\n" + a + "\n#EAT"))
    return lines, out
def mutants3(f):
    """MODE=3: one value of one variable is treated as the next"""
    lines, out = open(f).read().split("\n"), []
    for i, l in enumerate(lines):
        t = l.strip(); code = l.split("//")[0]
        if not t or not l.startswith("    ") or t.startswith(("//", "#", "*", "/*", "template", "using", "spn_", "SPN_", "static_assert", "std::enable_if", "case")) or "spn_assert" in l or "enable_if" in l: continue
        if re.match(r"\s+[\w:<>,&* \[\]]+\(.*\)[^;]*[{;]\s*$", code) and not re.match(r"\s+(if|for|while|return|else)\b", code) and "=" not in code and re.search(r"\w [&*]?\w+[,)]", code): continue   # a declaration
        for m in re.finditer(r"(?<![\w.:\"'&*>])([a-z_]\w*)\b(?=\s*(?:[;)+*/,%\]?]|- |[<>=!]=? ))(?!\s*=[^=])", code):
            if m.group(1) in ("return", "this", "nullptr", "true", "false", "const", "auto", "size_t", "int", "float", "bool", "char", "void", "break", "continue", "default", "override", "noexcept", "other", "it"): continue
            for k in (2, 3, 5, 12, 31, 60, 100, 255, 256, 1000, 3600, 65536):
                out.append((i, l, code[:m.start()] + "(%s == %d ? %s + 1 : %s)" % (m.group(1), k, m.group(1), m.group(1)) + code[m.end():]))
    return lines, out
mutants = {"2": mutants2, "3": mutants3}.get(os.environ.get("MODE"), mutants)
def run(job):
    f, lines, (i, old, new), n = job
    w = "/tmp/w/mut/%d" % n; shutil.rmtree(w, ignore_errors=True); os.makedirs(w)
    subprocess.run(["cp", "-r", "/repo/src", w + "/src"], check=True)
    g = f.replace("/repo/", w + "/"); L = list(lines); L[i] = new
    if new.endswith("\n#EAT"): L[i] = new[:-5]; L[i + 1] = ""
    open(g, "w").write("\n".join(L))
    # only mutants that compile count
    rel = f.replace("/repo/", ""); res = None
    props = [m["id"] for m in META if rel in m["files"]]
    log = []
    for p in props:
        r = subprocess.run(["timeout", "900", "python3-vt", "check.py", p], cwd="/verif", env=dict(os.environ, VERIF_REPO=w, VERIF_OUT=w + "/out", VERIF_SEED="1", VERIF_TIER="quick"), capture_output=True, text=True)
        v = [x for x in r.stdout.split("\n") if x.startswith("VIOLATION")]
        log.append((p, r.returncode, "proof-only" if v and "no-failing-input" in v[0] else "", [x[:160] for x in r.stdout.split("\n") if re.match("obligation failed|failing input|.*does not compile|.*error:", x)][:2]))
        if r.returncode == 1 and v and "no-failing" not in v[0]: break
    shutil.rmtree(w, ignore_errors=True)
    best = "caught" if any(r == 1 and not q for _, r, q, _ in log) else "proof-only" if any(r == 1 for _, r, _, _ in log) else "SURVIVES" if all(r == 0 for _, r, _, _ in log) else "ERROR"
    return best, rel, i + 1, old.strip(), new.strip(), log
if __name__ == "__main__":
    rx, count = sys.argv[1], int(sys.argv[2]); random.seed(int(sys.argv[3]) if len(sys.argv) > 3 else 1)
    files = sorted({"/repo/" + f for m in META for f in m["files"] if re.search(rx, f)}); jobs = []
    for f in files:
        lines, ms = mutants(f); jobs += [(f, lines, m) for m in ms]
    random.shuffle(jobs); jobs = [(a, b, c, n) for n, (a, b, c) in enumerate(jobs[:count])]; print(len(jobs), "mutants", flush=True)
    tot = {}
    with ThreadPoolExecutor(int(os.environ.get("J", "4"))) as ex:
        for best, rel, i, old, new, log in ex.map(run, jobs):
            if best == "proof-only" and all("can be extracted" in str(l[3]) for l in log if l[1] == 1): best = "nocompile"
            tot[best] = tot.get(best, 0) + 1
            if best not in ("caught", "nocompile"): print("%s %s:%d\n    - %s\n    + %s\n    %s" % (best, rel, i, old, new, log), flush=True)
    print(tot)
