"""Mutation campaign for the RTL checks (C44, C45): python3 tools/mutate_rtl.py OUT.jsonl [--jobs N]"""
import argparse, json, os, random, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

FILES = """kernel/jkff/JKFF kernel/sign/Sign kernel/abs/Abs stream/shuffle/Bi2Uni stream/shuffle/Uni2Bi stream/shuffle/SkewedSync
stream/shuffle_int/SkewedSyncInt kernel/div/CORDIV_kernel kernel/div/GDIV_U kernel/div/GDIV_B kernel/div/ISCBDIV_U kernel/div/ISCBDIV_B
kernel/sqrt/BISQRT_O_B kernel/sqrt/BISQRT_O_U kernel/sqrt/BISQRT_S_IS_B kernel/sqrt/BISQRT_S_IS_U kernel/sqrt/BISQRT_S_JK_B
kernel/sqrt/BISQRT_S_JK_U kernel/sqrt/GSQRT_B kernel/sqrt/GSQRT_U kernel/old/uMUL_uni/uMUL_uni kernel/old/uMUL_bi/uMUL_bi
kernel/old/uSADD/uSADD8 kernel/old/uSADD/uSADD16 kernel/old/parallelCnt/parallelCnt7 kernel/old/parallelCnt/parallelCnt15
kernel/old/cordiv/cordiv stream/old/SobolRNG/SobolRNGDim1 stream/old/SobolRNG/LSZ stream/old/SobolRNG/SobolRNG
stream/old/SobolRNGs/SobolRNGDim1_6b kernel/old/MAC16/uMAC_bi_scaled/uMAC_bi_scaled""".split()
RULES = [(r" & ", " | "), (r" \| ", " & "), (r" \^ ", " | "), (r"(?<!\()~", ""), (r" \+ ", " - "), (r" - ", " + "), (r" > ", " >= "),
         (r"\b1'b1\b", "1'b0"), (r"\b1'b0\b", "1'b1"), (r"\[0\]", "[1]"), (r"\[1\]", "[0]"), (r"<= 0;", "<= 1;"), (r" \? ", " == 0 ? "),
         (r"&cnt", "|cnt"), (r"in0", "in1"), (r"dividend", "divisor"), (r"DEP-1", "DEP-2"), (r"posedge", "negedge"), (r"%2", "%1")]


def mutants(repo):
    for f in FILES:
        p = f"hw/{f}.sv"
        text = open(os.path.join(repo, p), newline="").read()
        lines = text.split("\n")
        for i, l in enumerate(lines):
            s = l.strip()
            if not s or s.startswith(("//", "module", "`", "logic", "input", "output", "parameter", ".", "end")):
                continue
            for a, b in RULES:
                for m in re.finditer(a, l.split("//")[0]):
                    yield p, i, l, l[:m.start()] + b + l[m.end():]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("out")
    ap.add_argument("--jobs", type=int, default=4)
    ap.add_argument("--repo", default="/repo")
    ap.add_argument("--sample", type=float, default=1)
    a = ap.parse_args()
    ms = list(mutants(a.repo))
    random.Random(0).shuffle(ms)
    ms = ms[:int(len(ms) * a.sample)]
    print(len(ms), "mutants")
    base = tempfile.mkdtemp(prefix="rtlmut_")
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    copies = []
    for k in range(a.jobs):
        r, v = f"{base}/r{k}", f"{base}/v{k}"
        shutil.copytree(a.repo, r, ignore=shutil.ignore_patterns(".git"))
        shutil.copytree(here, v, ignore=shutil.ignore_patterns(".git", "seeded"))
        copies.append((r, v))
    out = open(a.out, "w")

    def one(m):
        p, i, old, new = m
        r, v = copies.pop()
        path = os.path.join(r, p)
        text = open(path, newline="").read()
        lines = text.split("\n")
        lines[i] = new
        open(path, "w", newline="").write("\n".join(lines))
        got = []
        try:
            for c in ("C44", "C45"):
                q = subprocess.run(["/opt/venv/bin/python", "check.py", c], cwd=v, env=dict(os.environ, UNARYSIM_REPO=r), capture_output=True,
                                   text=True, timeout=600)
                if q.returncode == 1:
                    got.append(c)
                    break
        finally:
            open(path, "w", newline="").write(text)
            copies.append((r, v))
        out.write(json.dumps({"file": p, "line": i + 1, "old": old.strip(), "new": new.strip(), "caught": got}) + "\n")
        out.flush()
    with ThreadPoolExecutor(a.jobs) as ex:
        list(ex.map(one, ms))
    shutil.rmtree(base)
    rs = [json.loads(l) for l in open(a.out)]
    print("caught", sum(bool(r["caught"]) for r in rs), "of", len(rs))
    for r in rs:
        if not r["caught"]:
            print(r["file"], r["line"], "|", r["old"], "->", r["new"])


main()
