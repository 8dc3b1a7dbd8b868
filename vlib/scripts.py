"""C28: the repository's helper scripts as functions of their inputs.

scripts/parse_oids.py, which makes the rows of src/oid.cc from a list of encoded object identifiers, on generated lists against the encoder's own
account (the identifiers are generated as components and encoded here); scripts/ISO-6093-NR3.pl on generated number texts against a scanner
written from the grammar in its header."""
import os, json, random, re, shutil, subprocess, tempfile, time, hashlib
from concurrent.futures import ProcessPoolExecutor
from . import build

def base128(v):
    out = [v & 0x7f]
    while v >> 7:
        v >>= 7
        out.insert(0, 0x80 | (v & 0x7f))
    return out

def encode(c):
    out = base128(c[0] * 40 + c[1])
    for v in c[2:]:
        out += base128(v)
    return out

def component(r):
    k = r.randrange(6)
    if k == 0:
        return r.randrange(3)
    if k < 3:
        return r.randrange(128)
    return max(0, (1 << r.choice([7, 14, 21, 28, 32, 35, 42, 49, 53, 55])) + r.randint(-2, 2)) if k < 5 else r.randrange(1 << r.randint(1, 55))

def oid(r, known):
    if known and r.randrange(3) == 0:
        c = list(r.choice(known))
        if r.randrange(2) and len(c) > 2:
            c.pop()
        c += [component(r) for _ in range(r.randrange(3))]
        return c[:15]
    a = r.randrange(3)
    b = r.randrange(40) if a < 2 else component(r)
    return [a, b] + [component(r) for _ in range(r.choice([0, 1, 2, 3, 5, 8, 13]))]

def oid_case(seed, n):
    r = random.Random("oids-%s-%s" % (seed, n))
    rows, known = [], []
    for k in range(r.choice([0, 1, 2, 3, 10, 40])):
        c = oid(r, known)
        known.append(c)
        name = r.choice(["a", "X509", "rsaEncryption", "id_it_suppLangTags", "SN-1 x", "n" * r.randrange(1, 60), "".join(r.choice("OBJ_bjoX509-Aaz.") for _ in range(r.randrange(1, 9))).replace("OBJ_", "O")]) + str(k)
        rows.append((name, c))
    return rows

def run_oids(rows, mode, d):
    os.makedirs(d + "/data", exist_ok=True)
    with open(d + "/data/oids.txt", "w") as f:
        for name, c in rows:
            f.write('OBJ_%s="%s"\n' % (name, "".join("\\x%02X" % o for o in encode(c))))
    p = subprocess.run(["python3", build.REPO + "/scripts/parse_oids.py", mode], cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=60)
    return p.returncode, p.stdout.decode("utf8", "replace")

def judge_oids(rows, d):
    rows = [(n, c) for n, c in rows]
    want = sorted((".".join(map(str, c)), encode(c), n) for n, c in rows)
    rc, o = run_oids(rows, "--strings", d)
    if rc:
        return "the list makes the script end with %d: %s" % (rc, o[-200:])
    got = [re.fullmatch(r'\{ "([0-9.]*)", *"(.*)" *\},', l) for l in o.splitlines()]
    if None in got:
        return "a row is not in the stated form"
    bad = diff(sorted((g.group(1), g.group(2)) for g in got), sorted((s, n) for s, _, n in want), "text rows")
    if bad:
        return bad
    if [g.group(1) for g in got] != sorted(g.group(1) for g in got):
        return "the text rows are not in the order of their texts"
    rc, o = run_oids(rows, "--bytes", d)
    if rc:
        return "the list makes the script end with %d: %s" % (rc, o[-200:])
    got = [re.fullmatch(r'\{ \{ ((?:0x[0-9a-f]{2},?)*) \}, (\d+), "(.*)" \},', l) for l in o.splitlines()]
    if None in got:
        return "a row of octets is not in the stated form"
    return diff(sorted(([int(x, 16) for x in g.group(1).split(",") if x], int(g.group(2)), g.group(3)) for g in got),
                sorted((b, len(b), n) for _, b, n in want), "octet rows")

def diff(got, want, what):
    for a, b in zip(got, want):
        if a != b:
            return "%s: %s, it should be %s" % (what, str(a)[:150], str(b)[:150])
    return None if len(got) == len(want) else "%s: %d rows for %d identifiers" % (what, len(got), len(want))

# ---- number texts

def digits(s, i):
    k = i
    while k < len(s) and s[k] in "0123456789":
        k += 1
    return s[i:k], k

def nr3(mode, s):
    """(integer, fraction, exponent or None) or None"""
    a, i = digits(s, 0)
    if i >= len(s) or s[i] != ".":
        return None
    b, i = digits(s, i + 1)
    e = None
    if i < len(s) and s[i] in "eE":
        i += 1
        sign = ""
        if i < len(s) and s[i] in ("-+" if mode == "relaxed" else "-"):
            sign, i = s[i], i + 1
        x, i = digits(s, i)
        if not x:
            return None
        e = sign + x
    if i != len(s):
        return None
    if mode == "strict":
        if a == "" or a != "0" and a[0] == "0":
            return None
        if b == "" or b != "0" and b[-1] == "0":
            return None
        x = (e or "").lstrip("-")
        if x and x != "0" and x[0] == "0":
            return None
    return a, b, e or ""

def text_case(seed, n):
    r = random.Random("nr3-%s-%s" % (seed, n))
    def num():
        return r.choice(["", "0", "00", "1", "10", "01", "010", "007", "100", "123", str(r.randrange(10 ** r.randint(1, 25)))])
    s = num() + r.choice([".", ".", ".", ".", "", ",", ".."]) + num()
    if r.randrange(2):
        s += r.choice("eEeEdx") + r.choice(["", "", "-", "+", "--"]) + num()
    k = r.randrange(8)
    if k == 0 and s:
        i = r.randrange(len(s))
        s = s[:i] + r.choice("0123456789.eE+- a") + s[i + r.randrange(2):]
    elif k == 1:
        s = r.choice("+- 0") + s
    return r.choice(["relaxed", "strict"]), s

def judge_text(c):
    mode, s = c
    w = nr3(mode, s)
    p = subprocess.run(["perl", build.REPO + "/scripts/ISO-6093-NR3.pl", mode, s], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60)
    o = p.stdout.decode("utf8", "replace")
    want = "{ integer:%s fraction:%s exponent:%s }\n" % w if w else ""
    return None if o == want else "'%s' (%s): '%s', it should be '%s'" % (s, mode, o.strip(), want.strip())

def worker(a):
    kind, seed, lo, hi, top = a
    d = tempfile.mkdtemp(dir=top)
    out = []
    try:
        for n in range(lo, hi):
            if kind == "oids":
                c = oid_case(seed, n)
                out.append((n, str(c), len(c) > 0, judge_oids(c, d)))
            else:
                c = text_case(seed, n)
                out.append((n, str(c), nr3(*c) is not None or "." in c[1], judge_text(c)))
            if out[-1][3]:
                break
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return out

def run(rep, part, opt):
    top = tempfile.mkdtemp(dir=rep.tmp)
    if "replay" in opt:
        with open(opt["replay"]) as f:
            j = json.load(f)
        bad = judge_oids(j["case"], top) if j["kind"] == "oids" else judge_text(j["case"])
        print(j["case"], bad)
        if bad:
            rep.violation("replay", bad, opt["replay"])
        return
    for kind in ("oids", "number texts"):
        total = int((part["thorough"] if rep.thorough() else part["quick"]) * float(opt.get("scale", 1)))
        jobs = [(kind, rep.seed, a, min(total, a + 25), top) for a in range(0, total, 25)]
        seen, evals, fails, samples = set(), 0, [], []
        with ProcessPoolExecutor(8) as ex:
            for out in ex.map(worker, jobs):
                for n, c, real, bad in out:
                    evals += 1
                    if real:
                        seen.add(hashlib.sha256(c.encode()).hexdigest()[:16])
                    if n % 97 == 0:
                        samples.append(c[:300])
                    if bad:
                        fails.append(n)
                if fails:
                    ex.shutdown(cancel_futures=True)
                    break
        for n in fails[:1]:
            if kind == "oids":
                c = oid_case(rep.seed, n)
                k = 0
                while k < len(c):                       # rows, then components, as far as the complaint stays
                    q = c[:k] + c[k + 1:]
                    if judge_oids(q, top):
                        c = q
                    else:
                        k += 1
                for i in range(len(c)):
                    for m in range(len(c[i][1]) - 1, 1, -1):
                        q = [(a, b[:m] + b[m + 1:]) if x == i else (a, b) for x, (a, b) in enumerate(c)]
                        if judge_oids(q, top):
                            c = q
                bad = judge_oids(c, top)
            else:
                c = text_case(rep.seed, n)
                changed = True
                while changed:
                    changed = False
                    for i in range(len(c[1])):
                        q = (c[0], c[1][:i] + c[1][i + 1:])
                        if judge_text(q):
                            c, changed = q, True
                            break
                bad = judge_text(c)
            path = os.path.join(rep.rdir, "C28-%s.json" % kind.split()[0])
            with open(path, "w") as f:
                json.dump(dict(kind=kind, case=c), f, indent=1)
            rep.violation(kind, bad, path)
        rep.add(kind, evals, len(seen), {}, samples[:10])
