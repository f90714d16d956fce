"""What the Python and the JavaScript comparisons share: the core behind `vh side`, generators of cases, the loop over kinds."""
import sys, os, re, json, random, subprocess, time

so, vh, seed, tier, secs, out = sys.argv[1:7]
only = sys.argv[7] if len(sys.argv) > 7 else None
rng_from, rng_to = (int(sys.argv[8]), int(sys.argv[9])) if len(sys.argv) > 9 else (None, None)

class Core:
    def __init__(self):
        self.p = subprocess.Popen([vh, "side"], stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True)
    def __call__(self, op, *a, n=0):
        self.p.stdin.write(json.dumps({"op": op, "a": [bytes(x).hex() for x in a], "n": n}) + "\n")
        self.p.stdin.flush()
        r = json.loads(self.p.stdout.readline())
        if "ok" in r:
            return [bytes.fromhex(x) for x in r["ok"]]
        if "panic" in r:
            raise Panic(r["panic"])
        raise CoreError(r["err"])
class CoreError(Exception): pass
class Panic(Exception): pass
class Fail(Exception): pass
core = Core()
NOTE = [""]
def note(s):
    NOTE[0] = s[:4000]
    if "VH_ECHO" in os.environ: print("INPUT", NOTE[0].replace("\n", " "), flush=True)
def check(c, what):
    if not c: raise Fail(what)

def co(*a, n=0):
    try:
        return "ok", core(*a, n=n)
    except CoreError as e:
        return "err", e
def B(x): return bytes(x)

def axes(r):
    res = []
    for i in range(r.randint(1, 3)):
        names = [f"a{j}" for j in range(r.randint(1, 4))]
        r.shuffle(names)
        res.append({"name": f"X{i}", "attributes": names, "hierarchical": r.random() < .5})
    return res
def attrs(ax): return [(a["name"], x) for a in ax for x in a["attributes"]]
def expr(r, ats):
    if len(ats) == 1: return "%s::%s" % ats[0]
    k = r.randint(1, len(ats) - 1)
    a, b = expr(r, ats[:k]), expr(r, ats[k:])
    return f"({a} {r.choice(['&&', '||'])} {b})"
def rand_expr(r, ax):
    ats = attrs(ax); r.shuffle(ats)
    e = expr(r, ats[: r.randint(1, min(4, len(ats)))])
    # a policy said twice: the key has more shares, and opens the same
    return e if r.random() < .8 else f"({e} || {e})"
def some(r, ax):
    ats = [a for a in attrs(ax) if r.random() < .6] or [r.choice(attrs(ax))]
    return json.dumps([f"{a}::{b}" for a, b in ats]).encode()
def meta(r):
    uid = r.randbytes(r.choice([0, 1, 8, 32]))
    ad = None if r.random() < .4 else r.randbytes(r.randint(1, 20))
    return uid, ad, json.dumps({"uid": list(uid), "additional_data": None if ad is None else list(ad)}).encode()
def meta_bytes(uid, ad):
    if not uid and not ad: return b""
    return len(uid).to_bytes(4, "big") + uid + (ad or b"")

def core_user(r, ax, msk, pol):
    """a key the core issues (it refuses policies whose expansion repeats an attribute)"""
    while True:
        ex = rand_expr(r, ax)
        k, v = co("user", msk, ex.encode(), pol)
        if k == "ok": return v[0], ex

def opens(key, hdr):
    """what the core gets from a header: (status, (symmetric key, metadata))"""
    k, v = co("dec_header", key, hdr)
    return (k, (v[0], v[1])) if k == "ok" else (k, None)

def mutate(r, b):
    k = b'"last_attribute_value":'
    if k in b and r.randrange(4) == 0:  # the counter of a policy, at and past its limits
        return re.sub(k + rb"\d+", k + r.choice([b"4294967295", b"4294967294", b"2147483648", b"0"]), b)
    b = bytearray(b)
    for _ in range(r.choice([1, 1, 2, 3])):
        c = r.randrange(7)
        if c == 0: b = b[: r.randint(0, len(b))]
        elif c == 1 and b: b[r.randrange(len(b))] ^= 1 << r.randrange(8)
        elif c == 2 and b: del b[r.randrange(len(b))]
        elif c == 3 and len(b) >= 4:
            o = r.choice([0, 4, r.randint(0, len(b) - 4)])
            b[o:o + 4] = r.choice([0, 1, 2**31, 2**32 - 1, len(b), r.randrange(50)]).to_bytes(4, "big")
        elif c == 4: b += r.randbytes(r.randint(1, 30))
        elif c == 5: b = bytearray(b[: len(b) - r.randint(0, 5)])
        else: b[r.randrange(len(b) + 1):0] = r.choice([b'"', b"{", b"[", b",", b":", b"0", b"null", b"\xff"])
    return bytes(b)
def mutate_expr(r, s):
    s = list(s)
    for _ in range(r.randint(1, 3)):
        i = r.randrange(len(s) + 1)
        c = r.randrange(4)
        if c == 0 and s: del s[r.randrange(len(s))]
        elif c == 1: s.insert(i, r.choice("()&|:, aX0_~"))
        elif c == 2: s[i:i] = list(r.choice([" && ", " || ", "::", ",", "()", "X0::a0", ""]))
        else: s = s[: i]
    return "".join(s)
def sane(b):
    try: d = json.loads(b)
    except Exception: return True
    return not isinstance(d, dict) or (
        not isinstance(d.get("max_attribute_creations"), int) or d["max_attribute_creations"] <= 200)

def run(kinds, known):
    rep = {"evals": [], "samples": [], "known": [], "failure": None}
    end = time.time() + float(secs)
    if only is None: known(random.Random(0), 0, rep["known"])
    for name, f, q, t in kinds:
        if only and only != name: continue
        print("KIND", name, flush=True)
        done = 0
        lo, hi = (rng_from, rng_to) if rng_from is not None else (0, t if tier == "thorough" else q)
        t0 = time.time()
        for i in range(lo, hi):
            if time.time() > end: break
            NOTE[0] = ""
            try:
                f(random.Random(f"{seed}/{name}/{i}"), i)
                done += 1
                if i < 2: rep["samples"].append([f"{name}#{i}", NOTE[0][:1500]])
            except Exception as ex:
                what = str(ex) if isinstance(ex, Fail) else f"{type(ex).__name__}: {ex}"
                rep["failure"] = {"kind": name, "index": i, "input": NOTE[0], "what": what}
                break
        rep["evals"].append([name, done])
        print(f"{name} {done} {time.time()-t0:.1f}s", file=sys.stderr)
        if rep["failure"]: break
    json.dump(rep, open(out, "w"), indent=1)
    sys.exit(1 if rep["failure"] else 0)
