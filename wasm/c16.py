"""C16: the WebAssembly module against the core.
usage: c16.py MODULE.js VH SEED TIER SECONDS OUT.json [kind [from to]]
"""
import os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(HERE, "..", "py"))
from cases import *

class Node:
    def __init__(self): self.p = None
    def start(self):
        self.p = subprocess.Popen(["node", os.path.join(HERE, "side.js"), so], stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True)
    def __call__(self, f, *a):
        def e(x):
            if x is None: return {"u": 0}
            if isinstance(x, bytes): return {"b": x.hex()}
            if isinstance(x, str): return {"s": x.encode().hex()}
            return {"n": x}
        if self.p is None: self.start()
        try:
            self.p.stdin.write(json.dumps({"f": "webassembly_" + f, "a": [e(x) for x in a]}) + "\n")
            self.p.stdin.flush()
            l = self.p.stdout.readline()
        except BrokenPipeError: l = ""
        if not l:
            self.stop()
            raise Fail(f"{f} ends the process")
        r = json.loads(l)
        if "trap" in r:
            self.stop()
            raise Fail(f"{f} aborts the module: {r['trap'][:600]}")
        if "err" in r: return "err", r["err"]
        k, v = r["ok"]
        return "ok", bytes.fromhex(v) if k == "b" else bytes.fromhex(v).decode() if k == "s" else v
    def stop(self):
        if self.p: self.p.kill(); self.p.wait()
        self.p = None
js = Node()
def must(f, *a):
    k, v = js(f, *a)
    check(k == "ok", f"{f} refuses valid arguments: {v}")
    return v

def world(r):
    ax = axes(r)
    n = sum(len(a["attributes"]) for a in ax) + r.choice([0, 0, 1, 3])
    return ax, n, core("policy", json.dumps(ax).encode(), n=n)[0]
def text(r, ats):
    """the attributes as JavaScript callers give them"""
    return r.choice([",", ", ", " , "]).join(json.loads(ats))
def as_list(t):
    k, v = co("attributes", t.encode())
    return (k, v[0] if k == "ok" else v)
def uid_json(uid): return json.dumps({"uid": list(uid), "additional_data": None}).encode()
def split_head(b):
    n = int.from_bytes(b[:4], "big")
    check(len(b) >= 4 + n, "the declared length exceeds the answer")
    return b[4:4 + n], b[4 + n:]

def policies(r, i):
    ax, n, pol = world(r)
    norm = lambda b: {**json.loads(b), "attribute_to_int": {k: sorted(v) for k, v in json.loads(b)["attribute_to_int"].items()}}
    for _ in range(5):
        ats = some(r, ax)
        if r.random() < .4: l = json.loads(ats); ats = json.dumps(r.choices(l, k=len(l) + 2)).encode()
        if r.random() < .2: ats = r.choice([json.dumps(r.choice([["X0::zz"], ["zz::a0"], ["X0::a0", "zz::a0"]])).encode(), b"[]", b"", b"{}", b'["X0"]'])
        p = pol
        if r.random() < .3: p = mutate(r, pol)
        note(f"rotate_attributes {ats} {p}")
        k, v = js("rotate_attributes", ats, p)
        k2, v2 = co("rotate", ats, p)
        check(k == k2, f"rotate_attributes: {k} ({v}), core: {k2} ({v2})")
        if k == "err": continue
        check(norm(v) == norm(v2[0]), "rotate_attributes: another policy")
        if p == pol: pol = v.encode()

def keys(r, i):
    ax, n, pol = world(r)
    note(f"policy {pol}")
    msk, pk = split_head(must("generate_master_keys", pol))
    cm = core("master", pol)
    check([len(x) for x in cm[:2]] == [len(msk), len(pk)], "master keys: other lengths than the core's")
    if r.random() < .3: msk, pk = cm[:2]
    ex = rand_expr(r, ax)
    note(f"policy {pol} access policy {ex}")
    k, uk = js("generate_user_private_key", msk, ex, pol)
    k2, ck = co("user", msk, ex.encode(), pol)
    check(k == k2, f"generate_user_private_key: {k} ({uk}), core: {k2} ({ck})")
    if k == "err": return
    ck = ck[0]
    check(len(uk) == len(ck), "user key: another length than the core's")
    enc = must("create_encryption_cache", pol, pk)
    dec = must("create_decryption_cache", uk)
    for _ in range(2):
        ats = some(r, ax)
        t = text(r, ats)
        check(as_list(t)[0] == "ok", "attributes text")
        uid = r.randbytes(r.choice([1, 8, 32]))
        note(f"policy {pol} access policy {ex} attributes {t} uid {uid.hex()}")
        chdr = core("enc_header", uid_json(uid), pol, ats, pk)
        sent = [("core", *chdr)]
        for name, b in [("direct", must("encrypt_hybrid_header", pol, pk, t, uid)), ("cached", must("encrypt_hybrid_header_using_cache", enc, t, uid))]:
            s, h = split_head(b)
            check(len(s) == 32, f"{name} header: a symmetric key of {len(s)} bytes")
            check(len(h) == len(chdr[1]), f"{name} header: another length than the core's")
            sent.append((name, s, h))
        for name, s, h in sent:
            st = opens(ck, h)
            check(opens(uk, h) == st, f"{name} header opens differently with the issued key")
            for how, (a, v) in [("direct", js("decrypt_hybrid_header", uk, h)), ("cached", js("decrypt_hybrid_header_using_cache", dec, h)), ("direct, core's key", js("decrypt_hybrid_header", ck, h))]:
                check(a == st[0], f"{how} opening of the {name} header: {a} ({v}), core: {st[0]}")
                if a == "ok":
                    s2, m2 = split_head(v)
                    check(s2 == s == st[1][0] and m2 == meta_bytes(uid, None) == st[1][1], f"{how} opening of the {name} header: another result")
    must("destroy_encryption_cache", enc)
    must("destroy_decryption_cache", dec)
    for h, f, a in [(enc, "encrypt_hybrid_header_using_cache", [t, uid]), (dec, "decrypt_hybrid_header_using_cache", [chdr[1]])]:
        check(js(f, h, *a)[0] == "err", f"{f} accepts a destroyed cache")

def caches(r, i):
    """histories of cache operations; every handle opens or encrypts for exactly what it was created with"""
    ax, n, pol = world(r)
    msk, pk, _ = core("master", pol)
    _, pk2, _ = core("master", pol)
    users = [core_user(r, ax, msk, pol) for _ in range(2)]
    ats = some(r, ax)
    _, hdr = core("enc_header", uid_json(b"u"), pol, ats, pk)
    status = {u: opens(u, hdr) for u, _ in users}
    full = None
    for m in range(len(json.loads(ats)), 0, -1):
        k, v = co("user", msk, " || ".join(json.loads(ats)[:m]).encode(), pol)
        if k == "ok": full = v[0]; break
    enc, dec, gone_e, gone_d, log = {}, {}, [], [], []
    for _ in range(20):
        c = r.randrange(8)
        if c == 0:
            k = r.choice([pk, pk2])
            h = must("create_encryption_cache", pol, k); log.append(f"create_encryption_cache -> {h}")
            note("; ".join(log))
            check(h not in enc, "a live encryption handle is issued again")
            check(h not in gone_e, "the handle of a destroyed encryption cache is issued again")
            enc[h] = k
        elif c == 1:
            k = r.choice(users)[0]
            h = must("create_decryption_cache", k); log.append(f"create_decryption_cache -> {h}")
            note("; ".join(log))
            check(h not in dec, "a live decryption handle is issued again")
            check(h not in gone_d, "the handle of a destroyed decryption cache is issued again")
            dec[h] = k
        elif c == 2:
            h = r.choice(list(enc) + gone_e + [-1, 2**31 - 1]); log.append(f"destroy_encryption_cache {h}")
            note("; ".join(log))
            must("destroy_encryption_cache", h)
            if enc.pop(h, None) is not None: gone_e.append(h)
        elif c == 3:
            h = r.choice(list(dec) + gone_d + [-1, 2**31 - 1]); log.append(f"destroy_decryption_cache {h}")
            note("; ".join(log))
            must("destroy_decryption_cache", h)
            if dec.pop(h, None) is not None: gone_d.append(h)
        elif c in (4, 5):
            h = r.choice(list(enc) * 3 + gone_e + [-1, 2**31 - 1]); log.append(f"encrypt with {h}")
            note("; ".join(log))
            k, v = js("encrypt_hybrid_header_using_cache", h, text(r, ats), b"u")
            check(k == ("ok" if h in enc else "err"), f"encryption with handle {h}: {k} {v if k == 'err' else ''}")
            if k == "ok":
                s, b = split_head(v)
                st = opens(full, b)
                if enc[h] is pk: check(st == ("ok", (s, meta_bytes(b"u", None))), "the cached encryption does not open")
                else: check(st[0] == "err" or st[1] != (s, meta_bytes(b"u", None)), "the cached encryption is for another key")
        else:
            h = r.choice(list(dec) * 3 + gone_d + [-1, 2**31 - 1]); log.append(f"decrypt with {h}")
            note("; ".join(log))
            k, v = js("decrypt_hybrid_header_using_cache", h, hdr)
            want = status[dec[h]] if h in dec else ("err", None)
            check(k == want[0], f"decryption with handle {h}: {k}, core: {want[0]}")
            if k == "ok": check(split_head(v) == want[1], "the cached decryption is another result")
    for h in enc: must("destroy_encryption_cache", h)
    for h in dec: must("destroy_decryption_cache", h)

def blocks(r, i):
    key = r.randbytes(r.choice([32, 32, 32, 32, 32, 31, 33, 0]))
    uid = r.choice([None, b"", r.randbytes(1), r.randbytes(8), r.randbytes(32)])
    bn = r.choice([None, 0, 1, 255, 2**16, 2**31, 2**32 - 1, r.randrange(2**32)])
    data = r.randbytes(r.choice([0, 1, 16, 100, 3000]))
    u, b = uid or b"", bn or 0
    note(f"block key {key.hex()} uid {uid and uid.hex()} number {bn} data {data.hex()}")
    k, v = js("encrypt_hybrid_block", key, uid, bn, data)
    k2, v2 = co("enc_block", key, u, data, n=b)
    check(k == k2, f"encrypt_hybrid_block: {k} ({v}), core: {k2} ({v2})")
    if k == "err":
        v2 = [r.randbytes(60)]
        v = v2[0]
    else:
        for f, c in [("the module", v), ("the core", v2[0])]:
            check(co("dec_block", key, u, c, n=b) == ("ok", [data]), f"block of {f}: the core does not read it")
    check(len(v) == len(v2[0]), "encrypt_hybrid_block: another length")
    for c in [v, v2[0], v[:-1], v[:r.randint(0, len(v))], b"", v + b"\0", bytes([v[0] ^ 1]) + v[1:]]:
        for uu, bb in [(uid, bn), (u + b"x", bn), (uid, b ^ 1), (u, b)]:
            note(f"block key {key.hex()} uid {uu and uu.hex()} number {bb} ciphertext {c.hex()}")
            k, w = js("decrypt_hybrid_block", key, uu, bb, c)
            k2, w2 = co("dec_block", key, uu or b"", c, n=bb or 0)
            check(k == k2, f"decrypt_hybrid_block: {k} ({w}), core: {k2} ({w2})")
            if k == "ok": check(w == w2[0] == data, "decrypt_hybrid_block: other data")

def sizes(r, i):
    b = r.randbytes(r.choice([0, 1, 2, 3, 4, 5, 8, 40]))
    if len(b) >= 4: b = r.choice([b[:4], bytes(4), b"\xff" * 4, b"\x80\0\0\0"]) + b[4:]
    note(f"get_encrypted_header_size {b.hex()}")
    k, v = js("get_encrypted_header_size", b)
    if len(b) < 4: check(k == "err", "a size is read from less than 4 bytes")
    else: check((k, v) == ("ok", int.from_bytes(b[:4], "big")), f"get_encrypted_header_size: {k} {v}")

def hostile(r, i):
    ax, n, pol = world(r)
    msk, pk, _ = core("master", pol)
    uk, ex = core_user(r, ax, msk, pol)
    ats = some(r, ax)
    t = text(r, ats)
    sk, hdr = core("enc_header", uid_json(b"u"), pol, ats, pk)
    enc, dec = must("create_encryption_cache", pol, pk), must("create_decryption_cache", uk)
    good = opens(uk, hdr)
    calls = [
        ("generate_master_keys", [pol], None, [0], lambda a: co("master", *a)),
        ("generate_user_private_key", [msk, ex, pol], 1, [2], lambda a: co("user", a[0], a[1].encode(), a[2])),
        ("rotate_attributes", [ats, pol], None, [1], lambda a: co("rotate", *a)),
        ("encrypt_hybrid_header", [pol, pk, t, b"u"], 2, [0], None),
        ("encrypt_hybrid_header_using_cache", [enc, t, b"u"], 1, [], None),
        ("create_encryption_cache", [pol, pk], None, [0], None),
        ("create_decryption_cache", [uk], None, [], None),
        ("decrypt_hybrid_header", [uk, hdr], None, [], lambda a: co("dec_header", *a)),
        ("decrypt_hybrid_header_using_cache", [dec, hdr], None, [], lambda a: co("dec_header", uk, a[1])),
    ]
    for _ in range(8):
        f, args, te, pols, same = r.choice(calls)
        a = list(args)
        for _ in range(r.choice([1, 1, 2])):
            k = r.randrange(len(a))
            if isinstance(a[k], int): continue
            if r.randrange(12) == 0: a[k] = "" if k == te else b""
            elif k == te: a[k] = mutate_expr(r, a[k])
            else: a[k] = mutate(r, a[k])
        if not all(sane(a[k]) for k in pols): continue
        note(f"{f} on {[x if isinstance(x, (str, int)) else x.hex() for x in a]}")
        k, v = js(f, *a)
        if same:
            k2, v2 = same(a)
            check(k == k2, f"{f}: {k} ({v}), core: {k2} ({v2})")
            if k == "ok" and "decrypt" in f: check(split_head(v) == (v2[0], v2[1]), f"{f}: another result")
        elif f.startswith("encrypt"):
            p, key = (a[0], a[1]) if f == "encrypt_hybrid_header" else (pol, pk)
            kl, l = as_list(a[-2])
            k2, v2 = co("enc_header", uid_json(a[-1]), p, l, key) if kl == "ok" else ("err", l)
            if f == "encrypt_hybrid_header" and (not a[3] or not a[2]): k2 = "err"
            check(k == k2, f"{f}: {k} ({v}), core: {k2} ({v2})")
            if k == "ok": check(len(split_head(v)[1]) == len(v2[1]), f"{f}: a header of another length")
        elif k == "ok":
            # a cache of a damaged, still readable key behaves as the core with this key
            if "decryption" in f:
                k, v = js("decrypt_hybrid_header_using_cache", v, hdr)
                k2, v2 = co("dec_header", a[0], hdr)
                check(k == k2, f"header opened with the cached key: {k} ({v}), core: {k2} ({v2})")
            else:
                k, v = js("encrypt_hybrid_header_using_cache", v, t, b"u")
                k2, v2 = co("enc_header", uid_json(b"u"), a[0], ats, a[1])
                check(k == k2, f"header encrypted with the cached key: {k} ({v}), core: {k2} ({v2})")
        # whatever was refused, the caches work
        k, v = js("decrypt_hybrid_header_using_cache", dec, hdr)
        check(k == good[0] and (k == "err" or split_head(v) == good[1]), "the decryption cache is damaged")
        k, v = js("encrypt_hybrid_header_using_cache", enc, t, b"u")
        check(k == "ok", f"the encryption cache is damaged: {v}")
        h = must("create_decryption_cache", uk)
        must("destroy_decryption_cache", h)

KNOWN_TEXTS = {
    # panics inside abe_policy's parser, listed in known-findings.txt
    "C16-non-ascii-access-policy": ["(X0::é)", "(X0::a0 && X0::é)"],
}
def known(r, i, found):
    ax = [{"name": "X0", "attributes": ["a0", "a1"], "hierarchical": False}]
    pol = core("policy", json.dumps(ax).encode(), n=4)[0]
    msk, pk, dl = core("master", pol)
    for kid, texts in KNOWN_TEXTS.items():
        for t in texts:
            note(f"generate_user_private_key with access policy {t!r}")
            try: js("generate_user_private_key", msk, t, pol)
            except Fail:
                if kid not in found: found.append(kid)

KINDS = [("sizes", sizes, 100, 2000), ("policies", policies, 60, 3000), ("blocks", blocks, 60, 1000), ("caches", caches, 6, 300), ("keys", keys, 6, 150), ("hostile", hostile, 16, 1500)]
run(KINDS, known)
