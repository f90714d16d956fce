"""C15: the Python module against the core.
usage: c15.py MODULE.so VH SEED TIER SECONDS OUT.json [kind [from to]]
"""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from cases import *
import importlib.util, importlib.machinery, faulthandler

faulthandler.enable()
loader = importlib.machinery.ExtensionFileLoader("cosmian_abe_gpsw", so)
spec = importlib.util.spec_from_file_location("cosmian_abe_gpsw", so, loader=loader)
m = importlib.util.module_from_spec(spec)
loader.exec_module(m)

def py(f, *a):
    """('ok', value) or ('err', exception); an abort or a panic is a failure"""
    try:
        return "ok", f(*a)
    except Exception as e:
        return "err", e
    except BaseException as e:
        if isinstance(e, KeyboardInterrupt): raise
        raise Fail(f"{f.__name__} panics: {e}")
def must(f, *a):
    k, v = py(f, *a)
    check(k == "ok", f"{f.__name__} refuses valid arguments: {v}")
    return v

def world(r):
    ax = axes(r)
    n = sum(len(a["attributes"]) for a in ax) + r.choice([0, 0, 1, 3])
    pol = B(must(m.generate_policy, json.dumps(ax).encode(), n))
    return ax, n, pol
def policies(r, i):
    ax = axes(r)
    if r.random() < .2: ax.append(dict(ax[0]))
    total = sum(len(a["attributes"]) for a in ax)
    n = r.choice([total, total + 1, total - 1, 0, total + 5, 2**32 - 1, 2**32, 2**32 + total + 3, 2**63])
    a = json.dumps(ax).encode()
    note(f"generate_policy {a} {n}")
    k, v = py(m.generate_policy, a, n)
    k2, v2 = co("policy", a, n=n)
    check(k == k2, f"generate_policy: {k} ({v}), core: {k2} ({v2})")
    if k == "err": return
    check(json.loads(B(v)) == json.loads(v2[0]), "generate_policy: another policy")
    pol = B(v)
    for _ in range(4):
        ats = some(r, ax)
        if r.random() < .4: l = json.loads(ats); ats = json.dumps(r.choices(l, k=len(l) + 2)).encode()
        if r.random() < .2: ats = json.dumps(r.choice([["X0::zz"], ["zz::a0"], ["X0::a0", "zz::a0"]])).encode()
        note(f"rotate_attributes {ats} {pol}")
        k, v = py(m.rotate_attributes, ats, pol)
        k2, v2 = co("rotate", ats, pol)
        check(k == k2, f"rotate_attributes: {k} ({v}), core: {k2} ({v2})")
        if k == "err": continue
        pol = B(v)
        norm = lambda b: {**json.loads(b), "attribute_to_int": {k: sorted(v) for k, v in json.loads(b)["attribute_to_int"].items()}}
        check(norm(pol) == norm(v2[0]), "rotate_attributes: another policy")

def keys(r, i):
    ax, n, pol = world(r)
    note(f"policy {pol}")
    src = r.random() < .5
    msk, pk, dl = map(B, must(m.generate_master_keys, pol)) if src else core("master", pol)
    ex = rand_expr(r, ax)
    note(f"policy {pol} access policy {ex}")
    k, uk = py(m.generate_user_private_key, msk, ex, pol)
    k2, ck = co("user", msk, ex.encode(), pol)
    check(k == k2, f"generate_user_private_key: {k} ({uk}), core: {k2} ({ck})")
    if k == "err": return
    uk, ck = B(uk), ck[0]
    check(len(uk) == len(ck), "user key: another length than the core's")
    dk = B(must(m.generate_delegated_key, dl, uk, ex, pol))
    cdk = core("delegate", dl, ck, ex.encode(), pol)[0]
    for _ in range(3):
        ats = some(r, ax)
        uid, ad, mj = meta(r)
        note(f"policy {pol} access policy {ex} attributes {ats} metadata {mj}")
        sk, hdr = map(B, must(m.encrypt_hybrid_header, mj, pol, ats, pk))
        csk, chdr = core("enc_header", mj, pol, ats, pk)
        check(len(hdr) == len(chdr), "header: another length than the core's")
        for name, s, h in [("Python", sk, hdr), ("core", csk, chdr)]:
            st = opens(ck, h)
            for kn, k in [("issued", uk), ("delegated", dk), ("core's delegated", cdk), ("core's", ck)]:
                check(opens(k, h) == st, f"{name} header opens differently with the {kn} key")
                a, v = py(m.decrypt_hybrid_header, k, h)
                check(a == st[0], f"decrypt_hybrid_header of the {name} header with the {kn} key: {a} ({v}), core: {st[0]}")
                if a == "ok":
                    check((B(v[0]), B(v[1])) == (s, meta_bytes(uid, ad)), "decrypt_hybrid_header: another result")
                    check(st[1] == (s, meta_bytes(uid, ad)), f"{name} header holds another key or metadata")

def blocks(r, i):
    key = r.randbytes(r.choice([32, 32, 32, 32, 31, 33, 0]))
    uid = r.randbytes(r.choice([0, 1, 8, 32]))
    bn = r.choice([0, 1, 255, 2**32, 2**63, 2**64 - 1, r.randrange(2**64)])
    data = r.randbytes(r.choice([0, 1, 16, 100, 3000]))
    note(f"block key {key.hex()} uid {uid.hex()} number {bn} data {data.hex()}")
    k, v = py(m.encrypt_hybrid_block, key, uid, bn, data)
    k2, v2 = co("enc_block", key, uid, data, n=bn)
    check(k == k2, f"encrypt_hybrid_block: {k} ({v}), core: {k2} ({v2})")
    if k == "err":
        v2 = [r.randbytes(60)]
        v = v2[0]
    else:
        for f, c in [("the module", B(v)), ("the core", v2[0])]:
            check(co("dec_block", key, uid, c, n=bn) == ("ok", [data]), f"block of {f}: the core does not read it")
    v = B(v)
    check(len(v) == len(v2[0]), "encrypt_hybrid_block: another length")
    for c in [v, v2[0], v[:-1], v[:r.randint(0, len(v))], b"", v + b"\0", bytes([v[0] ^ 1]) + v[1:]]:
        for u, b in [(uid, bn), (uid + b"x", bn), (uid, bn ^ 1)]:
            note(f"block key {key.hex()} uid {u.hex()} number {b} ciphertext {c.hex()}")
            k, w = py(m.decrypt_hybrid_block, key, u, b, c)
            k2, w2 = co("dec_block", key, u, c, n=b)
            check(k == k2, f"decrypt_hybrid_block: {k} ({w}), core: {k2} ({w2})")
            if k == "ok":
                check(B(w) == w2[0] == data, "decrypt_hybrid_block: other data")
    for b in [-1, 2**64]:
        k, w = py(m.encrypt_hybrid_block, key, uid, b, data)
        check(k == "err", f"block number {b} is accepted")

def one_call(r, i):
    ax, n, pol = world(r)
    msk, pk, dl = core("master", pol)
    ats = some(r, ax)
    ex = rand_expr(r, ax)
    uid, ad, mj = meta(r)
    key = core_user(r, ax, msk, pol)[0]
    full = None
    for n in range(len(json.loads(ats)), 0, -1):
        k, v = co("user", msk, " || ".join(json.loads(ats)[:n]).encode(), pol)
        if k == "ok": full = v[0]; break
    data = r.randbytes(r.choice([1, 2, 16, 500]))
    note(f"encrypt: policy {pol} attributes {ats} metadata {mj} data {data.hex()}")
    enc = B(must(m.encrypt, mj, pol, ats, pk, data))
    h = int.from_bytes(enc[:4], "big")
    check(must(m.get_encrypted_header_size, enc) == h, "get_encrypted_header_size: not the header size")
    check(len(enc) == 4 + h + len(data) + 28, "encrypt: unexpected length")
    hdr, blk = enc[4:4 + h], enc[4 + h:]
    sk, mb, u = core("dec_header", full, hdr)
    check(mb == meta_bytes(uid, ad) and u == uid, "encrypt: other metadata")
    check(core("dec_block", sk, uid, blk, n=0)[0] == data, "encrypt: the block is other data")
    check(B(must(m.decrypt, full, enc)) == data, "decrypt does not invert encrypt")
    # assembled by the core
    sk, hdr = core("enc_header", mj, pol, ats, pk)
    for bn in [0, 1]:
        for u2 in [uid, uid + b"x"]:
            e2 = len(hdr).to_bytes(4, "big") + hdr + core("enc_block", sk, u2, data, n=bn)[0]
            note(f"decrypt: metadata {mj}, block number {bn}, block uid {u2.hex()}")
            k, v = py(m.decrypt, full, e2)
            check((k == "ok") == (bn == 0 and u2 == uid), f"decrypt of block {bn} for uid {u2.hex()}: {k}")
            if k == "ok": check(B(v) == data, "decrypt: other data")
    # another key
    k, v = py(m.decrypt, key, enc)
    k2, _ = co("dec_header", key, enc[4:4 + h])
    check(k == k2, f"decrypt with key for {ex}: {k} ({v}), core: {k2}")
    # truncated and damaged
    for cut in list(range(0, 8)) + [r.randrange(len(enc)) for _ in range(12)] + [h, h + 3, h + 4, h + 5, len(enc) - 1]:
        note(f"decrypt of the first {cut} bytes of {len(enc)} (header {h})")
        k, v = py(m.decrypt, full, enc[:cut])
        check(k == "err", f"decrypt accepts the first {cut} bytes")
        k, v = py(m.get_encrypted_header_size, enc[:cut])
        check(k == ("ok" if cut >= 4 else "err"), "get_encrypted_header_size on truncated data")
    for x in [0, 1, h - 1, h + 1, len(enc), len(enc) - 4, len(enc) - 3, 2**31, 2**32 - 1]:
        e2 = (x % 2**32).to_bytes(4, "big") + enc[4:]
        note(f"decrypt with header length {x} instead of {h}")
        k, v = py(m.decrypt, full, e2)
        check(k == "err" or x == h, f"decrypt accepts header length {x}")

def hostile(r, i):
    ax, n, pol = world(r)
    msk, pk, dl = core("master", pol)
    uk, ex = core_user(r, ax, msk, pol)
    ats = some(r, ax)
    uid, ad, mj = meta(r)
    sk, hdr = core("enc_header", mj, pol, ats, pk)
    blk = core("enc_block", sk, uid, b"data", n=0)[0]
    calls = [
        (m.generate_master_keys, "master", [pol], None, [0]),
        (m.generate_user_private_key, "user", [msk, ex, pol], 1, [2]),
        (m.generate_delegated_key, "delegate", [dl, uk, ex, pol], 2, [3]),
        (m.rotate_attributes, "rotate", [ats, pol], None, [1]),
        (m.encrypt_hybrid_header, "enc_header", [mj, pol, ats, pk], None, [1]),
        (m.decrypt_hybrid_header, "dec_header", [uk, hdr], None, []),
        (m.encrypt, None, [mj, pol, ats, pk, b"data"], None, [1]),
        (m.decrypt, None, [uk, len(hdr).to_bytes(4, "big") + hdr + blk], None, []),
    ]
    for _ in range(8):
        f, op, args, te, pols = r.choice(calls)
        a = list(args)
        for _ in range(r.choice([1, 1, 2])):
            k = r.randrange(len(a))
            a[k] = mutate_expr(r, a[k]) if k == te else mutate(r, a[k])
        if not all(sane(a[k]) for k in pols): continue
        note(f"{f.__name__} on {[x if isinstance(x, str) else x.hex() for x in a]}")
        k, v = py(f, *a)
        if op:
            ca = [x.encode() if isinstance(x, str) else x for x in a]
            k2, v2 = co(op, *ca)
            check(k == k2, f"{f.__name__}: {k} ({v}), core: {k2} ({v2})")
            if k == "ok" and op == "dec_header":
                check((B(v[0]), B(v[1])) == (v2[0], v2[1]), "decrypt_hybrid_header: another result")
    # wrong types
    for f, op, args, te, pols in calls:
        a = list(args); k = r.randrange(len(a)); a[k] = r.choice([None, 3, "text" if k != te else b"bytes", [300], {}])
        note(f"{f.__name__} with argument {k} = {a[k]!r}")
        kk, v = py(f, *a)
        check(kk == "err", f"{f.__name__} accepts {a[k]!r} as argument {k}")

KNOWN_TEXTS = {
    # panics inside abe_policy's parser, listed in known-findings.txt
    "C15-non-ascii-access-policy": ["(X0::é)", "(X0::a0 && X0::é)"],
}
def known(r, i, found):
    ax = [{"name": "X0", "attributes": ["a0", "a1"], "hierarchical": False}]
    pol = B(must(m.generate_policy, json.dumps(ax).encode(), 4))
    msk, pk, dl = core("master", pol)
    for kid, texts in KNOWN_TEXTS.items():
        for t in texts:
            note(f"generate_user_private_key with access policy {t!r}")
            try: m.generate_user_private_key(msk, t, pol)
            except Exception: pass
            except BaseException:
                if kid not in found: found.append(kid)

KINDS = [("policies", policies, 150, 3000), ("blocks", blocks, 60, 1000), ("keys", keys, 8, 120),
         ("one-call", one_call, 12, 160), ("hostile", hostile, 40, 1200)]
run(KINDS, known)
