"""MQTT-SN packet library: CBMC code contracts on every serializer, deserializer and length function."""
import re
from .core import *
from . import cbmc

SRC = REPO + "/MQTTSNPacket/src"
SN = VERIF + "/sn"
# functions that are not part of the library's interface: a change may remove them or alter their signature
INTERNAL = re.compile(r"Length$|^MQTTSNPacket_(encode|decode|len)$|^MQTTSNDeserialize_ack$")


def contract_blocks():
    t = open(SN + "/contracts.h").read()
    out = []
    for m in re.finditer(r"(?m)^(int|const char\*) (MQTTSN\w+)\(((?:[^()]|\([^()]*\))*(?:\((?:[^()]|\([^()]*\))*\))?[^()]*)\)\n(?:.*\n)*?;\n", t):
        out.append((m.group(2), m.group(3), m.group(0)))
    return t, out


def split(a):
    out, d, c = [], 0, ""
    for ch in a:
        d += ch == "("
        d -= ch == ")"
        if ch == "," and d == 0:
            out.append(c.strip()); c = ""
        else:
            c += ch
    return out + [c.strip()]


class Lib:
    def __init__(self, mode, witness=False):
        self.dir, self.mode, self.dropped = scratch(), mode, []
        self.text, self.blocks = contract_blocks()
        self.srcs = [SRC + "/" + x for x in sorted(os.listdir(SRC)) if x.endswith(".c")]
        self.witness = witness
        while True:
            try:
                self.build()
                break
            except ToolError as e:
                bad = [f for f, _, _ in self.blocks if INTERNAL.search(f) and f not in self.dropped and re.search(r"\b%s\b" % f, str(e))]
                if not bad:
                    raise
                self.dropped += bad

    def build(self):
        t = self.text
        h = '#include "contracts.h"\nint vg_k; int vg_m; char*vg_str; int vg_slen; int vg_getlen; unsigned char vg_w[48];\n'
        self.params = {}
        for f, a, blk in self.blocks:
            if f in self.dropped:
                t = t.replace(blk, "")
                continue
            decl, names = [], []
            for x in split(a):
                decl.append(x.replace("\n", " "))
                names.append(re.search(r"\(\*(\w+)\)|(\w+)$", x).group(1) or re.search(r"(\w+)$", x).group(1))
            self.params[f] = names
            w = " ".join("unsigned char w%d; vg_w[%d] = w%d;" % (i, i, i) for i in range(48)) if self.witness else ""
            h += "void h_%s(void){ int k; char*s; int n; int m; vg_m=m; vg_k=k; vg_str=s; vg_slen=n; %s %s; %s(%s); }\n" % (f, w, "; ".join(decl), f, ", ".join(names))
        open(self.dir + "/contracts.h", "w").write(t)
        open(self.dir + "/h.c", "w").write(h)
        self.lines = t.split("\n")
        must(["goto-cc", "-DVP_" + self.mode, "-DVP_CANARY"] + (["-DVP_WITNESS"] if self.witness else []) +
             ["-I" + self.dir, "-I" + SRC, "-include", self.dir + "/contracts.h", "-o", self.dir + "/a.gb", self.dir + "/h.c"] + self.srcs)

    def is_canary(self, o):
        if not o.file.endswith("contracts.h") or o.cls() != "post":
            return False
        return any(0 <= i < len(self.lines) and self.lines[i].strip() == "CAN" for i in (o.line - 1,))

    def prove(self, f, unwind=6, trace=False, extra=()):
        out = "%s/%s.%d.gb" % (self.dir, f, unwind)
        x = ["--restrict-function-pointer", "MQTTSNPacket_read.function_pointer_call.1/vp_getfn", "--replace-call-with-contract", "vp_getfn"] if f == "MQTTSNPacket_read" else []
        cbmc.instrument(self.dir + "/a.gb", "h_" + f, out, f, ["memcpy", "strlen"], x)
        return cbmc.check(out, unwind, trace, extra=extra)


NATIVE = {}


def native(kind):
    """'asan' (bounds), 'plain' (values) or 'rt' (round-trip lemmas): the real sources linked with the executable oracle"""
    if kind not in NATIVE:
        d = scratch()
        S = [SRC + "/" + x for x in sorted(os.listdir(SRC)) if x.endswith(".c")]
        if kind == "rt":
            must(["gcc", "-g", "-O1", "-w", "-DVP_NATIVE", "-I" + SRC, SN + "/roundtrip.c"] + S + ["-o", d + "/n"])
        else:
            fl = ["-fsanitize=address,bounds", "-fno-sanitize-recover=all"] if kind == "asan" else []
            pmap(lambda s: must(["gcc", "-g", "-O1", "-w"] + fl + ["-I" + SRC, "-c", s, "-o", d + "/" + os.path.basename(s) + ".o"]), S)
            must(["g++", "-std=c++17", "-w", "-g", "-O1"] + (["-fsanitize=address"] if fl else []) + ["-I" + SRC, "-c", SN + "/native.cc", "-o", d + "/n.o"])
            must(["g++"] + fl + [d + "/n.o"] + [d + "/" + os.path.basename(s) + ".o" for s in S] + ["-o", d + "/n"])
        NATIVE[kind] = d
    return NATIVE[kind] + "/n"


def search(kind, cls, f, hints, secs):
    """failing input of f against the oracle, or None"""
    try:
        exe = native(kind)
    except ToolError as e:
        return None
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=1")
    if cls:
        env["VP_CLS"] = cls

    def one(i):
        st = "%s/st.%s.%d" % (os.path.dirname(exe), f, i)
        rc, o, e, _ = run([exe, "search", f, str(SEED * 100 + i), str(secs), st], timeout=secs + 60, env=env, stdin="\n".join(hints).encode())
        if rc in (0, 9, -99):
            return None
        if kind == "rt":
            return {"lemma": f, "case": o.strip()[:3000], "how": "sn/roundtrip.c built with -DVP_NATIVE and the real sources: roundtrip run %s CASE" % f}
        inp = open(st, "rb").read().split(b"\0")[0].decode(errors="replace")
        why = (o + e).strip()
        m = re.search(r"FAIL .*|ERROR: \w+Sanitizer: .*|runtime error: .*", why)
        return {"function": f, "input": inp[:6000], "observed": m.group(0)[:300] if m else "ended with status %d" % rc,
                "how": "sn/native.cc linked with the real sources (%s build): native run %s < input" % (kind, f)}
    for r in pmap(one, range(JOBS)):
        if r:
            return r
    return None


def hints_from(lib, f, trace):
    v = cbmc.scalars(trace)
    out, w = [], {}
    for k, x in v.items():
        m = re.match(r"vg_w\[(\d+)l?\]$", k)
        try:
            n = int(re.sub(r"[a-zA-Z]+$", "", x), 0)
        except (ValueError, TypeError):
            continue
        if m:
            w[int(m.group(1))] = n & 255
        elif k in lib.params.get(f, []) or re.match(r"[\w.]+$", k):
            out.append("%s=%d" % (k.split(".")[-1] if k.split(".")[0] in ("topic",) else k, n))
    bl = [int(x[7:]) for x in out if x.startswith("buflen=")]
    if w and bl:
        out.append("buf=0x" + "".join("%02x" % w.get(i, 0) for i in range(max(0, min(bl[-1], 48)))))
    return out


def contracts(rep, mode, want, classes, kind, cls, secs):
    """enforce the contract of every function selected by want; keep the obligations in classes"""
    try:
        lib = Lib(mode)
    except ToolError as e:
        rep.failure("build", "the contracts no longer compile against the library", str(e)[-1500:])
        return
    fns = [f for f, _, _ in lib.blocks if want(f) and f not in lib.dropped]
    for f in lib.dropped:
        if want(f):
            rep.notes.append("internal function %s is gone or has another signature: checked inlined in its callers" % f)

    def job(f):
        try:
            return f, lib.prove(f), None
        except ToolError as e:
            return f, None, str(e)
    wit = None
    for f, res, err in pmap(job, fns):
        if err:
            rep.failure(f, "the verifier gave no answer", err[-800:], search(kind, cls, f, [], secs))
            continue
        obls, sec = res
        unw = [o for o in obls if o.cls() == "unwind" and o.status != "SUCCESS"]
        if unw:
            bounded(rep, lib, f, classes, kind, cls, secs)
            continue
        can = [o for o in obls if lib.is_canary(o)]
        sel = [o for o in obls if o not in can and o.cls() in classes]
        bad = [o for o in sel if o.status != "SUCCESS"]
        rep.unit(f, len(sel), len(sel) - len(bad), sec, "cbmc 6.11.0 (SAT, MiniSat)")
        hit = any(o.status == "FAILURE" for o in can)
        if can and not bad:
            rep.canary(hit)
            if not hit:
                rep.failure(f, "vacuous: no successful return is reachable under the precondition", "", search(kind, cls, f, [], secs))
        if not sel:
            rep.failure(f, "no obligation was generated", "")
        if bad:
            o = ([x for x in bad if x.status == "FAILURE"] or bad)[0]
            hints = []
            try:
                wit = wit or Lib(mode, witness=True)
                tr = [x for x in wit.prove(f, trace=True)[0] if x.trace and x.cls() in classes and not wit.is_canary(x)]
                hints = hints_from(wit, f, tr[0].trace) if tr else []
            except ToolError as e:
                rep.notes.append("no counterexample trace for %s: %s" % (f, str(e)[:200]))
            r = search(kind, cls, f, hints, secs)
            if r is None and cls:
                r = search(kind, None, f, hints, secs)
            rep.failure(f, "%s (%s)" % (o.id, o.desc), "source %s:%d status %s; counterexample %s" % (o.file, o.line, o.status, " ".join(hints)[:1500]), r)


def bounded(rep, lib, f, classes, kind, cls, secs):
    """the function now contains a loop no contract covers: bounded stand-in, plus the executable oracle"""
    try:
        obls, sec = lib.prove(f, unwind=10)
        bad = [o for o in obls if o.cls() in classes and not lib.is_canary(o) and o.status == "FAILURE"]
    except ToolError as e:
        bad, sec = [], 0
        rep.notes.append("bounded check of %s: %s" % (f, str(e)[:300]))
    r = search(kind, cls, f, [], secs * 2)
    if r:
        rep.failure(f, "bounded check: a loop without an invariant, and the result is wrong", "", r)
    else:
        rep.bounded.append({"unit": f, "bound": "10 iterations of each loop; %d s of random inputs against the oracle" % (secs * 2),
                            "failed_within_bound": [o.id for o in bad]})
        if bad and not any(o.cls() == "unwind" for o in obls):
            rep.failure(f, "bounded check: " + bad[0].desc, "", None)


def roundtrip(rep, secs):
    d = scratch()
    S = [SRC + "/" + x for x in sorted(os.listdir(SRC)) if x.endswith(".c")]
    try:
        t, blocks = contract_blocks()
        for f, _, blk in blocks:            # the lemmas use the real bodies: no function contract is needed
            t = t.replace(blk, "")
        open(d + "/contracts.h", "w").write(t)
        src = open(SN + "/roundtrip.c").read()
        open(d + "/roundtrip.c", "w").write(src)
        must(["goto-cc", "-I" + d, "-I" + SRC, "-include", d + "/contracts.h", "-o", d + "/a.gb", d + "/roundtrip.c"] + S)
    except ToolError as e:
        rep.failure("build", "the lemmas no longer compile against the library", str(e)[-1500:])
        return
    lemmas = re.findall(r"void (rt_\w+)\(void\)", src)

    def job(f):
        try:
            cbmc.instrument(d + "/a.gb", f, d + "/" + f, None, ["memcpy", "strlen"])
            return f, cbmc.check(d + "/" + f, 6, False), None
        except ToolError as e:
            return f, None, str(e)
    for f, res, err in pmap(job, lemmas):
        if err:
            rep.failure(f, "the verifier gave no answer", err[-800:], search("rt", None, f, [], secs))
            continue
        obls, sec = res
        can = [o for o in obls if o.desc.startswith("canary")]
        if any(o.cls() == "unwind" and o.status != "SUCCESS" for o in obls):
            r = search("rt", None, f, [], 2 * secs)
            if r:
                rep.failure(f, "bounded check: the round trip differs", "", r)
            else:
                rep.bounded.append({"unit": f, "bound": "6 iterations of each loop; %d s of random values" % (2 * secs)})
            continue
        sel = [o for o in obls if o not in can]
        bad = [o for o in sel if o.status != "SUCCESS"]
        rep.unit(f, len(sel), len(sel) - len(bad), sec, "cbmc 6.11.0 (SAT, MiniSat)")
        rep.canary(any(o.status == "FAILURE" for o in can))
        if bad:
            o = ([x for x in bad if x.status == "FAILURE" and x.cls() == "post"] or bad)[0]
            rep.failure(f, "%s (%s)" % (o.id, o.desc), "%s:%d" % (o.file, o.line), search("rt", None, f, [], secs))
        elif not any(o.status == "FAILURE" for o in can):
            rep.failure(f, "vacuous: the end of the lemma is not reachable", "", search("rt", None, f, [], secs))


TRUST = ["goto-cc / goto-instrument --dfcc / cbmc 6.11.0 and its SAT solver",
         "contract of memcpy (copies n bytes, writes nothing else) and of strlen (length of the string it is given)",
         "x86-64 Linux type sizes and layout as goto-cc lays them out"]
ASSUME = ["precondition: the caller's buffer really has buflen bytes and out-parameters are valid and distinct",
          "precondition: the packet to build is at most 65535 bytes; lengths are not negative; flags are 0 or 1, QoS 0..3",
          "buffers, strings and payloads are arbitrary up to 65535 bytes (received buffers: up to INT_MAX), content unconstrained; allocation succeeds",
          "signed overflow is treated as wrapping (it cannot occur below the stated lengths)"]
DESER = lambda f: f.startswith("MQTTSNDeserialize_")
SERIAL = lambda f: f.startswith("MQTTSNSerialize_")
FRAME = lambda f: f.startswith("MQTTSNPacket_")


def check(prop):
    rep = Report(prop)
    rep.cmd = "goto-cc; goto-instrument --dfcc h_F --enforce-contract F --replace-call-with-contract memcpy,strlen; cbmc --bounds-check --pointer-check --unwinding-assertions (for every F)"
    rep.trusted, rep.assume = TRUST, ASSUME
    s = 12 if TIER == "quick" else 40
    if prop == "C01":
        contracts(rep, "BOUNDS", DESER, ("post", "pre", "mem"), "asan", "bounds", s)
    elif prop == "C02":
        contracts(rep, "CONTENT", DESER, ("post",), "plain", None, s)
    elif prop == "C03":
        contracts(rep, "BOUNDS", SERIAL, ("post", "pre", "mem"), "asan", "bounds", s)
    elif prop == "C04":
        contracts(rep, "CONTENT", SERIAL, ("post",), "plain", None, s)
    elif prop == "C05":
        roundtrip(rep, s)
    elif prop == "C06":
        contracts(rep, "CONTENT", FRAME, ("post", "pre", "mem"), "asan", None, s)
    return rep.finish()
