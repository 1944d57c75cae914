"""Gateway: contracts in gw/*.cc over the real classes; clang IR -> C -> CBMC."""
import json, re, threading
from .core import *
from . import cbmc, irc

G = VERIF + "/gw"
GSRC = REPO + "/MQTTSNGateway/src"
INC = ["-I" + G, "-I" + GSRC, "-I" + GSRC + "/linux", "-I" + GSRC + "/linux/udp", "-I" + REPO + "/MQTTSNPacket/src", "-I" + GSRC + "/tests"]
CXX = ["-std=c++11", "-w"] + INC
CLANGXX = ["clang++-18", "-O0", "-S", "-emit-llvm", "-fno-discard-value-names", "-Xclang", "-disable-O0-optnone", "-DVP_CBMC", "-fsanitize=array-bounds", "-fsanitize-trap=array-bounds"] + CXX
CLANG = ["clang-18", "-O0", "-S", "-emit-llvm", "-fno-discard-value-names", "-Xclang", "-disable-O0-optnone", "-w", "-I" + REPO + "/MQTTSNPacket/src", "-fsanitize=array-bounds", "-fsanitize-trap=array-bounds"]


def src_path(s):
    return G + "/" + s[4:] if s.startswith("@gw/") else (REPO + "/MQTTSNPacket/src/" + s if s.endswith(".c") else GSRC + "/" + s)


def base_name(n):
    """the last identifier of a mangled name: _ZN8MQTTSNGW5Timer5startEj -> start"""
    m = re.match(r"_ZNK?", n)
    if not m:
        m2 = re.match(r"_Z(\d+)", n)
        return n[m2.end():m2.end() + int(m2.group(1))] if m2 else n
    i, last = m.end(), n
    while i < len(n) and n[i].isdigit():
        k = re.match(r"\d+", n[i:]).group()
        i += len(k)
        last = n[i:i + int(k)]
        i += int(k)
    return "~" + last if n[i:i + 2] in ("D2", "D1", "D0") else last


class Program:
    """one contract file with the real sources it is about, as a goto binary"""

    def __init__(self, harness, sources, defs=(), wit=0, replace=None, caps=None):
        self.dir = scratch()
        self.given = (list(defs), caps)
        defs = list(defs) + self.overlay(caps or {})
        self.harness, self.sources, self.defs = harness, sources, defs
        self.lock = threading.Lock()
        self.wit = wit
        self.replace = replace or {}
        self.link()

    def link(self):
        defs, harness, sources = self.defs, self.harness, self.sources
        jobs = [(G + "/" + harness, "h.ll")] + [(src_path(s), re.sub(r"\W", "_", s) + ".ll") for s in sources]

        def comp(j):
            cc = CLANG if j[0].endswith(".c") else CLANGXX + (["-isystem", G + "/shim"] if os.path.isdir(G + "/shim") else [])
            if not os.path.exists(self.dir + "/" + j[1]):
                must(cc + list(defs) + [j[0], "-o", self.dir + "/" + j[1]])
        pmap(comp, jobs)
        must(["llvm-link-18", "-S", "-o", self.dir + "/all.ll"] + [self.dir + "/" + j[1] for j in jobs[1:]] + ["--override=" + self.dir + "/h.ll"])      # what the contract file defines stands for the callee
        self.text = open(self.dir + "/all.ll").read()
        self.mod = irc.Module(self.text)
        self.entries = sorted(n for n in self.mod.fns if n.startswith("vph_"))

    def extend(self, missing):
        """other source files of the gateway and the library that define a function the code now calls"""
        with self.lock:
            if all(n in self.mod.fns for n in missing):
                return True
            more = []
            for d, ext, pre in ((GSRC, ".cpp", ""), (GSRC + "/linux", ".cpp", "linux/"), (GSRC + "/linux/udp", ".cpp", "linux/udp/"), (REPO + "/MQTTSNPacket/src", ".c", "")):
                for f in sorted(os.listdir(d)):
                    if f.endswith(ext) and pre + f not in self.sources and "main" not in f.lower():
                        t = open(d + "/" + f, errors="replace").read()
                        if any(re.search(r"\b%s\s*\(" % re.escape(base_name(n)), t) for n in missing):
                            more.append(pre + f)
            old = self.sources, self.mod, self.text
            keep = []
            for f in more:
                ll = self.dir + "/" + re.sub(r"\W", "_", f) + ".ll"
                try:
                    self.sources = [f]
                    cc = CLANG if f.endswith(".c") else CLANGXX + ["-isystem", G + "/shim"]
                    must(cc + list(self.defs) + [src_path(f), "-o", ll])
                    t = open(ll).read()
                    if any(re.search(r'(?m)^define [^\n]*@"?%s"?\(' % re.escape(n), t) for n in missing):
                        keep.append(f)
                except ToolError:
                    pass
            self.sources = list(old[0]) + keep
            if not keep:
                return False
            try:
                self.link()
            except ToolError:
                self.sources, self.mod, self.text = old
                return False
            return True

    def overlay(self, caps):
        """capacities (#define in the gateway's headers) set to small values, by a virtual file system overlay"""
        roots = []
        for f in sorted(os.listdir(GSRC)):
            if f.endswith(".h"):
                t = open(GSRC + "/" + f, errors="replace").read()
                n = t
                for k, v in caps.items():
                    n = re.sub(r"(#define\s+%s\s+)\(?\w+\)?" % k, r"\g<1>%d" % v, n)
                if n != t:
                    open(self.dir + "/ov_" + f, "w").write(n)
                    roots.append({"name": GSRC + "/" + f, "type": "file", "external-contents": self.dir + "/ov_" + f})
        if not roots:
            return []
        with open(self.dir + "/overlay.yaml", "w") as fh:
            json.dump({"version": 0, "roots": roots}, fh)
        return ["-ivfsoverlay", self.dir + "/overlay.yaml"]

    def build(self, entry, defs=()):
        rt = open(G + "/rt.c").read()
        have = set(re.findall(r"\bX_(\w+)\(", rt))
        for attempt in range(4):
            e = irc.Emit(self.mod, self.replace, exc="-DVP_EXC" in self.defs)
            c = e.emit([entry])
            missing = sorted(n for n in e.ext if irc.san(n) not in have)
            if not missing or not self.extend(missing):
                break
        if missing:
            raise ToolError("no contract for external functions: " + " ".join(missing))
        f = "%s/%s.c" % (self.dir, entry)
        open(f, "w").write("#include <stdlib.h>\n#include <string.h>\n" + c + "\n" + rt)
        b = "%s/%s.gb" % (self.dir, entry)
        must(["goto-cc", "-I" + G, "-DVP_WIT=%d" % self.wit] + [x for x in list(self.defs) + list(defs) if x.startswith("-D")] + ["--function", ("F_" if not entry.startswith("vp_") else "") + irc.san(entry), f, "-o", b])
        return b

    def bytes(self):
        """the second reading of a contract with tokens: strings are bytes (for code that looks into them)"""
        with self.lock:
            if not hasattr(self, "twin"):
                d = [x for x in self.given[0] if x != "-DVP_TOKENS"] + ["-DVP_BYTES", "-DVP_STRCAP=6"]
                self.twin = Program(self.harness, self.sources, d, self.wit, self.replace, self.given[1])
            return self.twin

    def native(self):
        """the same contracts and sources as an executable (ASan), for replay and search"""
        with self.lock:
            return self._native()

    def _native(self):
        exe = self.dir + "/native"
        if not os.path.exists(exe):
            cc = ["-w", "-g", "-O1", "-fsanitize=address,bounds", "-fno-sanitize-recover=all", "-ffunction-sections", "-fdata-sections", "-fno-inline", "-fPIC", "-fsemantic-interposition", "-DVP_NATIVE", "-DVP_WIT=%d" % self.wit]
            objs = []
            for i, f in enumerate([G + "/" + self.harness, G + "/native.cc"] + [src_path(s) for s in self.sources]):
                o = "%s/n%d.o" % (self.dir, i)
                must((["clang-18", "-I" + REPO + "/MQTTSNPacket/src"] if f.endswith(".c") else ["clang++-18"] + CXX) + cc + list(self.defs) + ["-c", f, "-o", o])
                objs.append(o)
            link = lambda extra: must(["clang++-18", "-fsanitize=address,bounds", "-rdynamic", "-o", exe + ".tmp"] + objs + extra + ["-Wl,--gc-sections", "-Wl,-z,muldefs", "-Wl,--unresolved-symbols=ignore-all", "-ldl", "-lpthread"])
            link([])
            _, o, e, _ = run(["ldd", "-r", exe + ".tmp"], timeout=60)
            und = sorted(set(re.findall(r"undefined symbol: (\w+)", o + e)))
            if und:     # not called by the contracts (vtables mention them); a call ends the run
                open(self.dir + "/und.s", "w").write(".text\n" + "".join(".globl %s\n%s:\n" % (u, u) for u in und) + " ud2\n")
                link([self.dir + "/und.s"])
            os.rename(exe + ".tmp", exe)
        return exe

    def run(self, entry, args):
        env = dict(os.environ, ASAN_OPTIONS="exitcode=3:alloc_dealloc_mismatch=0:detect_leaks=0:allocator_may_return_null=1:hard_rss_limit_mb=6000")
        rc, o, e, _ = run(["setpriv", "--reuid=65534", "--regid=65534", "--clear-groups", self.native(), entry] + args, timeout=120, env=env, cwd="/")
        if "FAIL " in o:
            return {"entry": entry, "args": args, "output": o[-3000:], "sanitizer": e[:2500]}
        return None


def choices(trace):
    out = []
    for s in trace or []:
        if s.get("stepType") == "assignment" and s.get("lhs") == "vp_choice" and not s.get("hidden"):
            try:
                out.append(int(s["value"]["data"]))
            except (KeyError, ValueError):
                pass
    return out


def replay(P, gb, entry, bad, opt, secs):
    """counterexample of a failed obligation replayed against the real code; else a random search"""
    why = []
    os.chmod(P.dir, 0o755)
    try:
        P.native()
    except ToolError as e:
        return None, "native build: " + str(e)[-600:]
    for o in bad[:3]:
        try:
            r, _ = cbmc.check(gb, opt["unwind"], True, 240, extra=opt["extra"] + ["--property", o.id])
        except ToolError as e:
            why.append(str(e)[:200])
            continue
        ch = [c for x in r if x.trace for c in [choices(x.trace)]]
        if ch:
            f = "%s/%s.choices" % (P.dir, entry)
            open(f, "w").write(" ".join(map(str, ch[0])))
            os.chmod(f, 0o644)
            x = P.run(entry, ["replay", f])
            if x:
                x["choices"] = ch[0][:2000]
                return x, ""
            why.append("choices of the counterexample of %s do not fail natively" % o.id)
    for seed in (SEED, SEED + 1):
        x = P.run(entry, ["search", str(secs), str(seed)])
        if x:
            return x, ""
    return None, "; ".join(why)


def second(rep, P, entry, opt, secs):
    """a contract with tokens that fails without a failing input is read again with strings of bytes: the code may look
    into them.  True: that reading settles it (it holds for those strings, or a failing input is reported)"""
    name = entry[4:]
    if "-DVP_TOKENS" not in P.given[0]:
        return False
    try:
        B = P.bytes()
        gb = B.build(entry)
        obls, sec = cbmc.check(gb, opt["unwind"] + 4, timeout=min(opt["timeout"], 240), extra=opt["extra"])
        bad = [o for o in obls if not o.desc.startswith("canary") and o.status != "SUCCESS"]
        if not bad and any(o.desc.startswith("canary") and o.status == "FAILURE" for o in obls):
            rep.bounded.append({"unit": name, "bound": (opt["bound"] + "; " if opt["bound"] else "") + "texts of 2 and 3 characters (the code under contract looks into texts, so they are not tokens)", "obligations_checked": len(obls), "seconds": round(sec, 1)})
            rep.canary(True)
            return True
        real = [o for o in bad if o.cls() != "unwind" and "string model" not in o.desc]
        if not real:
            return False
        r, why = replay(B, gb, entry, real, dict(opt, unwind=opt["unwind"] + 4), 1)
        if r is None:
            return False
        rep.canary(True)
        rep.failure(name, real[0].desc, why, r)
        return True
    except ToolError as e:
        rep.notes.append("%s, texts as bytes: %s" % (name, str(e)[:200]))
        return False


def unit(rep, P, entry, opt, secs):
    name = entry[4:]
    is_can = lambda o: o.desc.startswith("canary")
    try:
        gb = P.build(entry)
        obls, sec = cbmc.check(gb, opt["unwind"], timeout=opt["timeout"], extra=opt["extra"])
    except ToolError as e:
        r = None
        if second(rep, P, entry, opt, secs):
            return
        try:
            os.chmod(P.dir, 0o755)
            P.native()
            r = P.run(entry, ["search", str(2 * secs), str(SEED)])
        except ToolError as e2:
            e = e2
        rep.failure(name, r["output"].split("\n")[0] if r else "the verifier gave no answer", str(e)[-1500:], r)
        return
    can = [o for o in obls if is_can(o)]
    sel = [o for o in obls if not is_can(o)]
    bad = [o for o in sel if o.status != "SUCCESS"]
    unw = [o for o in bad if o.cls() == "unwind"]
    real = [o for o in bad if o.cls() != "unwind"]
    hit = any(o.status == "FAILURE" for o in can)
    if hit or not unw:
        rep.canary(hit)
    if not bad:
        if opt["bound"]:
            rep.bounded.append({"unit": name, "bound": opt["bound"], "obligations_checked": len(sel), "seconds": round(sec, 1)})
            rep.solver += sec
        else:
            rep.unit(name, len(sel), len(sel), sec, "cbmc 6.11.0 (SAT, CaDiCaL)")
        if not hit:
            rep.failure(name, "vacuous: the end of the contract is not reachable", "", None)
        return
    if real:
        order = {"post": 0, "mem": 1}
        real.sort(key=lambda o: order.get(o.cls(), 2))
        r, why = replay(P, gb, entry, real, opt, secs)
        if r is None and second(rep, P, entry, opt, secs):
            return
        if not opt["bound"]:
            rep.unit(name, len(sel), len(sel) - len(bad), sec, "cbmc 6.11.0 (SAT, CaDiCaL)")
        if r is None and unw:
            rep.notes.append("%s: with a loop cut at the bound, %s failed" % (name, real[0].desc))
        rep.failure(name, real[0].desc, "%d failed, first %s; %s" % (len(real), real[0].id, why), r)
        return
    # only unwinding assertions: a loop runs further than the bound of this unit
    os.chmod(P.dir, 0o755)
    r = P.run(entry, ["search", str(2 * secs), str(SEED)])
    if r:
        rep.failure(name, "bounded check: " + r["output"].split("\n")[0], "", r)
        return
    more = None
    try:
        o2, s2 = cbmc.check(gb, 4 * opt["unwind"], timeout=240, extra=opt["extra"])
        b2 = [o for o in o2 if not is_can(o) and o.status != "SUCCESS"]
        if not b2:
            more = s2
            if not hit and not any(is_can(o) and o.status == "FAILURE" for o in o2):
                rep.failure(name, "vacuous: the end of the contract is not reachable", "", None)
                return
            if not hit:
                rep.canary(True)
        elif any(o.cls() != "unwind" for o in b2):
            x = [o for o in b2 if o.cls() != "unwind"]
            r, why = replay(P, gb, entry, x, dict(opt, unwind=4 * opt["unwind"]), secs)
            rep.failure(name, x[0].desc, why, r)
            return
    except ToolError as e:
        rep.notes.append(name + ": " + str(e)[:200])
    if more is not None and not opt["bound"]:
        rep.unit(name, len(sel), len(sel), more, "cbmc 6.11.0 (SAT, CaDiCaL)")
    else:
        rep.bounded.append({"unit": name, "bound": "%d iterations of each loop (a loop may run further); %d s of random inputs" % (opt["unwind"], 2 * secs), "obligations_checked": len(sel) - len(unw), "seconds": round(sec, 1)})


def induction(rep, P, entry, opt):
    """True if the contract is proved for every size"""
    name = entry[4:]
    try:
        obls, sec = cbmc.check(P.build(entry), opt["unwind"], timeout=opt["timeout"], extra=opt["extra"])
    except Exception as e:  # whatever the reason: the bounded contracts decide
        rep.notes.append("%s: not proved for every size: %s" % (name, str(e)[-200:]))
        return False
    bad = [o for o in obls if not o.desc.startswith("canary") and o.status != "SUCCESS"]
    hit = any(o.desc.startswith("canary") and o.status == "FAILURE" for o in obls)
    if bad or not hit:
        rep.notes.append("%s: not proved for every size: %s" % (name, bad[0].desc if bad else "vacuous"))
        return False
    rep.canary(True)
    n = sum(1 for o in obls if not o.desc.startswith("canary"))
    if opt["bound"]:
        rep.bounded.append({"unit": name, "bound": opt["bound"], "obligations_checked": n, "seconds": round(sec, 1)})
        return True
    rep.unit(name, n, n, sec, "cbmc 6.11.0 (SAT, CaDiCaL)")
    return True


def widely(rep, prop, secs, all=True, linked={}):
    """the contracts of the bounded units on random inputs of the product's sizes"""
    work = []
    for u in PROPS[prop]:
        if u["wide"] and (all or u["wide"].get("always")):
            try:
                P = Program(u["harness"], list(u["sources"]) + [x for x in linked.get(u["harness"], []) if x not in u["sources"]], list(u["defs"]) + ["-DVP_WIDE"] + u["wide"].get("defs", []), u["wit"], None, u["wide"].get("caps"))
                os.chmod(P.dir, 0o755)
                P.native()
                work += [(P, e) for e in P.entries if (not u["only"] or e[4:] in u["only"]) and e[4:] not in u["skip"] and e[4:] in u["wide"].get("only", [e[4:]])]
            except ToolError as e:
                rep.notes.append("%s, sizes of the product: %s" % (u["harness"], str(e)[-200:]))

    def job(w):
        r = w[0].run(w[1], ["search", str(secs), str(SEED + 7)])
        if r:
            rep.failure(w[1][4:], r["output"].split("\n")[0], "random inputs of the product's sizes", r)
    pmap(job, work)


# property -> [(harness, sources, {entry: options}, defaults)]; entries not named: all of the harness
def U(harness, sources, only=None, skip=(), unwind=9, timeout=600, bound=None, per=None, defs=(), wit=0, caps=None, extra=(), wide=None, ind=False):
    """ind: contracts for lists of any length, with the invariants of the loops (gw/window.h).  A loop written in another way
    may need another invariant: if the induction fails, the bounded units decide, and their contracts are run with the
    sizes of the product (wide) on random inputs"""
    return dict(caps=caps, wide=wide, ind=ind, harness=harness, sources=sources, only=only, skip=skip, unwind=unwind, timeout=timeout, bound=bound, per=per or {}, defs=defs, wit=wit, extra=list(extra))


MQ = ["MQTTGWPacket.cpp"]
BUILD = ["publish", "subscribe", "unsubscribe", "ack", "header", "connect_id", "connect_willtopic", "connect_willmsg", "connect_user", "connect_password", "connect_fixed", "copy", "data", "send"]
CLIB = ["MQTTSNConnectClient.c", "MQTTSNConnectServer.c", "MQTTSNDeserializePublish.c", "MQTTSNPacket.c", "MQTTSNSearchClient.c", "MQTTSNSearchServer.c", "MQTTSNSerializePublish.c",
        "MQTTSNSubscribeClient.c", "MQTTSNSubscribeServer.c", "MQTTSNUnsubscribeClient.c", "MQTTSNUnsubscribeServer.c"]
SNP = ["MQTTSNGWPacket.cpp"] + CLIB
ENC = ["MQTTSNGWEncapsulatedPacket.cpp", "MQTTSNGWClientRecvTask.cpp"] + SNP
T = int(TIER != "quick")
CORE = ["MQTTSNGWClient.cpp", "MQTTSNGateway.cpp", "MQTTSNGWTopic.cpp", "MQTTSNGWPacket.cpp", "MQTTGWPacket.cpp"]
TOK = ["-DVP_TOKENS"]
CONN = ["MQTTSNGWConnectionHandler.cpp", "MQTTGWConnectionHandler.cpp", "MQTTSNAggregateConnectionHandler.cpp"] + CORE
TASK = ["MQTTSNGWClient.cpp", "MQTTSNGateway.cpp", "MQTTSNGWPacket.cpp", "MQTTGWPacket.cpp"]
PROPS = {
    "C07": [U("h_mqtt.cc", MQ, only=BUILD)],
    "C08": [U("h_mqtt.cc", MQ, skip=BUILD, per={"recv": dict(bound="the payload of a packet arrives in at most 3 pieces; packets up to 65000 bytes")})],
    "C09": [U("h_snpacket.cc", SNP, unwind=12, skip=["sn_print"]), U("h_snpacket.cc", SNP, unwind=12, only=["sn_print"], caps={"SIZE_OF_LOG_PACKET": 3}, bound="at most SIZE_OF_LOG_PACKET = 3 bytes are printed (500 in the product)")],
    "C10": [U("h_encap.cc", ENC, unwind=12, skip=["encap_print", "log_received"]),
            U("h_encap.cc", ENC, unwind=16, only=["encap_print", "log_received"], caps={"SIZE_OF_LOG_PACKET": 3, "MAX_CLIENTID_LENGTH": 6}, bound="at most 3 bytes are printed, client ids up to 12 bytes (MAX_CLIENTID_LENGTH set to 6)"),
            U("h_fwd.cc", ["MQTTSNGWForwarder.cpp", "MQTTSNGWEncapsulatedPacket.cpp"], unwind=6, defs=["-DVP_TOKENS"], bound="at most 3 forwarders and 3 clients of a forwarder, node ids of one byte", wide=dict(defs=["-DNF=40"])),
            U("u_fwd.cc", ["MQTTSNGWForwarder.cpp", "MQTTSNGWEncapsulatedPacket.cpp"], unwind=4, defs=TOK, ind=True)],
    "C11": [U("h_topics.cc", ["MQTTSNGWTopic.cpp"], only=["nextid"], defs=["-DVP_TOKENS"]),
            U("h_topics.cc", ["MQTTSNGWTopic.cpp"], skip=["nextid", "firstmatch"], defs=["-DVP_TOKENS"], caps={"MAX_TOPIC_PAR_CLIENT": 5 + T}, unwind=7 + T, bound="MAX_TOPIC_PAR_CLIENT set to %d (50 in the product): every table of up to that many topics, any names and ids" % (5 + T), wide=dict(caps={})),
            U("u_topics.cc", ["MQTTSNGWTopic.cpp"], skip=["tmatch"], defs=TOK, unwind=4, ind=True)],
    "C12": [U("h_match.cc", ["MQTTSNGWTopic.cpp"], defs=["-DVP_VIEWS", "-DVP_STRCAP=%d" % (4 + T), "-DLEN=%d" % (4 + T)], unwind=7 + T, timeout=700, bound="filters and names of at most %d characters, any characters" % (4 + T), wide=dict(defs=["-DVP_STRCAP=14", "-DLEN=14"])),
            U("u_match.cc", ["MQTTSNGWTopic.cpp"], unwind=4, defs=["-DVP_LEVELS"], ind=True),
            U("h_topics.cc", ["MQTTSNGWTopic.cpp"], only=["firstmatch"], defs=TOK, caps={"MAX_TOPIC_PAR_CLIENT": 5 + T}, unwind=7 + T, bound="MAX_TOPIC_PAR_CLIENT set to %d (50 in the product)" % (5 + T), wide=dict(caps={})),
            U("u_topics.cc", ["MQTTSNGWTopic.cpp"], only=["tmatch"], defs=TOK, unwind=4, ind=True)],
    "C13": [U("h_idmap.cc", ["MQTTSNGWTopic.cpp"], defs=["-DVP_TOKENS"], caps={"MAX_INFLIGHTMESSAGES": 2}, unwind=7, bound="MAX_INFLIGHTMESSAGES set to 2 (10 in the product), so at most 5 entries; any ids, topics and types; topic names of at most 3 characters", wide=dict(defs=["-DNAMELEN=300"], caps={})),
            U("u_idmap.cc", ["MQTTSNGWTopic.cpp"], unwind=4, defs=TOK, ind=True)],
    "C14": [U("h_pubsn.cc", ["MQTTSNGWPublishHandler.cpp"] + CORE, unwind=6, defs=TOK)],
    "C15": [U("h_pubgw.cc", ["MQTTGWPublishHandler.cpp", "MQTTSNGWAggregateTopicTable.cpp"] + CORE, unwind=6, defs=TOK, per={"gw_aggregate_publish%d" % i: dict(bound="10 constellations of at most three filters and four aggregated clients; any message") for i in range(1, 11)},
              wide=dict(always=True, only=["gw_aggregate_many"]))],
    "C17": [U("h_conn.cc", CONN, unwind=6, defs=TOK, per={n: dict(bound="at most 3 messages stored for a sleeping client, 3 topics of an aggregated client") for n in ("conn_connect", "conn_pingreq", "conn_aggr_connect", "conn_aggr_willmsg", "conn_aggr_pingreq")},
              wide=dict(always=True, defs=["-DNST=20", "-DNTP=30"], only=["conn_connect", "conn_pingreq", "conn_aggr_connect", "conn_aggr_willmsg", "conn_aggr_pingreq"]))],
    "C18": [U("h_client.cc", ["MQTTSNGWClient.cpp", "MQTTSNGateway.cpp", "MQTTSNGWPacket.cpp", "MQTTSNPacket.c"], unwind=7 + T, defs=TOK + ["-DCAP=%d" % (3 + T)],
              per={n: dict(bound="at most %d messages waiting for a REGACK, with any message ids" % (3 + T)) for n in ("regack_get", "regack_set", "regack_erase")},
              wide=dict(defs=["-DCAP=60"], only=["regack_get", "regack_set", "regack_erase"])),
            U("u_regack.cc", ["MQTTSNGWClient.cpp", "MQTTSNGateway.cpp", "MQTTSNGWPacket.cpp", "MQTTSNPacket.c"], unwind=4, defs=TOK, ind=True)],
    "C19": [U("h_msgid.cc", ["MQTTSNGWMessageIdTable.cpp", "MQTTSNGWAggregater.cpp"], unwind=6 + T, defs=TOK + ["-DCAP=%d" % (3 + T)], caps={"MAX_MESSAGEID_TABLE_SIZE": 2 + T}, timeout=600,
              bound="MAX_MESSAGEID_TABLE_SIZE set to %d (500 in the product), at most %d entries of 2 clients; any message ids" % (2 + T, 3 + T), wide=dict(defs=["-DCAP=502"])),
            U("u_msgid.cc", ["MQTTSNGWMessageIdTable.cpp", "MQTTSNGWAggregater.cpp"], unwind=4, defs=TOK, ind=True)],
    "C20": [U("h_aggr.cc", ["MQTTSNGWAggregateTopicTable.cpp", "MQTTSNGWTopic.cpp"], unwind=6, defs=TOK, timeout=600, bound="at most 2 filters with at most 3 clients each; any names, any matching", wide=dict(defs=["-DNFLT=6", "-DNCLT=9"])),
            U("u_aggrel.cc", ["MQTTSNGWAggregateTopicTable.cpp", "MQTTSNGWTopic.cpp"], unwind=4, defs=TOK, ind=True),
            U("u_aggr.cc", ["MQTTSNGWAggregateTopicTable.cpp", "MQTTSNGWTopic.cpp"], unwind=4, defs=TOK, ind=True)],
    "C21": [U("h_task.cc", ["MQTTSNGWPacketHandleTask.cpp", "MQTTSNGWClientSendTask.cpp", "MQTTSNGWBrokerSendTask.cpp"] + TASK, unwind=6, defs=TOK),
            U("h_brecv.cc", ["MQTTSNGWBrokerRecvTask.cpp"] + TASK, unwind=18, defs=TOK, bound="at most 2 clients in the list of clients", wide=dict(always=True, defs=["-DNC=30"], only=["brecv_run2"]))],
    "C22": [U("h_recv.cc", ["MQTTSNGWClientRecvTask.cpp"] + TASK, unwind=6, defs=TOK)],
    "C23": [U("h_clist.cc", ["MQTTSNGWClientList.cpp"] + TASK, unwind=9 + T, wit=4, timeout=600, defs=["-DVP_STRCAP=6", "-DNCL=%d" % (3 + T)], bound="at most %d clients with ids of at most 3 characters, at most 2 clients in the pool; any ids and addresses" % (3 + T), wide=dict(defs=["-DNCL=40"])),
            U("u_clist.cc", ["MQTTSNGWClientList.cpp", "MQTTSNGWClient.cpp"], unwind=4, defs=TOK, ind=True)],
    "C24": [U("h_adapter.cc", ["MQTTSNGWAdapterManager.cpp", "MQTTSNGWAdapter.cpp"] + TASK, unwind=6, defs=TOK, per={"adp_answer": dict(bound="at most 2 packets held back")}, wide=dict(always=True, defs=["-DNW=30"], only=["adp_answer"])),
            U("h_asetup.cc", ["MQTTSNGWAdapterManager.cpp", "MQTTSNGWAdapter.cpp", "MQTTSNGWQoSm1Proxy.cpp", "MQTTSNGWAggregater.cpp", "MQTTSNGWForwarder.cpp", "MQTTSNGWMessageIdTable.cpp", "MQTTSNGWAggregateTopicTable.cpp"] + TASK,
              unwind=26, wit=4, defs=["-DVP_STRCAP=22"], per={n: dict(bound="gateway names of at most 3 characters", weight=5) for n in ("asetup_ag", "asetup_both", "asetup_qosm1")})],
    "C25": [U("h_que.cc", TASK, unwind=6, per={"que_clear": dict(bound="at most 3 packets in the queue that is cleared"), "que_event_wait": dict(bound="the semaphore is released in vain at most once")}, wide=dict(always=True, defs=["-DNQ=100"], only=["que_clear"]))],
    "C26": [U("h_net.cc", ["linux/Network.cpp"], unwind=5 + T, wit=4 + T, defs=["-DVP_EXC", "-DNIT=%d" % (2 + T), "-DNHOST=%d" % (3 + T)], timeout=600,
              per={"net_tls": dict(unwind=10, bound="host names of at most %d characters, common names of at most %d" % (3 + T, 5 + T)), "net_send": dict(bound="at most %d rounds of a TLS transfer" % (2 + T)), "net_recv": dict(bound="at most %d rounds of a TLS transfer" % (2 + T))},
              wide=dict(always=True, defs=["-DNIT=200", "-DNHOST=60"], only=["net_tls", "net_send", "net_recv"])),
            U("u_net.cc", ["linux/Network.cpp"], only=["net_send", "net_recv"], unwind=4, defs=["-DVP_EXC"], ind=True)],
    "C27": [U("h_udp.cc", ["linux/udp/SensorNetwork.cpp", "MQTTSNGWProcess.cpp"], skip=["udp_parse"], unwind=62, wit=5, defs=["-DVP_EXC", "-DVP_STRCAP=60"]),
            U("h_udp.cc", ["linux/udp/SensorNetwork.cpp", "MQTTSNGWProcess.cpp"], only=["udp_parse"], unwind=9, wit=5, defs=["-DVP_EXC", "-DVP_STRCAP=6"], bound="addresses of at most 5 characters")],
    "C28": [U("h_conf.cc", ["MQTTSNGateway.cpp", "MQTTSNGWProcess.cpp"], unwind=27, wit=5, defs=["-DVP_EXC", "-DVP_STRCAP=5"]),
            U("h_param.cc", ["MQTTSNGWProcess.cpp"], unwind=8, defs=["-DVP_EXC", "-DVP_STRCAP=5", "-DLL=4", "-DNKEY=1", "-DNLINES=1"], bound="one line of at most 4 characters, keys of one", wide=dict(always=True, defs=["-DLL=100", "-DNKEY=20", "-DNLINES=40"])),
            U("h_param.cc", ["MQTTSNGWProcess.cpp"], unwind=12, defs=["-DVP_EXC", "-DVP_STRCAP=5", "-DLL=%d" % (5 + T), "-DINDUCTION"], bound="lines of at most %d characters, keys of at most 2" % (5 + T), ind=True)],
    "C16": [U("h_sub.cc", ["MQTTSNGWSubscribeHandler.cpp", "MQTTGWSubscribeHandler.cpp"] + CORE, unwind=6, defs=TOK)],
}
COMMON_ASSUME = ["memory allocation succeeds; the C++ exceptions the code throws end the path (nothing is claimed about what follows a throw), except in the units built with -DVP_EXC (C26, C27, C28), where they are followed",
                 "LLVM IR of clang 18 -O0 (x86-64) is the meaning of the source; vp/irc.py prints it as C, one statement per instruction",
                 "signed overflow wraps"]
TRUSTED = ["clang-18 front end, llvm-link, vp/irc.py (IR to C printer), goto-cc and cbmc 6.11.0 with CaDiCaL",
           "contracts of libc and operator new/delete in gw/rt.c and of the collaborators defined at the top of the contract file"]
ASSUME = {
    "C07": ["strings up to 65535 bytes, payloads up to 200000 (send: 65000); content arbitrary. memcpy is applied at the byte offset under scrutiny (any), the rest of its target is left arbitrary"],
    "C08": ["Network::recv returns an error, 0 or 1..len bytes of the stream (its contract, which C26 enforces on the real Network)"],
}


def check(prop):
    rep = Report(prop)
    rep.cmd = "clang-18 -emit-llvm; llvm-link; vp/irc.py; goto-cc; cbmc --bounds-check --pointer-check --unwinding-assertions (for every unit vph_*)"
    rep.trusted, rep.assume = TRUSTED, COMMON_ASSUME + ASSUME.get(prop, [])
    secs = 8 if TIER == "quick" else 30
    work, lost = [], []
    for u in PROPS[prop]:
        try:
            P = Program(u["harness"], u["sources"], u["defs"], u["wit"], None, u["caps"])
        except ToolError as e:
            if u["ind"]:
                rep.notes.append("%s: not proved for every size: %s" % (u["harness"], str(e)[-200:]))
                lost.append(u)
                continue
            rep.failure(u["harness"], "the contracts no longer compile against the sources", str(e)[-1500:])
            continue
        for e in P.entries:
            n = e[4:]
            if (u["only"] and n not in u["only"]) or n in u["skip"]:
                continue
            opt = dict(unwind=u["unwind"], timeout=u["timeout"], bound=u["bound"], extra=["--no-malloc-may-fail", "--object-bits", "11", "--unwindset", "vp_copy.0:1100", "--sat-solver", "cadical"] + u["extra"])
            opt.update(u["per"].get(n, {}))
            opt["ind"] = u["ind"]
            work.append((P, e, opt))
    work.sort(key=lambda w: -w[2].get("weight", 0))
    if TIER != "quick":
        pmap(lambda w: deep(rep, w[0], w[1], secs), [w for w in work if not w[2]["ind"]])
    ok = pmap(lambda w: induction(rep, *w) if w[2]["ind"] else unit(rep, w[0], w[1], w[2], secs), work)
    if not rep.fail:
        widely(rep, prop, secs, TIER != "quick" or lost or any(x is False for x in ok), {P.harness: P.sources for P, e, o in work})
    if rep.bounded and not rep.functions:
        rep.level = "model_checking"
    return rep.finish()


def deep(rep, P, entry, secs):
    """thorough: also run the contract natively (ASan) on random inputs; it must agree with the proof"""
    try:
        os.chmod(P.dir, 0o755)
        P.native()
        x = P.run(entry, ["search", str(secs), str(SEED + 100)])
        if x:
            rep.failure(entry[4:], x["output"].split("\n")[0], "random inputs", x)
    except ToolError as e:
        rep.notes.append("native %s: %s" % (entry, str(e)[-300:]))
