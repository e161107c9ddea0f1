"""Build and run support shared by all checks.

build():  compiles /repo's *current* working tree (plus the crypto stand-ins in lib/shim and a harness) with
          sanitizers.  Objects are cached by content hash under /verif/.build, so a fresh copy always rebuilds.
Check:    runs harness shards, collects violations (oracle lines and sanitizer reports), matches them against
          known_findings.txt, writes the evidence file and decides the exit code.
"""
import concurrent.futures as cf, glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")
LIB = os.path.join(VERIF, "lib")
EVID = os.path.join(VERIF, "evidence")
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
NPROC = os.cpu_count() or 4

SAN = {
    # checks that find real defects only; no benign-noise groups (alignment, pointer-overflow of null+0, function, shift-base)
    "asan": ["-ftrivial-auto-var-init=pattern", "-fsanitize=address,bounds,shift-exponent,signed-integer-overflow,integer-divide-by-zero,null,object-size,return,unreachable,vla-bound,bool,enum",
             "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"],
    "tsan": ["-fsanitize=thread", "-fno-omit-frame-pointer"],
    "plain": [],
}
OPT = {"asan": "-O1", "tsan": "-O1", "plain": "-O1"}

BASE_DEFS = ['-DBLOCK_HASH_CACHE', '-DBLS_DESERIALIZE', '-DC4_VERSION="0.1.0-dev"', '-DCHAIN_ETH', '-DETH_ZKPROOF', '-DFILE_STORAGE',
             '-DMESSAGES', '-DPROVER', '-DPROVER_CACHE', '-DTEST', '-DTESTDATA_DIR="/repo/test/data"', '-DUSE_CURL', '-DWITNESS_SIGNER',
             '-DPRECOMPILE_ZERO_HASHES', '-DETH_ACCOUNT', '-DETH_BLOCK', '-DETH_CALL', '-DETH_LOGS', '-DETH_RECEIPT', '-DETH_TX', '-DETH_UTIL',
             '-DUSE_CHECKPOINTZ', '-DVERIF_MONITOR']
EVM_DEFS = ['-DEVMONE', '-DEVM', '-DINTX', '-DPRECOMPILED_RIPEMD160', '-DPRECOMPILED_BN128', '-DPRECOMPILED_KZG']
CRYPTO_DEFS = ['-DAES_128', '-DUSE_ECDSA_SIGN', '-DUSE_PRECOMPUTED_CP=1', '-DUSE_RFC6979', '-DWITNESS_SIGNER']
CRYPTO_SRC = ["ecdsa", "bignum", "rand", "secp256k1", "memzero", "sha3", "sha2", "ripemd160", "curves", "rfc6979", "hmac_drbg", "hmac"]

VERIFIERS_H = '''#ifndef VERIFIERS_H
#define VERIFIERS_H
const ssz_def_t* c4_eth_get_request_type(chain_type_t chain_type);
bool c4_eth_verify(verify_ctx_t* ctx);
method_type_t c4_eth_get_method_type(chain_id_t chain_id, char* method);
%(decl)s
static const ssz_def_t* request_container(chain_type_t chain_type) {
  const ssz_def_t* container = NULL;
  if (!container) container = c4_eth_get_request_type(chain_type);
%(rt)s
  return container;
}
static bool handle_verification(verify_ctx_t* ctx) {
  if (c4_eth_verify(ctx)) return true;
%(v)s
  return false;
}
method_type_t c4_get_method_type(chain_id_t chain_id, char* method) {
  method_type_t type = METHOD_UNDEFINED;
  if (!type) type = c4_eth_get_method_type(chain_id, method);
%(m)s
  return type;
}
#endif
'''
PROVERS_H = '''#ifndef PROVERS_H
#define PROVERS_H
bool eth_prover_execute(prover_ctx_t* ctx);
%(decl)s
static void prover_execute(prover_ctx_t* ctx) {
  if (eth_prover_execute(ctx)) return;
%(p)s
  ctx->state.error = strdup("Unsupported chain");
}
#endif
'''
CHAIN_PROPS_H = '''#ifndef CHAIN_PROPS_H
#define CHAIN_PROPS_H
#include "util/chains.h"
bool c4_eth_chain_props(chain_id_t chain_id, chain_properties_t* props);
static inline bool c4_chains_get_props(chain_id_t chain_id, chain_properties_t* out_props) {
  if (!out_props) return false;
#ifdef HTTP_SERVER
  if (c4_eth_chain_props(chain_id, out_props)) return true;
#endif
  return false;
}
#endif
'''


class HarnessError(Exception):
    pass


def _h(*parts):
    m = hashlib.sha256()
    for p in parts:
        m.update(p if isinstance(p, bytes) else str(p).encode())
        m.update(b"\0")
    return m.hexdigest()


_hdr_cache = {}


def _headers_hash(dirs):
    key = tuple(dirs)
    if key not in _hdr_cache:
        m = hashlib.sha256()
        for d in dirs:
            for root, ds, fs in os.walk(d):
                ds[:] = sorted(x for x in ds if x not in ("node_modules", ".git", "_build"))
                for f in sorted(fs):
                    if f.endswith((".h", ".hpp", ".inc", ".table")):
                        p = os.path.join(root, f)
                        m.update(p.encode())
                        m.update(open(p, "rb").read())
        _hdr_cache[key] = m.hexdigest()
    return _hdr_cache[key]


def _write_if_changed(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    if not os.path.exists(path) or open(path).read() != text:
        open(path, "w").write(text)


def repo_sources(evm=False, op=False, extra=(), only=None):
    """(source, kind) list, by globbing the directories of the library so that added files are picked up."""
    r = lambda p: os.path.join(REPO, p)
    src = []
    for d in ("src/util", "src/verifier", "src/prover", "src/chains/eth/ssz", "src/chains/eth/verifier", "src/chains/eth/prover", "src/chains/eth/zk_verifier", "src/chains/eth/bn254"):
        for f in sorted(glob.glob(r(d + "/*.c"))):
            b = os.path.basename(f)
            if b in ("main.c", "bn254_mcl.c"):
                continue
            if b == "call_evmone.c" and not evm:
                continue
            src.append(f)
    if evm:
        pc = sorted(glob.glob(r("src/chains/eth/precompiles/*.c")))
        inc = set(re.findall(r'#include "(\w+\.c)"', "".join(open(f).read() for f in pc)))
        src += [f for f in pc if os.path.basename(f) not in inc]
        src += sorted(glob.glob(r("libs/evmone/*.cpp")))
    if op:
        for d in ("src/chains/op/ssz", "src/chains/op/verifier", "src/chains/op/prover"):
            src += sorted(glob.glob(r(d + "/*.c")))
    for c in CRYPTO_SRC:
        f = r("libs/crypto/%s.c" % c)
        if os.path.exists(f):
            src.append(f)
    src.append(r("bindings/colibri.c"))
    src += [r(x) for x in extra]
    return src


def build(name, harness, san="asan", evm=False, op=False, defs=(), undefs=(), extra_src=(), libs=(), with_repo=True, exclude=(), cov=False):
    """Compile everything and link `name`; returns path of the executable."""
    t0 = time.time()
    gen = os.path.join(BUILD, "gen" + ("-op" if op else ""))
    opd = dict(decl="", rt="", v="", m="", p="")
    if op:
        opd = dict(decl="const ssz_def_t* c4_op_get_request_type(chain_type_t);\nbool c4_op_verify(verify_ctx_t*);\nmethod_type_t c4_op_get_method_type(chain_id_t, char*);",
                   rt="  if (!container) container = c4_op_get_request_type(chain_type);", v="  if (c4_op_verify(ctx)) return true;",
                   m="  if (!type) type = c4_op_get_method_type(chain_id, method);", p="")
    _write_if_changed(gen + "/verifiers.h", VERIFIERS_H % opd)
    pd = dict(decl="", p="")
    if op:
        pd = dict(decl="bool op_prover_execute(prover_ctx_t* ctx);", p="  if (op_prover_execute(ctx)) return;")
    _write_if_changed(gen + "/provers.h", PROVERS_H % pd)
    _write_if_changed(gen + "/chain_props.h", CHAIN_PROPS_H)
    R = lambda p: os.path.join(REPO, p)
    incs = [LIB + "/shim", gen, R("libs/crypto"), R("libs/intx"), R("src"), R("src/util"), R("src/verifier"), R("src/prover"), R("bindings")] + \
           [R("src/chains/eth/" + d) for d in ("ssz", "verifier", "prover", "bn254", "zk_verifier", "precompiles")]
    if evm:
        incs.append(R("libs/evmone"))
    if op:
        incs += [R("src/chains/op/" + d) for d in ("ssz", "verifier", "prover")]
    incf = ["-I" + i for i in incs]
    d = [x for x in BASE_DEFS if x not in undefs] + list(defs) + ['-DCHAIN_PROPS_PATH="%s/chain_props.h"' % gen, '-DPROVERS_PATH="%s/provers.h"' % gen, '-DVERIFIERS_PATH="%s/verifiers.h"' % gen]
    if evm:
        d += EVM_DEFS
    if op:
        d += ["-DCHAIN_OP"]
    common = ["-g", OPT[san], "-w", "-fPIC"] + SAN[san]
    if cov:
        common += ["-fprofile-instr-generate", "-fcoverage-mapping"]
    jobs = []
    hh = _headers_hash([R("src"), R("libs/crypto"), R("libs/intx"), R("libs/evmone"), R("bindings"), LIB + "/shim"])
    hv = _headers_hash([LIB, os.path.join(VERIF, "harness")])
    odir = os.path.join(BUILD, "obj")
    os.makedirs(odir, exist_ok=True)

    def job(srcfile, cmd):
        key = _h(open(srcfile, "rb").read(), " ".join(cmd), hh, "" if srcfile.startswith(REPO) else hv, open(gen + "/verifiers.h").read(), open(gen + "/provers.h").read())[:32]
        out = os.path.join(odir, key + ".o")
        jobs.append((srcfile, cmd + ["-c", srcfile, "-o", out], out))
        return out

    objs = []
    if with_repo:
        for f in repo_sources(evm, op, extra_src):
            if os.path.relpath(f, REPO) in exclude:
                continue
            dd = d + (CRYPTO_DEFS if "/libs/crypto/" in f else [])
            cc = "clang++" if f.endswith(".cpp") else "clang"
            std = ["-std=c++17"] if f.endswith(".cpp") else ["-std=gnu11"]
            objs.append(job(f, [cc] + std + common + dd + incf))
    for f, fl in ((LIB + "/shim/blst.cpp", ["-O2"]), (LIB + "/shim/intx_shim.cpp", ["-O2"])):
        sanf = SAN["tsan"] if san == "tsan" else []
        objs.append(job(f, ["g++" if san != "tsan" else "clang++", "-std=c++17", "-g1", "-w", "-fPIC", "-I" + R("libs/intx"), "-I" + LIB + "/shim"] + fl + sanf))
    if evm:
        objs.append(job(LIB + "/shim/minievm.cpp", ["clang++", "-std=c++17"] + common + ["-I" + LIB + "/shim"]))
    for f in harness:
        objs.append(job(f, ["clang++", "-std=c++17"] + common + d + incf + ["-I" + LIB, "-I" + os.path.join(VERIF, "harness")]))

    def run(j):
        src, cmd, out = j
        if os.path.exists(out):
            return None
        tmp = out + ".%d.tmp" % os.getpid()
        cmd = cmd[:-1] + [tmp]
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode:
            return "%s\n%s" % (src, p.stdout[-4000:])
        os.rename(tmp, out)
        return None

    with cf.ThreadPoolExecutor(NPROC) as ex:
        errs = [e for e in ex.map(run, jobs) if e]
    if errs:
        raise HarnessError("compile failed:\n" + "\n".join(errs[:3]))
    exe = os.path.join(BUILD, "bin", name)
    os.makedirs(os.path.dirname(exe), exist_ok=True)
    lk = ["clang++", "-o", exe] + (["-fprofile-instr-generate"] if cov else []) + SAN[san] + objs + ["-lgmp", "-lm", "-lpthread", "-ldl"] + list(libs)
    p = subprocess.run(lk, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise HarnessError("link failed: " + p.stdout[-4000:])
    sys.stderr.write("[build] %s (%d objects) %.1fs\n" % (name, len(objs), time.time() - t0))
    return exe


def san_env(leaks=False):
    e = dict(os.environ)
    e["ASAN_OPTIONS"] = "abort_on_error=0:exitcode=77:detect_leaks=%d:leak_check_at_exit=0:detect_stack_use_after_return=1:allocator_may_return_null=1:malloc_context_size=8:max_allocation_size_mb=3000" % (1 if leaks else 0)
    e["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1:exitcode=77"
    e["TSAN_OPTIONS"] = "halt_on_error=1:exitcode=66:report_thread_leaks=0:history_size=7:report_signal_unsafe=0"
    e.setdefault("ASAN_SYMBOLIZER_PATH", shutil.which("llvm-symbolizer-18") or shutil.which("llvm-symbolizer") or "")
    return e


FRAME = re.compile(r"^\s*#\d+ (?:0x[0-9a-f]+ in )?(\S+)(?: (\S+))?", re.M)


def san_key(text):
    """A stable key for a sanitizer report: kind + first two frames inside the repository."""
    kind = "crash"
    m = re.search(r"ERROR: AddressSanitizer: ([\w-]+)", text) or re.search(r"runtime error: ([a-z ]{4,40})", text) or re.search(r"WARNING: ThreadSanitizer: ([\w -]+?) \(", text)
    if m:
        kind = m.group(1).strip().replace(" ", "-")
    frames = []
    for fm in FRAME.finditer(text):
        fn, loc = fm.group(1), fm.group(2) or ""
        if loc.startswith(REPO) or "/repo/" in loc:
            frames.append(fn)
        if len(frames) == 2:
            break
    return "%s@%s" % (kind, "<".join(frames) or "?")


class Check:
    def __init__(self, prop, level, technique):
        self.prop, self.level = prop, level
        a = sys.argv[1:]
        self.tier = "quick"
        if os.environ.get("VERIF_TIER") in ("quick", "thorough"):
            self.tier = os.environ["VERIF_TIER"]
        for t in ("quick", "thorough"):
            if t in a or "--" + t in a:
                self.tier = t
        self.t0 = time.time()
        self.viol = []       # (key, detail, replay)
        self.inconclusive = []
        self.eval = 0
        self.distinct = set()
        self.counters = {}
        self.samples = []
        self.notes = {}
        self.scratch = tempfile.mkdtemp(prefix="verif-%s-" % prop)

    def thorough(self):
        return self.tier == "thorough"

    def violation(self, key, detail, replay):
        self.viol.append((key, detail, replay))

    # --- running harnesses -------------------------------------------------
    def _one(self, exe, args, idx, timeout, wrap, env_extra=None):
        st = os.path.join(self.scratch, "st-%s-%d-%d" % (os.path.basename(exe), idx, int(time.time() * 1e6)))
        wd = st + ".d"
        os.makedirs(wd, exist_ok=True)
        env = san_env("--leaks" in args)
        env["VERIF_STATUS"] = st
        if env_extra:
            env.update(env_extra)
        try:
            p = subprocess.run(list(wrap) + [exe] + [str(x) for x in args], stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, cwd=wd, timeout=timeout)
            rc, out, err, to = p.returncode, p.stdout, p.stderr, False
        except subprocess.TimeoutExpired as e:
            rc, out, err, to = -999, e.stdout or b"", e.stderr or b"", True
        status = open(st, "rb").read().split(b"\0")[0].decode("latin1") if os.path.exists(st) else ""
        shutil.rmtree(wd, ignore_errors=True)
        return rc, out.decode("utf8", "replace"), err.decode("utf8", "replace"), to, status

    def run(self, exe, cases, args=(), shards=None, timeout=600, seed=None, wrap=(), hang_is_violation=True, env=None, label=""):
        """Run `cases` cases split over shards; shard i runs cases i, i+n, ...; restarts after a crashed case."""
        shards = min(shards or NPROC, max(1, cases))
        seed = SEED if seed is None else seed

        def shard(i):
            res, start, crashes = [], i, 0
            while start < cases:
                a = ["--seed", seed, "--start", start, "--step", shards, "--end", cases, "--tier", self.tier] + list(args)
                r = self._one(exe, a, i, timeout, wrap, env)
                res.append((a, r))
                rc, _, err, to, status = r
                m = re.match(r"case=(\d+)", status)
                if (rc == 0 and not to) or crashes >= 3:
                    break
                if rc == 3 or not m:
                    break
                crashes += 1
                start = int(m.group(1)) + shards
            return res

        with cf.ThreadPoolExecutor(shards) as ex:
            allr = [x for rs in ex.map(shard, range(shards)) for x in rs]
        for a, (rc, out, err, to, status) in allr:
            self._digest(exe, a, rc, out, err, to, status, timeout, wrap, hang_is_violation, env)

    def _digest(self, exe, a, rc, out, err, to, status, timeout, wrap, hang_is_violation, env):
        m = re.match(r"case=(\d+)", status)
        only = int(m.group(1)) if m else None

        def replay(case):
            if case is None:
                return [exe] + [str(x) for x in a]
            b = list(a)
            b[b.index("--start") + 1] = case
            b[b.index("--end") + 1] = case + 1
            return [exe] + [str(x) for x in b]

        for line in out.splitlines():
            if line.startswith("VIOL "):
                f = line[5:].split("\t")
                case = int(f[0]) if f[0].isdigit() else None
                self.violation(f[1] if len(f) > 1 else "?", f[2] if len(f) > 2 else "", replay(case))
            elif line.startswith("STAT "):
                j = json.loads(line[5:])
                self.eval += j.get("evaluations", 0)
                for k, v in j.get("counters", {}).items():
                    self.counters[k] = self.counters.get(k, 0) + v
                self.distinct.update(j.get("distinct", []))
                for s in j.get("samples", []):
                    if len(self.samples) < 12:
                        self.samples.append(s)
            elif line.startswith("INCONCLUSIVE "):
                self.inconclusive.append(line[13:])
        if to:
            if only is not None and hang_is_violation:  # re-run the single case once, alone, before calling it a hang
                r2 = replay(only)
                rc2, _, _, to2, _ = self._one(exe, r2[1:], 99, timeout, wrap, env)
                if to2:
                    self.violation("hang@" + status.split(" ", 1)[-1].split(" ")[0], "case does not terminate within %ds: %s" % (timeout, status), r2)
                    return
            self.inconclusive.append("timeout after %ds, status %s" % (timeout, status))
        elif rc == 3 or "HARNESS-ERROR" in err:
            raise HarnessError(err[-3000:] + " | " + status)
        elif rc != 0 and rc != 1:
            mm = re.search(r"(==\d+==ERROR: AddressSanitizer|\S+:\d+:\d+: runtime error|WARNING: ThreadSanitizer)", err)
            if mm:
                err = err[mm.start():]
            if "AddressSanitizer" in err or "runtime error" in err or rc < 0 or rc == 77:
                key = san_key(err)
                if "out-of-memory" in key or "allocation-size-too-big" in key:
                    key = "oom:" + key
                self.violation(key, "rc=%d %s\n%s" % (rc, status, err[:6000]), replay(only))
            elif rc == 66:
                self.violation(san_key(err), "rc=66 %s\n%s" % (status, err[:6000]), replay(only))
            else:
                raise HarnessError("exit %d: %s %s" % (rc, status, err[-3000:]))

    # --- verdict -----------------------------------------------------------
    def finish(self, rule, min_distinct=1, extra=None):
        known = load_known(self.prop)
        new, seen_known = [], {}
        for key, detail, rp in self.viol:
            k = next((x for x in known if x["key"] == key), None)
            if k:
                seen_known.setdefault(key, (k, detail))
            else:
                new.append((key, detail, rp))
        for key, (k, _) in sorted(seen_known.items()):
            print("KNOWN-FINDING: property=%s %s" % (self.prop, k["text"]))
        os.makedirs(EVID, exist_ok=True)
        cov = {"evaluations": int(self.eval), "distinct_nontrivial": len(self.distinct), "rule": rule, "samples": self.samples[:10] or ["none"],
               "counters": self.counters, "inconclusive": self.inconclusive[:10], "known_findings_seen": sorted(seen_known)}
        cov.update(self.notes)
        ev = {"property": self.prop, "tier": self.tier, "seed": SEED, "level": self.level, "coverage": cov, "wall_s": round(time.time() - self.t0, 2)}
        if extra:
            ev["coverage"].update(extra)
        ev["coverage"]["violations"] = len(new)
        with open(os.path.join(EVID, self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        shutil.rmtree(self.scratch, ignore_errors=True)
        if new:
            rd = os.path.join(EVID, "replay")
            os.makedirs(rd, exist_ok=True)
            done = set()
            for key, detail, rp in new:
                if key in done:
                    continue
                done.add(key)
                path = os.path.join(rd, "%s-%s.txt" % (self.prop, _h(key)[:10]))
                with open(path, "w") as f:
                    f.write("property %s\nkey %s\nreplay: VERIF_SEED=%d %s\n\n%s\n" % (self.prop, key, SEED, " ".join(map(str, rp)) if isinstance(rp, list) else rp, detail))
                print("VIOLATION property=%s replay=%s" % (self.prop, path))
                print("  key=%s" % key)
                print("  %s" % detail[:1500].replace("\n", "\n  "))
            sys.exit(1)
        if self.inconclusive:
            print("INCONCLUSIVE parts: %s" % self.inconclusive[:3], file=sys.stderr)
        if len(self.distinct) < min_distinct:
            print("INCONCLUSIVE: observed only %d distinct states (need %d)" % (len(self.distinct), min_distinct), file=sys.stderr)
            sys.exit(2)
        print("OK property=%s tier=%s evaluations=%d distinct=%d wall=%.1fs" % (self.prop, self.tier, self.eval, len(self.distinct), time.time() - self.t0))
        sys.exit(0)


def load_known(prop):
    r = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", l.strip())
            if m and m.group(1) == prop:
                r.append({"key": m.group(2), "text": m.group(3)})
    return r


def main(fn, prop, level, technique):
    c = Check(prop, level, technique)
    try:
        fn(c)
    except HarnessError as e:
        print("HARNESS-ERROR property=%s: %s" % (prop, e), file=sys.stderr)
        shutil.rmtree(c.scratch, ignore_errors=True)
        sys.exit(3)
