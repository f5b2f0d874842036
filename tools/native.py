"""Native execution of /repo's real code: used to replay a failed obligation on concrete inputs (search for a failing
input) and as the bounded stand-in where the verifier gives no answer.  A script of public operations is run on the
compiled class and, in parallel, on a value-level model: message bytes + parameters -> irv oracle (the specification)."""
import os, random, subprocess, sys, json, hashlib

REPO = os.environ.get("IRV_REPO", "/repo")
VERIF = os.environ.get("IRV_VERIF", os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
IRV = os.path.join(VERIF, "irv/target/release/irv")

# class -> (header, C++ type, kind, has toArray, digest length, block size)
def _t():
    d = {}
    def a(n, h, dl, b, ty=None, kind="plain", arr=True):
        d[n] = dict(name=n, header=h, ty=ty or "Chocobo1::" + n, kind=kind, arr=arr, dlen=dl, block=b)
    a("SHA1", "sha1.h", 20, 64); a("SHA2_224", "sha2_224.h", 28, 64); a("SHA2_256", "sha2_256.h", 32, 64)
    a("SHA2_384", "sha2_384.h", 48, 128); a("SHA2_512", "sha2_512.h", 64, 128)
    a("SHA2_512_224", "sha2_512_224.h", 28, 128); a("SHA2_512_256", "sha2_512_256.h", 32, 128)
    a("MD2", "md2.h", 16, 16); a("MD4", "md4.h", 16, 64); a("MD5", "md5.h", 16, 64)
    a("RIPEMD_128", "ripemd_128.h", 16, 64); a("RIPEMD_160", "ripemd_160.h", 20, 64)
    a("RIPEMD_256", "ripemd_256.h", 32, 64); a("RIPEMD_320", "ripemd_320.h", 40, 64)
    a("HAS_160", "has_160.h", 20, 64); a("SM3", "sm3.h", 32, 64); a("Whirlpool", "whirlpool.h", 64, 64)
    for v in (1, 2):
        for l in (128, 160, 192):
            a("Tiger%d_%d" % (v, l), "tiger.h", l // 8, 64)
    a("Blake1_224", "blake1_224.h", 28, 64); a("Blake1_256", "blake1_256.h", 32, 64)
    a("Blake1_384", "blake1_384.h", 48, 128); a("Blake1_512", "blake1_512.h", 64, 128)
    a("Blake2", "blake2.h", 64, 128); a("Blake2s", "blake2s.h", 32, 64)
    a("CRC_32", "crc_32.h", 4, 16)
    for w in (32, 64):
        for s in ("0", "1", "1a"):
            a("FNV%d_%s" % (w, s), "fnv.h", w // 8, 16)
    a("SipHash", "siphash.h", 8, 8, kind="key")
    a("SipHash_4_8", "siphash.h", 8, 8, "Chocobo1::Hash::SIPHASH_NS::SipHash<4, 8>", "key")
    a("SipHash_1_3", "siphash.h", 8, 8, "Chocobo1::Hash::SIPHASH_NS::SipHash<1, 3>", "key")
    for n, r in ((224, 144), (256, 136), (384, 104), (512, 72)):
        a("SHA3_%d" % n, "sha3.h", n // 8, r, arr=False)
    for n, r in ((128, 168), (256, 136)):
        a("SHAKE_%d" % n, "sha3.h", None, r, kind="xof", arr=False)
        a("CSHAKE_%d" % n, "cshake.h", None, r, kind="cshake", arr=False)
        a("TupleHash_%d" % n, "tuple_hash.h", None, r, kind="tuple", arr=False)
    return d
CLASSES = _t()

SRC = r'''
#include <algorithm>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <iostream>
#include <map>
#include <memory>
#include <new>
#include <string>
#include <type_traits>
#include <utility>
#include <vector>
#include "@HDR@"
using C = @TY@;
using Byte = C::Byte;
static std::map<int, C*> slot;
static std::vector<unsigned char> unhex(const std::string &s) {
  std::vector<unsigned char> v; if (s == "-") return v;
  for (size_t i = 0; i + 1 < s.size(); i += 2) v.push_back((unsigned char)std::stoi(s.substr(i, 2), nullptr, 16));
  return v; }
static void phex(const unsigned char *p, size_t n) { if (!n) std::printf("-"); for (size_t i = 0; i < n; ++i) std::printf("%02x", p[i]); std::printf("\n"); }
static std::string str(const std::vector<unsigned char> &v) { return std::string(v.begin(), v.end()); }
#if @TUPLE@
#define ADD nextData
#else
#define ADD addData
#endif
// exact-size heap copy so that the sanitizer sees any access outside the argument
template <class T> struct Buf { T *p; size_t n; void *raw;
  Buf(const std::vector<unsigned char> &v) { n = v.size() / sizeof(T); raw = std::malloc(v.size() ? v.size() : 1); p = (T*)raw; if (v.size()) std::memcpy(raw, v.data(), v.size()); }
  ~Buf() { std::free(raw); } };
template <class T, class U> void span(C &c, const std::vector<unsigned char> &v) { Buf<U> b(v); C &r = static_cast<C&>(c.ADD(C::Span<T>(b.p, b.n))); if (&r != &c) std::printf("notself "); if (v.size() && std::memcmp(b.raw, v.data(), v.size())) std::printf("inputchanged "); }
template <class T, size_t N> void arr(C &c, const std::vector<unsigned char> &v) { Buf<T> b(v); typedef const T A[N]; c.ADD(*(A*)b.raw); }
template <class T, bool> struct Asg { static bool cp(T *, const T *) { return false; } static bool mv(T *, T *) { return false; } };
template <class T> struct Asg<T, true> { static bool cp(T *a, const T *b) { *a = *b; return true; } static bool mv(T *a, T *b) { *a = std::move(*b); return true; } };
int main() {
  std::string line;
  while (std::getline(std::cin, line)) {
    std::vector<std::string> f; { size_t i = 0; while (i < line.size()) { size_t j = line.find(' ', i); if (j == std::string::npos) j = line.size(); f.push_back(line.substr(i, j - i)); i = j + 1; } }
    if (f.empty()) continue;
    char op = f[0][0];
    int s = f.size() > 1 ? std::atoi(f[1].c_str()) : 0, t = f.size() > 2 ? std::atoi(f[2].c_str()) : 0;
    switch (op) {
    case 'X': for (auto &x : slot) delete x.second; slot.clear(); std::printf("ok\n"); break;
    case 'N': { delete slot[s];
      @NEW@
      std::printf("ok\n"); break; }
    case 'A': { auto v = unhex(f[3]); C &c = *slot[s]; const std::string &k = f[2];
      if (k == "p") { Buf<unsigned char> b(v); c.ADD(static_cast<const void*>(b.p), b.n); }
      else if (k == "P") { c.ADD(static_cast<const void*>(nullptr), 0); }
      else if (k == "s") span<const Byte, Byte>(c, v);
      else if (k == "m") span<Byte, Byte>(c, v);
      else if (k == "h") span<const uint16_t, uint16_t>(c, v);
      else if (k == "w") span<const uint32_t, uint32_t>(c, v);
      else if (k == "q") span<const uint64_t, uint64_t>(c, v);
      else if (k == "Q") span<uint64_t, uint64_t>(c, v);
      else if (k == "i") span<int32_t, int32_t>(c, v);
      else if (k == "c") span<const char, char>(c, v);
      else if (k == "a1") arr<Byte, 1>(c, v);
      else if (k == "a5") arr<Byte, 5>(c, v);
      else if (k == "a300") arr<Byte, 300>(c, v);
      else if (k == "w3") arr<uint16_t, 3>(c, v);
      else if (k == "d7") arr<uint32_t, 7>(c, v);
      else if (k == "q33") arr<uint64_t, 33>(c, v);
      else if (k == "c4") arr<char, 4>(c, v);
      else if (k == "aL") arr<Byte, 70001>(c, v);
      else if (k == "dL") arr<uint32_t, 20001>(c, v);
      std::printf("ok\n"); break; }
    case 'G': { // add: pattern byte, count (possibly huge), in pieces
      size_t n = std::strtoull(f[2].c_str(), nullptr, 10), piece = std::strtoull(f[3].c_str(), nullptr, 10);
      std::vector<unsigned char> v(piece); for (size_t i = 0; i < piece; ++i) v[i] = (unsigned char)(i * 7 + 1);
      while (n) { size_t k = std::min(n, piece); slot[s]->ADD(static_cast<const void*>(v.data()), k); n -= k; }
      std::printf("ok\n"); break; }
    case 'F': { C *c = slot[s]; bool self = (void*)&c->finalize() == (void*)c; std::printf(self ? "ok\n" : "notself\n"); break; }
    case 'R': slot[s]->reset(); std::printf("ok\n"); break;
    case 'C': { C *n = new C(*slot[s]); delete slot[t]; slot[t] = n; std::printf("ok\n"); break; }
    case 'M': { C *n = new C(std::move(*slot[s])); delete slot[t]; slot[t] = n; std::printf("ok\n"); break; }
    case '=': { bool a = Asg<C, std::is_copy_assignable<C>::value>::cp(slot[t], slot[s]); std::printf(a ? "ok\n" : "no\n"); break; }
    case '<': { bool a = Asg<C, std::is_move_assignable<C>::value>::mv(slot[t], slot[s]); std::printf(a ? "ok\n" : "no\n"); break; }
    case 'D': delete slot[s]; slot.erase(s); std::printf("ok\n"); break;
    case 'V': { auto v = static_cast<const C*>(slot[s])->toVector(); phex(v.data(), v.size()); break; }
    case 'T': { std::string v = static_cast<const C*>(slot[s])->toString(); std::printf("%s\n", v.empty() ? "-" : v.c_str()); break; }
    case 'Y': {
#if @ARR@
      const auto v = static_cast<const C*>(slot[s])->toArray(); phex(v.data(), v.size());
#else
      std::printf("no\n");
#endif
      break; }
    case 'O': { const C &c = *slot[s]; std::printf("%llx %llx %llx %llx %llx\n", (unsigned long long)(unsigned char)c, (unsigned long long)(unsigned short)c, (unsigned long long)(unsigned int)c, (unsigned long long)static_cast<unsigned long long>(c), (unsigned long long)std::hash<C>()(c)); break; }
    case 'E': { const C &a = *slot[s], &b = *slot[t]; std::printf("%d %d\n", (int)(a == b), (int)(a != b)); break; }
    }
    std::fflush(stdout);
  }
  for (auto &x : slot) delete x.second;
}
'''

def source(cl):
    k = cl["kind"]
    new = {
        "plain": "slot[s] = new C();",
        "key": "auto kv = unhex(f[2]); Buf<unsigned char> kb(kv); slot[s] = new C(C::Span<const Byte>(kb.p, kb.n));",
        "xof": "slot[s] = new C(std::atoi(f[2].c_str()));",
        "cshake": "slot[s] = new C(std::atoi(f[2].c_str()), str(unhex(f[3])), str(unhex(f[4])));",
        "tuple": "slot[s] = new C(std::atoi(f[2].c_str()), str(unhex(f[3])));",
    }[k]
    return (SRC.replace("@HDR@", cl["header"]).replace("@TY@", cl["ty"]).replace("@NEW@", new)
            .replace("@ARR@", "1" if cl["arr"] else "0").replace("@TUPLE@", "1" if k == "tuple" else "0"))

def build(cl, tmp, std="c++14", flags=("-O1", "-D_GLIBCXX_ASSERTIONS", "-fsanitize=address,undefined", "-fno-sanitize-recover=all"), tag=""):
    base = os.path.join(tmp, "nat_%s_%s%s" % (cl["name"], std.replace("+", "x"), tag))
    with open(base + ".cpp", "w") as f:
        f.write(source(cl))
    r = subprocess.run(["g++", "-std=" + std, "-w", *flags, "-I" + REPO + "/src", base + ".cpp", "-o", base], capture_output=True, text=True)
    if r.returncode:
        return None, r.stderr[-2000:]
    return base, ""

class Oracle:
    def __init__(self):
        self.p = subprocess.Popen([IRV, "oracle"], stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True)
        self.memo = {}
    def get(self, name, key, msg):
        k = (name, key, msg)
        if k not in self.memo:
            self.p.stdin.write("%s %s %s\n" % (name, key.hex() or "-", msg.hex() or "-"))
            self.p.stdin.flush()
            r = self.p.stdout.readline().strip()
            if r == "?" or not r and self.p.poll() is not None:
                raise RuntimeError("oracle has no " + name)
            self.memo[k] = b"" if r == "-" else bytes.fromhex(r)
            if len(self.memo) > 20000:
                self.memo.clear()
        return self.memo.get(k) if k in self.memo else self.get(name, key, msg)
    def close(self):
        self.p.stdin.close(); self.p.wait()

def lenc(v):
    b = v.to_bytes((v.bit_length() + 7) // 8 or 1, "big")
    return bytes([len(b)]) + b
def renc(v):
    b = v.to_bytes((v.bit_length() + 7) // 8 or 1, "big")
    return b + bytes([len(b)])

# ---- SP 800-185 on top of the oracle's Keccak sponge is computed here with a small Keccak (digests of strings)
RC = []
def _rc():
    r = 1
    for i in range(24):
        v = 0
        for j in range(7):
            if r & 1:
                v |= 1 << ((1 << j) - 1)
            r = (r << 1) ^ (0x171 if r & 0x80 else 0)
        RC.append(v)
_rc()
M64 = (1 << 64) - 1
def keccakf(A):
    rot = lambda x, n: ((x << n) | (x >> (64 - n))) & M64 if n else x
    for rc in RC:
        Cc = [A[x] ^ A[x + 5] ^ A[x + 10] ^ A[x + 15] ^ A[x + 20] for x in range(5)]
        D = [Cc[(x - 1) % 5] ^ rot(Cc[(x + 1) % 5], 1) for x in range(5)]
        A = [A[i] ^ D[i % 5] for i in range(25)]
        x, y, cur = 1, 0, A[1]
        B = list(A)
        for t in range(24):
            x, y = y, (2 * x + 3 * y) % 5
            cur, B[x + 5 * y] = B[x + 5 * y], rot(cur, ((t + 1) * (t + 2) // 2) % 64)
        A = [B[i] ^ (~B[i // 5 * 5 + (i + 1) % 5] & M64 & B[i // 5 * 5 + (i + 2) % 5]) for i in range(25)]
        A[0] ^= rc
    return A
def sponge(rate, suffix, msg, out):
    p = bytearray(msg) + bytes([suffix])
    p += bytes(-len(p) % rate)
    p[-1] ^= 0x80
    A = [0] * 25
    for i in range(0, len(p), rate):
        for j in range(rate // 8):
            A[j] ^= int.from_bytes(p[i + 8 * j:i + 8 * j + 8], "little")
        A = keccakf(A)
    o = b""
    while len(o) < out:
        o += b"".join(x.to_bytes(8, "little") for x in A[:rate // 8])
        if len(o) < out:
            A = keccakf(A)
    return o[:out]
def cshake(bits, msg, out, name, cust):
    rate = 168 if bits == 128 else 136
    if not name and not cust:
        return sponge(rate, 0x1f, msg, out)
    pre = lenc(rate) + lenc(8 * len(name)) + name + lenc(8 * len(cust)) + cust
    pre += bytes(-len(pre) % rate)
    return sponge(rate, 0x04, pre + msg, out)

class Model:
    """value-level meaning of a script"""
    def __init__(self, cl, orc):
        self.cl, self.orc, self.s = cl, orc, {}
        self.memo = {}
    def digest(self, o):
        k = (o["par"], bytes(o["msg"]))
        if k in self.memo:
            return self.memo[k]
        n, kind = self.cl["name"], self.cl["kind"]
        if kind == "plain":
            d = self.orc.get(n, b"", k[1])
        elif kind == "key":
            d = self.orc.get(n, o["par"][0], k[1])
        else:
            bits = int(n.split("_")[1])
            if kind == "xof":
                d = sponge(self.cl["block"], 0x1f, k[1], o["par"][0])
            elif kind == "cshake":
                d = cshake(bits, k[1], *o["par"])
            else:
                d = cshake(bits, k[1] + renc(8 * o["par"][0]), o["par"][0], b"TupleHash", o["par"][1])
        if len(self.memo) > 20000:
            self.memo.clear()
        self.memo[k] = d
        return d
    def run(self, line):
        f = line.split(" ")
        s = int(f[1]) if len(f) > 1 else 0
        S = self.s
        un = lambda h: b"" if h == "-" else bytes.fromhex(h)
        op = f[0]
        if op == "X":
            S.clear(); return "ok"
        if op == "N":
            k = self.cl["kind"]
            par = {"plain": lambda: (), "key": lambda: (un(f[2]),), "xof": lambda: (int(f[2]),), "cshake": lambda: (int(f[2]), un(f[3]), un(f[4])), "tuple": lambda: (int(f[2]), un(f[3]))}[k]()
            S[s] = dict(par=par, msg=b"", fin=False); return "ok"
        if op == "A":
            d = un(f[3])
            S[s]["msg"] += (lenc(8 * len(d)) + d) if self.cl["kind"] == "tuple" else d
            return "ok"
        if op == "G":
            n, p = int(f[2]), int(f[3])
            pat = bytes((i * 7 + 1) & 255 for i in range(p))
            o = S[s]
            full, rest = divmod(n, p)
            e = (lambda x: lenc(8 * len(x)) + x) if self.cl["kind"] == "tuple" else (lambda x: x)
            o["msg"] += e(pat) * full + (e(pat[:rest]) if rest else b"")
            return "ok"
        if op == "F":
            S[s]["fin"] = True; return "ok"
        if op == "R":
            S[s].update(msg=b"", fin=False); return "ok"
        if op in "CM=<":
            S[int(f[2])] = dict(S[s])
            if op in "M<" and s != int(f[2]):
                del S[s]
            return "ok"
        if op == "D":
            S.pop(s, None); return "ok"
        d = self.digest(S[s])
        if op in "VY":
            return d.hex() or "-"
        if op == "T":
            return d.hex() or "-"
        if op == "O":
            return " ".join("%x" % int.from_bytes(d[:w], "big") for w in (1, 2, 4, 8, 8))
        if op == "E":
            t = S[int(f[2])]
            # equal histories must compare equal; unequal digests must not
            if self.digest(t) != d:
                return "0 1"
            if t["par"] == S[s]["par"] and t["msg"] == S[s]["msg"]:
                return "1 0"
            return None if self.cl["kind"] != "plain" else "1 0"
        raise ValueError(line)

def run_script(exe, lines, timeout=120):
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=1:abort_on_error=0", UBSAN_OPTIONS="print_stacktrace=0")
    try:
        r = subprocess.run([exe], input="\n".join(lines) + "\n", capture_output=True, text=True, timeout=timeout, env=env)
    except subprocess.TimeoutExpired:
        return [], "timeout", -1
    return r.stdout.split("\n")[:-1], r.stderr, r.returncode

def first_mismatch(cl, orc, exe, lines, timeout=120):
    """index of the first line whose real answer differs from the model's, with an explanation; None if all agree"""
    out, err, rc = run_script(exe, lines, timeout)
    m = Model(cl, orc)
    for i, l in enumerate(lines):
        want = m.run(l)
        if i >= len(out):
            e = " ".join(x.strip() for x in err.split("\n") if "ERROR" in x or "runtime error" in x or "Assert" in x or "terminate" in x or "what()" in x)
            return i, "no answer (exit %s): %s" % (rc, e[:300] or err[-300:])
        if out[i] == "no" or want is None:
            continue
        if out[i] != want:
            return i, "got %s, specified %s" % (out[i][:200], want[:200])
    if rc:
        return len(lines) - 1, "abnormal end (exit %s): %s" % (rc, err[-300:])
    return None

OVER = ["p", "s", "m", "h", "w", "q", "Q", "i", "c"]
UNIT = dict(p=1, s=1, m=1, h=2, w=4, q=8, Q=8, i=4, c=1)
ARRS = dict(a1=1, a5=5, a300=300, w3=6, d7=28, q33=264, c4=4)

def new_line(rng, cl, s, par=None):
    k = cl["kind"]
    if par is None:
        par = params(rng, cl)
    return "N %d%s" % (s, "".join(" " + x for x in par))
def hx(b):
    return b.hex() or "-"
def params(rng, cl):
    k = cl["kind"]
    if k == "plain":
        return []
    if k == "key":
        return [rbytes(rng, 16).hex()]
    d = rng.choice([0, 1, 2, 7, 16, 31, 32, 33, 64, 100, cl["block"] - 1, cl["block"], cl["block"] + 1, 2 * cl["block"], 2 * cl["block"] + 5, 500])
    if k == "xof":
        return [str(d)]
    st = lambda: rng.choice([b"", b"", b"a", b"Email Signature", rbytes(rng, rng.choice([3, 31, 32, 33, 40, 150, 170, 300]))])
    if k == "cshake":
        return [str(d), hx(st()), hx(st())]
    return [str(d), hx(st())]
def rbytes(rng, n):
    m = rng.random()
    if m < 0.15:
        return bytes([rng.randrange(256)]) * n
    if m < 0.22:
        return b"\xff" * n
    if m < 0.29:
        return b"\0" * n
    return rng.randbytes(n)
def lengths(rng, b):
    m = rng.random()
    if m < 0.35:
        return rng.randrange(0, 2 * b + 2)
    if m < 0.7:
        return max(0, rng.choice([0, b, 2 * b, 3 * b, b // 2, b - 8, b - 16, b - 9, b - 17]) + rng.randrange(-2, 3))
    if m < 0.9:
        return rng.randrange(0, 6 * b)
    return rng.choice([255, 256, 257, 511, 512, 1000, 1024, 2000, 4096])

def scripts(cl, cats, seed, count):
    """bounded families of scripts aimed at the given obligation categories"""
    rng = random.Random("%s/%s/%d" % (cl["name"], ",".join(sorted(cats)), seed))
    b = cl["block"]
    has = lambda *c: bool(set(c) & set(cats))
    out = []
    reads = ["V %d", "T %d"] + (["Y %d"] if cl["arr"] else [])
    tup = cl["kind"] == "tuple"
    if has("fun"):
        # every length up to a few blocks in one call, plus random contents
        for n in list(range(0, 3 * b + 3)) + [5 * b, 8 * b + 1, 1000, 1024, 3000]:
            out.append([new_line(rng, cl, 0), "A 0 p " + hx(rbytes(rng, n)), "F 0", "V 0"] + (["Y 0"] if cl["arr"] else []))
        for _ in range(count):
            n = lengths(rng, b)
            out.append([new_line(rng, cl, 0), "A 0 p " + hx(rbytes(rng, n)), "F 0", "V 0"])
        if cl["kind"] in ("xof", "cshake", "tuple"):
            # every output length up to a few squeezes, and lengths whose size or bit length crosses a power of 256
            for d in list(range(0, 2 * b + 3)) + [3 * b - 1, 3 * b, 3 * b + 1, 4 * b, 8 * b, 4095, 8191, 8192, 8193, 32767, 32768, 65535, 65536, 70001]:
                par = params(rng, cl)
                out.append([new_line(rng, cl, 0, [str(d)] + par[1:]), "A 0 p " + hx(rbytes(rng, d % 7)), "F 0", "V 0", "T 0"])
    if has("step"):
        for i in range(0, b + 1, 1 if b <= 16 else 3):
            for j in (0, 1, b - 1, b, b + 1):
                out.append([new_line(rng, cl, 0), "A 0 p " + hx(rbytes(rng, i)), "A 0 p " + hx(rbytes(rng, j)), "A 0 p " + hx(rbytes(rng, (i * 5 + j) % b)), "F 0", "V 0"])
        for _ in range(count):
            l = [new_line(rng, cl, 0)]
            for _ in range(rng.randrange(1, 9)):
                l.append("A 0 p " + hx(rbytes(rng, lengths(rng, b))) if rng.random() < 0.93 else "A 0 P -")
            out.append(l + ["F 0", "V 0"])
    if has("fun", "step"):
        # counters of 16 bits: one long call, pieces of odd size, pieces of whole blocks
        for n, piece in ((33000, 33000), (66003, 4096), (70001, 641)):
            out.append([new_line(rng, cl, 0), "G 0 %d %d" % (n, piece), "F 0", "V 0"])
    if has("overload"):
        for _ in range(count):
            l = [new_line(rng, cl, 0)]
            for _ in range(rng.randrange(1, 6)):
                if rng.random() < 0.3:
                    k = rng.choice(sorted(ARRS))
                    l.append("A 0 %s %s" % (k, hx(rbytes(rng, ARRS[k]))))
                else:
                    k = rng.choice(OVER)
                    l.append("A 0 %s %s" % (k, hx(rbytes(rng, lengths(rng, b) // UNIT[k] * UNIT[k]))))
            out.append(l + ["F 0", "V 0"])
        for k, n in (("aL", 70001), ("dL", 80004)):
            out.append([new_line(rng, cl, 0), "A 0 %s %s" % (k, hx(rbytes(rng, n))), "F 0", "V 0"])
    if has("acc"):
        for _ in range(count // 2):
            l = [new_line(rng, cl, 0), "A 0 p " + hx(rbytes(rng, lengths(rng, b))), "F 0"]
            for _ in range(6):
                l.append(rng.choice(reads + ["O %d"]) % 0)
            out.append(l)
    if has("life", "eq"):
        for _ in range(count):
            ns = 3
            par = params(rng, cl)
            l = []
            st = {}
            for s in range(ns):
                l.append(new_line(rng, cl, s, par if rng.random() < 0.6 else None)); st[s] = "open"
            msgs = [rbytes(rng, lengths(rng, b)) for _ in range(3)]
            for _ in range(rng.randrange(4, 22)):
                s, t = rng.randrange(ns), rng.randrange(ns)
                if st.get(s) is None:
                    l.append(new_line(rng, cl, s, par)); st[s] = "open"; continue
                r = rng.random()
                if r < 0.35 and st[s] == "open":
                    l.append("A %d p %s" % (s, hx(rng.choice(msgs))))
                elif r < 0.5 and st[s] == "open":
                    l.append("F %d" % s); st[s] = "fin"
                elif r < 0.62:
                    l.append("R %d" % s); st[s] = "open"
                elif r < 0.7:
                    l.append("C %d %d" % (s, t)) if s != t else None; st[t] = st[s]
                elif r < 0.76 and st.get(t) and cl.get("assign"):
                    l.append("= %d %d" % (s, t)); st[t] = st[s]
                elif r < 0.8 and s != t:
                    l.append("M %d %d" % (s, t)); st[t] = st[s]; st[s] = None; l.append("D %d" % s)
                elif r < 0.83 and s != t and st.get(t) and cl.get("assign"):
                    l.append("< %d %d" % (s, t)); st[t] = st[s]; st[s] = None; l.append("D %d" % s)
                elif st[s] == "fin" and st.get(t) == "fin" and r < 0.93:
                    l.append("E %d %d" % (s, t))
                elif st[s] == "fin":
                    l.append(rng.choice(reads + ["O %d"]) % s)
            for s in range(ns):
                if st.get(s) == "open":
                    l.append("F %d" % s); st[s] = "fin"
                if st.get(s):
                    l += ["V %d" % s, "T %d" % s, "O %d" % s]
            for s in range(ns):
                for t in range(ns):
                    if st.get(s) and st.get(t):
                        l.append("E %d %d" % (s, t))
            out.append([x for x in l if x])
    if has("long"):
        # long totals, reachable natively: 2^29 bytes and beyond (bit counters of 32 bits)
        pass
    return out

def valid(script):
    st = {}
    for l in script:
        f = l.split(" ")
        op, s = f[0], int(f[1]) if len(f) > 1 else 0
        if op == "X":
            st = {}
        elif op == "N":
            st[s] = "open"
        elif op == "D":
            st.pop(s, None)
        elif s not in st or st[s] == "moved":
            return False
        elif op in "AGF":
            if st[s] != "open":
                return False
            if op == "F":
                st[s] = "fin"
        elif op == "R":
            st[s] = "open"
        elif op in "CM=<":
            t = int(f[2])
            if op in "=<" and t not in st:
                return False
            st[t] = st[s]
            if op in "M<" and s != t:
                st[s] = "moved"
        elif op in "VTYO":
            if st[s] != "fin":
                return False
        elif op == "E":
            if st[s] != "fin" or st.get(int(f[2])) != "fin":
                return False
    return True

def minimise(cl, orc, exe, script):
    """drop lines while the mismatch persists"""
    cur = list(script)
    r = first_mismatch(cl, orc, exe, cur)
    if r is None:
        return cur, None
    cur = cur[: r[0] + 1]
    changed = True
    budget = 40
    while changed and budget > 0:
        changed = False
        for i in range(len(cur) - 1):
            if cur[i][0] in "NX":
                continue
            c2 = cur[:i] + cur[i + 1:]
            if not valid(c2):
                continue
            budget -= 1
            try:
                r2 = first_mismatch(cl, orc, exe, c2)
            except Exception:
                r2 = None
            if r2 is not None and r2[0] == len(c2) - 1:
                cur, r, changed = c2, r2, True
                break
            if budget <= 0:
                break
    return cur, r

def search(cls, cats, seed, count, tmp, std="c++14", flags=None):
    """-> (number of scripts executed, None | dict describing a failing script)"""
    cl = CLASSES[cls]
    kw = {} if flags is None else dict(flags=tuple(flags))
    exe, err = build(cl, tmp, std, **kw)
    if exe is None:
        return 0, dict(cls=cls, error="does not compile: " + err)
    orc = Oracle()
    try:
        rng = random.Random(1)
        o, _, _ = run_script(exe, [new_line(rng, cl, 0), new_line(rng, cl, 1), "= 0 1"])
        cl = dict(cl, assign=(o[-1:] == ["ok"]))
        sc = scripts(cl, cats, seed, count)
        # run in batches: one process per batch, X between scripts
        for i in range(0, len(sc), 200):
            batch = sc[i:i + 200]
            lines, starts = [], []
            for s in batch:
                starts.append(len(lines)); lines += s + ["X"]
            r = first_mismatch(cl, orc, exe, lines)
            if r is not None:
                k = max(j for j, st in enumerate(starts) if st <= r[0])
                script, r1 = minimise(cl, orc, exe, batch[k])
                if r1 is None:
                    # only visible in sequence: keep the whole prefix
                    script, r1 = lines[: r[0] + 1], r
                return i + k + 1, dict(cls=cls, std=std, script=script, line=script[min(r1[0], len(script) - 1)], what=r1[1])
        return len(sc), None
    finally:
        orc.close()
        for e in ("", ".cpp"):
            try: os.remove(exe + e)
            except OSError: pass

def replay(path):
    d = json.load(open(path))
    import tempfile
    tmp = tempfile.mkdtemp(prefix="irvreplay")
    cl = CLASSES[d["cls"]]
    exe, err = build(cl, tmp, d.get("std", "c++14"))
    if exe is None:
        print(err); return 1
    orc = Oracle()
    r = first_mismatch(cl, orc, exe, d["script"])
    orc.close()
    subprocess.run(["rm", "-rf", tmp])
    for i, l in enumerate(d["script"]):
        print(" ", l[:160])
    print("-> agrees with the specification" if r is None else "-> line %d: %s" % r)
    return 0 if r is None else 1

if __name__ == "__main__":
    if sys.argv[1] == "replay":
        sys.exit(replay(sys.argv[2]))
    import tempfile
    tmp = tempfile.mkdtemp(prefix="irvnat")
    n, f = search(sys.argv[1], sys.argv[2].split(","), int(os.environ.get("VERIF_SEED", "1")), int(sys.argv[3]) if len(sys.argv) > 3 else 100, tmp)
    print(n, f)
    subprocess.run(["rm", "-rf", tmp])
