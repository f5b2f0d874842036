//! Driver generation and extraction: wraps every public operation of a class in an extern "C" function,
//! compiles it together with /repo's headers and hands the LLVM IR to the verifier.
use crate::ir::{self, Module};
use std::process::Command;

#[derive(Clone, Debug)]
pub struct Class {
    pub id: &'static str,
    pub header: &'static str,
    pub ty: &'static str,
    pub spec: &'static str,
    pub key: usize,
    pub arr: bool, // has toArray()
    pub pre: &'static str, // declarations of the driver's own wrapper type
    pub unit: usize, // extra granularity of bulk processing for byte-wise algorithms
}
macro_rules! cl {
    ($id:expr, $h:expr) => {
        Class { id: $id, header: $h, ty: concat!("Chocobo1::", $id), spec: $id, key: 0, arr: true, unit: 1, pre: "" }
    };
}
pub fn classes() -> Vec<Class> {
    let mut v = vec![
        cl!("SHA1", "sha1.h"),
        cl!("SHA2_224", "sha2_224.h"),
        cl!("SHA2_256", "sha2_256.h"),
        cl!("SHA2_384", "sha2_384.h"),
        cl!("SHA2_512", "sha2_512.h"),
        cl!("SHA2_512_224", "sha2_512_224.h"),
        cl!("SHA2_512_256", "sha2_512_256.h"),
        cl!("MD2", "md2.h"),
        cl!("MD4", "md4.h"),
        cl!("MD5", "md5.h"),
        cl!("RIPEMD_128", "ripemd_128.h"),
        cl!("RIPEMD_160", "ripemd_160.h"),
        cl!("RIPEMD_256", "ripemd_256.h"),
        cl!("RIPEMD_320", "ripemd_320.h"),
        cl!("HAS_160", "has_160.h"),
        cl!("SM3", "sm3.h"),
        cl!("Tiger1_128", "tiger.h"),
        cl!("Tiger1_160", "tiger.h"),
        cl!("Tiger1_192", "tiger.h"),
        cl!("Tiger2_128", "tiger.h"),
        cl!("Tiger2_160", "tiger.h"),
        cl!("Tiger2_192", "tiger.h"),
        cl!("Whirlpool", "whirlpool.h"),
        cl!("Blake1_224", "blake1_224.h"),
        cl!("Blake1_256", "blake1_256.h"),
        cl!("Blake1_384", "blake1_384.h"),
        cl!("Blake1_512", "blake1_512.h"),
        cl!("Blake2", "blake2.h"),
        cl!("Blake2s", "blake2s.h"),
        Class { unit: 16, ..cl!("CRC_32", "crc_32.h") },
        cl!("FNV32_0", "fnv.h"),
        cl!("FNV32_1", "fnv.h"),
        cl!("FNV32_1a", "fnv.h"),
        cl!("FNV64_0", "fnv.h"),
        cl!("FNV64_1", "fnv.h"),
        cl!("FNV64_1a", "fnv.h"),
        Class { key: 16, ..cl!("SipHash", "siphash.h") },
        Class { key: 16, ty: "Chocobo1::Hash::SIPHASH_NS::SipHash<4, 8>", ..cl!("SipHash_4_8", "siphash.h") },
        Class { key: 16, ty: "Chocobo1::Hash::SIPHASH_NS::SipHash<1, 3>", ..cl!("SipHash_1_3", "siphash.h") },
    ];
    for id in ["SHA3_224", "SHA3_256", "SHA3_384", "SHA3_512"] {
        let ty: &'static str = Box::leak(format!("Chocobo1::{}", id).into_boxed_str());
        v.push(Class { id, header: "sha3.h", ty, spec: id, key: 0, arr: false, unit: 1, pre: "" });
    }
    v
}
pub fn class(id: &str) -> Option<Class> {
    if let Some(c) = classes().into_iter().find(|c| c.id == id) {
        return Some(c);
    }
    // CSHAKE_128:d:N:S
    let f: Vec<&str> = id.split(':').collect();
    if f.len() == 4 && (f[0] == "CSHAKE_128" || f[0] == "CSHAKE_256") {
        let mut key = 0;
        let mut lit = |s: &str| -> String {
            match crate::spec::param(s) {
                Ok(b) => format!("std::string(\"{}\", {})", b.iter().map(|x| format!("\\{:03o}", x)).collect::<String>(), b.len()),
                Err(k) => {
                    key += k;
                    format!("std::string(reinterpret_cast<const char *>(k) + {}, {})", key - k, k)
                }
            }
        };
        let (n, s) = (lit(f[2]), lit(f[3]));
        let ty: &'static str = Box::leak(format!("CShakeD<Chocobo1::{}>", f[0]).into_boxed_str());
        let pre: &'static str = Box::leak(format!("#include <string>\ntemplate <class B> struct CShakeD : B {{ explicit CShakeD(const unsigned char *k = nullptr) : B({}, {}, {}) {{}} }};\n", f[1], n, s).into_boxed_str());
        let lid: &'static str = Box::leak(id.to_string().into_boxed_str());
        return Some(Class { id: lid, header: "cshake.h", ty, spec: lid, key, arr: false, unit: 1, pre });
    }
    if id == "TupleHash_128" || id == "TupleHash_256" {
        let (lid, ty) = if id.ends_with('8') { ("TupleHash_128", "Chocobo1::TupleHash_128") } else { ("TupleHash_256", "Chocobo1::TupleHash_256") };
        return Some(Class { id: lid, header: "tuple_hash.h", ty, spec: "CRC_32", key: 0, arr: false, unit: 1, pre: "" });
    }
    if id == "CShake_128" || id == "CShake_256" {
        let (lid, ty) = if id.ends_with('8') { ("CShake_128", "Chocobo1::CSHAKE_128") } else { ("CShake_256", "Chocobo1::CSHAKE_256") };
        return Some(Class { id: lid, header: "cshake.h", ty, spec: "CRC_32", key: 0, arr: false, unit: 1, pre: "" });
    }
    if id == "CLI" {
        return Some(Class { id: "CLI", header: "", ty: "", spec: "CRC_32", key: 0, arr: false, unit: 1, pre: "" });
    }
    // SHAKE_128:d
    let (a, d) = id.rsplit_once(':')?;
    if a != "SHAKE_128" && a != "SHAKE_256" {
        return None;
    }
    let lid: &'static str = Box::leak(id.to_string().into_boxed_str());
    let ty: &'static str = Box::leak(format!("ShakeD<Chocobo1::{}, {}>", a, d).into_boxed_str());
    Some(Class { id: lid, header: "sha3.h", ty, spec: lid, key: 0, arr: false, unit: 1, pre: "" })
}

#[derive(Clone, Debug)]
pub struct Config {
    pub name: &'static str,
    pub args: &'static [&'static str],
    pub ptr: u32,
    pub big: bool,
}
const SYS: &[&str] = &[];
pub fn configs() -> Vec<Config> {
    let _ = SYS;
    vec![
        Config { name: "cxx14", args: &["-std=c++14"], ptr: 64, big: false },
        Config { name: "cxx17", args: &["-std=c++17"], ptr: 64, big: false },
        Config { name: "cxx20", args: &["-std=c++20"], ptr: 64, big: false },
        Config { name: "cxx14-ndebug", args: &["-std=c++14", "-DNDEBUG"], ptr: 64, big: false },
        Config { name: "cxx17-ndebug", args: &["-std=c++17", "-DNDEBUG"], ptr: 64, big: false },
        Config { name: "cxx20-ndebug", args: &["-std=c++20", "-DNDEBUG"], ptr: 64, big: false },
        Config { name: "i386", args: &["-std=c++14", "@i386"], ptr: 32, big: false },
        Config { name: "s390x", args: &["-std=c++17", "@s390x"], ptr: 64, big: true },
        Config { name: "powerpc", args: &["-std=c++14", "@powerpc"], ptr: 32, big: true },
    ]
}
pub fn config(n: &str) -> Option<Config> {
    configs().into_iter().find(|c| c.name == n)
}
pub fn repo() -> String {
    std::env::var("IRV_REPO").unwrap_or_else(|_| "/repo".into())
}
pub fn verif() -> String {
    std::env::var("IRV_VERIF").unwrap_or_else(|_| "/verif".into())
}

pub fn driver_src(c: &Class) -> String {
    let mut s = String::new();
    s += "#include <new>\n#include <cstdint>\n#include <cstddef>\n#include <type_traits>\n#include <utility>\n";
    s += &format!("#include \"{}\"\n", c.header);
    s += "template <class B, int D> struct ShakeD : B { ShakeD() : B(D) {} };\n";
    s += c.pre;
    s += &format!("using C = {};\nusing Byte = C::Byte;\n", c.ty);
    s += "template <class T> using SpanT = typename C::template Span<T>;\n";
    s += "extern \"C\" {\nsize_t k_size() { return sizeof(C); }\n";
    let add = if c.id.starts_with("TupleHash") { "nextData" } else { "addData" };
    if add == "nextData" {
        s += "void k_ctor(void *p, int d, const std::string *s) { new (p) C(d, *s); }\nvoid k_ctor1(void *p, int d) { new (p) C(d); }\n";
        s += &format!("size_t k_inner() {{ return sizeof(Chocobo1::{}); }}\n", c.id.replace("TupleHash", "CSHAKE"));
    } else if c.id.starts_with("CShake_") {
        s += "void k_ctor(void *p, int d, const std::string *n, const std::string *s) { new (p) C(d, *n, *s); }\n";
    } else if !c.pre.is_empty() {
        s += "void k_ctor(void *p, const unsigned char *k) { new (p) C(k); }\n";
    } else if c.key > 0 {
        s += "void k_ctor(void *p, const unsigned char *k) { new (p) C(C::Span<const Byte>(k, 16)); }\n";
    } else {
        s += "void k_ctor(void *p) { new (p) C(); }\n";
    }
    s += "void k_dtor(C *c) { c->~C(); }\n";
    s += "void k_reset(C *c) { c->reset(); }\n";
    s += "void *k_fin(C *c) { return &c->finalize(); }\n";
    s += &"void *k_add(C *c, const void *p, size_t n) { return &c->addData(p, n); }\n".replace("addData", add);
    s += &"void *k_add_span(C *c, const Byte *p, size_t n) { return &c->addData(C::Span<const Byte>(p, n)); }\n".replace("addData", add);
    for (n, t) in [("u16", "const uint16_t"), ("u32", "const uint32_t"), ("u64", "const uint64_t"), ("mut8", "Byte"), ("i32", "int32_t"), ("ch", "const char"), ("mut64", "uint64_t")] {
        s += &format!("void *k_span_{n}(C *c, {t} *p, size_t n) {{ return &c->{add}(C::Span<{t}>(p, n)); }}\n", n = n, t = t, add = add);
    }
    for (n, t, k) in [("a1", "Byte", 1), ("a5", "Byte", 5), ("a300", "Byte", 300), ("w3", "uint16_t", 3), ("d7", "uint32_t", 7), ("q33", "uint64_t", 33), ("c4", "char", 4), ("aL", "Byte", 70001), ("dL", "uint32_t", 20001)] {
        s += &format!("void *k_arr_{n}(C *c, const {t} (*p)[{k}]) {{ return &c->{add}(*p); }}\n", n = n, t = t, k = k, add = add);
    }
    s += &"#if __SIZEOF_POINTER__ == 8\nvoid *k_arr_aH(C *c, const Byte (*p)[0x100000003]) { return &c->addData(*p); }\nvoid *k_arr_qH(C *c, const uint64_t (*p)[0x20000001]) { return &c->addData(*p); }\n#endif\n".replace("addData", add);
    if c.arr {
        s += "size_t k_arr(const C *c, unsigned char *o) { const auto a = c->toArray(); for (size_t i = 0; i < a.size(); ++i) o[i] = a[i]; return a.size(); }\n";
    }
    s += "size_t k_vec(const C *c, unsigned char *o) { const auto a = c->toVector(); for (size_t i = 0; i < a.size(); ++i) o[i] = a[i]; return a.size(); }\n";
    s += "size_t k_str(const C *c, char *o) { const auto a = c->toString(); for (size_t i = 0; i < a.size(); ++i) o[i] = a[i]; return a.size(); }\n";
    for (n, t) in [("8", "unsigned char"), ("16", "unsigned short"), ("32", "unsigned int"), ("64", "unsigned long long")] {
        s += &format!("{t} k_op{n}(const C *c) {{ return static_cast<{t}>(*c); }}\n", t = t, n = n);
    }
    s += "size_t k_hash(const C *c) { return std::hash<C>()(*c); }\n".replace("std::hash<C>", if c.id.contains(':') { "std::hash<typename C::BaseType>" } else { "std::hash<C>" }).as_str();
    s += "bool k_eq(const C *a, const C *b) { return *a == *b; }\nbool k_ne(const C *a, const C *b) { return *a != *b; }\n";
    s += "void k_copy(void *p, const C *b) { new (p) C(*b); }\n";
    s += "void k_move(void *p, C *b) { new (p) C(std::move(*b)); }\n";
    s += "} // extern C\n";
    s += "template <class T, bool> struct Asg { static void cp(T *, const T *) {} static void mv(T *, T *) {} };\n";
    s += "template <class T> struct Asg<T, true> { static void cp(T *a, const T *b) { *a = *b; } static void mv(T *a, T *b) { *a = std::move(*b); } };\n";
    s += "extern \"C\" bool k_assignable() { return std::is_copy_assignable<C>::value; }\n";
    s += "extern \"C\" void k_assign(C *a, const C *b) { Asg<C, std::is_copy_assignable<C>::value>::cp(a, b); }\n";
    s += "extern \"C\" void k_massign(C *a, C *b) { Asg<C, std::is_copy_assignable<C>::value>::mv(a, b); }\n";
    s
}

fn cross(args: &[&str]) -> Vec<String> {
    let mut v = vec![];
    let inc = |t: &str, extra: &str| -> Vec<String> {
        let sys = format!("{}/sysroot", verif());
        let mut v: Vec<String> = ["-target", t, "-nostdinc++"].iter().map(|s| s.to_string()).collect();
        for d in [sys.as_str(), "/usr/include/c++/13", "/usr/include/x86_64-linux-gnu/c++/13", "/usr/include/c++/13/backward", "/usr/include/x86_64-linux-gnu"] {
            v.push("-isystem".into());
            v.push(d.into());
        }
        for e in extra.split_whitespace() {
            v.push(e.into());
        }
        v
    };
    for a in args {
        match *a {
            "@i386" => v.extend(inc("i386-linux-gnu", "")),
            "@s390x" => v.extend(inc("s390x-linux-gnu", "-D__x86_64__")),
            "@powerpc" => v.extend(inc("powerpc-linux-gnu", "")),
            x => v.push(x.to_string()),
        }
    }
    v
}

pub fn compile(src: &str, tag: &str, cfg: &Config, extra: &[&str]) -> Result<String, String> {
    let dir = std::env::var("IRV_TMP").unwrap_or_else(|_| "/tmp".into());
    let base = format!("{}/irv-{}-{}", dir, std::process::id(), tag.replace([':', '<', '>', ' ', ','], "_"));
    let (cpp, ll, ll2) = (format!("{}.cpp", base), format!("{}.ll", base), format!("{}.m.ll", base));
    std::fs::write(&cpp, src).map_err(|e| e.to_string())?;
    let r = (|| {
        let o = Command::new("clang++")
            .args(cross(cfg.args))
            .args(["-O0", "-Xclang", "-disable-O0-optnone", "-D_GLIBCXX_ASSERTIONS", "-S", "-emit-llvm", "-g0", "-w"])
            .args(extra)
            .arg(format!("-I{}/src", repo()))
            .args([&cpp, "-o", &ll])
            .output()
            .map_err(|e| e.to_string())?;
        if !o.status.success() {
            return Err(format!("compile error: {}", String::from_utf8_lossy(&o.stderr).lines().take(5).collect::<Vec<_>>().join(" | ")));
        }
        let o = Command::new("opt").args(["-S", "-passes=mem2reg", &ll, "-o", &ll2]).output().map_err(|e| e.to_string())?;
        if !o.status.success() {
            return Err(format!("opt: {}", String::from_utf8_lossy(&o.stderr)));
        }
        std::fs::read_to_string(&ll2).map_err(|e| e.to_string())
    })();
    for f in [&cpp, &ll, &ll2] {
        let _ = std::fs::remove_file(f);
    }
    r
}
pub fn build(c: &Class, cfg: &Config) -> Result<Module, String> {
    let t = compile(&if c.id == "CLI" { crate::contract::cliv::driver(&repo()) } else { driver_src(c) }, &format!("{}-{}", c.id, cfg.name), cfg, &[])?;
    ir::parse(&t).map_err(|e| format!("IR: {}", e))
}
