//! The command line program (src/program/main.cpp) against the contracts of what it calls: for every documented name,
//! every number of arguments, every digest length, arbitrary names and file contents of any length.
use super::tuple::{demangle, strip};
use super::*;
use crate::exec::cli::*;

#[derive(Clone, Copy, PartialEq, Debug)]
enum Form {
    Plain,
    Key,
    Xof,
    Cshake,
    Tuple,
}
const NAMES: &[(&str, &str, Form)] = &[
    ("-blake1-224", "Blake1_224", Form::Plain),
    ("-blake1-256", "Blake1_256", Form::Plain),
    ("-blake1-384", "Blake1_384", Form::Plain),
    ("-blake1-512", "Blake1_512", Form::Plain),
    ("-blake2", "Blake2", Form::Plain),
    ("-blake2s", "Blake2s", Form::Plain),
    ("-crc-32", "CRC_32", Form::Plain),
    ("-cshake-128", "CSHAKE_128", Form::Cshake),
    ("-cshake-256", "CSHAKE_256", Form::Cshake),
    ("-fnv32_1a", "FNV32_1a", Form::Plain),
    ("-fnv64_1a", "FNV64_1a", Form::Plain),
    ("-has160", "HAS_160", Form::Plain),
    ("-md2", "MD2", Form::Plain),
    ("-md4", "MD4", Form::Plain),
    ("-md5", "MD5", Form::Plain),
    ("-ripemd-128", "RIPEMD_128", Form::Plain),
    ("-ripemd-160", "RIPEMD_160", Form::Plain),
    ("-ripemd-256", "RIPEMD_256", Form::Plain),
    ("-ripemd-320", "RIPEMD_320", Form::Plain),
    ("-siphash", "SipHash", Form::Key),
    ("-sha1", "SHA1", Form::Plain),
    ("-sha2-224", "SHA2_224", Form::Plain),
    ("-sha2-256", "SHA2_256", Form::Plain),
    ("-sha2-384", "SHA2_384", Form::Plain),
    ("-sha2-512", "SHA2_512", Form::Plain),
    ("-sha2-512-224", "SHA2_512_224", Form::Plain),
    ("-sha2-512-256", "SHA2_512_256", Form::Plain),
    ("-sha3-224", "SHA3_224", Form::Plain),
    ("-sha3-256", "SHA3_256", Form::Plain),
    ("-sha3-384", "SHA3_384", Form::Plain),
    ("-sha3-512", "SHA3_512", Form::Plain),
    ("-shake-128", "SHAKE_128", Form::Xof),
    ("-shake-256", "SHAKE_256", Form::Xof),
    ("-sm3", "SM3", Form::Plain),
    ("-tiger1-128", "Tiger1_128", Form::Plain),
    ("-tiger1-160", "Tiger1_160", Form::Plain),
    ("-tiger1-192", "Tiger1_192", Form::Plain),
    ("-tiger2-128", "Tiger2_128", Form::Plain),
    ("-tiger2-160", "Tiger2_160", Form::Plain),
    ("-tiger2-192", "Tiger2_192", Form::Plain),
    ("-tuple-hash-128", "TupleHash_128", Form::Tuple),
    ("-tuple-hash-256", "TupleHash_256", Form::Tuple),
    ("-whirlpool", "Whirlpool", Form::Plain),
];

pub fn driver(repo: &str) -> String {
    let mut s = format!("#define main k_main\n#include \"{}/src/program/main.cpp\"\n#undef main\n", repo);
    s += "extern \"C\" void k_del(std::istream *);\nextern \"C\" void *k_keep() { return reinterpret_cast<void *>(&k_del); }\n";
    s += "template <int I, class T, int N> struct KType { static void f(T *) {} };\n";
    for (i, (_, t, _)) in NAMES.iter().enumerate() {
        s += &format!("template struct KType<{}, Chocobo1::{}, sizeof(Chocobo1::{})>;\n", i, t, t);
    }
    s
}
fn params(form: Form) -> usize {
    match form {
        Form::Plain | Form::Key => 3,
        Form::Xof => 4,
        _ => 5,
    }
}

impl<'m> V<'m> {
    fn cli_hooks(&mut self) -> Res<(String, Vec<String>)> {
        let names: Vec<String> = self.e.m.funcs.iter().map(|f| f.name.clone()).collect();
        let dem = demangle(&names)?;
        let mut h: HashMap<usize, Hook> = HashMap::default();
        let mut types = vec![String::new(); NAMES.len()];
        let mut sizes = vec![0u64; NAMES.len()];
        let mut main = None;
        for (i, d) in dem.iter().enumerate() {
            if d.starts_with("k_main(") && !d.contains(")::") {
                main = Some(names[i].clone());
            }
            if let Some(r) = d.strip_prefix("KType<") {
                let (k, r) = r.split_once(", ").ok_or("KType")?;
                let k: usize = k.parse().map_err(|_| "KType")?;
                let (t, n) = r.rsplit_once(">::f(").ok_or("KType")?.0.rsplit_once(", ").ok_or("KType")?;
                types[k] = t.to_string();
                sizes[k] = n.parse().map_err(|_| "KType")?;
            }
        }
        let main = main.ok_or("main not found")?;
        if types.iter().any(|t| t.is_empty()) {
            return Err("hash types".into());
        }
        let mut alltypes = types.clone();
        let throws = ["_ZTISt16invalid_argument", "_ZTISt12out_of_range", "_ZTISt12length_error", "_ZTISt11logic_error"];
        for (i, d) in dem.iter().enumerate() {
            let s = strip(d).replace("[abi:cxx11]", "").replace("std::__cxx11::", "std::");
            let mut hk = |k: Kind, a: usize| {
                h.insert(i, Hook { tag: 0, act: HookAct::Cli(k, a) });
            };
            match names[i].as_str() {
                "printf" => hk(Kind::Printf, 0),
                "fprintf" => hk(Kind::Fprintf, 0),
                "puts" => hk(Kind::Puts, 0),
                "fputs" => hk(Kind::Fputs, 0),
                "putchar" => hk(Kind::Putchar, 0),
                "exit" | "_exit" => hk(Kind::Exit, 0),
                "strtol" | "__isoc23_strtol" | "strtoll" | "__isoc23_strtoll" => hk(Kind::Strtol, 0),
                "__errno_location" => hk(Kind::Errno, 0),
                "__cxa_begin_catch" => hk(Kind::BeginCatch, 0),
                "__cxa_end_catch" => hk(Kind::EndCatch, 0),
                "_ZSt24__throw_invalid_argumentPKc" => hk(Kind::Throw, 0),
                "_ZSt20__throw_out_of_rangePKc" | "_ZSt24__throw_out_of_range_fmtPKcz" => hk(Kind::Throw, 1),
                "_ZSt20__throw_length_errorPKc" => hk(Kind::Throw, 2),
                "_ZSt19__throw_logic_errorPKc" => hk(Kind::Throw, 3),
                "k_del" => {
                    hk(Kind::StreamDelete, 0);
                    self.e.cli.as_mut().unwrap().delete = i;
                }
                _ => {}
            }
            match s.as_str() {
                "std::basic_ifstream::basic_ifstream(std::basic_string const&, std::_Ios_Openmode)" => hk(Kind::Open, 0),
                "std::basic_ifstream::basic_ifstream(char const*, std::_Ios_Openmode)" => hk(Kind::Open, 1),
                "std::basic_ifstream::~basic_ifstream()" => hk(Kind::StreamDtor, 0),
                "std::basic_ifstream::is_open() const" | "std::basic_ifstream::is_open()" => hk(Kind::IsOpen, 0),
                "std::basic_ios::good() const" => hk(Kind::Good, 0),
                "std::basic_ios::fail() const" => hk(Kind::Fail, 0),
                "std::basic_ios::eof() const" => hk(Kind::Eof, 0),
                "std::basic_ios::operator bool() const" => hk(Kind::Bool, 0),
                "std::basic_ios::operator!() const" => hk(Kind::Not, 0),
                "std::basic_istream::read(char*, long)" | "std::basic_istream::read(char*, int)" => hk(Kind::Read, 0),
                "std::basic_istream::gcount() const" => hk(Kind::Count, 0),
                _ => {}
            }
            // the library's classes
            let head = match s.split_once('(') {
                Some((a, _)) => a.rsplit(' ').next().unwrap_or("").to_string(),
                None => continue,
            };
            if !head.starts_with("Chocobo1::") {
                continue;
            }
            let parts: Vec<&str> = head.split("::").collect();
            if parts.len() < 3 {
                continue;
            }
            let (cls, mem) = (parts[parts.len() - 2], parts[parts.len() - 1]);
            if mem == cls {
                let full = d.rsplit_once(&format!("::{}(", cls)).map(|x| x.0.to_string()).unwrap_or_default();
                let par = &s[head.len() + 1..];
                if par.starts_with("Chocobo1::") && par.ends_with(" const&)") && !par.contains(',') {
                    hk(Kind::Copy, alltypes.iter().position(|t| *t == full).unwrap_or(usize::MAX));
                } else if par.starts_with("Chocobo1::") && par.ends_with("&&)") && !par.contains(',') {
                    hk(Kind::Move, alltypes.iter().position(|t| *t == full).unwrap_or(usize::MAX));
                } else if !cls.contains("Buffer") && !cls.contains("Loader") {
                    let t = match alltypes.iter().position(|t| *t == full) {
                        Some(t) => t,
                        None => {
                            alltypes.push(full);
                            alltypes.len() - 1
                        }
                    };
                    hk(Kind::New, t);
                }
                continue;
            }
            match mem {
                "addData" => hk(Kind::Add, 0),
                "nextData" => hk(Kind::Add, 1),
                "finalize" => hk(Kind::Fin, 0),
                "toString" => hk(Kind::Str, 0),
                m if m == format!("~{}", cls) && !cls.contains("Buffer") => hk(Kind::Dtor, 0),
                _ => {}
            }
        }
        self.e.hooks = h;
        self.e.cli.as_mut().unwrap().convs = throws.iter().map(|t| (0, t.to_string())).collect();
        self.e.cli.as_mut().unwrap().types = alltypes;
        self.e.cli.as_mut().unwrap().sizes = sizes;
        Ok((main, types))
    }
    fn bytes(&mut self, s: &str) -> Vec<N> {
        s.bytes().map(|b| self.e.c.c(8, b as u128)).collect()
    }
    /// an argument of k arbitrary bytes
    fn symstr(&mut self, pre: &str, k: usize) -> Vec<N> {
        let mut v = vec![];
        for i in 0..k {
            let key = (format!("{}{}", pre, i), 1, 255);
            let s = match self.symcache.get(&key) {
                Some(s) => *s,
                None => self.e.c.asym(&key.0, 1, 255),
            };
            self.symcache.insert(key, s);
            v.push(self.e.c.lin_node(lin(vec![(s, 1)], 0), 8));
        }
        v
    }
    pub fn verify_cli(&mut self) -> Res<()> {
        let mut st = self.fresh();
        let (errno, exc, so, se) = {
            let un = self.e.uninit;
            (st.new_obj(4, OK::Driver, "errno", un), st.new_obj(16, OK::Driver, "exception", un), st.new_obj(8, OK::Driver, "stdout", un), st.new_obj(8, OK::Driver, "stderr", un))
        };
        let text: Vec<N> = (0..20).map(|i| self.e.c.bsym(&format!("T{}", i), 8, false)).collect();
        let gsym = self.e.c.asym("g", 0, (1 << 28) - 1);
        let mut vsym = HashMap::default();
        for i in 1..8 {
            let v = self.e.c.asym(&format!("v{}", i), i64::MIN as i128, i64::MAX as i128);
            vsym.insert(i, v);
        }
        self.e.cli = Some(Box::new(Cli {
            argv: vec![],
            convs: vec![],
            vsym,
            gsym,
            words: Default::default(),
            wordat: Default::default(),
            text,
            errno,
            exited: vec![],
            concrete: None,
            types: vec![],
            sizes: vec![],
            tokens: Default::default(),
            delete: usize::MAX,
            bounded: false,
            inductive: 0,
            excobj: exc,
            stderr: se,
        }));
        let z = self.e.c.c(32, 0);
        self.e.put(&mut st, errno, 0, z, 4);
        let (main, types) = self.cli_hooks()?;
        let pb = self.pw() as u64 / 8;
        let mut cin = None;
        for (i, g) in self.e.m.globals.iter().enumerate() {
            let o = self.e.gobj[i];
            match g.name.as_str() {
                "stdout" => {
                    let p = self.ptr(so, 0);
                    self.e.put(&mut st, o, 0, p, pb);
                }
                "stderr" => {
                    let p = self.ptr(se, 0);
                    self.e.put(&mut st, o, 0, p, pb);
                }
                "_ZSt3cin" => cin = Some(o),
                _ => {}
            }
        }
        let mut gh = Ghost::default();
        if let Some(o) = cin {
            self.e.stream_vptr(&mut st, o, 0);
            gh.streams.insert(o, Stream { file: None, good: true, eof: false, pos: 0, count: z, decided: false });
        }
        st.gh = Some(Rc::new(gh));
        let prog = self.symstr("a", 6);
        // (name, number of arguments, arguments)
        let mut cases: Vec<(Vec<N>, usize, Vec<Vec<N>>)> = vec![];
        for (n, _, form) in NAMES {
            let nb = self.bytes(n);
            let want = params(*form);
            for argc in 2..8 {
                let mut l = vec![];
                for i in 2..argc {
                    l.push(self.symstr(["", "", "x", "y", "z", "s", "t", "u"][i], 3));
                }
                if argc != want {
                    cases.push((nb.clone(), argc, l));
                    continue;
                }
                let dash = self.bytes("-");
                for f in [dash, self.symstr("f", 1), self.symstr("f", 5), self.symstr("f", 40), vec![]] {
                    let k = f.len();
                    let mut l = l.clone();
                    l[want - 3] = f;
                    if want == 5 {
                        l[1] = self.symstr("c", [0, 4, 20, 33][k % 4]);
                    }
                    cases.push((nb.clone(), argc, l));
                }
            }
        }
        for k in 0..21 {
            let nb = self.symstr("n", k);
            for argc in [3, 4, 5] {
                let mut l = vec![];
                for i in 2..argc {
                    l.push(self.symstr(["", "", "x", "y", "z", "s", "t", "u"][i], 3));
                }
                cases.push((nb.clone(), argc, l));
            }
        }
        cases.push((vec![], 1, vec![]));
        st.rng = self.e.c.rng.clone();
        for (name, argc, rest) in cases {
            let mut st = st.clone();
            st.rng = self.e.c.rng.clone();
            let mut argv = vec![prog.clone()];
            if argc > 1 {
                argv.push(name.clone());
            }
            argv.extend(rest.iter().cloned());
            let un = self.e.uninit;
            let av = st.new_obj((argc as u64 + 1) * pb, OK::Driver, "argv", un);
            for (i, a) in argv.iter().enumerate() {
                let o = st.new_obj(a.len() as u64 + 1, OK::Driver, "argument", un);
                for (j, b) in a.iter().enumerate() {
                    st.obj_mut(o).set(j as u64, Cell { n: *b, k: 0 });
                }
                let z = self.e.c.c(8, 0);
                st.obj_mut(o).set(a.len() as u64, Cell { n: z, k: 0 });
                let p = self.ptr(o, 0);
                self.e.put(&mut st, av, i as u64 * pb, p, pb);
            }
            let z = self.cn(0);
            self.e.put(&mut st, av, argc as u64 * pb, z, pb);
            let txt = self.show_bytes(&name);
            let tuple = txt.starts_with("-tuple") || name.len() == 15;
            {
                let cli = self.e.cli.as_mut().unwrap();
                cli.argv = argv.clone();
                cli.exited.clear();
                cli.concrete = if tuple { Some(vec![0, 1, 1000, (1 << 20) - 1]) } else { None };
            }
            let (ac, ap) = (self.e.c.c(32, argc as u128), self.ptr(av, 0));
            let what = format!("{} with {} arguments", txt, argc - 1);
            self.e.fails.clear();
            let r = self.e.call_fn(st, &main, &[ac, ap]);
            for x in std::mem::take(&mut self.e.fails) {
                self.rep.bad("safety", &format!("main:{}", x.kind), format!("{}: {} in {}: {}", what, x.kind, x.func, x.msg), x.definite);
            }
            let r = match r {
                Ok(r) => r,
                Err(e) if e.contains("an exception leaves the program") => {
                    self.rep.bad("cli", "normal-end", format!("{}: {}", what, e), false);
                    continue;
                }
                Err(e) => return Err(format!("{}: {}", what, e)),
            };
            let mut ends: Vec<State> = r;
            ends.extend(std::mem::take(&mut self.e.cli.as_mut().unwrap().exited));
            if ends.is_empty() {
                return Err(format!("{}: no path ends", what));
            }
            for s in ends {
                self.cli_end(&s, &argv, argc, &types, &what)?;
            }
            if self.rep.fails.len() > 12 {
                break;
            }
        }
        let (ind, bnd) = (self.e.cli.as_ref().unwrap().inductive, self.e.cli.as_ref().unwrap().bounded);
        self.rep.good("cli", "the reading loop comes back to the same state: inputs of any length", ind);
        if bnd {
            self.rep.notes.push("bounded: tuple-hash reads its input in at most 3 full buffers".into());
        }
        self.rep.done.extend(["cli", "safety"]);
        self.log("done");
        Ok(())
    }
    fn show_bytes(&self, v: &[N]) -> String {
        v.iter().map(|b| self.e.c.cval(*b).map_or('?', |x| x as u8 as char)).collect()
    }
    /// equality of two byte strings under the ranges of the path: known or not
    fn eq_bytes(&mut self, a: &[N], b: &[N]) -> Option<bool> {
        if a.len() != b.len() {
            return Some(false);
        }
        let mut all = true;
        for (x, y) in a.iter().zip(b) {
            let (x, y) = (self.e.c.norm(*x), self.e.c.norm(*y));
            let e = self.e.c.eq(x, y);
            match self.e.c.cval(e) {
                Some(0) => return Some(false),
                Some(_) => {}
                None => all = false,
            }
        }
        if all {
            Some(true)
        } else {
            None
        }
    }
    fn cli_end(&mut self, st: &State, argv: &[Vec<N>], argc: usize, types: &[String], what: &str) -> Res<()> {
        self.e.c.set_rng(&st.rng);
        let g = st.gh.clone().ok_or("ghost")?;
        let code = match (g.exit, st.ret) {
            (Some(c), _) => c,
            (None, Some(c)) => c,
            _ => return Err("no exit code".into()),
        };
        let code = self.e.c.norm(code);
        let code = self.e.c.cval(code).ok_or("exit code")?;
        // what is asked for
        let mut sel = None;
        if argc > 1 {
            for (i, (n, _, _)) in NAMES.iter().enumerate() {
                let nb = self.bytes(n);
                match self.eq_bytes(&argv[1], &nb) {
                    Some(true) => sel = Some(i),
                    Some(false) => {}
                    None => {
                        self.rep.bad("cli", "names", format!("{}: not compared with {}", what, n), false);
                        return Ok(());
                    }
                }
            }
        }
        let sel = sel.filter(|i| params(NAMES[*i].2) == argc);
        let mut either = false;
        let mut want = None; // Some((class, digest length))
        if let Some(i) = sel {
            let form = NAMES[i].2;
            if form == Form::Plain || form == Form::Key {
                want = Some((i, None));
            } else {
                match g.conv.get(&2) {
                    Some(Conv::Val(v, all)) => {
                        let (lo, hi) = st.rng[*v as usize];
                        if lo < 0 && hi >= 0 || lo <= i32::MAX as i128 && hi > i32::MAX as i128 {
                            self.rep.bad("cli", "digest-length", format!("{}: lengths {}..{} are treated alike", what, lo, hi), false);
                            return Ok(());
                        }
                        either = !*all;
                        if lo >= 0 && hi <= i32::MAX as i128 {
                            want = Some((i, Some(*v)));
                        }
                    }
                    Some(_) => {}
                    None => {
                        self.rep.bad("cli", "digest-length", format!("{}: the digest length is not read", what), false);
                        return Ok(());
                    }
                }
            }
        }
        let usage = {
            let mut u = self.bytes("Usage: ");
            u.extend(argv[0].iter());
            g.out.len() >= u.len() && self.eq_bytes(&g.out[..u.len()], &u) == Some(true)
        };
        let (i, v) = match want {
            None => {
                if usage && !g.ev.iter().any(|e| matches!(e, Ev::Str(_))) {
                    self.rep.good("cli", "other invocations are answered with the usage", 1);
                } else {
                    self.rep.bad("cli", "usage", format!("{}: answered with {:?}, exit code {}", what, self.show_bytes(&g.out), code), false);
                }
                return Ok(());
            }
            Some(x) => x,
        };
        if either && usage {
            return Ok(());
        }
        let opens: Vec<(Option<Vec<N>>, bool)> = g.ev.iter().filter_map(|e| if let Ev::Open(f, ok) = e { Some((f.clone(), *ok)) } else { None }).collect();
        let file = argv[argc - 1].clone();
        let dash = self.bytes("-");
        let isdash = self.eq_bytes(&file, &dash);
        if opens.len() != 1 || isdash.is_none() || match (&opens[0].0, isdash) {
            (None, Some(true)) => false,
            (Some(f), Some(false)) => self.eq_bytes(f, &file) != Some(true),
            _ => true,
        } {
            self.rep.bad("cli", "input", format!("{}: reads another input than the one named", what), false);
            return Ok(());
        }
        if !opens[0].1 {
            if g.out.is_empty() && code != 0 {
                self.rep.good("cli", "an input that cannot be opened is an error", 1);
            } else {
                self.rep.bad("cli", "cannot-open", format!("{}: prints {:?}, exit code {}", what, self.show_bytes(&g.out), code), false);
            }
            return Ok(());
        }
        // the hash object
        let mut objs: HashMap<N, (usize, Vec<Arg>, Vec<Vec<Piece>>, bool, bool)> = HashMap::default();
        let mut read: (i128, Option<N>) = (0, None);
        let mut shown = vec![];
        let mut bad = None;
        for e in &g.ev {
            match e {
                Ev::New(t, ty, a) => {
                    objs.insert(*t, (*ty, a.clone(), vec![], false, false));
                }
                Ev::Copy(d, s) | Ev::Move(d, s) => {
                    let x = objs.get(s).cloned().ok_or("copy of an unknown object")?;
                    objs.insert(*d, x);
                    if matches!(e, Ev::Move(..)) && d != s {
                        objs.remove(s);
                    }
                }
                Ev::Dtor(t) => {
                    objs.remove(t);
                }
                Ev::Add(t, p) | Ev::Next(t, p) => {
                    let o = objs.get_mut(t).ok_or("data for an unknown object")?;
                    let next = matches!(e, Ev::Next(..));
                    if o.3 {
                        bad = Some("data after finalize".to_string());
                    }
                    match p {
                        Some(p) => {
                            if next || o.2.is_empty() {
                                o.2.push(vec![]);
                            }
                            o.2.last_mut().unwrap().extend(p.iter().cloned());
                            o.4 |= next;
                        }
                        None => bad = Some("absorbs bytes that are not the input's".into()),
                    }
                }
                Ev::Fin(t) => {
                    let o = objs.get_mut(t).ok_or("finalize of an unknown object")?;
                    if o.3 {
                        bad = Some("finalized twice".into());
                    }
                    o.3 = true;
                }
                Ev::Str(t) => shown.push(objs.get(t).cloned().ok_or("reading an unknown object")?),
                Ev::Open(..) => {}
                Ev::Read(_, c, full) => {
                    let c = self.e.c.norm(*c);
                    match self.e.c.cval(c) {
                        Some(v) => read.0 += v as i128,
                        None => read.1 = Some(c),
                    }
                    let _ = full;
                }
            }
        }
        if shown.len() != 1 {
            bad = Some(format!("{} digests are read", shown.len()));
        }
        if let (None, Some((ty, args, msg, fin, _))) = (&bad, shown.first().cloned()) {
            let form = NAMES[i].2;
            if self.e.cli.as_ref().unwrap().types[ty] != types[i] {
                bad = Some(format!("uses {} instead of {}", self.e.cli.as_ref().unwrap().types[ty], types[i]));
            } else if !fin {
                bad = Some("not finalized".into());
            } else {
                // parameters
                let d = v.map(|v| self.e.c.lin_node(lin(vec![(v, 1)], 0), 32));
                let int = |s: &mut V, k: usize| match (args.get(k), d) {
                    (Some(Arg::Int(x)), Some(d)) => s.eq_bytes(&[*x], &[d]) == Some(true),
                    _ => false,
                };
                let st_ = |s: &mut V, k: usize, w: &[N]| match args.get(k) {
                    Some(Arg::Str(x)) => s.eq_bytes(x, w) == Some(true),
                    _ => false,
                };
                let good = match form {
                    Form::Plain => args.is_empty(),
                    Form::Key => match args.first() {
                        Some(Arg::Mem(k)) => k.len() == 16 && k.iter().all(|b| self.e.c.cval(*b) == Some(0)),
                        _ => false,
                    },
                    Form::Xof => args.len() == 1 && int(self, 0),
                    Form::Cshake => args.len() == 3 && int(self, 0) && st_(self, 1, &[]) && st_(self, 2, &argv[3]),
                    Form::Tuple => args.len() == 2 && int(self, 0) && st_(self, 1, &argv[3]),
                };
                if !good {
                    bad = Some(format!("parameters of the hash object: {:?}", args));
                }
                // message
                if msg.len() > 1 || (form == Form::Tuple && msg.len() != 1) {
                    bad = Some(format!("{} tuple elements", msg.len()));
                }
                let (mut pos, mut last) = (0i128, None);
                for p in msg.first().unwrap_or(&vec![]) {
                    let l = self.e.c.norm(p.len);
                    if last.is_some() || p.from as i128 != pos {
                        bad = Some(format!("input bytes at {} follow {} bytes", p.from, pos));
                        break;
                    }
                    match self.e.c.cval(l) {
                        Some(v) => pos += v as i128,
                        None => last = Some(l),
                    }
                }
                if bad.is_none() && (pos != read.0 || last != read.1) {
                    bad = Some(format!("absorbs {} bytes of {}", pos, read.0));
                }
            }
        }
        if bad.is_none() {
            let mut w = self.e.cli.as_ref().unwrap().text.clone();
            w.extend(self.bytes("  "));
            w.extend(file.iter());
            w.extend(self.bytes("\n"));
            if self.eq_bytes(&g.out, &w) != Some(true) {
                bad = Some(format!("prints {:?}", self.show_bytes(&g.out)));
            } else if code != 0 {
                bad = Some(format!("exit code {}", code));
            }
        }
        match bad {
            None => self.rep.good("cli", "the digest of exactly the input's bytes is printed, followed by the name", 1),
            Some(b) => self.rep.bad("cli", NAMES[i].0, format!("{}: {}", what, b), false),
        }
        Ok(())
    }
}
