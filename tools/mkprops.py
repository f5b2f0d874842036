#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the statements stay reviewable)."""
import json,os
H=lambda *n:["src/%s.h"%x for x in n]
ALL=H("md2","md4","md5","sha1","sha2_224","sha2_256","sha2_384","sha2_512","sha2_512_224","sha2_512_256","sha3","cshake","tuple_hash","blake1_224","blake1_256","blake1_384","blake1_512","blake2","blake2s","sm3","has_160","ripemd_128","ripemd_160","ripemd_256","ripemd_320","tiger","whirlpool","siphash","crc_32","fnv")
P=[]
def p(id,title,st,over,q,why,files,mech,state=None,obs=None):
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=q),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in (state or [])],
      mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=obs or ["toArray/toString/toVector/operator T after finalize"],hook_needed=None)))
few="The unit tests hash a dozen or so fixed messages per algorithm; the digest must be right for every message of every length, including every block-boundary/padding case and lengths no test can afford (beyond 4 GiB)."
p("C01","SHA-1 and SHA-2 compute the FIPS 180-4 digests",
 "For every message, the digest obtained from SHA1, SHA2_224, SHA2_256, SHA2_384, SHA2_512, SHA2_512_224 and SHA2_512_256 (construct or reset, feed the message, finalize, read the result) is exactly the FIPS 180-4 digest of that message.",
 ["inputs"],"all messages of every length (byte counts up to the standard's limit), however they are fed",few,
 H("sha1","sha2_224","sha2_256","sha2_384","sha2_512","sha2_512_224","sha2_512_256"),
 [("compression function and message schedule","addDataImpl"),("padding and length encoding","finalize"),("initial values","reset"),("big-endian truncated output","toArray")],
 [("chaining value","the hash state after the whole blocks absorbed so far","m_h"),("size counter","number of message bytes","m_sizeCounter"),("tail buffer","bytes not yet absorbed","m_buffer")])
p("C02","SHA-3 and SHAKE compute the FIPS 202 functions",
 "For every message, SHA3_224/256/384/512 yield the FIPS 202 SHA-3 digest, and SHAKE_128/SHAKE_256 constructed for d output bytes yield the first d bytes of the FIPS 202 extendable output, for every requested length d>=0.",
 ["inputs"],"all messages of every length; all requested output lengths",few+" For SHAKE only a couple of output lengths are tried.",
 H("sha3"),[("Keccak-f[1600] and sponge absorb","addDataImpl"),("domain suffix, pad10*1 and squeeze","finalize"),("output","stateToVector/toVector")])
p("C03","BLAKE and BLAKE2 compute the published functions",
 "For every message, Blake1_224/256/384/512 yield the BLAKE (SHA-3 round-3 submission) digest, Blake2 the unkeyed BLAKE2b-512 digest and Blake2s the unkeyed BLAKE2s-256 digest (RFC 7693).",
 ["inputs"],"all messages of every length",few+" BLAKE's counter rule for padding-only blocks and BLAKE2's last-block rule only show at particular lengths.",
 H("blake1_224","blake1_256","blake1_384","blake1_512","blake2","blake2s"),
 [("compression with byte/bit counter","addDataImpl"),("padding / last-block flag","finalize"),("lazy buffering of the last full block","addData")])
p("C04","MD2, MD4 and MD5 compute the RFC digests",
 "For every message, MD2, MD4 and MD5 yield the digests of RFC 1319, RFC 1320 and RFC 1321.",
 ["inputs"],"all messages of every length",few,H("md2","md4","md5"),
 [("block transform","addDataImpl"),("padding, checksum, length","finalize")])
p("C05","RIPEMD-128/160/256/320 compute the published digests",
 "For every message, RIPEMD_128, RIPEMD_160, RIPEMD_256 and RIPEMD_320 yield the digests defined by the RIPEMD-160 family specification (Dobbertin, Bosselaers, Preneel).",
 ["inputs"],"all messages of every length",few,H("ripemd_128","ripemd_160","ripemd_256","ripemd_320"),
 [("two-line compression","addDataImpl"),("padding","finalize")])
p("C06","SM3, HAS-160, Tiger and Whirlpool compute their digests",
 "For every message, SM3 (GB/T 32905), HAS_160 (TTAS.KO-12.0011), Tiger1/Tiger2 with 128-, 160- and 192-bit output (Anderson/Biham; the shorter ones are the leading bytes of the 192-bit digest), and Whirlpool (ISO/IEC 10118-3) yield the published digest.",
 ["inputs"],"all messages of every length",few+" Only the 192-bit Tiger outputs are ever read by a test.",
 H("sm3","has_160","tiger","whirlpool"),[("compression / tables","addDataImpl, tTable, cTable"),("padding","finalize"),("truncation","toArray")])
p("C07","CRC-32 and FNV compute their checksums",
 "For every message, CRC_32 yields the IEEE 802.3 reflected CRC-32 (big-endian bytes of the value), and FNV32/FNV64 in the -0, -1 and -1a variants yield the Fowler-Noll-Vo value of that width.",
 ["inputs"],"all messages of every length and every split into slices of 16 plus remainder",few+" A single wrong entry of the 4096-entry CRC tables survives any small sample.",
 H("crc_32","fnv"),[("slicing-by-16 update and bytewise tail","addDataImpl/finalize"),("multiply/xor order","FNVHash::addDataImpl")])
p("C08","SipHash computes SipHash-c-d of the message under its key",
 "For every 16-byte key and every message, SipHash yields the SipHash-2-4 (and the template's C,D) value of the message under that key; the key outlives reset() but not the object that received it.",
 ["inputs"],"all keys, all messages of every length","Tests use one key with 64 messages of fewer than 64 bytes; the modulo-256 length byte and the key schedule need all inputs.",
 H("siphash"),[("SipRound and compression","sipRound/addDataImpl"),("length byte and finalisation","finalize"),("key retention","reset")])
p("C09","cSHAKE and TupleHash compute the SP 800-185 functions",
 "For every message, output length, function name and customization string, CSHAKE_128/256 yield cSHAKE (equal to SHAKE when both strings are empty), and for every sequence of tuple elements TupleHash_128/256 yield TupleHash of that tuple and output length, so that no two different tuples share an encoding.",
 ["inputs"],"all messages/tuples, all output lengths, all name and customization strings","Tests use the NIST sample vectors only: one name, two customization strings, 32/64-byte outputs.",
 H("cshake","tuple_hash","sha3"),[("left_encode/right_encode/encode_string/bytepad","CShake constructor, leftEncode, encode"),("element and output-length encoding","TupleHash nextData/finalize")])
p("C10","Digests do not depend on how the message is split into calls",
 "Feeding a message through any number of addData calls of any sizes (including empty pieces and pieces ending anywhere relative to a block boundary) gives the same finalized result as feeding the concatenation in one call.",
 ["histories","inputs"],"all sequences of addData calls with all piece lengths, from every buffered state","Tests split a few messages at one or two places; the property quantifies over every buffered length times every piece length.",
 ALL,[("partial-block buffering","addData"),("bulk absorption of whole blocks","addDataImpl")],[("tail buffer","bytes not yet absorbed","m_buffer")])
p("C11","reset, reuse and copies behave like fresh independent objects",
 "After reset() an object (whatever was fed, finalized or not) gives the same results as a newly constructed one with the same parameters (key, output length, customization), and a copy taken or assigned at any point continues exactly like the original while later operations on one never change the other.",
 ["histories"],"all histories of feed/finalize/reset/copy/assign operations","Tests reset only freshly used default objects and never copy; stale buffer, counter, checksum, output or heap state shows only after specific histories.",
 ALL,[("state re-initialisation","reset"),("defaulted/explicit copy operations","class members, CShake copy operations")])
p("C12","All result accessors agree with each other",
 "After finalize, toVector() has the documented digest length and equals toArray() where that exists, toString() is its lowercase hexadecimal rendering of exactly twice that length, conversion to an unsigned integer type is the big-endian value of the leading min(sizeof(T), digest length) bytes, std::hash is that conversion to size_t, and reading results repeatedly neither changes them nor the object.",
 ["inputs","histories"],"all digests (all reachable states), all accessors, all unsigned widths","Tests read toString mostly and compare a few constants; nibble and byte-order mistakes confined to some positions or values need all digests.",
 ALL,[("byte serialisation","toArray"),("hex rendering","toString"),("integer prefix","operator T, std::hash")])
p("C13","Equality of hash objects is equality of what they computed",
 "operator== is reflexive, symmetric and compares results: two finalized objects of the same type that processed the same message with the same parameters compare equal, any two that compare equal yield identical digests of the same length, and operator!= is its negation.",
 ["inputs","histories"],"all pairs of objects of the same class in all finalized states","Tests compare a handful of objects; ignoring one state word is invisible to them.",
 ALL,[("state comparison","operator==, operator!=")])
p("C14","Every permitted call sequence is memory safe and well defined",
 "For every input and every permitted sequence of public operations no operation reads or writes outside the objects and the given input range, reads an indeterminate value, executes undefined arithmetic, fails an internal assertion or terminates abnormally, and the caller's input is never modified.",
 ["inputs","histories"],"all inputs, lengths (including zero with a null pointer) and operation histories","The tests run under sanitizers but only on the sampled inputs; the Tiger 128/160 accessors, for instance, are never executed.",
 ALL,[("fixed buffers and offsets","Buffer, finalize padding arithmetic"),("checked accessors","Buffer::fill, gsl::span"),("output arrays","toArray")])
p("C15","All input overloads are equivalent",
 "addData of a span of bytes, of (pointer, length), of a byte array, of an array or span of wider elements, and TupleHash/SipHash's corresponding forms, all feed exactly the object representation bytes of the argument in memory order, once each.",
 ["inputs"],"all argument types the overloads accept, all lengths and contents","Tests compare overloads on one or two arrays.",
 ALL,[("forwarding overloads","addData templates, nextData")])
p("C16","Results do not depend on language mode, NDEBUG, word size or byte order",
 "Compiled as C++14, C++17 or C++20, with or without NDEBUG, for 64- or 32-bit and little- or big-endian targets, the library yields the same (standard) digests for the same inputs.",
 ["configurations","inputs"],"all supported configurations times all messages","The suite is built once as C++14 on one little-endian 64-bit host with assertions on.",
 ALL,[("endianness-neutral loads","Loader"),("gsl::span versus std::span and inline-variable switches","header preamble")])
p("C17","Message lengths are counted without truncation",
 "The length that enters the padding (or block counters) is the exact total length of the message, also when it is spread over calls and exceeds 2^29, 2^32 or, for the 128-bit counters of SHA-384/512, BLAKE-384/512, BLAKE2b and Whirlpool, 2^61 and 2^64 bytes.",
 ["inputs","histories"],"all total lengths up to the limit of each standard","No test hashes anything near 512 MiB; the high words of the length field are never non-zero in the suite.",
 H("sha1","sha2_224","sha2_256","sha2_384","sha2_512","sha2_512_224","sha2_512_256","md4","md5","ripemd_128","ripemd_160","ripemd_256","ripemd_320","sm3","has_160","tiger","whirlpool","blake1_224","blake1_256","blake1_384","blake1_512","blake2","blake2s","siphash"),
 [("size counters","m_sizeCounter, Uint128"),("length field encoding","finalize")])
p("C18","The command line program prints the right digest of the named input",
 "For every algorithm name it documents and every input file or standard input, the program prints exactly the digest of that input's bytes under that algorithm (with the given output length and customization where applicable) followed by the file name, and rejects malformed invocations with the usage text.",
 ["inputs"],"all option names, all file contents and sizes, all read boundaries","The program has no tests at all.",
 ["src/program/main.cpp"],[("name table and dispatch","getHash, runHash"),("chunked reading","readNPrint, readAllNPrint")],obs=["standard output"])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
