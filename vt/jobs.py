"""Harness variants of every property.  OPS is the bit mask of dbm_ops.cc's operations."""
from registry import job

SRA = 0x7          # set, set-without-overwrite, remove
ALL = 0xFFFFF


def D(*a, **k):
    return list(a) + ["%s=%s" % x for x in k.items()]


def ops(p, name, kind, tune="", q=1, time=40, workers=2, extra=(), **k):
    d = ["KIND=K_" + kind] + (["TUNE=" + tune] if tune else []) + ["%s=%s" % (a, b if not isinstance(b, int) or a != "OPS" else hex(b)) for a, b in k.items() if a.isupper()] + list(extra)
    kw = {a: b for a, b in k.items() if not a.isupper()}
    job(p, name, "dbm_ops.cc", d, "%s %s operations (mask %s) %s" % (kind, k.get("NOPS", 3), k.get("OPS"), tune), q=q, time=time, workers=workers, **kw)


# C01 ---------------------------------------------------------------- HashDBM
H2 = "p.num_buckets=2"
ops("C01", "all1", "HASH", H2, OPS=ALL, NOPS=1, NPRE=2)
ops("C01", "all2", "HASH", H2, OPS=ALL, NOPS=2, NPRE=1, KDOM=3, time=60, workers=4)
ops("C01", "sra4", "HASH", H2, OPS=SRA, NOPS=4, time=60, workers=4)
ops("C01", "sra4-append", "HASH", H2 + ";p.update_mode=HashDBM::UPDATE_APPENDING", OPS=0xF, NOPS=3, workers=4)
APP = ";p.update_mode=HashDBM::UPDATE_APPENDING"
ops("C01", "append-all", "HASH", H2 + APP, OPS=ALL & ~0x80000, NOPS=2, NPRE=1, KDOM=2, time=60, workers=4)
for n, w in (("crc8", 8), ("crc16", 16), ("crc32", 32)):
    ops("C01", n, "HASH", H2 + ";p.record_crc_mode=HashDBM::RECORD_CRC_%d" % w, OPS=0xD, NOPS=3, KDOM=3, VLENS="1,9", q=int(w != 16))
ops("C01", "lens", "HASH", H2, OPS=0x5, NOPS=2, KDOM=2, VLENS="0,1,30,46,127,128,129,200")
ops("C01", "lens-append", "HASH", "p.num_buckets=1;p.align_pow=0;p.offset_width=3" + APP, OPS=0xD, NOPS=2, KDOM=2, VLENS="0,40,127,128,300")
ops("C01", "align0", "HASH", "p.num_buckets=1;p.align_pow=0;p.offset_width=5", OPS=0xD, NOPS=3, KDOM=3, VLENS="0,1,2,5")
ops("C01", "align6", "HASH", "p.num_buckets=2;p.align_pow=6;p.min_read_size=20", OPS=0xD, NOPS=3, KDOM=3, VLENS="0,60,70")
ops("C01", "keylens", "HASH", "p.num_buckets=1", OPS=0x5, NOPS=3, KDOM=2, KLENS="0,1,127,128", VLENS="1,3")
ops("C01", "nofbp", "HASH", "p.num_buckets=1;p.fbp_capacity=1", OPS=0x5, NOPS=4, KDOM=3, VLENS="1,20")
ops("C01", "minread", "HASH", "p.num_buckets=1;p.min_read_size=1;p.align_pow=2", OPS=0xD, NOPS=3, KDOM=2, VLENS="0,3,17", q=0)
ops("C01", "cache-buckets", "HASH", "p.num_buckets=2;p.cache_buckets=1", OPS=0x100D, NOPS=3, KDOM=3, FILECLS="PositionalParallelFile")
ops("C01", "reuse5", "HASH", "p.num_buckets=1", OPS=0x5, NOPS=5, KDOM=3, VLENS="1,20,60", time=60, workers=4)
ops("C01", "all3", "HASH", H2, OPS=ALL, NOPS=3, NPRE=1, KDOM=2, q=0, time=100, workers=8)

# C02 ---------------------------------------------------------------- TreeDBM
T = "p.num_buckets=2;p.max_page_size=%d;p.max_branches=%d;p.max_cached_pages=%d"
ops("C02", "all1", "TREE", T % (30, 2, 1), OPS=ALL, NOPS=1, NPRE=6)
ops("C02", "all2", "TREE", T % (40, 2, 1), OPS=ALL, NOPS=2, NPRE=3, KDOM=90, q=0, time=60, workers=8)
ops("C02", "all2-small", "TREE", T % (40, 2, 1), OPS=ALL, NOPS=2, NPRE=2, KDOM=3, time=60, workers=4)
ops("C02", "insert5", "TREE", T % (1, 2, 1), OPS=0x1, NOPS=5, VLENS="1")
ops("C02", "insert4-append", "TREE", T % (24, 2, 1) + APP, OPS=0x5, NOPS=4, VLENS="1")
ops("C02", "sra2-pre8", "TREE", T % (40, 2, 1), OPS=SRA, NOPS=2, NPRE=8)
ops("C02", "remove4", "TREE", T % (40, 3, 64), OPS=0x4, NOPS=4, NPRE=8, workers=4)
ops("C02", "remove4-small", "TREE", T % (30, 2, 1), OPS=0x4, NOPS=4, NPRE=8, workers=4)
ops("C02", "pop-remove", "TREE", T % (30, 2, 1), OPS=0x604, NOPS=3, NPRE=8, KDOM=110, workers=4)
ops("C02", "set-remove4", "TREE", T % (30, 2, 2), OPS=0x5, NOPS=4, NPRE=4, VLENS="1", time=60, workers=4, q=0)
ops("C02", "values", "TREE", T % (64, 2, 1), OPS=0xD, NOPS=3, NPRE=2, VLENS="0,20,127,200", KDOM=3)
ops("C02", "page-write", "TREE", T % (30, 2, 4) + ";p.page_update_mode=TreeDBM::PAGE_UPDATE_WRITE", OPS=0x8007, NOPS=2, NPRE=4)
ops("C02", "dec", "TREE", T % (30, 2, 64) + ";p.key_comparator=DecimalKeyComparator", OPS=0x5, NOPS=4, extra=["KDIGIT"])
ops("C02", "crc", "TREE", T % (30, 2, 1) + ";p.record_crc_mode=HashDBM::RECORD_CRC_32", OPS=0x5, NOPS=3, KDOM=3)

# C04 ---------------------------------------------------------------- on-memory databases
BB = (("dbm_baby", "MAX_LEAF_NODE_RECORDS = 256", "MAX_LEAF_NODE_RECORDS = %d"), ("dbm_baby", "MAX_INNER_NODE_BRANCHES = 256", "MAX_INNER_NODE_BRANCHES = %d"))


def baby(leaf, inner):
    return tuple((a, b, c % n) for (a, b, c), n in zip(BB, (leaf, inner)))


for k in ("TINY", "BABY", "STDHASH", "STDTREE"):
    ops("C04", k.lower() + "-all1", k, OPS=ALL, NOPS=1, NPRE=3)
    ops("C04", k.lower() + "-all2", k, OPS=ALL, NOPS=2, NPRE=1, KDOM=2, extra=["KCONC"])
    ops("C04", k.lower() + "-sra4", k, OPS=SRA, NOPS=3 if k[0] == "S" else 4, KDOM=3, extra=["KCONC"])
    ops("C04", k.lower() + "-lens", k, OPS=0xD, NOPS=2, KDOM=2, KLENS="0,1,127,128", VLENS="0,1,127,128,300", extra=["KCONC"])
ops("C04", "tiny-sra2", "TINY", OPS=SRA, NOPS=2)
ops("C04", "baby-insert4", "BABY", OPS=0x1, NOPS=4, VLENS="1", subst=baby(2, 3))
ops("C04", "baby-small-all1", "BABY", OPS=ALL, NOPS=1, NPRE=6, subst=baby(2, 3))
ops("C04", "baby-small-sra3", "BABY", OPS=SRA, NOPS=3, NPRE=8, KDOM=110, VLENS="1", subst=baby(3, 3), workers=4, q=0)
ops("C04", "baby-small-remove3", "BABY", OPS=0x604, NOPS=3, NPRE=8, VLENS="1", subst=baby(2, 3))
ops("C04", "tiny-all3", "TINY", OPS=ALL, NOPS=3, NPRE=1, KDOM=2, extra=["KCONC"], q=0, time=100, workers=8)
ops("C04", "baby-all3", "BABY", OPS=ALL, NOPS=3, NPRE=1, KDOM=2, extra=["KCONC"], subst=baby(2, 3), q=0, time=100, workers=8)

# C05 ---------------------------------------------------------------- cache database
ONE = (("dbm_cache", "NUM_CACHE_SLOTS = 32", "NUM_CACHE_SLOTS = 1"),)
TWO = (("dbm_cache", "NUM_CACHE_SLOTS = 32", "NUM_CACHE_SLOTS = 2"),)


def lru(name, subst=ONE, q=1, time=40, workers=2, **k):
    extra = k.pop("extra", [])
    job("C05", name, "cache_lru.cc", D(*extra, **k), "cache of %(CAPREC)s records / %(CAPMEM)s bytes, %(NPRE)s stored before, %(NOPS)s operations, one slot" % k, q=q, time=time, workers=workers, subst=subst, needs_scale=True)


lru("lru-cap2", KDOM=4, NPRE=3, CAPREC=2, CAPMEM=10000000, NOPS=3, workers=4)
lru("lru-cap1", KDOM=4, NPRE=2, CAPREC=1, CAPMEM=10000000, NOPS=3)
lru("lru-mem", KDOM=4, NPRE=3, CAPREC=3, CAPMEM=180, NOPS=3)
lru("lru-sym", KDOM=6, NPRE=2, CAPREC=1, CAPMEM=10000000, NOPS=2, extra=["KSYM"])
lru("lru-deep", KDOM=4, NPRE=0, CAPREC=2, CAPMEM=10000000, NOPS=5, q=0, time=100, workers=8)
ops("C05", "all1", "CACHE", OPS=ALL, NOPS=1, NPRE=1, subst=ONE)
ops("C05", "all2", "CACHE", OPS=ALL & ~0x200, NOPS=2, NPRE=1, KDOM=3, extra=["KCONC"], subst=ONE, workers=4)
ops("C05", "all2-slots", "CACHE", OPS=ALL, NOPS=2, NPRE=1, KDOM=2, extra=["KCONC"], workers=4)
ops("C05", "sra4", "CACHE", OPS=SRA, NOPS=4, KDOM=3, extra=["KCONC"], subst=TWO, workers=2)
ops("C05", "lens", "CACHE", OPS=0xD, NOPS=2, KDOM=2, KLENS="0,1,127,128", VLENS="0,1,126,127,128,300", extra=["KCONC"], subst=ONE)

# C06 ---------------------------------------------------------------- adapters
PO = [("hash", "tkh", 'p[\"num_buckets\"]=\"2\"', "false"), ("tree", "tkt", 'p[\"num_buckets\"]=\"2\";p[\"max_page_size\"]=\"40\";p[\"max_branches\"]=\"2\";p[\"max_cached_pages\"]=\"1\"', "true"),
      ("tiny", "tkmt", 'p[\"num_buckets\"]=\"2\"', "false"), ("baby", "tkmb", "", "true"), ("cache", "tkmc", 'p[\"cap_rec_num\"]=\"4096\"', "false"), ("stdhash", "tksh", 'p[\"num_buckets\"]=\"2\"', "false"), ("stdtree", "tkst", "", "true")]


def adapter(name, kind, path, tune, order, subst=(), **k):
    ops("C06", name, kind, tune.replace('"', '"'), extra=["POLYPATH=\"/tmp/a.%s\"" % path, "POLYORD=" + order] + k.pop("extra", []), subst=subst, **k)


for n, e, t, o in PO:
    sub = TWO if n == "cache" else ()   # one slot would overflow the default capacity INT64MAX / 1 + 1
    adapter("poly-%s-all1" % n, "POLY", e, t, o, sub, OPS=ALL, NOPS=1, NPRE=1, KDOM=30 if n in ("tiny", "cache", "stdhash") else 110, time=30)
    adapter("poly-%s-all2" % n, "POLY", e, t, o, sub, OPS=ALL, NOPS=2, NPRE=0, KDOM=2, extra=["KCONC"], q=0)
    adapter("shard-%s-all2" % n, "SHARD", e, t + ';p[\"num_shards\"]=\"2\"', o, sub, OPS=ALL, NOPS=2, NPRE=0, KDOM=2, extra=["KCONC"], q=int(n in ("hash", "tree")))
    adapter("shard-%s-sra" % n, "SHARD", e, t + ';p[\"num_shards\"]=\"3\"', o, sub, OPS=0x405, NOPS=3, NPRE=1, KDOM=4, extra=["KCONC"], VLENS="2")

# C11 ---------------------------------------------------------------- binary encodings
for n in ("varnum", "fixnum", "delta", "strs", "maps", "align"):
    job("C11", n, "codecs.cc", ["PART=" + n], n + ": all 64-bit values, or all bytes of strings of lengths 0,1,2,127,128,300", time=60, workers=1 if n != "maps" else 2)
for t in ("int8_t", "int16_t", "int32_t", "int64_t", "uint8_t", "uint16_t", "uint32_t", "uint64_t"):
    job("C11", "ivec-" + t, "codecs.cc", ["PART=ivec<%s>" % t], "vectors of up to 2 arbitrary %s" % t, time=60, workers=1)
    job("C11", "basic-" + t, "codecs.cc", ["PART=basic<%s>" % t], "vectors of up to 2 arbitrary %s" % t, time=60, workers=1)
for t in ("int32_t", "int64_t"):
    job("C11", "ivec0-" + t, "codecs.cc", ["PART=ivec0<%s>" % t], "vectors of up to 2 arbitrary non-negative %s" % t, time=60, workers=1)
for t in ("float", "double"):
    job("C11", t, "codecs.cc", ["PART=floats<%s>" % t], "all %s bit patterns" % t, time=60, workers=1)

# C12, C13 ----------------------------------------------------------- strings
def strs(p, name, part=None, q=1, time=60, workers=2, **k):
    part = part or name
    job(p, name, "strutil.cc", ["PART=" + part] + D(**k), "%s: all byte strings of up to %s bytes%s" % (part, k.get("L", 4), " over the bytes " + k["ALPHA"] if "ALPHA" in k else ""), q=q, time=time, workers=workers)


for n in ("esc_c", "base64", "url", "tsv", "intdec", "intlimits", "inthex", "intoct", "metric", "dbl"):
    strs("C12", n)
strs("C12", "base64-8", "base64", q=0, L=8, time=100, workers=8)
strs("C12", "esc_c-5", "esc_c", q=0, L=5, time=100, workers=8)
for n in ("words", "affix", "cases", "strip", "split", "splitmap", "replace", "dist", "utf8", "utf8any"):
    strs("C13", n)
strs("C13", "rkcoll", RKP=2, time=60, workers=4)
strs("C13", "rkcoll-4", "rkcoll", RKP=4, RKMORE=1, q=0, time=60)
strs("C13", "search", L=2, PL=2, time=25)
strs("C13", "searchwhole", L=2, PL=2, time=25)
strs("C13", "batch", L=1, PL=1, time=25)
for i, al in enumerate(("0,97", "97,98,255")):
    strs("C13", "search-%d" % i, "search", ALPHA=al, L=5, PL=3, workers=4)
    strs("C13", "searchwhole-%d" % i, "searchwhole", ALPHA=al, L=5, PL=2 + i, workers=4)
    strs("C13", "search-deep-%d" % i, "search", ALPHA=al, L=7, PL=4, q=0, time=100, workers=8)
    strs("C13", "batch-%d" % i, "batch", ALPHA=al, L=4, PL=2, q=0, time=100, workers=8)
strs("C13", "words-6", "words", L=6, PL=3, q=0, time=100, workers=8)
strs("C13", "utf8any-8", "utf8any", L=8, q=0, time=100, workers=8)

# C14 ------------------------------------------------------------- hash functions
def hsh(name, part=None, q=1, time=40, workers=2, note="", **k):
    job("C14", name, "hashutil.cc", ["PART=" + (part or name)] + D(**k), note or name, q=q, time=time, workers=workers)


hsh("murmur", note="all texts of lengths 0..9, 15..17, 24 and all seeds")
hsh("fnv", L=6, note="all texts up to 6 bytes")
hsh("crcs", note="one arbitrary byte at every position of texts of 1..11 bytes, every alignment")
hsh("pieces", note="every cut of texts of 2..10 bytes with one arbitrary byte")
hsh("sums", L=4, note="all texts up to 4 bytes")
hsh("step", note="any byte from any seed")
hsh("seedbytes", note="any byte of the seed, texts of 1..9 bytes")
hsh("bucket", note="all keys up to 3 bytes, all 16-bit bucket counts and their multiples by 2^24")
hsh("primes", RANGE=1200, BASE=0, note="all requests from -5 to 1194")
hsh("primes-large", "primes", RANGE=300, BASE=1000000, note="300 requests from 999995")
hsh("primes-more", "primes", RANGE=20000, BASE=0, q=0, time=100, workers=8)
hsh("sums-8", "sums", L=8, q=0, time=100, workers=8)

# C15 ------------------------------------------------------------- comparators
def comp(name, part, c, q=1, time=40, workers=2, extra=(), **k):
    job("C15", name, "comps.cc", ["PART=" + part, "CMP=%sKeyComparator" % c, "PAIR=Pair%sKeyComparator" % c] + D(*extra, **k), "%sKeyComparator: %s over all keys of up to %s bytes %s" % (c, part, k.get("L", 2), k.get("WIDTH", "")), q=q, time=time, workers=workers)


for c in ("Lexical", "LexicalCase", "Decimal", "Hexadecimal", "SignedBigEndian", "RealNumber"):
    if c != "RealNumber":
        comp(c + "-total", "total", c, workers=4 if c == "Hexadecimal" else 2, L=1 if c == "Hexadecimal" else 2)
    comp(c + "-special", "special", c)
    comp(c + "-pairs", "pairs", c, L=1)
comp("FloatBigEndian-total", "total", "FloatBigEndian", WIDTH="4,8", workers=4)
comp("FloatBigEndian-pairs", "pairs", "FloatBigEndian", WIDTH="4,8")
comp("FloatBigEndian-meaning", "meaning", "FloatBigEndian", WIDTH="4,8", ORDER="flt")
comp("SignedBigEndian-meaning", "meaning", "SignedBigEndian", WIDTH="0,1,2,3,4,7,8", ORDER="big")
comp("Lexical-meaning", "meaning", "Lexical", L=4, ORDER="lex")
comp("LexicalCase-meaning", "meaning", "LexicalCase", L=4, ORDER="lexcase")
comp("Decimal-meaning", "meaning", "Decimal", L=3, ORDER="dec", KEYCHARS='"-+0123456789"', extra=["KEYDIGITS"])
comp("Hexadecimal-meaning", "meaning", "Hexadecimal", L=2, ORDER="hex", KEYCHARS='"0123456789abcdefABCDEF"')
comp("RealNumber-meaning", "meaning", "RealNumber", L=1, ORDER="dec", KEYCHARS='"0123456789"', extra=["KEYDIGITS"])
comp("Hexadecimal-total-2", "total", "Hexadecimal", q=0, time=200, workers=8)
comp("Lexical-total-3", "total", "Lexical", L=4, q=0, time=100, workers=8)
comp("Decimal-total-3", "total", "Decimal", L=3, q=0, time=100, workers=8)

# C16 ------------------------------------------------------------- containers
def cont(name, part, q=1, time=40, workers=2, **k):
    job("C16", name, "containers.cc", ["PART=" + part] + D(**k), "%s: all sequences of %d operations over %d keys" % (part, k["NOPS"], k.get("KDOM", 3)), q=q, time=time, workers=workers)


cont("lhm", "lhm", NOPS=3, workers=4)
cont("lru", "lru", NOPS=5, workers=4)
cont("dlru", "dlru", NOPS=5, workers=4)
cont("aset", "aset", NOPS=4)
cont("heap", "heap", NOPS=4)
cont("lhm-4", "lhm", NOPS=4, KDOM=2, q=0, time=200, workers=8)
cont("heap-6", "heap", NOPS=6, q=0, time=100, workers=8)

# C03 ------------------------------------------------------------- skip database
def skip(name, tune="", q=1, time=40, workers=2, extra=(), **k):
    d = (["TUNE=" + tune] if tune else []) + ["%s=%s" % (a, hex(b) if a == "OPS" else b) for a, b in k.items()] + list(extra)
    job("C03", name, "dbm_skip.cc", d, "all sequences of %s operations (mask %s) over %s keys, %s" % (k.get("NOPS", 3), hex(k.get("OPS", 7)), k.get("KDOM", 3) if "KSYM" not in extra else 256, tune), q=q, time=time, workers=workers)


SKALL = 0x7FFF
IN = "p.insert_in_order=true"
skip("all1", OPS=SKALL, NOPS=1, NPRE=3)
skip("all2", OPS=SKALL, NOPS=2, NPRE=2, KDOM=2)
skip("all3", "p.step_unit=2;p.max_level=2", OPS=SKALL & ~0x4008, NOPS=3, NPRE=1, KDOM=2, workers=4)
skip("set-remove4", OPS=0x7, NOPS=4, KDOM=2, VLENS="0,1", workers=4)
skip("keys3", OPS=0x3, NOPS=3, extra=["KSYM"])
skip("keys4", "p.step_unit=2;p.max_level=1;p.sort_mem_size=1", OPS=0x1, NOPS=4, extra=["KSYM"])
skip("inorder-all2", IN, OPS=SKALL, NOPS=2, NPRE=1, extra=["INORDER"])
skip("inorder3", IN, OPS=0x87, NOPS=4, extra=["INORDER"])
skip("inorder-empty", IN, OPS=0x33, NOPS=3, extra=["INORDER"])
skip("sort-mem", "p.sort_mem_size=1", OPS=0x807, NOPS=3, KDOM=2, NPRE=1)
skip("reducers", OPS=0x7, NOPS=3, KDOM=2, REDS=1, VLENS="0,1")
skip("reducers-num", OPS=0x5, NOPS=2, KDOM=1, REDS=1, VLENS="1,2", NPRE=0, extra=["VDIGIT"])
skip("levels", "p.step_unit=2;p.max_level=3;p.max_cached_records=1", OPS=0x4400, NOPS=2, NPRE=17, extra=["BUILDIT", "KSYM"])
skip("levels-update", "p.step_unit=3;p.max_level=2;p.max_cached_records=4", OPS=0x103, NOPS=2, NPRE=11, extra=["BUILDIT", "KSYM"])
skip("lens", "p.offset_width=3", OPS=0x5, NOPS=3, KDOM=2, VLENS="0,127,128,300")
skip("lens-key", OPS=0x5, NOPS=2, KDOM=2, VLENS="1,200", LONGKEY=130)
skip("all4", OPS=SKALL, NOPS=4, NPRE=1, KDOM=2, q=0, time=200, workers=8)
skip("keys5", "p.step_unit=2;p.max_level=2", OPS=0x3, NOPS=5, extra=["KSYM"], q=0, time=200, workers=8)

# C07 ------------------------------------------------------------- reopening
def reopen(name, kind, tune="", q=1, time=40, workers=2, extra=(), **k):
    d = ["KIND=K_" + kind] + (["TUNE=" + tune] if tune else []) + ["%s=%s" % (a, hex(b) if a == "OPS" else b) for a, b in k.items()] + list(extra)
    job("C07", name, "reopen.cc", d, "%s: %d sessions of %s operations (mask %s) with a file class chosen per session from %s" % (kind, k.get("NSESS", 2), k.get("NOPS"), hex(k.get("OPS")), k.get("CLASSES", 4)), q=q, time=time, workers=workers)


for n, t in (("hash", H2), ("hash-app", H2 + APP), ("tree", T % (30, 2, 1))):
    K = n.split("-")[0].upper()
    reopen(n + "-meta", K, t, NSESS=2, NOPS=1, OPS=0x5, CLASSES=2, NPRE=1, KDOM=2, extra=["META", "KCONC"])
    reopen(n + "-tuning", K, t, NSESS=2, NOPS=1, OPS=0x10D, CLASSES=2, NPRE=5 if K == "TREE" else 2, KDOM=2, extra=["KCONC"])
    reopen(n + "-keys", K, t, NSESS=1, NOPS=2, OPS=0x5, CLASSES=1, NPRE=2)
    reopen(n + "-classes", K, t, NSESS=1, NOPS=1, OPS=0x1D, CLASSES=5, NPRE=4, KDOM=2, VLENS="1,30", extra=["KCONC"], q=int(n != "hash-app"))
    reopen(n + "-deep", K, t, NSESS=3, NOPS=2, OPS=0x5, CLASSES=2, NPRE=2, KDOM=2, VLENS="1,30", extra=["KCONC"], q=0, time=100, workers=8)
reopen("hash-tunings", "HASH", "p.num_buckets=3;p.offset_width=3+symx_choice(3,\"ow\");p.align_pow=symx_choice(3,\"al\")*2;p.record_crc_mode=(HashDBM::RecordCRCMode)(1+symx_choice(4,\"crc\"));p.update_mode=(HashDBM::UpdateMode)(1+symx_choice(2,\"um\"))", NSESS=1, NOPS=1, OPS=0x1, CLASSES=1, NPRE=2, KDOM=2, VLENS="1,30", extra=["KCONC"])
reopen("tree-comparators", "TREE", "p.num_buckets=2;KeyComparator cs[]={LexicalKeyComparator,LexicalCaseKeyComparator,DecimalKeyComparator,HexadecimalKeyComparator,RealNumberKeyComparator,SignedBigEndianKeyComparator,FloatBigEndianKeyComparator};p.key_comparator=cs[symx_choice(7,\"cmp\")]", NSESS=1, NOPS=1, OPS=0x10, CLASSES=1, NPRE=0, KDOM=2, extra=["KCONC"])
reopen("skip-meta", "SKIP", NSESS=2, NOPS=1, OPS=0x10, CLASSES=2, NPRE=3, KDOM=3, extra=["META", "KCONC"])
reopen("skip-tuning", "SKIP", "p.step_unit=2;p.max_level=3;p.offset_width=3", NSESS=2, NOPS=1, OPS=0x10, CLASSES=4, NPRE=3, KDOM=3, extra=["KCONC"])
job("C07", "skip-sessions", "dbm_skip.cc", ["OPS=0x83", "NOPS=4", "KDOM=2", "VLENS=1"], "SKIP: all sequences of 4 updates and reopenings")
for k in ("TINY", "BABY", "CACHE", "STDHASH", "STDTREE"):
    reopen(k.lower(), k, NSESS=2, NOPS=1, OPS=0xD, CLASSES=2, NPRE=2, KDOM=2, VLENS="0,1,130", extra=["KCONC"])
    reopen(k.lower() + "-keys", k, NSESS=1, NOPS=1, OPS=0x5, CLASSES=3, NPRE=2, VLENS="2", **({"KDOM": 8, "extra": ["KCONC"]} if k in ("TINY", "CACHE", "STDHASH") else {}))

# C32 ---------------------------------------------------------------- time
for n, b in (("roundtrip", "every calendar moment of the years 1000 to 9999 (conversions of libc replaced), 8 time differences, 6 instants"), ("parse", "every digit of each field and zone of the fixed date formats"), ("yyyymmdd", "every digit of each field"), ("dow", "every day of 12 windows of 30 years"), ("rfc", "every digit of each field, all month and zone names"), ("units", "counts up to 99, every unit"), ("fracs", "quarters of seconds, columns 0 to 3"), ("relative", "1 to 10 of every unit"), ("anybytes", "prefixes of dates followed by up to 2 arbitrary bytes")):
    job("C32", n, "timeutil.cc", ["PART=" + n], b, time=60, workers=4)

# C31 ---------------------------------------------------------------- paths and files
for n, l in (("norm", 6), ("split", 5), ("join", 8)):
    job("C31", n, "paths.cc", ["PART=" + n, "L=%d" % l], "every path of up to %d characters of / . a b" % l, time=60, workers=4)
    job("C31", n + "-any", "paths.cc", ["PART=" + n, "L=5", "ANYBYTE"], "every path of up to 5 arbitrary non-zero bytes", time=60, workers=4)
    job("C31", n + "-elems", "paths.cc", ["PART=" + n, "L=%d" % (5 if n != "join" else 6), "ELEMS"], "every path of up to 5 elements out of .. . a b.c and ...", time=60, workers=4)
job("C31", "files", "paths.cc", ["PART=files", "LENS=0,1,9", "NOPS=2"], "all sequences of 2 file operations over 5 paths, contents with arbitrary first and last bytes", time=60, workers=4)
job("C31", "files-3", "paths.cc", ["PART=files", "LENS=1", "NOPS=3"], "all sequences of 3 file operations over 5 paths", q=0, time=300, workers=8)
job("C31", "files-big", "paths.cc", ["PART=files", "LENS=8193,65537", "NOPS=2"], "contents longer than the buffers", q=0, time=100, workers=8)
job("C31", "big", "paths.cc", ["PART=big"], "contents of 8191 to 131073 bytes: writing, reading, copying", time=60, workers=2)
job("C31", "tempdir", "paths.cc", ["PART=tempdir"], "all choices", time=30, workers=2)

# C27 ---------------------------------------------------------------- compressors and ciphers
CO = "compress.cc"
job("C27", "dummy", CO, ["PART=dummy", "LENS=0,1,2,3"], "all data of 0 to 3 bytes, every changed byte of every value", time=60, workers=4)
job("C27", "rc4", CO, ["PART=rc4", "LENS=0,1,7,33"], "all data of 0, 1, 7 and 33 bytes under 9 keys of 0 to 40 bytes and 3 seeds", time=40, workers=2)
job("C27", "rc4key", CO, ["PART=rc4key", "LENS=1,3"], "every one-byte key", time=40, workers=2)
job("C27", "rc4long", CO, ["PART=rc4", "LENS=300"], "all data of 300 bytes", time=60, workers=4, q=0)
job("C27", "aes", CO, ["PART=aes"], "lengths 0 to 49, every value of one of the last bytes at block boundaries, 9 keys of 0 to 40 bytes", time=80, workers=4)
job("C27", "aesbad", CO, ["PART=aesbad"], "every value of every byte of a ciphertext of 3 blocks", time=40, workers=2)
job("C27", "wrap", CO, ["PART=wrap", "LENS=0,1,2,5,20"], "the zlib, zstd, lz4 and lzma classes over a model codec: all data of up to 20 bytes and runs of up to 5000 equal bytes", time=40, workers=2)
job("C27", "wrapbad", CO, ["PART=wrapbad", "LENS=0,1,5"], "failing codecs and bad data", time=40, workers=2)
for m in ("RC4", "AES"):
    kw = dict(extra=["VCONC"]) if m == "AES" else {}
    ops("C27", "hash-" + m.lower(), "HASH", H2 + ";p.record_comp_mode=HashDBM::RECORD_COMP_%s;p.cipher_key=\"abc\"" % m, OPS=0x400F, NOPS=3, KDOM=2, VLENS="0,1,17", **kw)
    ops("C27", "tree-" + m.lower(), "TREE", T % (40, 2, 1) + ";p.record_comp_mode=HashDBM::RECORD_COMP_%s;p.cipher_key=\"abc\"" % m, OPS=0x400D, NOPS=2, NPRE=2, KDOM=2, VLENS="1,17", **dict(kw, extra=kw.get("extra", []) + ["KCONC"]))
    ops("C27", "hash-append-" + m.lower(), "HASH", H2 + APP + ";p.record_comp_mode=HashDBM::RECORD_COMP_%s;p.cipher_key=\"abc\"" % m, OPS=ALL & ~0x80000, NOPS=1, NPRE=2, VLENS="1,17", q=0, **kw)

# C20 ---------------------------------------------------------------- iterators
def iters(name, kind, tune="", q=1, time=40, workers=2, subst=(), extra=(), **k):
    d = ["KIND=K_" + kind] + (["TUNE=" + tune] if tune else []) + D(**k) + list(extra)
    what = {1: "iterator moves (mask %s) and updates (mask %s)", 2: "whole traversals with updates in between %s %s", 3: "jumps %s %s"}[k["MODE"]] % ((hex(k.get("MOVES", 0x1FF)), hex(k.get("MUTS", 15))) if k["MODE"] == 1 else ("", ""))
    job("C20", name, "iter.cc", d, "%s: all sequences of %s %s over %s records and all keys of %s" % (kind, k["NOPS"], what, k.get("NPRE", 0), "one byte" if "KDOM" not in k else "%d values" % k["KDOM"]), q=q, time=time, workers=workers, subst=subst)


SH = lambda path, o: ["POLYPATH=\"/tmp/a.%s\"" % path, "POLYORD=" + o]
SHT = 'p[\"num_shards\"]=\"2\"'
TT = T % (30, 2, 1)
for n, kind, tune, sub, ex in (("tree", "TREE", TT, (), []), ("baby", "BABY", "", baby(2, 3), []), ("stdtree", "STDTREE", "", (), []), ("shard", "SHARD", SHT, (), SH("tkst", "true")), ("skip", "SKIP", "p.step_unit=2;p.max_level=2", (), [])):
    mu = {"SKIP": 0, "SHARD": 8}.get(kind, 15)
    iters(n + "-step", kind, tune, subst=sub, extra=ex, MODE=1, NOPS=1, NPRE=4, MUTS=mu)
    iters(n + "-moves", kind, tune, subst=sub, extra=ex, MODE=1, NOPS=2, NPRE=4, MUTS=0)
    iters(n + "-moves3", kind, tune, subst=sub, extra=ex, MODE=1, NOPS=3, NPRE=4, MUTS=mu, q=0, time=100, workers=8)
    if mu:
        iters(n + "-walk", kind, tune, subst=sub, extra=ex, MODE=2, NOPS=2, NPRE=6, MUTS=0x1F if kind != "SHARD" else 0x18, VLENS="1")
        iters(n + "-back", kind, tune, subst=sub, extra=ex, MODE=2, BACK=1, NOPS=2, NPRE=6, MUTS=0x1F if kind != "SHARD" else 0x18, VLENS="1")
HK = "'m','B','z','A','n'"
for n, kind, tune, sub, ex in (("hash", "HASH", H2, (), []), ("hash-app", "HASH", H2 + APP, (), []), ("tiny", "TINY", "", (), []), ("cache", "CACHE", "", TWO, []), ("stdhash", "STDHASH", "", (), []), ("shard-hash", "SHARD", SHT + ';p[\"num_buckets\"]=\"2\"', (), SH("tkh", "false"))):
    iters(n + "-walk", kind, tune, subst=sub, extra=ex + ["KSET=%s" % HK], MODE=2, NOPS=3, NPRE=4, MUTS=0x1F if kind != "SHARD" else 0x18, VLENS="1")
    if kind != "SHARD":
        iters(n + "-jump", kind, tune, subst=sub, extra=ex + ["KSET=%s" % HK], MODE=3, NOPS=3, NPRE=4)

# C21 ---------------------------------------------------------------- update logs
def ulog(name, kind, log, tune="", q=1, time=40, workers=2, subst=(), extra=(), **k):
    d = ["KIND=K_" + kind, "LOG=%d" % log] + (["TUNE=" + tune] if tune else []) + ["%s=%s" % (a, hex(b) if a == "OPS" else b) for a, b in k.items()] + list(extra)
    job("C21", name, "ulog.cc", d, "%s: all sequences of %s logged operations over keys of %s, %s" % (kind, k["NOPS"], k.get("KDOM", "one byte"), ("replayed into another database", "replayed from message queue files", "decoded from the text log")[log - 1]), q=q, time=time, workers=workers, subst=subst)


UA = ALL & ~0x80000
for n, kind, tune, sub, ex in (("hash", "HASH", H2, (), []), ("hash-app", "HASH", H2 + APP, (), []), ("tree", "TREE", TT, (), []), ("skip", "SKIP", "", (), []), ("tiny", "TINY", "", (), []), ("baby", "BABY", "", baby(2, 3), []), ("cache", "CACHE", "", TWO, []), ("stdhash", "STDHASH", "", (), []), ("stdtree", "STDTREE", "", (), []), ("shard", "SHARD", SHT, (), SH("tkst", "true")), ("poly", "POLY", 'p[\"num_buckets\"]=\"2\"', (), SH("tkh", "false"))):
    sk = kind == "SKIP"
    ulog(n + "-text", kind, 3, tune, subst=sub, extra=ex + (["KSET='m','B','A','n'"] if kind in ("CACHE", "SHARD", "POLY") else []), NPRE=2, NOPS=2 if sk else 1, OPS=UA, **({"KDOM": 110} if kind not in ("CACHE", "SHARD", "POLY") else {}))
    ulog(n + "-mirror", kind, 1, tune, subst=sub, extra=ex + ["KSET='m','B','n'"], NPRE=2, NOPS=3 if sk else 2, OPS=UA & ~0x2000, VLENS="1", q=int(kind not in ("CACHE", "SHARD", "POLY")))
    ulog(n + "-queue", kind, 2, tune, subst=sub, extra=ex + ["KSET='m','B','n'"], NPRE=2, NOPS=1, OPS=ALL & ~0x2000, VLENS="1", q=int(n in ("hash", "tree", "skip", "cache", "stdtree")))
ulog("queue-lens", "TINY", 2, NPRE=0, NOPS=2, OPS=0x5, KDOM=1, KLENS="0,1,127,128,4100", VLENS="0,128,4080,5000")
ulog("tree-mirror3", "TREE", 1, TT, extra=["KSET='m','B','n'"], NPRE=2, NOPS=3, OPS=UA & ~0x2000, VLENS="1", q=0, time=200, workers=8)

# C22 ---------------------------------------------------------------- message queue
def mq(name, mode, note, q=1, time=50, workers=2, extra=(), **k):
    job("C22", name, "mq.cc", ["MODE=%d" % mode] + ["%s=%s" % x for x in k.items()] + list(extra), note, q=q, time=time, workers=workers)


mq("history1", 1, "3 messages of 20 bytes, then every operation, timestamps 0 to 2", NPRE=3, NOPS=1, LENS="20", TSN=3)
mq("history2", 1, "1 message, then all pairs of operations, timestamps 0 to 3, one message per file", NPRE=1, NOPS=2, LENS="28", TSN=4)
mq("history3", 1, "all triples of writes, reads and reopenings", NPRE=0, NOPS=3, LENS="20", TSN=3, OPSEL=0xB, workers=4)
mq("order", 1, "4 messages with any timestamps below 2^40 in small files", NPRE=4, NOPS=0, LENS="3", TSN="(1LL<<40)", MAXSIZE=40, workers=4)
mq("sizes", 1, "messages longer than the buffers", NPRE=2, NOPS=1, LENS="0,1,8180,8181,9000", TSN=1, MAXSIZE=9000, OPSEL=0x9)
mq("cut", 2, "the last file cut at every byte of its last message, after closing or not, two later writes", NPRE=2, LENS="9", TSN=3, workers=4)
mq("old", 3, "4 messages, every threshold", NPRE=4, LENS="28", TSN=4, workers=2)
mq("killed", 4, "the process killed with unsynchronised messages, two later writes", NPRE=2, LENS="20", TSN=3, workers=4)
mq("badmeta", 5, "three bytes of the metadata with every wrong value", NPRE=2, LENS="20", TSN=3)
mq("history-deep", 1, "all triples of operations after two messages", NPRE=2, NOPS=3, LENS="0,20", TSN=4, q=0, time=200, workers=8)
mq("cut-deep", 2, "longer logs", NPRE=3, LENS="0,9,40", TSN=4, q=0, time=200, workers=8)

# C25 ---------------------------------------------------------------- rebuilding
def rebuild(name, kind, tune="", retune="", q=1, time=40, workers=2, subst=(), extra=(), **k):
    d = ["KIND=K_" + kind] + (["TUNE=" + tune] if tune else []) + (["RETUNE=" + retune] if retune else []) + ["%s=%s" % (a, hex(b) if a.startswith("OPS") else b) for a, b in k.items()] + list(extra)
    job("C25", name, "rebuild.cc", d, "%s: %s operations, rebuild %s, %s operations, perhaps another rebuild, reopening" % (kind, k.get("NBEFORE", 1), retune, k.get("NAFTER", 1)), q=q, time=time, workers=workers, subst=subst)


KS = ["KSET='m','B','n'"]
K2 = ["KSET='m','n'"]
CH = "symx_choice(%d,\"%s\")"
RH = {"buckets": 'p.num_buckets=' + CH % (2, "nb") + '*6-1', "layout": 'p.align_pow=' + CH % (2, "al") + '*3;p.offset_width=' + CH % (2, "ow") + '+4', "mode": 'p.update_mode=(HashDBM::UpdateMode)' + CH % (3, "um"), "crc": 'p.record_crc_mode=(HashDBM::RecordCRCMode)' + CH % (5, "crc"), "misc": 'p.fbp_capacity=' + CH % (2, "fbp") + '*2-1;p.min_read_size=' + CH % (2, "mrs") + '*20+1;p.cache_buckets=' + CH % (2, "cb")}
for base, n0 in ((H2, "hash"), (H2 + APP, "hash-app")):
    for r, t in RH.items():
        rebuild(n0 + "-" + r, "HASH", base, t, extra=K2, NPRE=1, NBEFORE=1, OPS=0x5, OPS2=0x5, NAFTER=int(r != "crc"), VLENS="1,40", q=int(n0 == "hash" or r in ("mode", "layout")))
    rebuild(n0 + "-again", "HASH", base, RH["buckets"], extra=K2 + ["AGAIN", "NOITER"], NPRE=1, NBEFORE=1, OPS=0x5, OPS2=0x4, NAFTER=0, VLENS="1")
    rebuild(n0 + "-all", "HASH", base, NPRE=2, NBEFORE=1, NAFTER=1, OPS=ALL & ~0x80000, OPS2=0x7, extra=KS, VLENS="1,40", q=0, time=100, workers=4)
    rebuild(n0 + "-keys", "HASH", base, 'p.num_buckets=7', NPRE=1, NBEFORE=1, NAFTER=0, OPS=0x5, KDOM=110, extra=["NOITER"])
RT = {"pages": 'p.max_page_size=20+' + CH % (2, "ps") + '*60;p.max_branches=2+' + CH % (2, "br") + '*2', "layout": 'p.align_pow=' + CH % (2, "al") + '*3;p.num_buckets=' + CH % (2, "nb") + '*6+1', "mode": 'p.update_mode=(HashDBM::UpdateMode)' + CH % (3, "um"), "pu": 'p.page_update_mode=(TreeDBM::PageUpdateMode)' + CH % (3, "pu")}
for r, t in RT.items():
    rebuild("tree-" + r, "TREE", TT, t, NPRE=4, NBEFORE=1, NAFTER=int(r in ("pages", "pu")), OPS=0x5, OPS2=0x4, VLENS="1,20", extra=K2)
rebuild("tree-all", "TREE", TT, NPRE=4, NBEFORE=1, NAFTER=1, OPS=ALL & ~0x80000, OPS2=0x7, extra=KS, q=0, time=100, workers=4)
rebuild("tree-again", "TREE", TT, RT["pages"], NPRE=4, NBEFORE=1, NAFTER=0, OPS=0x5, extra=K2 + ["AGAIN", "NOITER"], VLENS="1")
rebuild("tree-keys", "TREE", TT, 'p.max_page_size=50', NPRE=3, NBEFORE=1, NAFTER=0, OPS=0x5)
rebuild("skip", "SKIP", "p.step_unit=2;p.max_level=2", 'p.step_unit=2+' + CH % (2, "su") + ';p.max_level=1+' + CH % (2, "ml") + '*2;p.offset_width=3+' + CH % (2, "ow"), NPRE=3, NBEFORE=1, NAFTER=1, extra=K2)
for k in ("TINY", "BABY", "CACHE", "STDHASH", "STDTREE"):
    rebuild(k.lower(), k, NPRE=3, NBEFORE=1, NAFTER=1, OPS=0x5 if k == "CACHE" else 0x20D, OPS2=0x5, extra=KS, subst=TWO if k == "CACHE" else baby(2, 3) if k == "BABY" else ())
rebuild("poly", "POLY", 'p[\"num_buckets\"]=\"2\"', 'p[\"num_buckets\"]=symx_choice(2,\"nb\")?\"5\":\"1\";p[\"update_mode\"]=symx_choice(2,\"um\")?\"UPDATE_APPENDING\":\"UPDATE_IN_PLACE\"', NPRE=2, NBEFORE=1, NAFTER=1, OPS=0x5, OPS2=0x4, extra=SH("tkh", "false") + K2)
rebuild("hash-deep", "HASH", H2, RH["layout"], NPRE=2, NBEFORE=2, NAFTER=2, OPS=0xD, OPS2=0x20D, VLENS="1,40", extra=KS, q=0, time=200, workers=8)
rebuild("tree-deep", "TREE", TT, RT["pages"], NPRE=5, NBEFORE=2, NAFTER=2, OPS=0xD, OPS2=0x20D, VLENS="1,20", extra=KS, q=0, time=200, workers=8)

# C08 ---------------------------------------------------------------- crashes
def crash(name, kind, tune="", q=1, time=40, workers=2, subst=(), extra=(), **k):
    d = ["KIND=K_" + kind] + (["TUNE=" + tune] if tune else []) + ["%s=%s" % (a, hex(b) if a in ("OPS", "CO") else b) for a, b in k.items()] + list(extra)
    job("C08", name, "crash.cc", d, "%s: killed before every store into a file during each of %s operations (mask %#x), then reopened" % (kind, k.get("NWIN", 1), k.get("CO", 7)), q=q, time=time, workers=workers, subst=subst, expect=["recovered"])


CM = ["KSET='m','n'"]
PW = ";p.page_update_mode=TreeDBM::PAGE_UPDATE_WRITE"
PPF = "PositionalParallelFile"
crash("hash", "HASH", H2, extra=CM, NPRE=2, NWIN=2, CO=0x67f, LOSSY=1, VLENS="1,40", workers=4)
crash("hash-app", "HASH", H2 + APP, extra=CM, NPRE=2, NWIN=2, CO=0x67f, VLENS="1,40", workers=4)
crash("hash-clear-close", "HASH", H2, extra=CM, NPRE=2, NWIN=2, CO=0x183, LOSSY=1)
crash("hash-app-clear-close", "HASH", H2 + APP, extra=CM, NPRE=2, NWIN=2, CO=0x183)
crash("hash-crc", "HASH", H2 + ";p.record_crc_mode=HashDBM::RECORD_CRC_32", extra=CM, NPRE=2, CO=0x7ff, LOSSY=1, VLENS="1,40")
crash("hash-app-crc8", "HASH", H2 + APP + ";p.record_crc_mode=HashDBM::RECORD_CRC_8", extra=CM, NPRE=2, CO=0x7ff, VLENS="1,40")
crash("hash-pos", "HASH", H2, extra=CM, NPRE=2, CO=0x7ff, LOSSY=1, FILECLS=PPF)
crash("hash-app-pos", "HASH", H2 + APP, extra=CM, NPRE=2, CO=0x7ff, FILECLS=PPF)
crash("hash-app-modes", "HASH", H2 + APP, extra=CM, NPRE=2, NWIN=2, CO=0x1ff, RMODES="65536,1,65537")
crash("hash-noshort", "HASH", H2, extra=CM, NPRE=2, NWIN=2, CO=0x60f, LOSSY=1, RMODES=65536)
crash("hash-fbp", "HASH", H2, extra=CM, NPRE=2, NBEFORE=3, OPS=0x4005, CO=0x107, LOSSY=1, VLENS="1,30", workers=4)
crash("hash-torn", "HASH", "p.num_buckets=1", extra=CM + ["VCONC"], NPRE=1, NBEFORE=1, OPS=0xD, CO=0xF, LOSSY=1, VLENS="1,30,60", TORN=1, workers=4)
crash("hash-app-torn", "HASH", "p.num_buckets=1" + APP, extra=CM + ["VCONC"], NPRE=1, NBEFORE=1, OPS=0xD, CO=0xF, VLENS="1,30,60", TORN=1, workers=4)
crash("hash-twice", "HASH", H2, extra=CM + ["RECRASH"], NPRE=2, CO=0x67f, LOSSY=1)
crash("hash-app-twice", "HASH", H2 + APP, extra=CM + ["RECRASH"], NPRE=2, CO=0x1ff, RMODES="0,65536,1", workers=4)
crash("tree", "TREE", TT + PW + APP, extra=["VCONC"], NPRE=2, CO=0x61f, workers=2)
crash("tree-sync", "TREE", TT + PW + APP, extra=["VCONC"], NPRE=2, NWIN=2, CO=0x1e1, workers=2)
crash("tree-2", "TREE", TT + PW + APP, extra=["VCONC", "KSET='B','m','n'"], NPRE=3, NWIN=2, CO=0x007, workers=4, time=60)
crash("tree-none-exact", "TREE", TT + APP, extra=["VCONC", "KSET='B','n'"], NPRE=2, NWIN=2, CO=0x1ff, RMODES=1, workers=4)
crash("tree-inplace", "TREE", TT, extra=["VCONC", "KSET='B','n'", "WEAK"], NPRE=2, NWIN=2, CO=0x1ff, workers=4)
crash("tree-inplace-write", "TREE", TT + PW, extra=["VCONC", "KSET='B','n'", "WEAK"], NPRE=2, CO=0x1ff, workers=2)
crash("tree-twice", "TREE", TT + PW + APP, extra=["VCONC", "KSET='B','n'", "RECRASH"], NPRE=2, CO=0x00f, workers=4)
crash("skip", "SKIP", "p.step_unit=2;p.max_level=2", extra=["VCONC", "ATSYNC"], NPRE=3, NWIN=2, CO=0x1e1)
crash("skip-pos", "SKIP", "", extra=["VCONC", "ATSYNC"], NPRE=2, NWIN=2, CO=0x1e1, FILECLS=PPF)
crash("skip-twice", "SKIP", "", extra=["VCONC", "ATSYNC", "RECRASH"], NPRE=2, CO=0x1e1)
for k in ("TINY", "BABY", "CACHE", "STDHASH", "STDTREE"):
    crash(k.lower(), k, extra=["VCONC", "ATSYNC"] + CM, NPRE=2, NWIN=2, CO=0x1ff)
crash("hash-deep", "HASH", H2, extra=["KSET='m','n','B'"], NPRE=3, NWIN=3, CO=0x60f, LOSSY=1, VLENS="1,40", q=0, time=200, workers=8)
crash("tree-deep", "TREE", TT + PW + APP, extra=["VCONC"], NPRE=3, NWIN=2, CO=0x61f, q=0, time=200, workers=8)
