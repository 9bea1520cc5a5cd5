"""Hash types of the library: where they live, how they are constructed, which reference definition they must match."""

class Alg:
    def __init__(self, name, header, ctype, prop, B, D, spec, defs="", G=None, lazy=0, key=0, ctor="", maxlog=61, cexpr=True, alt="", bij=0, includes=""):
        self.name, self.header, self.ctype, self.prop, self.B, self.D = name, header, ctype, prop, B, D
        self.spec, self.defs, self.G, self.lazy, self.key, self.ctor, self.maxlog, self.cexpr = spec, defs, G or B, lazy, key, ctor, maxlog, cexpr
        self.alt, self.bij, self.includes = alt, bij, includes
        self.alias = header in ('sha3.h', 'cshake.h', 'tuple_hash.h')

A = []
def a(*x, **k): A.append(Alg(*x, **k))
a("MD2", "md2.h", "Chocobo1::MD2", "H01", 16, 16, "md2.h")
a("MD4", "md4.h", "Chocobo1::MD4", "H01", 64, 16, "md4.h")
a("MD5", "md5.h", "Chocobo1::MD5", "H01", 64, 16, "md5.h")
for w in (128, 160, 256, 320): a("RIPEMD_%d" % w, "ripemd_%d.h" % w, "Chocobo1::RIPEMD_%d" % w, "H01", 64, w // 8, "ripemd.h", "#define WIDTH %d\n" % w)
a("SHA1", "sha1.h", "Chocobo1::SHA1", "H01", 64, 20, "sha1.h")
a("HAS_160", "has_160.h", "Chocobo1::HAS_160", "H01", 64, 20, "has160.h")
a("SM3", "sm3.h", "Chocobo1::SM3", "H01", 64, 32, "sm3.h")
for w, iv in ((224, "IV224"), (256, "IV256")): a("SHA2_%d" % w, "sha2_%d.h" % w, "Chocobo1::SHA2_%d" % w, "H02", 64, w // 8, "sha2_32.h", "#define IV %s\n#define DLEN %d\n" % (iv, w // 8))
for w, iv, d in (("384", "IV384", 48), ("512", "IV512", 64), ("512_224", "IV512_224", 28), ("512_256", "IV512_256", 32)):
    a("SHA2_" + w, "sha2_%s.h" % w, "Chocobo1::SHA2_" + w, "H02", 128, d, "sha2_64.h", "#define IV %s\n#define DLEN %d\n" % (iv, d))
for w in (224, 256, 384, 512): a("SHA3_%d" % w, "sha3.h", "Chocobo1::SHA3_%d" % w, "H03", 200 - w // 4, w // 8, "keccak.h", "#define RATE %d\n#define SUF 6\n#define DLEN %d\n" % (200 - w // 4, w // 8))
def shake(bits, d): return Alg("SHAKE_%d/%d" % (bits, d), "sha3.h", "Chocobo1::SHAKE_%d" % bits, "H03", 200 - bits // 4, d, "keccak.h", "#define RATE %d\n#define SUF 0x1f\n#define DLEN %d\n" % (200 - bits // 4, d), ctor="%d" % d, alt="(%d)" % (d + 3), bij=200)
A.append(shake(128, 400)); A.append(shake(256, 400))
for w, iv in ((224, "IV224"), (256, "IV256")): a("Blake1_%d" % w, "blake1_%d.h" % w, "Chocobo1::Blake1_%d" % w, "H05", 64, w // 8, "blake1_32.h", "#define IV %s\n#define DLEN %d\n" % (iv, w // 8))
for w, iv in ((384, "IV384"), (512, "IV512")): a("Blake1_%d" % w, "blake1_%d.h" % w, "Chocobo1::Blake1_%d" % w, "H05", 128, w // 8, "blake1_64.h", "#define IV %s\n#define DLEN %d\n" % (iv, w // 8))
a("Blake2", "blake2.h", "Chocobo1::Blake2", "H05", 128, 64, "blake2.h", "#define BITS 64\n#define DLEN 64\n", lazy=1)
a("Blake2s", "blake2s.h", "Chocobo1::Blake2s", "H05", 64, 32, "blake2.h", "#define BITS 32\n#define DLEN 32\n", lazy=1)
for v, first in ((1, 1), (2, 0x80)):
    for w in (128, 160, 192): a("Tiger%d_%d" % (v, w), "tiger.h", "Chocobo1::Tiger%d_%d" % (v, w), "H06", 64, w // 8, "tiger.h", "#define FIRST %d\n#define DLEN %d\n" % (first, w // 8))
a("Whirlpool", "whirlpool.h", "Chocobo1::Whirlpool", "H06", 64, 64, "whirlpool.h")
a("CRC_32", "crc_32.h", "Chocobo1::CRC_32", "H07", 1, 4, "crc32.h", G=16)
for b in (32, 64):
    for v, n in ((0, "0"), (1, "1"), (2, "1a")): a("FNV%d_%s" % (b, n), "fnv.h", "Chocobo1::FNV%d_%s" % (b, n), "H07", 1, b // 8, "fnv.h", "#define BITS %d\n#define VAR %d\n" % (b, v))
a("SipHash", "siphash.h", "Chocobo1::SipHash", "H07", 8, 8, "siphash.h", key=16, ctor="Chocobo1::Hash::SIPHASH_NS::SipHash<2, 4>::Byte")
def cshake(bits, d, nlen, clen):
    """cSHAKE with a symbolic function name of nlen bytes and customization string of clen bytes."""
    r = 200 - bits // 4; n = nlen + clen
    x = Alg("CSHAKE_%d/%d/%d+%d" % (bits, d, nlen, clen), "cshake.h", "Chocobo1::CSHAKE_%d" % bits, "H04", r, d, "keccak.h", "#define RATE %d\n#define SUF %s\n#define DLEN %d\n#define NLEN %d\n#define CLEN %d\n" % (r, "0x04" if n else "0x1f", d, nlen, clen), key=n,
            ctor="%d, std::string(reinterpret_cast<const char *>(key), %d), std::string(reinterpret_cast<const char *>(key) + %d, %d)" % (d, nlen, nlen, clen) if n else "%d" % d, bij=200,
            alt=("(%d)" % (d + 3)) if n else '(%d, "name", "custom")' % (d + 3), includes="#include <string>\n")
    return x
def tuplehash(bits, d, clen):
    """TupleHash with a symbolic customization string of clen bytes."""
    r = 200 - bits // 4
    return Alg("TupleHash_%d/%d/%d" % (bits, d, clen), "tuple_hash.h", "Chocobo1::TupleHash_%d" % bits, "H04", r, d, "tuple.h", "#define RATE %d\n#define DLEN %d\n#define CLEN %d\n" % (r, d, clen), key=clen,
               ctor="%d, std::string(reinterpret_cast<const char *>(key), %d)" % (d, clen) if clen else "%d" % d, bij=200, alt=("(%d)" % (d + 3)) if clen else '(%d, "custom")' % (d + 3), includes="#include <string>\n")
BY = {x.name: x for x in A}
