// Hash and checksum functions against their definitions.
#include "h.h"
#include "tkrzw_hash_util.h"
#include "tkrzw_dbm_common_impl.h"
#include "tkrzw_thread_util.h"
#ifndef L
#define L 3
#endif
#ifndef RANGE
#define RANGE 10
#define BASE 0
#endif
typedef const unsigned char U;
static string data(int min = 0) { return symstr(min + symx_choice(L - min + 1, "len"), "data"); }
static uint32_t sym32(const char* n) { uint32_t x; symx_make_symbolic(&x, 4, n); return x; }
static uint64_t sym64(const char* n) { uint64_t x; symx_make_symbolic(&x, 8, n); return x; }
static uint64_t murmur_ref(string_view s, uint64_t seed) {  // MurmurHash64A
  const uint64_t m = 0xc6a4a7935bd1e995ULL; uint64_t h = seed ^ (s.size() * m); size_t n = s.size() / 8; U* p = (U*)s.data();
  for (size_t i = 0; i < n; i++, p += 8) { uint64_t k = 0; for (int j = 0; j < 8; j++) k |= (uint64_t)p[j] << (8 * j); k *= m; k ^= k >> 47; k *= m; h *= m; h ^= k; }
  for (int j = s.size() % 8; j > 0; j--) { h ^= (uint64_t)p[j - 1] << (8 * (j - 1)); if (j == 1) h *= m; }
  h ^= h >> 47; h *= m; h ^= h >> 47; return h;
}
static void murmur() {
  static const int lens[] = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 15, 16, 17, 24}; string s = symstr(lens[symx_choice(14, "len")], "data"); uint64_t seed = sym64("seed");
  CHECK(HashMurmur(s, seed) == murmur_ref(s, seed), "HashMurmur is MurmurHash64A");
}
static void fnv() {
  string s = data(); uint64_t h = 14695981039346656037ULL; for (U& c : *(std::basic_string<unsigned char>*)&s) { h ^= c; h *= 109951162811ULL; }
  CHECK(HashFNV(s) == h, "HashFNV is the stored-format FNV-1a");
}
static uint32_t crc_ref(string_view s, int bits, uint32_t poly, bool refl, uint32_t crc) {
  for (unsigned char c : s) {
    if (refl) { crc ^= c; for (int j = 0; j < 8; j++) crc = (crc >> 1) ^ (poly & (0u - (crc & 1))); }
    else { crc ^= (uint32_t)c << (bits - 8); for (int j = 0; j < 8; j++) crc = ((crc << 1) ^ (poly & (0u - ((crc >> (bits - 1)) & 1)))) & (bits == 32 ? ~0u : (1u << bits) - 1); }
  }
  return crc;
}
static uint32_t crc4_ref(string_view s) { return crc_ref(s, 4, 0xC, true, 0); }  // CRC-4/ITU
// one symbolic byte at any position of a fixed text with any alignment: by linearity this fixes the function
static void crcs() {
  static char buf[24]; size_t off = symx_choice(4, "align"), n = 1 + symx_choice(11, "size"), p = symx_choice(n, "position");
  for (size_t i = 0; i < n; i++) buf[off + i] = "tkrzw\xff\x80\x01~Zq"[i];
  symx_make_symbolic(buf + off + p, 1, "byte"); string_view s(buf + off, n);
  switch (symx_choice(4, "f")) {
    case 0: CHECK(HashCRC4(s) == crc4_ref(s), "HashCRC4 is its polynomial"); break;
    case 1: CHECK(HashCRC8(s) == crc_ref(s, 8, 0x07, false, 0), "HashCRC8 is its polynomial"); break;
    case 2: CHECK(HashCRC16(s) == crc_ref(s, 16, 0x1021, false, 0), "HashCRC16 is its polynomial"); break;
    case 3: CHECK(HashCRC32(s) == ~crc_ref(s, 32, 0xEDB88320u, true, ~0u), "HashCRC32 is its polynomial"); break;
  }
}
// continuation at any split point
static void pieces() {
  static char buf[24]; size_t off = symx_choice(2, "align") * 3, n = 2 + symx_choice(9, "size"), cut = symx_choice(n + 1, "cut"), p = symx_choice(n, "position");
  for (size_t i = 0; i < n; i++) buf[off + i] = "tkrzw\xff\x80\x01~Zq"[i];
  symx_make_symbolic(buf + off + p, 1, "byte"); char *a = buf + off, *b = a + cut; size_t m = n - cut;
#define PIECE(F, SEED) CHECK(F##Continuous(b, m, true, F##Continuous(a, cut, false, SEED)) == F(a, n), #F " can be continued piecewise")
  switch (symx_choice(10, "f")) {
    case 0: PIECE(HashCRC4, 0); break;
    case 1: PIECE(HashCRC8, 0); break;
    case 2: PIECE(HashCRC16, 0); break;
    case 3: PIECE(HashCRC32, 0xFFFFFFFF); break;
    case 4: PIECE(HashChecksum6, 0); CHECK(HashChecksum6Pair(a, cut, b, m) == HashChecksum6(a, n), "HashChecksum6Pair is the checksum of both"); break;
    case 5: PIECE(HashChecksum8, 0); CHECK(HashChecksum8Pair(a, cut, b, m) == HashChecksum8(a, n), "HashChecksum8Pair is the checksum of both"); break;
    case 6: PIECE(HashAdler6, 1); break;
    case 7: PIECE(HashAdler8, 1); break;
    case 8: PIECE(HashAdler16, 1); break;
    case 9: PIECE(HashAdler32, 1); break;
  }
}
static void sums() {
  string s = data(); uint32_t sum = 0, a = 1, b = 0; for (unsigned char c : s) sum += c;
  int f = symx_choice(6, "f"); uint32_t m = f == 2 ? 7 : f == 3 ? 13 : f == 4 ? 251 : 65521; for (unsigned char c : s) { a += c; b += a; }
  switch (f) {
    case 0: CHECK(HashChecksum6(s) == sum % 61, "HashChecksum6 is the byte sum modulo 61"); break;
    case 1: CHECK(HashChecksum8(s) == sum % 251, "HashChecksum8 is the byte sum modulo 251"); break;
    case 2: CHECK(HashAdler6Continuous(s.data(), s.size(), true, 1) == ((b % m) << 3 | a % m), "HashAdler6 is Adler's sum"); break;
    case 3: CHECK(HashAdler8Continuous(s.data(), s.size(), true, 1) == ((b % m) << 4 | a % m), "HashAdler8 is Adler's sum"); break;
    case 4: CHECK(HashAdler16Continuous(s.data(), s.size(), true, 1) == ((b % m) << 8 | a % m), "HashAdler16 is Adler's sum"); break;
    case 5: CHECK(HashAdler32Continuous(s.data(), s.size(), true, 1) == ((b % m) << 16 | a % m), "HashAdler32 is Adler's sum"); break;
  }
}
static void step() {  // one byte from any seed
  static char buf[8]; symx_make_symbolic(buf, 1, "byte"); uint32_t seed = sym32("seed"); string_view s(buf, 1);
  switch (symx_choice(3, "f")) {
    case 0: seed &= 0xff; CHECK(HashCRC8Continuous(buf, 1, true, seed) == crc_ref(s, 8, 0x07, false, seed), "HashCRC8 continues from any seed"); break;
    case 1: seed &= 0xffff; CHECK(HashCRC16Continuous(buf, 1, true, seed) == crc_ref(s, 16, 0x1021, false, seed), "HashCRC16 continues from any seed"); break;
    case 2: CHECK(HashCRC32Continuous(buf, 1, false, seed) == crc_ref(s, 32, 0xEDB88320u, true, seed), "HashCRC32 continues from any seed"); break;
  }
}
static void seedbytes() {  // a seed with one symbolic byte, several data bytes
  static char buf[16]; size_t n = 1 + symx_choice(9, "size"); for (size_t i = 0; i < n; i++) buf[i] = "tkrzw\xff\x80\x01~"[i];
  int sh = 8 * symx_choice(4, "which"); unsigned char c; symx_make_symbolic(&c, 1, "seed byte"); uint32_t seed = (uint32_t)c << sh; string_view s(buf, n);
  CHECK(HashCRC32Continuous(buf, n, false, seed) == crc_ref(s, 32, 0xEDB88320u, true, seed), "HashCRC32 continues from any seed");
  CHECK(HashCRC32Continuous(buf, n, true, seed) == ~crc_ref(s, 32, 0xEDB88320u, true, seed), "HashCRC32 finishes from any seed");
}
static void bucket() {
  string k = symstr(symx_choice(4, "len"), "key"); uint64_t n = 0; symx_make_symbolic(&n, 2, "buckets"); symx_assume(n >= 1);
  n <<= symx_choice(2, "large") * 24;
  switch (symx_choice(2, "f")) {
    case 0: CHECK(PrimaryHash(k, n) < n && PrimaryHash(k, n) == PrimaryHash(string(k), n), "the primary hash is a bucket index"); break;
    case 1: CHECK(SecondaryHash(k, n) < n, "the secondary hash is a shard index"); break;
  }
}
static bool prime(int64_t x) { for (int64_t d = 2; d * d <= x; d++) if (x % d == 0) return false; return x > 1; }
static void primes() {
  int64_t n = 0; symx_make_symbolic(&n, 2, "n"); symx_assume(n < RANGE); n = symx_concretize(n) - 5 + BASE;
  int64_t g = GetHashBucketSize(n);
  CHECK(g >= n && g >= 1, "the bucket count is at least what was asked for");
  if (n > 100) { CHECK(prime(g), "a large bucket count is prime"); for (int64_t x = n; x < g; x++) CHECK(!prime(x), "no smaller prime fits"); } else CHECK(g == (n < 1 ? 1 : n), "a small bucket count is as asked for");
  CHECK(!!IsPrimeNumber(n < 0 ? 0 : n) == prime(n < 0 ? 0 : n), "IsPrimeNumber");
}
extern "C" void symx_main() { PART(); symx_reach("end"); }
