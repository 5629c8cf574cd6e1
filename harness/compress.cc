// Compressors and ciphers.  The four external libraries are replaced by small codecs with the same interface:
// a run of one byte becomes its length and the byte, anything else is stored; both know how long the output must be.
#include "h.h"
#include "tkrzw_compress.h"
#include <zlib.h>
#include <zstd.h>
#include <lz4.h>
#include <lzma.h>
#ifndef PART
#define PART dummy
#endif
#ifndef LENS
#define LENS 0, 1, 2, 5
#endif
static size_t enc_fail = 0;   // the codec reports a failure
static size_t m_bound(size_t n) { return n + 6; }
static size_t m_enc(const char* s, size_t n, char* d, size_t cap) {   // SIZE_MAX: does not fit
  if (enc_fail) return SIZE_MAX;
  size_t k = 1; while (k < n && s[k] == s[0]) k++;
  if (n > 6 && k == n) { if (cap < 6) return SIZE_MAX; d[0] = 'R'; uint32_t l = n; memcpy(d + 1, &l, 4); d[5] = s[0]; return 6; }
  if (cap < n + 1) return SIZE_MAX;
  d[0] = 'S'; if (n) memcpy(d + 1, s, n); return n + 1;
}
enum { D_OK, D_SHORT, D_BAD };
static int m_dec(const char* s, size_t n, char* d, size_t cap, size_t* out) {
  if (n < 1) return D_BAD;
  if (s[0] == 'R') { if (n != 6) return D_BAD; uint32_t l; memcpy(&l, s + 1, 4); if (cap < l) return D_SHORT; memset(d, s[5], l); *out = l; return D_OK; }
  if (s[0] != 'S') return D_BAD;
  if (cap < n - 1) return D_SHORT;
  if (n > 1) memcpy(d, s + 1, n - 1);
  *out = n - 1; return D_OK;
}
static int open_streams = 0, wbits = 0, preset = -1; static bool stream_of[1];
extern "C" {
int deflateInit2_(z_streamp z, int level, int, int wb, int, int, const char*, int) { symx_assert(level >= 0 && level <= 9, "the deflate level is in range"); open_streams++; wbits = wb; return Z_OK; }
int deflate(z_streamp z, int) { size_t r = m_enc((const char*)z->next_in, z->avail_in, (char*)z->next_out, z->avail_out); if (r == SIZE_MAX) return Z_OK; z->avail_out -= r; return Z_STREAM_END; }
int deflateEnd(z_streamp) { open_streams--; return Z_OK; }
int inflateInit2_(z_streamp, int wb, const char*, int) { open_streams++; symx_assert(wbits == 0 || wb == wbits, "inflating uses the format that deflating used"); return Z_OK; }
int inflate(z_streamp z, int) { size_t o = 0; int r = m_dec((const char*)z->next_in, z->avail_in, (char*)z->next_out, z->avail_out, &o); if (r == D_OK) { z->avail_out -= o; return Z_STREAM_END; } return r == D_SHORT ? Z_BUF_ERROR : Z_DATA_ERROR; }
int inflateEnd(z_streamp) { open_streams--; return Z_OK; }
size_t ZSTD_compressBound(size_t n) { return m_bound(n); }
size_t ZSTD_compress(void* d, size_t cap, const void* s, size_t n, int) { size_t r = m_enc((const char*)s, n, (char*)d, cap); return r == SIZE_MAX ? (size_t)-70 : r; }
unsigned ZSTD_isError(size_t c) { return c > (size_t)-200; }
size_t ZSTD_decompress(void* d, size_t cap, const void* s, size_t n) { size_t o = 0; int r = m_dec((const char*)s, n, (char*)d, cap, &o); return r == D_OK ? o : r == D_SHORT ? (size_t)-70 : (size_t)-20; }
int LZ4_compressBound(int n) { return m_bound(n); }
int LZ4_compress_fast(const char* s, char* d, int n, int cap, int) { size_t r = m_enc(s, n, d, cap); return r == SIZE_MAX ? 0 : (int)r; }
int LZ4_decompress_safe(const char* s, char* d, int n, int cap) { size_t o = 0; int r = m_dec(s, n, d, cap, &o); return r == D_OK ? (int)o : -1; }
static bool lz_enc;
lzma_ret lzma_easy_encoder(lzma_stream*, uint32_t p, lzma_check) { symx_assert(p <= 9, "the LZMA level is in range"); lz_enc = true; open_streams++; return LZMA_OK; }
lzma_ret lzma_auto_decoder(lzma_stream*, uint64_t, uint32_t) { lz_enc = false; open_streams++; return LZMA_OK; }
lzma_ret lzma_code(lzma_stream* z, lzma_action) {
  if (lz_enc) { size_t r = m_enc((const char*)z->next_in, z->avail_in, (char*)z->next_out, z->avail_out); if (r == SIZE_MAX) return LZMA_OK; z->avail_out -= r; return LZMA_STREAM_END; }
  size_t o = 0; int r = m_dec((const char*)z->next_in, z->avail_in, (char*)z->next_out, z->avail_out, &o); if (r == D_OK) { z->avail_out -= o; return LZMA_STREAM_END; } return r == D_SHORT ? LZMA_OK : LZMA_DATA_ERROR;
}
void lzma_end(lzma_stream*) { open_streams--; }
}
static size_t len() { static const int ls[] = {LENS}; return ls[symx_choice(sizeof ls / sizeof *ls, "len")]; }
static void roundtrip(Compressor* c, const string& s, bool other = false) {
  CHECK(c->IsSupported(), "the compressor is supported");
  size_t n = 77; char* z = c->Compress(s.data(), s.size(), &n); CHECK(z != nullptr, "compression succeeds");
  std::unique_ptr<Compressor> c2; if (other) c2 = c->MakeCompressor();
  size_t m = 77; char* r = (c2 ? c2.get() : c)->Decompress(z, n, &m); CHECK(r != nullptr, "decompression of compressed data succeeds");
  CHECK(same(string_view(r, m), s), "decompression gives the original data back"); CHECK(open_streams == 0, "every codec stream is closed");
  free(z); free(r);
}
static void dummy() {
  bool sum = symx_choice(2, "checksum"); DummyCompressor c(sum); string s = symstr(len(), "data"); roundtrip(&c, s, symx_choice(2, "other"));
  if (!sum) return;
  size_t n = 0; char* z = c.Compress(s.data(), s.size(), &n); CHECK(n == s.size() + 4, "the checksum takes 4 bytes");
  size_t at = symx_choice(n, "at"); unsigned char d = symx_int(1, 255, "change"); z[at] ^= d;
  size_t m = 0; char* r = c.Decompress(z, n, &m); CHECK(r == nullptr, "a changed byte is detected by the checksum"); free(z);
  string shorter = symstr(symx_choice(4, "short"), "rest"); CHECK(c.Decompress(shorter.data(), shorter.size(), &m) == nullptr, "data without room for the checksum is refused");
}
static string key() { static const int kl[] = {0, 1, 5, 16, 17, 31, 32, 33, 40}; int n = kl[symx_choice(9, "klen")]; string k(n, '\0'); for (int i = 0; i < n; i++) k[i] = (char)(i * 37 + 129); return k; }
static void rc4() {
  string k = key(); uint32_t seed = 1 + symx_choice(3, "seed") * 1000; RC4Compressor c(k, seed); string s = symstr(len(), "data");
  int reps = 1 + symx_choice(2, "reps");
  for (int i = 0; i < reps; i++) {
    size_t n = 0; char* z = c.Compress(s.data(), s.size(), &n); CHECK(n == s.size() + 6, "the initialization vector takes 6 bytes"); free(z);
    roundtrip(&c, s, symx_choice(2, "other"));
  }
  size_t m = 0; string shorter = symstr(symx_choice(6, "short"), "rest"); CHECK(c.Decompress(shorter.data(), shorter.size(), &m) == nullptr, "data without room for the vector is refused");
}
static void rc4key() {   // a key of one arbitrary byte
  string k = symstr(1, "key"); k[0] = (char)symx_concretize((unsigned char)k[0]); RC4Compressor c(k, 7); roundtrip(&c, symstr(len(), "data"), true);
}
static void aes() {
  string k = key(); AESCompressor c(k, 1 + symx_choice(2, "seed")); size_t n = symx_choice(50, "len"); string s(n, '\0'); for (size_t i = 0; i < n; i++) s[i] = (char)(i * 91 + 200);
  if (n % 16 == 1 || n % 16 == 15 || n == 16) { size_t at = n - 1 - symx_choice(n < 3 ? n : 3, "at"); char b; symx_make_symbolic(&b, 1, "byte"); s[at] = (char)symx_concretize((unsigned char)b); }
  roundtrip(&c, s, symx_choice(2, "other"));
  size_t z = 0; char* p = c.Compress(s.data(), n, &z); CHECK(z == 16 + (n / 16 + 1) * 16, "whole blocks and a vector are written"); free(p);
  size_t m = 0; static const int bad[] = {0, 1, 16, 31, 33, 47}; string q(bad[symx_choice(6, "bad")], 'q'); CHECK(c.Decompress(q.data(), q.size(), &m) == nullptr, "data of a wrong length is refused");
}
static void aesbad() {   // arbitrary ciphertext: a result within bounds or a refusal
  AESCompressor c("secret", 5); string s(48, 'x'); size_t at = symx_choice(48, "at"); char b; symx_make_symbolic(&b, 1, "byte"); s[at] = (char)symx_concretize((unsigned char)b);
  size_t m = 0; char* r = c.Decompress(s.data(), s.size(), &m); if (r) { CHECK(m <= 48, "no more data than ciphertext"); free(r); }
}
static std::unique_ptr<Compressor> ext() {
  switch (symx_choice(8, "codec")) {
    case 0: return std::make_unique<ZLibCompressor>(symx_choice(10, "level"), ZLibCompressor::METADATA_NONE);
    case 1: return std::make_unique<ZLibCompressor>(6, ZLibCompressor::METADATA_ADLER32);
    case 2: return std::make_unique<ZLibCompressor>(6, ZLibCompressor::METADATA_CRC32);
    case 3: return std::make_unique<ZStdCompressor>(3);
    case 4: return std::make_unique<LZ4Compressor>(1);
    case 5: return std::make_unique<LZMACompressor>(symx_choice(10, "level"), LZMACompressor::METADATA_NONE);
    case 6: return std::make_unique<LZMACompressor>(6, LZMACompressor::METADATA_CRC32);
    default: return std::make_unique<LZMACompressor>(6, LZMACompressor::METADATA_SHA256);
  }
}
static void wrap() {
  auto c = ext(); string s; int kind = symx_choice(2, "kind");
  if (kind) { static const int ls[] = {7, 79, 80, 81, 200, 1000, 5000}; s = string(ls[symx_choice(7, "run")], 'r'); symx_make_symbolic(&s[0], 1, "run"); char b = s[0]; for (auto& x : s) x = b; }
  else s = symstr(len(), "data");
  roundtrip(c.get(), s, symx_choice(2, "other"));
}
static void wrapbad() {   // the codec fails, or the data is not a codec's output
  auto c = ext(); string s = symstr(len(), "data"); size_t n = 0;
  enc_fail = 1; char* z = c->Compress(s.data(), s.size(), &n); CHECK(z == nullptr, "a failure of the codec is reported"); CHECK(open_streams == 0, "every codec stream is closed"); enc_fail = 0;
  if (dynamic_cast<ZStdCompressor*>(c.get()) || dynamic_cast<LZ4Compressor*>(c.get())) return;   // they retry with buffers of up to 2 GiB
  string b = symstr(6, "bad"); symx_assume(b[0] != 'S'); symx_assume(b[0] != 'R'); char* r = c->Decompress(b.data(), b.size(), &n); CHECK(r == nullptr, "bad data is refused"); CHECK(open_streams == 0, "every codec stream is closed");
}
extern "C" void symx_main(void) { PART(); symx_reach("end"); }
