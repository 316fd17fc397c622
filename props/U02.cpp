// link: base
#include <cstring>
#include <deque>
#include <utilities/endian.hpp>
#include <utilities/quantization.hpp>
#include <utilities/ring_buffer.hpp>
#include <utilities/slip.hpp>
#include "pbt.hpp"
using pbt::Case;
using Bytes = std::vector<uint8_t>;
namespace su = s2e::utilities;

static Bytes AnyBytes(Case& c, size_t lo, size_t hi) {
  Bytes b((size_t)c.Int((int64_t)lo, (int64_t)hi));
  const bool special = c.Bool();
  for (auto& x : b) x = special ? c.Of<uint8_t>({0xc0, 0xdb, 0xdc, 0xdd, 0x00, 0xff, 0x41}) : (uint8_t)c.Int(0, 255);
  return b;
}
static std::string Hex(const Bytes& b) {
  std::string s;
  char t[4];
  for (auto x : b) snprintf(t, sizeof t, "%02x", x), s += t;
  return s;
}
static Bytes RefEncode(const Bytes& in) {
  Bytes o;
  for (auto x : in) {
    if (x == 0xc0) o.push_back(0xdb), o.push_back(0xdc);
    else if (x == 0xdb) o.push_back(0xdb), o.push_back(0xdd);
    else o.push_back(x);
  }
  o.push_back(0xc0);
  return o;
}
static void SlipRoundTrip(Case& c) {
  // a stream of several frames, split at the delimiter
  const int n = (int)c.Int(1, 4);
  Bytes stream;
  std::vector<Bytes> frames;
  for (int i = 0; i < n; i++) {
    const Bytes in = c.Int(0, 29) ? AnyBytes(c, 0, 40) : AnyBytes(c, 200, 1500);
    frames.push_back(in);
    c.Note("frame ", Hex(in));
    if (RefEncode(in).size() > in.size() + 1) c.NonTrivial();
    const Bytes e = su::encode_slip(in);
    c.Check(e == RefEncode(in), "encode", "encoded ", Hex(e), " expected ", Hex(RefEncode(in)));
    c.Check(su::decode_slip(e) == in, "round-trip", Hex(e), " decodes to ", Hex(su::decode_slip(e)));
    Bytes h = su::encode_slip_with_header(in), want = e;
    want.insert(want.begin(), 0xc0);
    c.Check(h == want, "encode-header", Hex(h));
    c.Check(su::decode_slip_with_header(h) == in, "round-trip-header", Hex(h));
    for (size_t k = 0; k + 1 < e.size(); k++) c.Check(e[k] != 0xc0, "delimiter-in-payload");
    // whatever follows the delimiter belongs to the next frame
    Bytes tail = e;
    const Bytes extra = AnyBytes(c, 0, 6);
    tail.insert(tail.end(), extra.begin(), extra.end());
    c.Check(su::decode_slip(tail) == in, "trailing-data", Hex(tail));
    // no delimiter yet: the part received so far decodes to a prefix when it does not end inside an escape
    Bytes part(e.begin(), e.begin() + c.Int(0, (int64_t)e.size() - 1));
    if (part.empty() || part.back() != 0xdb) {
      const Bytes d = su::decode_slip(part);
      c.Check(d.size() <= in.size() && std::equal(d.begin(), d.end(), in.begin()), "prefix", Hex(part), " decodes to ", Hex(d));
    }
    stream.insert(stream.end(), e.begin(), e.end());
  }
  size_t at = 0;
  for (auto& f : frames) {
    Bytes rest(stream.begin() + (long)at, stream.end());
    c.Check(su::decode_slip(rest) == f, "stream");
    while (stream[at] != 0xc0) at++;
    at++;
  }
}
static void SlipMalformed(Case& c) {
  Bytes in = AnyBytes(c, 0, 24);
  in.shrink_to_fit();
  c.Note("in ", Hex(in));
  c.NonTrivial(!in.empty());
  const Bytes d = su::decode_slip(in);
  c.Check(d.size() <= in.size(), "malformed-length");
  const Bytes h = su::decode_slip_with_header(in);
  c.Check(h.size() <= in.size(), "malformed-length");
}
static void Endian(Case& c) {
  const size_t n = (size_t)c.Int(0, 16);
  Bytes src(n + 1), dst(n + 8, 0xEE);
  for (size_t i = 0; i < n; i++) src[i] = (uint8_t)c.Int(0, 255);
  src[n] = 0x77;
  c.Note("size ", n, " data ", Hex(src));
  c.NonTrivial(n > 1);
  void* r = su::endian_memcpy(dst.data() + 4, src.data(), n);
  c.Check(r == dst.data() + 4, "endian-return");
  for (size_t i = 0; i < n; i++) c.Check(dst[4 + i] == src[n - 1 - i], "endian-order", "byte ", i);
  for (size_t i = 0; i < 4; i++) c.Check(dst[i] == 0xEE && dst[4 + n + i] == 0xEE, "endian-bounds", "wrote outside the destination, size ", n);
  Bytes back(n + 1, 0);
  su::endian_memcpy(back.data(), dst.data() + 4, n);
  c.Check(std::equal(back.begin(), back.begin() + (long)n, src.begin()), "endian-involution");
  const double v = c.Signed(1e-300, 1e300);
  const int64_t k = (int64_t)c.Raw(0);
  uint8_t o[8];
  uint64_t bits = 0;
  memcpy(&bits, &v, 8);
  su::endian_memcpy(o, &v, 8);
  for (int i = 0; i < 8; i++) c.Check(o[i] == (uint8_t)(bits >> (56 - 8 * i)), "big-endian-double");
  su::endian_memcpy(o, &k, 8);
  for (int i = 0; i < 8; i++) c.Check(o[i] == (uint8_t)((uint64_t)k >> (56 - 8 * i)), "big-endian-int");
}
static void Quantize(Case& c) {
  const double res = c.Bool() ? c.LogReal(1e-9, 1e3) : c.Of<double>({0.1, 0.25, 1.0, 0.01, 3.0, 1e-6});
  double ratio;
  switch (c.Int(0, 3)) {
    case 0: ratio = (double)c.Int(-1000, 1000) + c.Of<double>({0.0, 0.5, -0.5, 0.999, 0.001}); break;
    case 1: ratio = c.Signed(1e-6, 1e4); break;
    case 2: ratio = c.Signed(1e4, 1e12); c.Label("many steps"); break;
    default: ratio = 0;
  }
  const double x = ratio * res;
  c.Note("x=", x, " res=", res);
  c.NonTrivial(std::fabs(ratio) > 1);
  const double q = su::quantization(x, res), tol = 1e-9 + 4e-16 * std::fabs(ratio);
  const double steps = q / res;
  c.Near(steps, std::round(steps), tol, 0, "on-grid", "result is a multiple of the resolution");
  c.Check(std::fabs(q - x) <= res * (1 + tol), "within-a-step", "quantised ", x, " to ", q);
  c.Check(std::fabs(q) <= std::fabs(x) * (1 + 1e-12), "toward-zero", "quantised ", x, " to ", q);
  c.Check(q == 0 || (q > 0) == (x > 0), "sign");
  const double y = x + c.Real(0, 3) * res;
  c.Check(su::quantization(y, res) >= q, "monotone");
  c.Near(su::quantization_float(x, res), (double)(float)q, 0, 1e-6, "float");
}
static void Ring(Case& c) {
  const unsigned size = (unsigned)c.Int(1, 40);
  su::RingBuffer rb((int)size);
  std::deque<uint8_t> model;
  uint8_t next = 1;
  const int ops = (int)c.Int(1, 60);
  c.Note("size ", size);
  unsigned wrapped = 0;
  for (int i = 0; i < ops; i++) {
    if (c.Bool()) {
      const unsigned room = size - 1 - (unsigned)model.size();
      const unsigned n = (unsigned)c.EdgeInt(0, room), off = (unsigned)c.Int(0, 5);
      Bytes b(off + n);
      for (unsigned k = 0; k < n; k++) b[off + k] = next, model.push_back(next++);
      c.Note("w", n, "+", off);
      c.Check(rb.Write(b.data(), off, n) == (int)n, "write-count");
      wrapped += n;
    } else {
      const unsigned n = (unsigned)c.Int(0, size + 4), off = (unsigned)c.Int(0, 5);
      Bytes b(off + n + 4, 0xEE);
      c.Note("r", n, "+", off);
      const int got = rb.Read(b.data(), off, n);
      const int want = (int)std::min<size_t>(n, model.size());
      c.Check(got == want, "read-count", "read ", got, " of ", want, " available");
      for (int k = 0; k < got; k++) {
        c.Check(b[off + (unsigned)k] == model.front(), "order", "byte ", k, " is ", (int)b[off + (unsigned)k], " expected ", (int)model.front());
        model.pop_front();
      }
      for (unsigned k = 0; k < off; k++) c.Check(b[k] == 0xEE, "read-before-offset");
      for (size_t k = off + (unsigned)got; k < b.size(); k++) c.Check(b[k] == 0xEE, "read-past-count");
    }
  }
  c.NonTrivial(wrapped > size);
}
static void RingOverflow(Case& c) {
  const unsigned size = (unsigned)c.Int(1, 20);
  su::RingBuffer rb((int)size);
  for (int i = 0, n = (int)c.Int(1, 20); i < n; i++) {
    Bytes b((size_t)c.Int(0, 60));
    if (c.Bool()) rb.Write(b.data(), 0, (unsigned)b.size());
    else {
      const int got = rb.Read(b.data(), 0, (unsigned)b.size());
      c.Check(got >= 0 && got < (int)size + (size == 1), "overflow-count", "read ", got, " from a buffer of ", size);
    }
  }
  c.NonTrivial();
}
int main(int argc, char** argv) {
  return pbt::Main(argc, argv, "U02",
                   "Byte strings biased to the framing bytes, frame streams cut anywhere, malformed frames, copies of 0-16 bytes, numbers up to 1e12 "
                   "quantisation steps, ring-buffer read/write histories. Non-trivial: the frame needs escaping, the copy has several bytes, the "
                   "number spans more than one step, the history wraps the ring.",
                   {{"slip_round_trip", SlipRoundTrip, 60000, 1000000, 500},
                    {"slip_malformed", SlipMalformed, 40000, 1000000, 200},
                    {"endian", Endian, 40000, 500000, 500},
                    {"quantization", Quantize, 100000, 2000000, 1000},
                    {"ring_buffer", Ring, 40000, 800000, 500},
                    {"ring_overflow", RingOverflow, 20000, 300000, 500}});
}
