// GridConnect text encoding and the serial transport, against an independent reference codec and stream splitter.
#include "model.h"
#include "GridConnect.h"
#include "SerialGC.h"
using namespace vm;

namespace {
struct Ref { bool ok = false; Frame f; };
int hexv(char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }

// Reference decoder from the documented layout (SIDH SIDL [EIDH EIDL] register order).
Ref refDecode(const std::string &s)
{
  Ref r; memset(&r.f, 0, sizeof r.f);
  if (s.size() < 2 || s[0] != ':' || (s[1] != 'S' && s[1] != 'X')) return r;
  bool ext = s[1] == 'X'; size_t idc = ext ? 8 : 4;
  if (s.size() < 2 + idc + 2) return r;
  uint64_t v = 0;
  for (size_t i = 0; i < idc; i++) { int h = hexv(s[2 + i]); if (h < 0) return r; v = v << 4 | h; }
  char t = s[2 + idc];
  if (t != 'N' && t != 'R') return r;
  if (s.back() != ';') return r;
  size_t dl = s.size() - (2 + idc + 1) - 1;
  if (dl % 2 || dl > 16) return r;
  for (size_t i = 0; i < dl; i++) if (hexv(s[3 + idc + i]) < 0) return r;
  r.f.ext = ext; r.f.rtr = t == 'R'; r.f.len = dl / 2;
  for (size_t i = 0; i < dl / 2; i++) r.f.data[i] = (uint8_t)(hexv(s[3 + idc + 2 * i]) << 4 | hexv(s[4 + idc + 2 * i]));
  if (ext) { unsigned sidh = v >> 24 & 255, sidl = v >> 16 & 255; r.f.id = (uint32_t)sidh << 21 | (uint32_t)(sidl >> 5) << 18 | (uint32_t)(sidl & 3) << 16 | (v & 0xFFFF); }
  else r.f.id = v >> 5;
  r.ok = true;
  return r;
}
std::string refEncode(const Frame &f)
{
  char b[64]; std::string s;
  if (f.ext) { unsigned sidh = f.id >> 21 & 255, sidl = (f.id >> 18 & 7) << 5 | (f.id >> 16 & 3); snprintf(b, sizeof b, ":X%02X%02X%02X%02X", sidh, sidl, f.id >> 8 & 255, f.id & 255); }
  else snprintf(b, sizeof b, ":S%02X%02X", f.id >> 3 & 255, (f.id & 7) << 5);
  s = b; s += f.rtr ? 'R' : 'N';
  for (int i = 0; i < f.len; i++) { snprintf(b, sizeof b, "%02X", f.data[i]); s += b; }
  return s + ";";
}
Frame randomFrame()
{
  Frame f; memset(&f, 0, sizeof f);
  f.ext = R.chance(35); f.rtr = R.chance(20);
  f.id = f.ext ? (uint32_t)(R.chance(30) ? 1ull << R.below(29) : R.next() & 0x1FFFFFFF) : (uint32_t)(R.chance(30) ? 1u << R.below(11) : R.next() & 0x7FF);
  f.len = (uint8_t)R.range(0, 8);
  for (int i = 0; i < f.len; i++) f.data[i] = R.chance(30) ? R.pick({0, 9, 10, 0x0A, 0xA0, 0xFF, 0x99, 0x3A, 0x3B}) : R.byte();
  return f;
}
bool same(const Frame &a, const Frame &b) { return a.id == b.id && a.ext == b.ext && a.rtr == b.rtr && a.len == b.len && !memcmp(a.data, b.data, a.len > 8 ? 8 : a.len); }
std::string show(const std::string &s) { std::string r; char b[8]; for (unsigned char c : s) if (c >= 32 && c < 127) r += (char)c; else { snprintf(b, sizeof b, "\\x%02x", c); r += b; } return r; }

// Decode from a heap block of exactly the text's size, so that any read beyond it is caught.
bool decode(const std::string &s, Frame &f)
{
  size_t z = strlen(s.c_str()) + 1;
  char *p = (char *)malloc(z); memcpy(p, s.c_str(), z);
  Frame *q = (Frame *)malloc(sizeof(Frame)); memset((void *)q, 0, sizeof *q);
  bool r = VLCB::decodeGridConnect(p, q);
  f = *q;
  if (memcmp(p, s.c_str(), z)) violation("decode-changes-text", "decoding changed its input");
  free(p); free(q);
  return r;
}
void checkDecode(const std::string &raw)
{
  std::string s = raw.c_str(); // text ends at the first NUL
  Frame f; bool r = decode(s, f);
  Ref want = refDecode(s);
  observe(mix(hashStr(s), r));
  if (r != want.ok) violation(r ? "malformed-accepted" : "wellformed-rejected", "decode of \"%s\" returned %d", show(s).c_str(), r);
  if (r && !same(f, want.f)) violation("decoded-differently", "decode of \"%s\" gave %s, expected %s", show(s).c_str(), str(f).c_str(), str(want.f).c_str());
  count(r ? "decoded_ok" : "decode_rejected");
}
std::string mutate(std::string s)
{
  int k = R.range(1, 3);
  for (int i = 0; i < k && !s.empty(); i++)
  {
    size_t p = R.below(s.size());
    switch (R.range(0, 6))
    {
      case 0: s.erase(p, 1); break;
      case 1: s.insert(p, 1, (char)R.pick({'0', 'F', 'G', ';', ':', ' ', 'a', 'N', '@', '/', '`'})); break;
      case 2: s[p] = (char)R.pick({'G', 'g', 'a', 'f', '/', ':', '@', '`', ';', 'S', 'X', 'N', 'R', ' ', '\n', '0', 'A', '-', '+', 'x'}); break;
      case 3: s[p] = (char)R.byte(); break;
      case 4: s.resize(p); break;
      case 5: s += s.substr(p); break;
      case 6: { static const char *hx = "0123456789ABCDEF"; s.insert(p, 1, hx[R.below(16)]); break; }
    }
  }
  return s;
}
std::string noise()
{
  std::string s; int n = R.chance(85) ? R.range(0, 12) : R.range(20, 120);
  static const char *near = ":;SXNR0123456789ABCDEFabcdefnrsx \r\n";
  int mode = R.range(0, 2);
  for (int i = 0; i < n; i++) s += mode == 0 ? (char)R.byte() : mode == 1 ? near[R.below(strlen(near))] : "0123456789ABCDEF"[R.below(16)];
  return s;
}

struct Port2 { Serial_T *port; VLCB::SerialGC *gc; std::string fed; std::vector<Frame> got; };
}

CHECK_DEF(C17, 30000, 300000, "A case either round-trips random frames through the codec (exact-size buffers), decodes mutated and random text, or runs one or two serial transports over byte streams of well-formed, damaged and random text delivered in random chunks. Coverage counts frames, texts and stream segments.")
{
  int mode = R.range(0, 2);
  if (mode == 0)
  {
    for (int k = 0; k < 30; k++)
    {
      Frame f = randomFrame();
      int bad = R.chance(12) ? R.range(1, 3) : 0;
      if (bad == 1) f.len = (uint8_t)R.range(9, 255);
      if (bad >= 2) { f.id = f.ext ? (uint32_t)(0x20000000u << R.below(3)) | (uint32_t)R.below(1000) : (uint32_t)(0x800u << R.below(20)) | (uint32_t)R.below(0x800); }
      if (bad == 1 && f.rtr && R.chance(50)) f.rtr = false;
      std::string want = bad ? "" : refEncode(f);
      size_t z = bad ? 29 : want.size() + 1;
      char *buf = (char *)malloc(z); memset(buf, 0x5A, z);
      Frame in = f;
      bool r = VLCB::encodeGridConnect(buf, &in);
      observe(mix(f.id, Msg(f).h()));
      if (!bad)
      {
        if (!r) violation("encode-refused", "frame %s was not encoded", str(f).c_str());
        if (strnlen(buf, z) == z || want != buf) violation("encoded-differently", "frame %s encoded as \"%s\", expected \"%s\"", str(f).c_str(), show(std::string(buf, strnlen(buf, z))).c_str(), want.c_str());
        if (!same(in, f)) violation("encode-changes-frame", "encoding changed the frame");
        Frame g; 
        if (!decode(buf, g) || !same(f, g)) violation("round-trip", "frame %s came back as %s", str(f).c_str(), str(g).c_str());
        count("round_trips");
      }
      else
      {
        if (r || buf[0]) violation("invalid-frame-encoded", "frame id %08X ext %d length %d was encoded: \"%s\"", f.id, f.ext, f.len, show(std::string(buf, strnlen(buf, z))).c_str());
        count("invalid_frames");
      }
      free(buf);
      state(mix(f.ext * 2 + f.rtr, f.len));
    }
    return;
  }
  if (mode == 1)
  {
    for (int k = 0; k < 40; k++)
    {
      std::string s;
      if (R.chance(15)) s = refEncode(randomFrame());
      else if (R.chance(70)) s = mutate(refEncode(randomFrame()));
      else if (R.chance(50)) s = noise();
      else { s = R.chance(50) ? ":S" : ":X"; int n = R.range(0, 28); for (int i = 0; i < n; i++) s += "0123456789ABCDEFNR;"[R.below(19)]; if (R.chance(60)) s += ";"; }
      checkDecode(s);
    }
    return;
  }
  // Serial streams
  Serial_T second; bool two = R.chance(40);
  std::vector<Port2> ports;
  ports.push_back({&Serial, new VLCB::SerialGC, "", {}});
  if (two) { ports.push_back({&second, new VLCB::SerialGC(second), "", {}}); count("two_ports"); }
  for (auto &p : ports) if (!p.gc->begin()) violation("begin", "begin() failed");
  sim::serialOut.clear(); sim::otherPorts[&second].out.clear();
  std::vector<std::string> sent(ports.size()); std::vector<unsigned> attempts(ports.size()), refused(ports.size());
  std::vector<std::string> text(ports.size());
  for (size_t p = 0; p < ports.size(); p++)
  {
    int segs = R.range(3, 25);
    for (int i = 0; i < segs; i++)
    {
      std::string s = refEncode(randomFrame());
      if (R.chance(25)) for (char &c : s) if (R.chance(50)) c = (char)tolower(c);
      if (R.chance(25)) s = mutate(s);
      if (R.chance(30)) text[p] += noise();
      text[p] += s;
    }
    if (R.chance(15)) text[p] += std::string(R.range(1, 200), R.pick({'0', ':', ';', 'F', '\0'}));
    text[p] += refEncode(randomFrame());
  }
  std::vector<size_t> pos(ports.size(), 0);
  auto poll = [&](size_t i) {
    Port2 &p = ports[i];
    if (p.gc->available()) { p.got.push_back(p.gc->getNextCanFrame()); }
  };
  bool more = true;
  while (more)
  {
    more = false;
    for (size_t i = 0; i < ports.size(); i++)
    {
      auto &q = ports[i].port == &Serial ? sim::serialIn : sim::otherPorts[ports[i].port].in;
      size_t chunk = R.chance(50) ? R.range(1, 3) : R.range(1, 40);
      for (size_t k = 0; k < chunk && pos[i] < text[i].size(); k++) q.push_back((uint8_t)text[i][pos[i]++]);
      int polls = R.range(0, 40);
      for (int k = 0; k < polls; k++) poll(i);
      if (R.chance(15))
      {
        Frame f = randomFrame();
        bool bad = R.chance(15);
        if (bad) f.len = 9;
        Frame c = f;
        bool r = ports[i].gc->sendCanFrame(&c);
        attempts[i]++; refused[i] += bad;
        if (r == bad) violation("send-result", "sendCanFrame of %s returned %d", str(f).c_str(), r);
        if (!bad) sent[i] += refEncode(f);
        count("frames_sent");
      }
      if (pos[i] < text[i].size() || !q.empty()) more = true;
    }
  }
  for (size_t i = 0; i < ports.size(); i++)
  {
    poll(i); poll(i);
    // reference: every ':' starts afresh, ';' ends
    std::vector<Frame> want; std::string cur; bool in = false;
    for (char ch : text[i])
    {
      char c = (unsigned char)ch < 128 ? (char)toupper((unsigned char)ch) : ch;
      if (c == ':') { cur = ":"; in = true; continue; }
      if (!in) continue;
      cur += c;
      if (c == ';') { in = false; if (cur.find('\0') == std::string::npos) { Ref r = refDecode(cur); count(r.ok ? "segments_good" : "segments_bad"); if (r.ok) want.push_back(r.f); } }
    }
    for (auto &f : ports[i].got) observe(mix(f.id, Msg(f).h()));
    observe(want.size());
    size_t k = 0;
    for (; k < want.size() && k < ports[i].got.size(); k++)
      if (!same(want[k], ports[i].got[k])) violation("stream-frame", "port %zu frame %zu delivered as %s, expected %s; stream \"%s\"", i, k, str(ports[i].got[k]).c_str(), str(want[k]).c_str(), show(text[i]).c_str());
    if (want.size() != ports[i].got.size()) violation(want.size() > ports[i].got.size() ? "stream-lost" : "stream-extra", "port %zu delivered %zu frames, expected %zu; stream \"%s\"", i, ports[i].got.size(), want.size(), show(text[i]).c_str());
    std::string &o = ports[i].port == &Serial ? sim::serialOut : sim::otherPorts[ports[i].port].out;
    if (o != sent[i]) violation("serial-output", "port %zu sent \"%s\", expected \"%s\"", i, show(o).c_str(), show(sent[i]).c_str());
    if (ports[i].gc->transmitCounter() != attempts[i]) violation("transmit-counter", "transmit counter %u after %u frames", ports[i].gc->transmitCounter(), attempts[i]);
    if (ports[i].gc->transmitErrorCounter() != refused[i]) violation("transmit-error-counter", "transmit error counter %u after %u frames that cannot be sent", ports[i].gc->transmitErrorCounter(), refused[i]);
    if (ports[i].gc->receiveCounter() - ports[i].gc->receiveErrorCounter() != want.size()) violation("receive-counter", "receive counter %u with %u errors after %zu frames", ports[i].gc->receiveCounter(), ports[i].gc->receiveErrorCounter(), want.size());
    state(mix(want.size(), text[i].size()));
  }
  count("streams");
}
