// Long message workloads: nodes on a bus with fault injection per receiver, and the record of what each delivered.
#pragma once
#include "model.h"

namespace vm {

enum { LM_INCOMPLETE = VLCB::LONG_MESSAGE_INCOMPLETE, LM_COMPLETE = VLCB::LONG_MESSAGE_COMPLETE, LM_SEQ = VLCB::LONG_MESSAGE_SEQUENCE_ERROR,
       LM_TIMEOUT = VLCB::LONG_MESSAGE_TIMEOUT_ERROR, LM_CRC = VLCB::LONG_MESSAGE_CRC_ERROR, LM_TRUNC = VLCB::LONG_MESSAGE_TRUNCATED };

struct Delivery { unsigned long t; std::vector<uint8_t> bytes; int stream, status; };

struct LmNode
{
  Node *n = nullptr;
  std::vector<uint8_t> streams;
  uint8_t *buf = nullptr; unsigned bufLen = 0;
  std::vector<Delivery> got;
  std::function<void(const Delivery &)> onDelivery;
  unsigned long timeout = 5000;
  bool ex = false;
  void tick()
  {
    Node *p = Node::current; Node::current = n;
    if (ex) n->lmsEx->process(); else n->lms->process();
    Node::current = p;
  }
};
inline LmNode *lmNodes[4];
template <int I> void lmHandler(void *frag, unsigned int len, byte stream, byte status)
{
  LmNode &l = *lmNodes[I];
  if (!l.ex && frag != l.buf) violation("buffer", "handler called with a buffer that is not the subscribed one");
  if (len > l.bufLen) violation("buffer-length", "handler called with %u bytes, buffer has %u", len, l.bufLen);
  // a part is handed over only because the subscribed buffer is full
  if (status == LM_INCOMPLETE && len != l.bufLen) violation("part-before-full", "part of %u bytes handed over, the buffer has room for %u", len, l.bufLen);
  Delivery d; d.t = sim::now; d.stream = stream; d.status = status;
  d.bytes.assign((uint8_t *)frag, (uint8_t *)frag + len);
  observe(mix(stream, mix(status, hashStr(std::string(d.bytes.begin(), d.bytes.end())))));
  char b[32]; snprintf(b, sizeof b, "status_%d", status); count(b);
  l.got.push_back(d);
  if (l.onDelivery) l.onDelivery(d);
}
inline void lmSubscribe(int i)
{
  LmNode &l = *lmNodes[i];
  uint8_t *ids = (uint8_t *)malloc(l.streams.size() + 1); memcpy(ids, l.streams.data(), l.streams.size());
  typedef void (*H)(void *, unsigned int, byte, byte);
  static const H hs[4] = {lmHandler<0>, lmHandler<1>, lmHandler<2>, lmHandler<3>};
  if (l.ex) l.n->lmsEx->subscribe(ids, (byte)l.streams.size(), hs[i]);
  else { l.buf = (uint8_t *)malloc(l.bufLen); l.n->lms->subscribe(ids, (byte)l.streams.size(), l.buf, l.bufLen, hs[i]); }
}
inline std::vector<uint8_t> lmContent(unsigned len)
{
  std::vector<uint8_t> v(len);
  int k = R.range(0, 3);
  for (auto &b : v) b = k == 0 ? R.byte() : k == 1 ? 0 : k == 2 ? (uint8_t)R.range(0, 1) : (uint8_t)R.range('a', 'z');
  return v;
}
// CRC-16/X.25 with its bytes exchanged, as used in the header packet.
inline unsigned lmCrc(const std::vector<uint8_t> &v)
{
  unsigned crc = 0xFFFF;
  for (uint8_t b : v) { crc ^= b; for (int i = 0; i < 8; i++) crc = crc & 1 ? crc >> 1 ^ 0x8408 : crc >> 1; }
  crc = ~crc & 0xFFFF;
  return (crc << 8 | crc >> 8) & 0xFFFF;
}
inline unsigned fragments(unsigned len) { return (len + 4) / 5; }

// Frames of one message as the protocol prescribes them.
inline std::vector<Msg> lmFrames(const std::vector<uint8_t> &v, int stream, int crc = 0)
{
  std::vector<Msg> r;
  r.push_back(Msg({0xE9, stream, 0, (int)(v.size() >> 8) & 255, (int)v.size() & 255, crc >> 8, crc & 255, 0}));
  for (unsigned f = 0; f < fragments((unsigned)v.size()); f++)
  {
    Msg m({0xE9, stream, (int)(f + 1) & 255, 0, 0, 0, 0, 0});
    for (unsigned i = 0; i < 5 && f * 5 + i < v.size(); i++) m.d[3 + i] = v[f * 5 + i];
    r.push_back(m);
  }
  return r;
}

// Checks the frames of one stream as they are put on the bus.
struct StreamMonitor
{
  bool active = false; unsigned len = 0, crc = 0; uint8_t seq = 0; std::vector<uint8_t> bytes;
  std::deque<std::vector<uint8_t>> expect; // accepted messages not yet fully sent
  uint64_t completed = 0;
  void frame(const Msg &m)
  {
    if (!active)
    {
      if (expect.empty()) violation("unexpected-fragment", "frame %s but no message of this stream is being sent", m.str().c_str());
      if (m.d[2] != 0) violation("no-header", "message of stream %d starts with %s", m.d[1], m.str().c_str());
      len = m.d[3] << 8 | m.d[4]; crc = m.d[5] << 8 | m.d[6];
      if (len != expect.front().size()) violation("header-length", "header %s of a message of %zu bytes", m.str().c_str(), expect.front().size());
      if (m.d[7] != 0) violation("header-flags", "header %s", m.str().c_str());
      active = true; bytes.clear(); seq = 1;
    }
    else
    {
      if (m.d[2] != seq) violation("fragment-number", "frame %s, expected sequence number %d", m.str().c_str(), seq);
      seq++;
      for (int i = 0; i < 5 && bytes.size() < len; i++) bytes.push_back(m.d[3 + i]);
    }
    if (bytes.size() >= len)
    {
      if (bytes != expect.front()) violation("sent-bytes", "stream %d sent %s instead of %s", m.d[1], hex(bytes.data(), bytes.size()).c_str(), hex(expect.front().data(), expect.front().size()).c_str());
      // receivers that check CRCs take zero as 'no CRC'
      if (crc != 0 && crc != lmCrc(bytes)) violation("header-crc", "stream %d: header has CRC %04X, that of the %zu bytes is %04X", m.d[1], crc, bytes.size(), lmCrc(bytes));
      expect.pop_front(); active = false; completed++;
      observe(len);
    }
  }
};
}
