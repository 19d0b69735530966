// A storage backend of the library built for one platform, behind plain functions (each platform build lives in its
// own namespace, as the platform is selected by the preprocessor).
#pragma once
#include <functional>
#include <cstdint>
struct StorageOps
{
  std::function<void()> begin, reset;
  std::function<uint8_t(unsigned)> read;
  std::function<uint8_t(unsigned, uint8_t, uint8_t *)> readBytes;
  std::function<void(unsigned, uint8_t)> write;
  std::function<void(unsigned, const uint8_t *, uint8_t)> writeBytes;
};
template <class S> StorageOps storageOps(S *s)
{
  StorageOps o;
  o.begin = [s] { s->begin(); };
  o.reset = [s] { s->reset(); };
  o.read = [s](unsigned a) { return s->read(a); };
  o.readBytes = [s](unsigned a, uint8_t n, uint8_t *d) { return s->readBytes(a, n, d); };
  o.write = [s](unsigned a, uint8_t v) { s->write(a, v); };
  o.writeBytes = [s](unsigned a, const uint8_t *d, uint8_t n) { s->writeBytes(a, d, n); };
  return o;
}
StorageOps dxStorage();
StorageOps dueStorage();
StorageOps rpStorage();
StorageOps espStorage();
