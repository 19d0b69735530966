// Storage backends over models of their devices: a byte-store oracle over random operation histories, re-opening,
// power loss inside a write, and the access patterns of a running module.
#include "model.h"
#include "EepromInternalStorage.h"
#include "EepromExternalStorage.h"
#include "C22_ops.h"
#include "../harness/platform/devices.h"
using namespace vm;

namespace {
struct PowerLoss {};
long budget = -1; // device operations until the power fails
void spend() { if (budget >= 0 && budget-- == 0) { budget = -1; throw PowerLoss(); } }

const uint32_t FLASH_BASE = 0x20000 - 0x800;
std::vector<uint8_t> flash, due, rpFlash, rpRam;
bool rpOpen = false; std::vector<unsigned> rpDirty;
uint64_t flashErases = 0;
uint8_t *cell(uint32_t a, const char *what)
{
  if (a < FLASH_BASE || a >= FLASH_BASE + 0x800) violation("outside-storage-area", "flash %s of address %06X outside the storage area", what, a);
  return &flash[a - FLASH_BASE];
}
}
namespace dev {
uint8_t flashRead(uint32_t a) { return *cell(a, "read"); }
uint8_t flashErase(uint32_t a, unsigned pages)
{
  if (a % 512) violation("flash-erase-unaligned", "erase of unaligned address %06X", a);
  flashErases++;
  for (unsigned i = 0; i < pages * 512; i++) { if (i % 128 == 0) spend(); *cell(a + i, "erase") = 0xFF; }
  return 0;
}
void flashWrite(uint32_t a, uint8_t v) { if (a % 32 == 0) spend(); *cell(a, "write") &= v; }
static uint8_t *dueCell(uint32_t a) { if (a >= due.size()) violation("outside-storage-area", "Due flash access at %u", a); return &due[a]; }
uint8_t dueRead(uint32_t a) { return *dueCell(a); }
uint8_t *dueAddress(uint32_t a) { return dueCell(a); }
void dueWrite(uint32_t a, uint8_t v) { *dueCell(a) = v; }
void rpBegin(unsigned size)
{
  if (size > rpFlash.size()) violation("outside-storage-area", "EEPROM.begin(%u)", size);
  rpOpen = true; rpRam.assign(rpFlash.begin(), rpFlash.begin() + size); rpDirty.clear();
}
static void rpCheck(unsigned a) { if (!rpOpen || a >= rpRam.size()) violation("outside-storage-area", "EEPROM access at %u %s", a, rpOpen ? "" : "before EEPROM.begin()"); }
uint8_t rpRead(unsigned a) { rpCheck(a); return rpRam[a]; }
void rpWrite(unsigned a, uint8_t v) { rpCheck(a); rpRam[a] = v; rpDirty.push_back(a); }
void rpCommit() { if (!rpDirty.empty()) spend(); for (unsigned a : rpDirty) rpFlash[a] = rpRam[a]; rpDirty.clear(); }
}

CHECK_DEF(C22, 12000, 60000, "A case picks a storage backend (on-chip EEPROM, I2C EEPROM, AVR Dx flash, Due flash, flash-emulated EEPROM) over a device model with random contents, and performs random single/block reads and writes, resets, re-openings and power failures inside writes; every read and the whole device contents are compared with a byte-store model. Coverage counts (backend, operation, alignment, length) states.")
{
  static TwoWire secondWire;
  int kind = R.range(0, 5);
  unsigned size = 4096;
  StorageOps s; std::vector<uint8_t> *mem = nullptr; unsigned page = 1;
  flash.assign(0x800, 0xFF); due.assign(4096, 0xFF); rpFlash.assign(4096, 0xFF); rpRam.clear(); rpOpen = false; budget = -1;
  switch (kind)
  {
    case 0: s = storageOps(new VLCB::EepromInternalStorage); mem = &sim::eeprom; sim::onEepromWrite = [](unsigned, uint8_t) { spend(); }; break;
    case 1: case 2:
    {
      size = R.pick({4096u, 4096u, 8192u, 32768u, 65536u});
      sim::i2c.busAddress = (uint8_t)R.range(0x50, 0x57);
      sim::i2c.pageSize = R.pick({32u, 64u, 128u}); sim::i2c.maxPerTransfer = R.pick({32u, 32u, 128u});
      sim::i2c.mem.assign(size, 0xFF); sim::i2c.writeCycle = R.pick({1u, 5u}); sim::i2c.onWrite = spend;
      mem = &sim::i2c.mem;
      TwoWire *bus = R.chance(50) ? &Wire : &secondWire; sim::i2c.bus = bus;
      if (bus == &Wire && R.chance(70)) s = storageOps(new VLCB::EepromExternalStorage(sim::i2c.busAddress));
      else s = storageOps(new VLCB::EepromExternalStorage(sim::i2c.busAddress, bus));
      if (bus != &Wire) count("second_bus");
      break;
    }
    case 3: s = dxStorage(); mem = &flash; size = 2048; page = 512; break;
    case 4: s = dueStorage(); mem = &due; break;
    default: s = R.chance(50) ? rpStorage() : espStorage(); mem = &rpFlash; break;
  }
  if (kind == 0 && R.chance(30)) s = storageOps(VLCB::createDefaultStorageForPlatform());
  static const char *names[] = {"internal", "external", "external", "flash", "due", "emulated"};
  if (R.chance(70)) for (auto &b : *mem) b = R.byte();
  std::vector<uint8_t> model = *mem;
  s.begin();
  logf("backend %s size %u page %u", names[kind], size, kind == 1 || kind == 2 ? sim::i2c.pageSize : page);
  auto compare = [&](const char *when) {
    observe(hashStr(std::string(mem->begin(), mem->end())));
    for (unsigned a = 0; a < size; a++) if ((*mem)[a] != model[a])
      violation((std::string("contents-") + names[kind]).c_str(), "%s: address %u holds %02X, expected %02X", when, a, (*mem)[a], model[a]);
  };
  auto address = [&](unsigned room) -> unsigned {
    unsigned top = size - room;
    switch (R.range(0, 5))
    {
      case 0: return R.below(std::min(top, 20u) + 1);
      case 1: return top - R.below(std::min(top, 20u) + 1);
      case 2: { unsigned b = (unsigned)R.below(size / 128) * 128 + R.range(-20, 20); return std::min(top, b > size ? 0u : b); } // near a page boundary
      case 3: { unsigned b = (unsigned)R.below(size / 512) * 512 - R.below(std::max(1u, room)); return std::min(top, b > size ? 0u : b); }
      default: return (unsigned)R.below(top + 1);
    }
  };
  auto length = [&] { return R.chance(50) ? R.range(0, 20) : R.chance(70) ? R.range(1, 255) : R.pick({0, 1, 15, 16, 17, 29, 30, 31, 32, 33, 64, 128, 254, 255}); };
  auto blockWrite = [&](unsigned a, int n, const uint8_t *data) {
    if (n == 1 && R.chance(50)) s.write(a, data[0]); else s.writeBytes(a, data, (uint8_t)n);
  };
  int ops = R.range(20, 60), resets = 0;
  uint8_t buf[260], data[256];
  for (int i = 0; i < ops; i++)
  {
    int op = R.range(0, 19);
    if (op < 4) // single write
    {
      unsigned a = address(1); uint8_t v = R.byte();
      if (R.chance(20)) v = model[a];
      s.write(a, v); model[a] = v;
      logf("write %u %02X", a, v); count("op_write"); state(mix(kind, mix(1, a % 32)));
    }
    else if (op < 8)
    {
      int n = length(); unsigned a = address(std::max(n, 1));
      for (int k = 0; k < n; k++) { data[k] = R.chance(10) ? model[a + k] : R.byte(); }
      s.writeBytes(a, data, (uint8_t)n);
      for (int k = 0; k < n; k++) model[a + k] = data[k];
      logf("writeBytes %u %d", a, n); count("op_write_block"); state(mix(kind, mix(a % 64, n + 300)));
    }
    else if (op < 12)
    {
      unsigned a = address(1);
      uint8_t v = s.read(a); observe(v);
      logf("read %u -> %02X", a, v); count("op_read");
      if (v != model[a]) violation((std::string("read-") + names[kind]).c_str(), "read(%u) returned %02X, expected %02X", a, v, model[a]);
    }
    else if (op < 16)
    {
      int n = length(); unsigned a = address(std::max(n, 1));
      memset(buf, 0xA5, sizeof buf);
      int got = s.readBytes(a, (uint8_t)n, buf + 2);
      observe(mix(got, n));
      logf("readBytes %u %d -> %d", a, n, got); count("op_read_block"); state(mix(kind, mix(a % 64, n + 600)));
      if (got != n) violation((std::string("read-count-") + names[kind]).c_str(), "readBytes(%u, %d) returned %d", a, n, got);
      if (n && memcmp(buf + 2, &model[a], n)) violation((std::string("read-block-") + names[kind]).c_str(), "readBytes(%u, %d) returned wrong bytes", a, n);
      if (buf[1] != 0xA5 || buf[n + 2] != 0xA5) violation((std::string("read-overrun-") + names[kind]).c_str(), "readBytes(%u, %d) wrote outside the destination", a, n);
    }
    else if (op == 16)
    {
      if (R.chance(30)) { rpOpen = false; s.begin(); logf("re-open"); count("op_reopen"); }
      else if (R.chance(20) && resets++ < 1)
      {
        s.reset();
        if (kind == 3) std::fill(model.begin(), model.end(), 0xFF); else std::fill(model.begin() + 10, model.begin() + 4096, 0xFF);
        logf("reset"); count("op_reset"); compare("after reset");
      }
    }
    else if (op == 17 && kind != 4) // power fails inside a write
    {
      int n = std::max(1, length()); unsigned a = address(n);
      for (int k = 0; k < n; k++) data[k] = R.byte();
      budget = R.range(0, kind == 3 ? 40 : n);
      bool lost = false;
      try { blockWrite(a, n, data); } catch (PowerLoss &) { lost = true; }
      budget = -1; rpOpen = false;
      sim::now += 10;
      s.begin();
      logf("power %s in write of %u %d", lost ? "lost" : "kept", a, n); count(lost ? "power_losses" : "power_kept");
      if (!lost) { for (int k = 0; k < n; k++) model[a + k] = data[k]; }
      else
      {
        std::set<unsigned> pages;
        for (unsigned x = 0; x < size; x++)
        {
          uint8_t v = (*mem)[x]; bool in = x >= a && x < a + n;
          if (v == model[x]) continue;
          if (in && v == data[x - a]) continue;
          if (page > 1) { pages.insert(x / page); continue; } // a flash page is erased before it is rewritten
          violation((std::string("power-loss-") + names[kind]).c_str(), "power failure while writing %u..%u changed address %u from %02X to %02X", a, a + n, x, model[x], v);
        }
        if (pages.size() > 1) violation("power-loss-pages", "one power failure while writing %u..%u damaged %zu flash pages", a, a + n, pages.size());
        for (unsigned p : pages) if (p < a / page || p > (a + n - 1) / page) violation("power-loss-other-page", "power failure while writing %u..%u damaged page %u", a, a + n, p);
        model = *mem;
      }
      observe(lost);
    }
    else if (op == 18) // the way a module uses it: an event entry, then its variables
    {
      unsigned a = address(24); memset(data, 0, sizeof data); for (int k = 0; k < 4; k++) data[k] = R.byte();
      s.writeBytes(a, data, 4); for (int k = 0; k < 4; k++) model[a + k] = data[k];
      int evs = R.range(1, 20);
      for (int k = 0; k < evs; k++) { uint8_t v = R.byte(); s.write(a + 4 + k, v); model[a + 4 + k] = v; }
      memset(buf, 0, sizeof buf); s.readBytes(a, 24, buf);
      observe(buf[0]); count("op_entry");
      if (memcmp(buf, &model[a], 24)) violation((std::string("read-entry-") + names[kind]).c_str(), "entry at %u read back wrongly", a);
    }
    else if (op == 19) compare("during the run");
  }
  compare("at the end");
  rpOpen = false; s.begin(); compare("after re-opening");
  for (int k = 0; k < 40; k++)
  {
    unsigned a = address(1); uint8_t v = s.read(a); observe(v);
    if (v != model[a]) violation((std::string("read-") + names[kind]).c_str(), "after re-opening read(%u) returned %02X, expected %02X", a, v, model[a]);
  }
  count(std::string("backend_") + names[kind]);
}
