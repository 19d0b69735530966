// DxCore flash writing library: pages are erased to 0xFF as a whole, writes can only clear bits.
#pragma once
#include "../devices.h"
#define FLASHWRITE_OK 0
#define PROGMEM_SIZE 0x20000
struct FakeFlash
{
  uint8_t checkWritable() { return FLASHWRITE_OK; }
  uint8_t readByte(uint32_t a) { return dev::flashRead(a); }
  uint8_t erasePage(uint32_t a, uint8_t size = 1) { return dev::flashErase(a, size); }
  uint8_t writeBytes(uint32_t a, uint8_t *d, uint16_t n) { for (unsigned i = 0; i < n; i++) dev::flashWrite(a + i, d[i]); return FLASHWRITE_OK; }
  uint8_t writeByte(uint32_t a, uint8_t v) { dev::flashWrite(a, v); return FLASHWRITE_OK; }
  uint8_t writeWord(uint32_t a, uint16_t v) { dev::flashWrite(a, v & 0xFF); dev::flashWrite(a + 1, v >> 8); return FLASHWRITE_OK; }
  uint16_t readWord(uint32_t a) { return dev::flashRead(a) | dev::flashRead(a + 1) << 8; }
};
static FakeFlash Flash;
