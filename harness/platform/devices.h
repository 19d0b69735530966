// Device models behind the platform storage libraries.
#pragma once
#include <cstdint>
namespace dev {
uint8_t flashRead(uint32_t a);
uint8_t flashErase(uint32_t a, unsigned pages);
void flashWrite(uint32_t a, uint8_t v);
uint8_t dueRead(uint32_t a);
uint8_t *dueAddress(uint32_t a);
void dueWrite(uint32_t a, uint8_t v);
void rpBegin(unsigned size);
uint8_t rpRead(unsigned a);
void rpWrite(unsigned a, uint8_t v);
void rpCommit();
}
