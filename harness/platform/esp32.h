// The library is built as for an ESP32 board, the one platform whose restart and free memory are calls a host program
// can provide: what would restart the board is seen by sim::onRestart.
#pragma once
#include <stdint.h>
struct FakeEsp { void restart(); uint32_t getFreeHeap(); };
extern FakeEsp ESP;
