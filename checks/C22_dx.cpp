// The library's storage for AVR Dx (flash), compiled from the working tree with a model of the DxCore flash library.
#include <Arduino.h>
#include <cstring>
#include "C22_ops.h"
#define DXCORE 1
#define VLCB VLCB_dx
#include "../harness/platform/dx/Flash.h"
#include "FlashStorage.cpp"
#include "CreateDefaultStorageForPlatform.cpp"
StorageOps dxStorage() { return storageOps(VLCB_dx::createDefaultStorageForPlatform()); }
