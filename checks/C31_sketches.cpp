// The example sketches as they are, each inside a namespace of its own.
#include <Arduino.h>
#include <Streaming.h>
#include <Bounce2.h>
#include <Wire.h>
#include <SPI.h>
#include <ACAN2515.h>
#include <Controller.h>
#include <CAN2515.h>
#include <Switch.h>
#include <LED.h>
#include <Configuration.h>
#include <Parameters.h>
#include <vlcbdefs.hpp>
#include <LEDUserInterface.h>
#include <SerialGC.h>
#include "MinimumNodeService.h"
#include "MinimumNodeServiceWithDiagnostics.h"
#include "CanService.h"
#include "CanServiceWithDiagnostics.h"
#include "NodeVariableService.h"
#include "EventConsumerService.h"
#include "EventProducerService.h"
#include "ConsumeOwnEventsService.h"
#include "EventTeachingService.h"
#include "LongMessageService.h"
#include "SerialUserInterface.h"
#include "C31.h"

// __cplusplus is a long literal
template <class T> struct IsPlainLong { };
template <> struct IsPlainLong<decltype(0L)> { typedef Serial_T &type; };
template <class T> typename IsPlainLong<T>::type operator<<(Serial_T &s, T v) { return s << (int)v; }

namespace sim { extern int pinDefault; }
static int held = (sim::pinDefault = 0);
namespace i0 {
#include "C31_all.h"
}
static int released = (sim::pinDefault = 1);
namespace i1 {
#include "C31_all.h"
}
namespace i2 {
#include "C31_all.h"
}
namespace i3 {
#include "C31_all.h"
}
#define K(N) { { i0::N::setup, i0::N::loop, &i0::N::modconfig }, { i1::N::setup, i1::N::loop, &i1::N::modconfig }, \
               { i2::N::setup, i2::N::loop, &i2::N::modconfig }, { i3::N::setup, i3::N::loop, &i3::N::modconfig } }
Sketch sketches[SK_KINDS][SKETCH_INSTANCES] = { K(a1), K(a4), K(ag), K(al), K(ae) };
