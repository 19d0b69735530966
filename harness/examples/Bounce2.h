// Bounce2 as the 4in4out sketch uses it: a level counts once it has been stable for the interval.
#pragma once
#include <Arduino.h>
#ifndef A0
const byte A0 = 14, A1 = 15, A2 = 16, A3 = 17;
#endif
class Bounce
{
  int pin = -1; unsigned long ms = 10, since = 0; bool stable = true, last = true, edge = false;
public:
  void attach(int p, PinMode m) { pinMode(p, m); pin = p; stable = last = digitalRead(p); since = millis(); }
  void interval(unsigned i) { ms = i; }
  bool update()
  {
    edge = false;
    bool v = digitalRead(pin);
    if (v != last) { last = v; since = millis(); }
    else if (v != stable && millis() - since >= ms) { stable = v; edge = true; }
    return edge;
  }
  bool changed() const { return edge; }
  bool fell() const { return edge && !stable; }
  bool rose() const { return edge && stable; }
  bool read() const { return stable; }
};
