// On every Arduino platform `long` is 32 bits wide, so millis() wraps round after 49.7 days and times kept in
// unsigned long follow it. This header, included ahead of every library source, gives the simulation the same width.
// The standard headers come first, as they need the compiler's own long.
#pragma once
#include <algorithm>
#include <cctype>
#include <cmath>
#include <cstdarg>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <deque>
#include <functional>
#include <initializer_list>
#include <iostream>
#include <limits>
#include <list>
#include <map>
#include <memory>
#include <new>
#include <queue>
#include <set>
#include <sstream>
#include <string>
#include <type_traits>
#include <utility>
#include <vector>
#include <array>
#include <bitset>
#include <tuple>
#include <numeric>
#include <limits.h>
#include <stdint.h>
#include <stddef.h>
#include <stdarg.h>
#include <string.h>
#include <ctype.h>
#include <math.h>
#if __cplusplus >= 201703L
#include <optional>
#endif
#define VM_LONG32 1
#define long int
