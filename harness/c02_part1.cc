#define C02_PART 1
#include "c02_bounded.cc"
