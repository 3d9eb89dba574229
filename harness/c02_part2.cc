#define C02_PART 2
#include "c02_bounded.cc"
