#define PART 2
#include "C09.cpp"
