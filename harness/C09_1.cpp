#define PART 1
#include "C09.cpp"
