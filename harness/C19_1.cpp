#define PART 1
#include "C19.cpp"
