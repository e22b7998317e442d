#define PART 2
#include "C19.cpp"
