#define TREE_PART 7
#include "tree_parts.hpp"
