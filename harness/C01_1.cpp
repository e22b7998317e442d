#define TREE_PART 1
#include "tree_parts.hpp"
