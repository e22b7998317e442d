#define TREE_PART 3
#include "tree_parts.hpp"
