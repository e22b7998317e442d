#define TREE_PART 8
#include "tree_parts.hpp"
