#define TREE_PART 6
#include "tree_parts.hpp"
