#define TREE_PART 2
#include "tree_parts.hpp"
