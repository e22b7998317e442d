#define TREE_PART 4
#include "tree_parts.hpp"
