#define TREE_PART 5
#include "tree_parts.hpp"
