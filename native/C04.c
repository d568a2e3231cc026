#define NEIGH 1
#include "avl.h"
