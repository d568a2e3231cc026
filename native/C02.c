#define MAP 1
#include "avl.h"
