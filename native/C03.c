#define SHAPE 1
#include "avl.h"
