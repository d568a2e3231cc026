#ifndef SPEC_H
#define SPEC_H
#include <stdint.h>
#include <stddef.h>
#include <stdbool.h>
const char *fsdyn_version_tag = "verif";
#ifdef VACUITY
#define REACH __CPROVER_ensures(0 && "VACUITY")
#define REACH_END __CPROVER_assert(0, "VACUITY")
#else
#define REACH
#define REACH_END
#endif
#endif
