#ifndef HARNESS_COMMON_H
#define HARNESS_COMMON_H
#include "mc.h"
// entry point called by mcrun for every rank
#define HARNESS_MAIN extern "C" int mc_entry(int argc, char **argv)
#endif
