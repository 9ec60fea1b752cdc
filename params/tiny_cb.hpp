// Tiny counterpart of the compressed-mask set: centered binomial noise.
#pragma once
#define VP_ERR CenteredBinomial
#define VP_CB
#ifndef VP_K1
#define VP_K1 2
#endif
#define VP_CB2
#include "tiny.hpp"
