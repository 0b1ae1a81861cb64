// The library under test as the scenarios see it.
#ifndef ARMAS_SIM_H
#define ARMAS_SIM_H
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
extern "C" {
#include "dtype.h"
#include "armas.h"
#include "dlpack.h"
#include "matrix.h"
#include "spdefs.h"
#if CONFIG_SPARSE
#include "sparse.h"
#endif
}
#undef min
#undef max
#undef EPS
#include "engine.h"
#endif
