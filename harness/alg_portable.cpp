// The same without the BLAS and LAPACK calls.
#include <um2/config.hpp>
#undef UM2_USE_BLAS_LAPACK
#define UM2_USE_BLAS_LAPACK 0
#include "alg.cpp"
