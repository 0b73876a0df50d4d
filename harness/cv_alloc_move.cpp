// the second half of cv_alloc.cpp, compiled by itself
#define MOVE_ONLY
#include "cv_alloc.cpp"
