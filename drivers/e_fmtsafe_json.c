#define SHORT
#include "e_fmtsafe.c"
