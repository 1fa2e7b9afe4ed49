/* dnstable_dump together with the option parser it is linked with */
#define REAL_ARGV 1
#include "e_dump.c"
