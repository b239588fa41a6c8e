/* a failed assertion stops the process: an ending like exit() to the units */
#include_next <assert.h>
#undef assert
static void vp_exit(int code);
#define assert(c) do { if (!(c)) vp_exit(134); } while (0)
