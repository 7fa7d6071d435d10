/* stand-in for the compiler's header: pause and fences have no effect on values */
static void _mm_pause(void) {}
static void _mm_mfence(void) {}
static void _mm_sfence(void) {}
static void _mm_lfence(void) {}
