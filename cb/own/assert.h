/* Assertions of the code under test are taken as assumptions: here only ownership is decided. */
#undef assert
#define assert(c) do { if (!(c)) vx_stop(); } while (0)
void vx_stop(void);
