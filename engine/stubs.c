/* Symbols of libraries absent from the sandbox (piplib, newer isl): reaching one is an error. */
#include <stdio.h>
#include <stdlib.h>
#define STUB(n) __attribute__((weak)) void *n(void) { fprintf(stderr, "absent library function %s reached\n", #n); abort(); }
STUB(isl_map_dim_is_single_valued)
STUB(isl_pw_aff_from_map_dim)
STUB(isl_basic_map_range_factor_domain)
STUB(pluto_constraints_lexmin_pip)

/* Writes n entries: under the address sanitizer this checks that the room is really there. */
void verif_fill(long long *p, long long n) { for (long long i = 0; i < n; i++) p[i] = 0x5a5a5a5a5a5a5a5aLL; }
