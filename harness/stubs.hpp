// Stand-ins for the graphical front panel and (unless a harness supplies it) the console typewriter.
#pragma once
#include <stdint.h>
extern "C" {
void *setup_fp2030(char *) { return 0; }
void *setup_fp2050(char *) { return 0; }
#ifndef HAVE_1052
void model1052_out(void *, uint16_t) { }
void model1052_in(void *, uint16_t *) { }
void model1052_func(void *, uint16_t *, uint16_t, uint16_t *) { }
void *model1052_init_ctx(uint16_t) { return 0; }
#endif
uint64_t step_count;
}
