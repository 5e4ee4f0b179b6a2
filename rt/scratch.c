// Argument area for driving the C library directly; small enough in the "small" layout for one page.
typedef unsigned char u8;
static u8 area[SCRATCH] __attribute__((aligned(16)));
u8 *verif_scratch(void) { return area; }
unsigned verif_scratch_size(void) { return SCRATCH; }
