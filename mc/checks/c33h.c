/* C33 with the hooked memory functions, linked under names of their own (run.py) */
#include "c33.c"
