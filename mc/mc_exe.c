// Linked into every executable: tells the engine where the image's text and writable data are.
extern char __executable_start, etext, __data_start, end;
void mc_register_image(void*, void*, void*, void*);
__attribute__((constructor)) static void reg(void) { mc_register_image(&__executable_start, &etext, &__data_start, &end); }
