/* Runs this image's static destructors, as a normal process exit would. */
extern void *__dso_handle;
extern void __cxa_finalize(void *);
void apsim_image_finalize(void) { __cxa_finalize(&__dso_handle); }
