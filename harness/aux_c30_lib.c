/* A library that reports when it is loaded and unloaded. */
extern void vp_lib_event(int id, int up, const void* base);
static int anchor;
#define CAT_(a, b) a##b
#define CAT(a, b) CAT_(a, b)
int CAT(vp_fn_, ID)(int x) { return 100 + ID * 10 + x; }
int vp_common(int x) { return 200 + ID * 10 + x; }
int LONG(int x) { return 400 + ID * 10 + x; }
#define MANY(n) int CAT(vp_many_, n)(int x) { return 1000 + ID * 1000 + n * 10 + x; }
MANY(0) MANY(1) MANY(2) MANY(3) MANY(4) MANY(5) MANY(6) MANY(7) MANY(8) MANY(9) MANY(10) MANY(11)
int vp_data = 300 + ID;
__attribute__((constructor)) static void up(void) { vp_lib_event(ID, 1, &anchor); }
__attribute__((destructor)) static void down(void) { vp_lib_event(ID, 0, &anchor); }
#ifdef UNDEF
extern int vp_nobody_defines_this(void);
int vp_needs(void) { return vp_nobody_defines_this(); }
#endif
