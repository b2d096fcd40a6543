#ifdef __cplusplus
extern "C" {
#endif
void* sym(const char* name);
void emit(const char* shape, int idx, const void* v, int n, char kind, int eb);
void* src(char kind, int eb, int seed);
void* launder(void* p);
int opaque(int n);
struct entry { const char* name; int quiet; void (*f)(void); };
extern const struct entry entries[];
extern const int nentries;
void init_all(void);
#ifdef __cplusplus
}
#endif
#define NOINL static __attribute__((noinline))
