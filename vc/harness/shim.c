/* Replay shim: macro accessors of minim.h as functions, and guarded calls. */
#define _GNU_SOURCE
#include "../src/core/minim.h"
#include "../src/boot/boot.h"
#undef exit
typedef unsigned long u64;
void *vh_malloc(size_t n) { void *p = calloc(1, n ? n : 1); if (!p) abort(); return p; }
void *vh_malloc_atomic(size_t n) { void *p = malloc(n ? n : 1); if (!p) abort(); memset(p, 0xA5, n); return p; }
void *vh_realloc(void *p, size_t n) { return realloc(p, n); }

static jmp_buf vh_jb; static int vh_active = 0; static int vh_code = 0;
static char *vh_err = NULL; static size_t vh_errlen = 0;
void vh_exit(int code) { vh_code = code; if (vh_active) longjmp(vh_jb, 1); _Exit(90); }
static int vh_quiet = 0;
void vh_init(int quiet) { vh_quiet = quiet; if (quiet) stderr = open_memstream(&vh_err, &vh_errlen); minim_boot_init(); }
const char *vh_errtext() { if (!vh_quiet) return ""; fputc(0, stderr); fflush(stderr); return vh_err ? vh_err : ""; }
void vh_errclear() { if (vh_quiet) { rewind(stderr); fputc(0, stderr); fflush(stderr); rewind(stderr); } }
/* 0: returned, 1: error exit */
int vh_call(void *fn, int n, u64 *a, u64 *res) {
    int r;
    if (setjmp(vh_jb) == 0) {
        vh_active = 1;
        switch (n) {
        case 0: *res = ((u64 (*)()) fn)(); break;
        case 1: *res = ((u64 (*)(u64)) fn)(a[0]); break;
        case 2: *res = ((u64 (*)(u64, u64)) fn)(a[0], a[1]); break;
        case 3: *res = ((u64 (*)(u64, u64, u64)) fn)(a[0], a[1], a[2]); break;
        case 4: *res = ((u64 (*)(u64, u64, u64, u64)) fn)(a[0], a[1], a[2], a[3]); break;
        case 5: *res = ((u64 (*)(u64, u64, u64, u64, u64)) fn)(a[0], a[1], a[2], a[3], a[4]); break;
        default: *res = ((u64 (*)(u64, u64, u64, u64, u64, u64)) fn)(a[0], a[1], a[2], a[3], a[4], a[5]); break;
        }
        r = 0;
    } else r = 1;
    vh_active = 0;
    return r;
}
int vh_exitcode() { return vh_code; }
#define G(name, T, expr) u64 vh_##name(T o) { return (u64) (expr); }
#define S(name, expr) void vh_set_##name(mobj o, mobj v) { expr = (typeof(expr)) v; }
G(type, mobj, minim_type(o)) G(car, mobj, minim_car(o)) G(cdr, mobj, minim_cdr(o)) S(car, minim_car(o)) S(cdr, minim_cdr(o))
G(fixnum, mobj, minim_fixnum(o)) G(char, mobj, minim_char(o)) G(symbol, mobj, minim_symbol(o)) G(string, mobj, minim_string(o))
G(vlen, mobj, minim_vector_len(o)) G(unbox, mobj, minim_unbox(o)) S(unbox, minim_unbox(o))
G(syntax_e, mobj, minim_syntax_e(o)) G(syntax_loc, mobj, minim_syntax_loc(o))
G(rec_count, mobj, minim_record_count(o)) G(rec_rtd, mobj, minim_record_rtd(o))
G(ht_buckets, mobj, minim_hashtable_buckets(o)) G(ht_alloc, mobj, minim_hashtable_alloc(o)) G(ht_count, mobj, minim_hashtable_count(o))
G(te_buckets, mobj, minim_top_env_buckets(o)) G(te_alloc, mobj, minim_top_env_alloc(o)) G(te_count, mobj, minim_top_env_count(o))
G(code_len, mobj, minim_code_len(o)) G(code_arity, mobj, minim_code_arity(o)) G(code_reloc, mobj, minim_code_reloc(o))
G(clo_env, mobj, minim_closure_env(o)) G(clo_code, mobj, minim_closure_code(o)) G(clo_name, mobj, minim_closure_name(o)) G(clo_count, mobj, minim_closure_count(o))
S(clo_name, minim_closure_name(o)) S(code_arity, minim_code_arity(o)) S(code_reloc, minim_code_reloc(o))
u64 vh_vref(mobj o, long i) { return (u64) minim_vector_ref(o, i); }
void vh_vset(mobj o, long i, mobj v) { minim_vector_ref(o, i) = v; }
u64 vh_rec_ref(mobj o, long i) { return (u64) minim_record_ref(o, i); }
void vh_rec_set(mobj o, long i, mobj v) { minim_record_ref(o, i) = v; }
u64 vh_clo_ref(mobj o, long i) { return (u64) minim_closure_ref(o, i); }
void vh_clo_set(mobj o, long i, mobj v) { minim_closure_ref(o, i) = v; }
u64 vh_code_ref(mobj o, long i) { return (u64) minim_code_ref(o, i); }
void vh_code_set(mobj o, long i, mobj v) { minim_code_ref(o, i) = v; }
u64 vh_intern(const char *s) { return (u64) intern(s); }
u64 vh_string_n(const char *s, long n) { mobj o = Mstring2(n, 'x'); memcpy(minim_string(o), s, n); minim_string(o)[n] = 0; return (u64) o; }
u64 vh_tc() { return (u64) current_tc(); }
static char vh_tcsave[tc_size];
void vh_tc_save() { memcpy(vh_tcsave, current_tc(), tc_size); }
void vh_tc_restore() { memcpy(current_tc(), vh_tcsave, tc_size); }
u64 vh_tc_values(long i) { return (u64) tc_values(current_tc())[i]; }
u64 vh_tc_vc() { return (u64) tc_vc(current_tc()); }
u64 vh_fmem_r(const char *s, long n) { if (n == 0) { FILE *f = tmpfile(); return (u64) f; } return (u64) fmemopen((void *) s, n, "r"); }
static char *vh_ob; static size_t vh_on;
u64 vh_fmem_w() { vh_ob = NULL; vh_on = 0; return (u64) open_memstream(&vh_ob, &vh_on); }
long vh_fmem_len(FILE *f) { fflush(f); return vh_on; }
u64 vh_fmem_buf(FILE *f) { fflush(f); return (u64) vh_ob; }
void vh_fclose(FILE *f) { fclose(f); }
long vh_ftell(FILE *f) { return ftell(f); }
