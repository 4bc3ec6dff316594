// Functions of a native module: they say what they were given, and build values to order.
#include <stddef.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "cordy.h"

static char* buf; static size_t len, cap;
static void put(const char* s, size_t k) { if (len + k + 1 > cap) { cap = (len + k + 1) * 2; buf = realloc(buf, cap); } memcpy(buf + len, s, k); len += k; buf[len] = 0; }
static void word(const char* s) { put(s, strlen(s)); }

static void show(const cordy_value_t* v) {
    char t[64];
    switch (v->ty) {
        case TY_NIL: word("nil"); break;
        case TY_BOOL: { // the byte itself: anything but 0 and 1 would not be a bool
            unsigned char b; memcpy(&b, &v->bool_value, 1);
            if (b > 1) { snprintf(t, sizeof t, "bad bool %d", b); word(t); } else word(b ? "true" : "false");
            break; }
        case TY_INT: snprintf(t, sizeof t, "i%lld", (long long) v->int_value); word(t); break;
        case TY_STR: word("'"); word(v->str_value); word("'"); break;
        case TY_ARRAY:
            if (v->vec_value.capacity < v->vec_value.len) word("bad capacity ");
            word("<");
            for (size_t i = 0; i < v->vec_value.len; i++) { if (i) word(" "); show(&v->vec_value.ptr[i]); }
            word(">"); break;
        default: snprintf(t, sizeof t, "bad type %u", v->ty); word(t);
    }
}
static cordy_value_t describe(const char* name, cordy_value_t* args, size_t n) {
    char t[32];
    len = 0;
    word(TAG); word("."); word(name);
    snprintf(t, sizeof t, "/%zu", n); word(t);
    for (size_t i = 0; i < n; i++) { word(" "); show(&args[i]); }
    return STR(buf);
}
#define F(x) CORDY_EXTERN(x) { return describe(#x, args, n); }
F(f0) F(f1) F(f2) F(f3) F(f4) F(f5) F(f6) F(f7) F(f8) F(f9)
F(a_function_with_a_name_that_is_longer_than_any_other_of_this_library)

CORDY_EXTERN(echo) { return args[0]; }
CORDY_EXTERN(pack) { cordy_value_t v = VEC(n); for (size_t i = 0; i < n; i++) v.vec_value.ptr[v.vec_value.len++] = args[i]; return v; }
// an array with space left over
CORDY_EXTERN(wide) { cordy_value_t v = VEC(n * 7 + 5); for (size_t i = 0; i < n; i++) v.vec_value.ptr[v.vec_value.len++] = args[n - 1 - i]; return v; }
CORDY_EXTERN(none) { return NIL(); }
// reads the length, frees the text, and gives memory a chance to be used again
CORDY_EXTERN(eat) { AS_STR(str_t s, args[0]); size_t k = strlen(s); FREE(args[0]); void* p = malloc(k + 1); memset(p, 'x', k + 1); free(p); return INT((int64_t) k); }
CORDY_EXTERN(calls) { static int64_t k = 0; return INT(++k); }
CORDY_EXTERN(sum) { AS_VEC(cordy_vec_t v, args[0]); int64_t s = 0; for (size_t i = 0; i < v.len; i++) { AS_INT(int64_t x, v.ptr[i]); s += x; } return INT(s); }
CORDY_EXTERN(negate) { AS_BOOL(bool b, args[0]); return BOOL(!b); }
CORDY_EXTERN(isnil) { return BOOL(IS_NIL(args[0])); }
CORDY_EXTERN(same) { if (args[0].ty != args[1].ty) return BOOL(false); return BOOL(args[0].ty == TY_INT ? args[0].int_value == args[1].int_value : args[0].ty == TY_STR ? !strcmp(args[0].str_value, args[1].str_value) : true); }
CORDY_EXTERN(fail) { static char m[1 << 16]; AS_STR(str_t s, args[0]); strncpy(m, s, sizeof m - 1); cordy_value_t v; memset(&v, 0x5a, sizeof v); v.ty = TY_ERR; v.str_value = m; return v; }
CORDY_EXTERN(failin) { cordy_value_t v = VEC(3), e; memset(&e, 0xa5, sizeof e); e.ty = TY_ERR; e.str_value = "inner"; v.vec_value.ptr[v.vec_value.len++] = INT(1); v.vec_value.ptr[v.vec_value.len++] = args[0]; v.vec_value.ptr[v.vec_value.len++] = e; return v; }

CORDY_EXTERN(boom) { return ERR(a static message); }
CORDY_EXTERN(tried) { TRY(cordy_value_t x, negate(args, n)); TRY(x, isnil(&x, 1)); return x; }

// a value written as text: n t f, i<number>; s<bytes>:<text>, (<values>)
// only the member which belongs to the type is set: the rest of the value is noise
static const char* at;
static cordy_value_t make_(void) {
    cordy_value_t v;
    memset(&v, 0xc7, sizeof v);
    switch (*at++) {
        case 't': v.ty = TY_BOOL; v.bool_value = true; return v;
        case 'f': v.ty = TY_BOOL; v.bool_value = false; return v;
        case 'T': return BOOL(true);
        case 'F': return BOOL(false);
        case 'N': return NIL();
        case 'i': { char* e; v.ty = TY_INT; v.int_value = strtoll(at, &e, 10); at = e + 1; return v; }
        case 'I': { char* e; int64_t x = strtoll(at, &e, 10); at = e + 1; return INT(x); }
        case 's': { char* e; long k = strtol(at, &e, 10); at = e + 1; char* s = malloc(k + 1); memcpy(s, at, k); s[k] = 0; at += k; v = STR(s); memset(s, '?', k); free(s); return v; }
        case '(': {
            cordy_value_t a = VEC(4);
            while (*at != ')') {
                cordy_value_t x = make_();
                if (a.vec_value.len == a.vec_value.capacity) { // grow it through the interface
                    cordy_value_t b = VEC(a.vec_value.capacity * 2 + 1);
                    for (size_t i = 0; i < a.vec_value.len; i++) b.vec_value.ptr[b.vec_value.len++] = a.vec_value.ptr[i];
                    a = b;
                }
                a.vec_value.ptr[a.vec_value.len++] = x;
            }
            at++;
            return a; }
        default: v.ty = TY_NIL; return v;
    }
}
CORDY_EXTERN(make) { AS_STR(str_t s, args[0]); at = s; return make_(); }
