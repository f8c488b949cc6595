/* Abstract environments, analysed in place of the functions they stand for.
   Never executed: compiled to IR and linked into the analysed module. */
typedef int sa_cb(void *data, unsigned codepoint);
unsigned __sa_u32(void);
int __sa_int(void);
int __sa_call(sa_cb *f, void *data, unsigned codepoint);

/* any pattern: the callback is called any number of times, stops at its first error */
int __sa_emits(sa_cb *f, void *data) {
    while(__sa_int()) {
        int r = __sa_call(f, data, __sa_u32());
        if(r) return r;
    }
    return __sa_int();
}
