// Header-only parts of the library, compiled and instrumented like the rest of it.
#include <crefl/buf.h>
extern "C" {
size_t shim_write(crefl_buf *b, int kind, long long v, const char *s, size_t n) {
    switch (kind) { case 0: return crefl_buf_write_i8(b, v); case 1: return crefl_buf_write_i16(b, v); case 2: return crefl_buf_write_i32(b, v); case 3: return crefl_buf_write_i64(b, v); default: return crefl_buf_write_bytes(b, s, n); }
}
size_t shim_read(crefl_buf *b, int kind, long long *v, char *s, size_t n) {
    size_t r; int8_t a = 0; int16_t c = 0; int32_t d = 0; int64_t e = 0;
    switch (kind) { case 0: r = crefl_buf_read_i8(b, &a); *v = a; return r; case 1: r = crefl_buf_read_i16(b, &c); *v = c; return r; case 2: r = crefl_buf_read_i32(b, &d); *v = d; return r; case 3: r = crefl_buf_read_i64(b, &e); *v = e; return r; default: return crefl_buf_read_bytes(b, s, n); }
}
void shim_seek(crefl_buf *b, size_t o) { crefl_buf_seek(b, o); }
size_t shim_offset(crefl_buf *b) { return crefl_buf_offset(b); }
void shim_reset(crefl_buf *b) { crefl_buf_reset(b); }
size_t shim_remaining(crefl_buf *b, void **p) { crefl_span s = crefl_buf_remaining(b); *p = s.data; return s.length; }
}
