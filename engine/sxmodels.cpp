// libc string/memory functions in a form the instrumentation can follow (compiled with the pass).
#include <cstddef>
extern "C" {
int __sxm_memcmp(const void* a, const void* b, size_t n)
{
	const unsigned char *p = (const unsigned char*) a, *q = (const unsigned char*) b;
	size_t i = 0;
	// whole doubles first, so that symbolic reals are compared as values
	for(; i + 8 <= n; i += 8)
	{
		long x, y; __builtin_memcpy(&x, p + i, 8); __builtin_memcpy(&y, q + i, 8);
		if(x != y) break;
	}
	for(; i < n; i++) if(p[i] != q[i]) return p[i] < q[i] ? -1 : 1;
	return 0;
}
int __sxm_bcmp(const void* a, const void* b, size_t n)
{
	const unsigned char *p = (const unsigned char*) a, *q = (const unsigned char*) b;
	size_t i = 0;
	for(; i + 8 <= n; i += 8)
	{
		long x, y; __builtin_memcpy(&x, p + i, 8); __builtin_memcpy(&y, q + i, 8);
		if(x != y) return 1;
	}
	for(; i < n; i++) if(p[i] != q[i]) return 1;
	return 0;
}
size_t __sxm_strlen(const char* s) { size_t n = 0; while(s[n]) n++; return n; }
void* __sxm_memchr(const void* s, int c, size_t n) { const unsigned char* p = (const unsigned char*) s; for(size_t i = 0; i < n; i++) if(p[i] == (unsigned char) c) return (void*) (p + i); return nullptr; }
int __sxm_strcmp(const char* a, const char* b) { for(;; a++, b++) { if(*a != *b) return (unsigned char) *a < (unsigned char) *b ? -1 : 1; if(!*a) return 0; } }
int __sxm_strncmp(const char* a, const char* b, size_t n) { for(; n; a++, b++, n--) { if(*a != *b) return (unsigned char) *a < (unsigned char) *b ? -1 : 1; if(!*a) return 0; } return 0; }
char* __sxm_strchr(const char* s, int c) { for(;; s++) { if(*s == (char) c) return (char*) s; if(!*s) return nullptr; } }
int __sxm_tolower(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
int __sxm_toupper(int c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
int __sxm_isspace(int c) { return c == ' ' || (c >= 9 && c <= 13); }
int __sxm_isdigit(int c) { return c >= '0' && c <= '9'; }
// complex arithmetic
double atan2(double, double); double hypot(double, double); double exp(double); double cos(double); double sin(double); double sqrt(double);
struct sxm_complex { double re, im; };
sxm_complex __sxm___divdc3(double a, double b, double c, double d) { double n = c * c + d * d; return {(a * c + b * d) / n, (b * c - a * d) / n}; }
double __sxm_cabs(double re, double im) { return hypot(re, im); }
double __sxm_carg(double re, double im) { return atan2(im, re); }
sxm_complex __sxm_cexp(double re, double im) { double e = exp(re); return {e * cos(im), e * sin(im)}; }
sxm_complex __sxm_csqrt(double re, double im) { double r = hypot(re, im); double a = sqrt((r + re) / 2), b = sqrt((r - re) / 2); return {a, im < 0 ? -b : b}; }
}
