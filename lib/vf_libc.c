// C library functions executed symbolically (linked into the bitcode only, never natively).
#include <stddef.h>
int __vf_errno;
size_t strlen(const char* s) { size_t n = 0; while (s[n]) n++; return n; }
size_t strnlen(const char* s, size_t m) { size_t n = 0; while (n < m && s[n]) n++; return n; }
int strcmp(const char* a, const char* b) { while (*a && *a == *b) { a++; b++; } return (int)(unsigned char)*a - (int)(unsigned char)*b; }
int strncmp(const char* a, const char* b, size_t n) { while (n && *a && *a == *b) { a++; b++; n--; } return n ? (int)(unsigned char)*a - (int)(unsigned char)*b : 0; }
char* strchr(const char* s, int c) { for (;; s++) { if (*s == (char)c) return (char*)s; if (!*s) return 0; } }
char* strrchr(const char* s, int c) { const char* r = 0; for (;; s++) { if (*s == (char)c) r = s; if (!*s) return (char*)r; } }
void* memchr(const void* p, int c, size_t n) { const unsigned char* s = p; for (size_t i = 0; i < n; i++) if (s[i] == (unsigned char)c) return (void*)(s + i); return 0; }
char* strcpy(char* d, const char* s) { char* r = d; while ((*d++ = *s++)) {} return r; }
char* strncpy(char* d, const char* s, size_t n) { size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
char* strcat(char* d, const char* s) { strcpy(d + strlen(d), s); return d; }
char* strstr(const char* h, const char* n) { size_t l = strlen(n); for (;; h++) { if (!strncmp(h, n, l)) return (char*)h; if (!*h) return 0; } }
int isspace(int c) { return c == ' ' || (c >= 9 && c <= 13); }
int isdigit(int c) { return c >= '0' && c <= '9'; }
int isalpha(int c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
int isalnum(int c) { return isalpha(c) || isdigit(c); }
int isupper(int c) { return c >= 'A' && c <= 'Z'; }
int islower(int c) { return c >= 'a' && c <= 'z'; }
int toupper(int c) { return islower(c) ? c - 32 : c; }
int tolower(int c) { return isupper(c) ? c + 32 : c; }
size_t wcslen(const wchar_t* s) { size_t n = 0; while (s[n]) n++; return n; }
int wmemcmp(const wchar_t* a, const wchar_t* b, size_t n) { for (size_t i = 0; i < n; i++) if (a[i] != b[i]) return a[i] < b[i] ? -1 : 1; return 0; }
wchar_t* wmemcpy(wchar_t* d, const wchar_t* s, size_t n) { return __builtin_memcpy(d, s, n * sizeof(wchar_t)); }
wchar_t* wmemmove(wchar_t* d, const wchar_t* s, size_t n) { return __builtin_memmove(d, s, n * sizeof(wchar_t)); }
wchar_t* wmemset(wchar_t* d, wchar_t c, size_t n) { for (size_t i = 0; i < n; i++) d[i] = c; return d; }
wchar_t* wmemchr(const wchar_t* s, wchar_t c, size_t n) { for (size_t i = 0; i < n; i++) if (s[i] == c) return (wchar_t*)(s + i); return 0; }
wchar_t* wcscpy(wchar_t* d, const wchar_t* s) { wchar_t* r = d; while ((*d++ = *s++)) {} return r; }
int wcscmp(const wchar_t* a, const wchar_t* b) { while (*a && *a == *b) { a++; b++; } return *a == *b ? 0 : *a < *b ? -1 : 1; }
int wcsncmp(const wchar_t* a, const wchar_t* b, size_t n) { while (n && *a && *a == *b) { a++; b++; n--; } return !n || *a == *b ? 0 : *a < *b ? -1 : 1; }
void* mempcpy(void* d, const void* s, size_t n) { __builtin_memcpy(d, s, n); return (char*)d + n; }
char* stpcpy(char* d, const char* s) { while ((*d = *s++)) d++; return d; }
char* strncat(char* d, const char* s, size_t n) { char* e = d + strlen(d); for (; n && *s; n--) *e++ = *s++; *e = 0; return d; }
void* memrchr(const void* p, int c, size_t n) { const unsigned char* s = p; while (n-- > 0) if (s[n] == (unsigned char)c) return (void*)(s + n); return 0; }
size_t strspn(const char* s, const char* a) { size_t n = 0; while (s[n] && strchr(a, s[n])) n++; return n; }
size_t strcspn(const char* s, const char* a) { size_t n = 0; while (s[n] && !strchr(a, s[n])) n++; return n; }
char* strpbrk(const char* s, const char* a) { s += strcspn(s, a); return *s ? (char*)s : 0; }
char* strdup(const char* s) { size_t n = strlen(s) + 1; char* r = __builtin_malloc(n); __builtin_memcpy(r, s, n); return r; }
int isxdigit(int c) { return isdigit(c) || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
int isprint(int c) { return c >= 32 && c < 127; }
int iscntrl(int c) { return (c >= 0 && c < 32) || c == 127; }
