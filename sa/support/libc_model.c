/* reference bodies of the libc string functions the library uses, analysed like library code */
#include <stddef.h>
size_t strlen(const char *s)
{
    size_t n = 0;
    while (s[n])
        n++;
    return n;
}
int strcmp(const char *a, const char *b)
{
    while (*a && *a == *b)
        a++, b++;
    return (unsigned char) *a - (unsigned char) *b;
}
int strncmp(const char *a, const char *b, size_t n)
{
    while (n && *a && *a == *b)
        a++, b++, n--;
    return n ? (unsigned char) *a - (unsigned char) *b : 0;
}
char *strchr(const char *s, int c)
{
    for (;; s++) {
        if (*s == (char) c)
            return (char *) s;
        if (!*s)
            return 0;
    }
}
char *strrchr(const char *s, int c)
{
    const char *r = 0;
    for (;; s++) {
        if (*s == (char) c)
            r = s;
        if (!*s)
            return (char *) r;
    }
}
char *strstr(const char *s, const char *t)
{
    for (;; s++) {
        size_t i = 0;
        while (t[i] && s[i] == t[i])
            i++;
        if (!t[i])
            return (char *) s;
        if (!*s)
            return 0;
    }
}
void *memchr(const void *s, int c, size_t n)
{
    const unsigned char *p = s;
    for (; n; p++, n--)
        if (*p == (unsigned char) c)
            return (void *) p;
    return 0;
}
int memcmp(const void *a, const void *b, size_t n)
{
    const unsigned char *p = a, *q = b;
    for (; n; p++, q++, n--)
        if (*p != *q)
            return *p - *q;
    return 0;
}
size_t strnlen(const char *s, size_t m)
{
    size_t n = 0;
    while (n < m && s[n])
        n++;
    return n;
}
char *strcpy(char *d, const char *s)
{
    size_t i = 0;
    while ((d[i] = s[i]))
        i++;
    return d;
}
char *stpcpy(char *d, const char *s)
{
    while ((*d = *s))
        d++, s++;
    return d;
}
size_t strspn(const char *s, const char *t)
{
    size_t n = 0;
    for (; s[n]; n++) {
        const char *u = t;
        while (*u && *u != s[n])
            u++;
        if (!*u)
            break;
    }
    return n;
}
size_t strcspn(const char *s, const char *t)
{
    size_t n = 0;
    for (; s[n]; n++) {
        const char *u = t;
        while (*u && *u != s[n])
            u++;
        if (*u)
            break;
    }
    return n;
}
int abs(int x) { return x < 0 ? -x : x; }
