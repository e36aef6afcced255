// C library functions (C locale) written out so that they can be executed
// symbolically.  Compiled with the instrumentation pass; the pass redirects
// calls of <name> to sxm_<name>.
#include <cerrno>
#include <climits>
#include <cstddef>

extern "C" {
int sxm_strcmp(const char *a, const char *b) {
  size_t i = 0;
  while (a[i] && a[i] == b[i]) ++i;
  return (int)(unsigned char)a[i] - (int)(unsigned char)b[i];
}
int sxm_strncmp(const char *a, const char *b, size_t n) {
  for (size_t i = 0; i < n; ++i) {
    if (a[i] != b[i]) return (int)(unsigned char)a[i] - (int)(unsigned char)b[i];
    if (!a[i]) return 0;
  }
  return 0;
}
char *sxm_strchr(const char *s, int c) {
  for (;; ++s) {
    if (*s == (char)c) return const_cast<char *>(s);
    if (!*s) return nullptr;
  }
}
char *sxm_strrchr(const char *s, int c) {
  const char *r = nullptr;
  for (;; ++s) {
    if (*s == (char)c) r = s;
    if (!*s) return const_cast<char *>(r);
  }
}
char *sxm_strstr(const char *h, const char *n) {
  for (;; ++h) {
    size_t i = 0;
    while (n[i] && h[i] == n[i]) ++i;
    if (!n[i]) return const_cast<char *>(h);
    if (!*h) return nullptr;
  }
}
char *sxm_strcpy(char *d, const char *s) {
  size_t i = 0;
  while ((d[i] = s[i])) ++i;
  return d;
}
char *sxm_strncpy(char *d, const char *s, size_t n) {
  size_t i = 0;
  for (; i < n && s[i]; ++i) d[i] = s[i];
  for (; i < n; ++i) d[i] = 0;
  return d;
}
char *sxm_strcat(char *d, const char *s) {
  size_t k = 0;
  while (d[k]) ++k;
  sxm_strcpy(d + k, s);
  return d;
}
static bool among(char c, const char *set) {
  for (; *set; ++set)
    if (*set == c) return true;
  return false;
}
size_t sxm_strspn(const char *s, const char *set) {
  size_t n = 0;
  while (s[n] && among(s[n], set)) ++n;
  return n;
}
size_t sxm_strcspn(const char *s, const char *set) {
  size_t n = 0;
  while (s[n] && !among(s[n], set)) ++n;
  return n;
}
char *sxm_strpbrk(const char *s, const char *set) {
  s += sxm_strcspn(s, set);
  return *s ? const_cast<char *>(s) : nullptr;
}
int sxm_strcoll(const char *a, const char *b) { return sxm_strcmp(a, b); }
int sxm_isupper(int c) { return (unsigned)c - 'A' < 26; }
int sxm_islower(int c) { return (unsigned)c - 'a' < 26; }
int sxm_isalpha(int c) { return ((unsigned)c | 32) - 'a' < 26; }
int sxm_isdigit(int c) { return (unsigned)c - '0' < 10; }
int sxm_isalnum(int c) { return (((unsigned)c | 32) - 'a' < 26) | ((unsigned)c - '0' < 10); }
int sxm_isspace(int c) { return (c == ' ') | ((unsigned)c - '\t' < 5); }
int sxm_isprint(int c) { return (unsigned)c - 0x20 < 0x5f; }
int sxm_isxdigit(int c) { return ((unsigned)c - '0' < 10) | (((unsigned)c | 32) - 'a' < 6); }
int sxm_ispunct(int c) { return ((unsigned)c - 0x21 < 0x5e) & !sxm_isalnum(c); }
int sxm_toupper(int c) { return sxm_islower(c) ? c - 32 : c; }
int sxm_tolower(int c) { return sxm_isupper(c) ? c + 32 : c; }

static unsigned long long parse(const char *s, char **end, int base, bool sign, unsigned long long posMax, unsigned long long negMax) {
  const char *p = s;
  while (sxm_isspace((unsigned char)*p)) ++p;
  bool neg = false;
  if (*p == '-' || *p == '+') neg = *p++ == '-';
  if ((base == 0 || base == 16) && *p == '0' && (p[1] == 'x' || p[1] == 'X') && sxm_isxdigit((unsigned char)p[2])) {
    p += 2;
    base = 16;
  } else if (base == 0)
    base = *p == '0' ? 8 : 10;
  unsigned long long v = 0, lim = sign ? (neg ? negMax : posMax) : posMax;
  bool any = false, over = false;
  for (;; ++p) {
    unsigned d;
    unsigned c = (unsigned char)*p;
    if (c - '0' < 10) d = c - '0';
    else if ((c | 32) - 'a' < 26) d = (c | 32) - 'a' + 10;
    else break;
    if (d >= (unsigned)base) break;
    any = true;
    if (!over && (v > lim / base || v * base > lim - d)) over = true;
    if (!over) v = v * base + d;
  }
  if (end) *end = const_cast<char *>(any ? p : s);
  if (over) {
    errno = ERANGE;
    if (sign) return neg ? 0 - negMax : posMax;
    return posMax;
  }
  return neg ? 0 - v : v;
}
long sxm_strtol(const char *s, char **e, int b) { return (long)parse(s, e, b, true, LONG_MAX, 1ull << 63); }
long long sxm_strtoll(const char *s, char **e, int b) { return (long long)parse(s, e, b, true, LLONG_MAX, 1ull << 63); }
unsigned long sxm_strtoul(const char *s, char **e, int b) { return parse(s, e, b, false, ULONG_MAX, 0); }
unsigned long long sxm_strtoull(const char *s, char **e, int b) { return parse(s, e, b, false, ULLONG_MAX, 0); }
long sxm___isoc23_strtol(const char *s, char **e, int b) { return sxm_strtol(s, e, b); }
long long sxm___isoc23_strtoll(const char *s, char **e, int b) { return sxm_strtoll(s, e, b); }
unsigned long sxm___isoc23_strtoul(const char *s, char **e, int b) { return sxm_strtoul(s, e, b); }
unsigned long long sxm___isoc23_strtoull(const char *s, char **e, int b) { return sxm_strtoull(s, e, b); }
int sxm_atoi(const char *s) { return (int)sxm_strtol(s, nullptr, 10); }
long sxm_atol(const char *s) { return sxm_strtol(s, nullptr, 10); }
}
