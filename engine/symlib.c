// Library functions over strings for the instrumented code (compiled with the pass).  The C locale.
typedef unsigned long size_t;
int symlib_tolower(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
int symlib_toupper(int c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
int symlib_isdigit(int c) { return c >= '0' && c <= '9'; }
int symlib_isalpha(int c) { return (c >= 'A' && c <= 'Z') || (c >= 'a' && c <= 'z'); }
int symlib_isalnum(int c) { return symlib_isdigit(c) || symlib_isalpha(c); }
int symlib_isupper(int c) { return c >= 'A' && c <= 'Z'; }
int symlib_islower(int c) { return c >= 'a' && c <= 'z'; }
int symlib_isspace(int c) { return c == ' ' || (c >= 9 && c <= 13); }
size_t symlib_strlen(char const *s) {
    size_t n = 0;
    while (s[n] != 0) {
        ++n;
    }
    return n;
}
int symlib_memcmp(void const *a, void const *b, size_t n) {
    unsigned char const *x = a;
    unsigned char const *y = b;
    for (size_t i = 0; i < n; ++i) {
        if (x[i] != y[i]) {
            return x[i] < y[i] ? -1 : 1;
        }
    }
    return 0;
}
int symlib_bcmp(void const *a, void const *b, size_t n) { return symlib_memcmp(a, b, n); }
int symlib_strncmp(char const *a, char const *b, size_t n) {
    for (size_t i = 0; i < n; ++i) {
        unsigned char x = a[i];
        unsigned char y = b[i];
        if (x != y) {
            return x < y ? -1 : 1;
        }
        if (x == 0) {
            return 0;
        }
    }
    return 0;
}
int symlib_strcmp(char const *a, char const *b) { return symlib_strncmp(a, b, ~0UL); }
int symlib_strncasecmp(char const *a, char const *b, size_t n) {
    for (size_t i = 0; i < n; ++i) {
        int x = symlib_tolower((unsigned char)a[i]);
        int y = symlib_tolower((unsigned char)b[i]);
        if (x != y) {
            return x < y ? -1 : 1;
        }
        if (x == 0) {
            return 0;
        }
    }
    return 0;
}
int symlib_strcasecmp(char const *a, char const *b) { return symlib_strncasecmp(a, b, ~0UL); }
void *symlib_memchr(void const *s, int c, size_t n) {
    unsigned char const *x = s;
    for (size_t i = 0; i < n; ++i) {
        if (x[i] == (unsigned char)c) {
            return (void *)(x + i);
        }
    }
    return 0;
}
char *symlib_strchr(char const *s, int c) {
    for (;; ++s) {
        if (*s == (char)c) {
            return (char *)s;
        }
        if (*s == 0) {
            return 0;
        }
    }
}
char *symlib_strrchr(char const *s, int c) {
    char *r = 0;
    for (;; ++s) {
        if (*s == (char)c) {
            r = (char *)s;
        }
        if (*s == 0) {
            return r;
        }
    }
}
size_t symlib_strspn(char const *s, char const *set) {
    size_t n = 0;
    while (s[n] != 0 && symlib_strchr(set, s[n]) != 0) {
        ++n;
    }
    return n;
}
size_t symlib_strcspn(char const *s, char const *set) {
    size_t n = 0;
    while (s[n] != 0 && symlib_strchr(set, s[n]) == 0) {
        ++n;
    }
    return n;
}
size_t symlib_strnlen(char const *s, size_t m) {
    size_t n = 0;
    while (n < m && s[n] != 0) {
        ++n;
    }
    return n;
}
char *symlib_strstr(char const *s, char const *t) {
    size_t n = symlib_strlen(t);
    for (;; ++s) {
        if (symlib_strncmp(s, t, n) == 0) {
            return (char *)s;
        }
        if (*s == 0) {
            return 0;
        }
    }
}
