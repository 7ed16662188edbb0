// The program every simulated exec'd command runs: a tiny interpreter of a script handed out by the simulator.
// No libc; every effect is a system call answered by the simulated kernel.
typedef long i64;
static i64 sc(i64 n, i64 a, i64 b, i64 c)
{
  i64 r;
  __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c) : "rcx", "r11", "memory");
  return r;
}
static char S[1 << 16], B[1 << 16];
static i64 wall(int fd, const char* p, i64 n)
{
  i64 d = 0;
  while (d < n) {
    i64 r = sc(1, fd, (i64)(p + d), n - d);
    if (r == -4)
      continue;
    if (r <= 0)
      return r;
    d += r;
  }
  return d;
}
static char* num(char* p, i64* v)
{
  i64 x = 0;
  while (*p == ' ')
    p++;
  while (*p >= '0' && *p <= '9')
    x = x * 10 + (*p++ - '0');
  *v = x;
  return p;
}
void _start(void)
{
  i64 n = sc(10000, (i64)S, sizeof S - 1, 0);
  S[n < 0 ? 0 : n] = 0;
  char *p = S, *e = S + n;
  while (p < e) {
    char c = *p++;
    i64 a = 0, b = 0;
    switch (c) {
      case 'W': // W fd len\n<data>
        p = num(p, &a);
        p = num(p, &b);
        p++;
        if (wall((int)a, p, b) < 0)
          sc(231, 141, 0, 0);
        p += b;
        break;
      case 'E': // echo stdin to stdout until EOF
        for (;;) {
          i64 r = sc(0, 0, (i64)B, sizeof B);
          if (r == -4)
            continue;
          if (r <= 0)
            break;
          wall(1, B, r);
        }
        break;
      case 'A': // print argv or env, one per line
        p = num(p, &a);
        n = sc(10001, (i64)B, sizeof B, a);
        wall(1, B, n);
        break;
      case 'C':
        p = num(p, &a);
        sc(3, a, 0, 0);
        break;
      case 'Z': { // sleep ms
        p = num(p, &a);
        i64 t[2] = { a / 1000, (a % 1000) * 1000000 };
        sc(35, (i64)t, 0, 0);
        break;
      }
      case 'F': // leave a process behind that has closed its standard descriptors and sleeps a ms
        p = num(p, &a);
        if (sc(57, 0, 0, 0) == 0) {
          i64 t[2] = { a / 1000, (a % 1000) * 1000000 };
          sc(3, 0, 0, 0);
          sc(3, 1, 0, 0);
          sc(3, 2, 0, 0);
          sc(35, (i64)t, 0, 0);
          sc(231, 0, 0, 0);
        }
        break;
      case 'K':
        p = num(p, &a);
        sc(62, sc(39, 0, 0, 0), a, 0);
        break;
      case 'X':
        p = num(p, &a);
        sc(231, a, 0, 0);
        break;
      default:
        break;
    }
  }
  sc(231, 0, 0, 0);
  for (;;)
    ;
}
