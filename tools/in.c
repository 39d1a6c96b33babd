enum E {A, B=5, C};
struct S { int x; unsigned y:3; struct {int p; long q;}; char arr[4]; };
union U { int a; double d; };
typedef int (*fn_t)(int, ...);
static struct S s = {.x=1, .y=2, {3,4}, "abc"};
int glob[] = {1,2,3,[5]=4};
extern int ext(int a, double b);
static union U un = {.a = 3};
#define M(a,b) a##b + #a[0]
static int f(int n) { return n + sizeof(int); }
struct S g(struct S q) { q.x = 1; return q; }
int main(int argc, char **argv) {
  long r = 0; float fl = 1.5f; 
  for (int i = 0; i < 10; i++) { if (i == 3) continue; switch (i) { case 1: r += 2; break; default: r--; } }
  while (argc-- > 0) { r = argc ? r * 2 : r / 3; }
  do { r ^= 1; goto end; } while (0);
end:
  r += _Generic(fl, float: 1, default: 2) + M(1,2) + s.q + (int) fl + f(3) + ext(1, 2.0);
  struct S *p = &s; p->x = p->arr[2]; r += C;
  struct S loc = (struct S){.x = 4};
  loc = g(loc);
  const char *str = "hello\n" "x"; unsigned u[] = {1u,2u};
  return (int) r + *str + u[1] && p || !r;
}
