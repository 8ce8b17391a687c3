# writes driver.c (development time only)
comp = "methane nitrogen carbon_dioxide ethane propane isobutane n_butane isopentane n_pentane hexane heptane octane nonane decane hydrogen oxygen carbon_monoxide water hydrogen_sulfide helium argon".split()
props = "d mm z dp_dd d2p_dd2 dp_dt u h s cv cp w g jt kappa".split()
o = []
w = o.append
w('''/* Executes the commands read from standard input with the library, using only what the header declares. */
#include "aga8.h"
#include <inttypes.h>
#include <stddef.h>
#include <stdio.h>
#include <string.h>

static double rd(void) {
  uint64_t u = 0;
  double d;
  if (scanf("%" SCNx64, &u) != 1) exit(3);
  memcpy(&d, &u, sizeof d);
  return d;
}
static void pr(double d) {
  uint64_t u;
  memcpy(&u, &d, sizeof u);
  printf("%016" PRIx64 "\\n", u);
}
static struct Composition rdc(void) {
  struct Composition c;''')
for f in comp: w(f"  c.{f} = rd();")
w('''  return c;
}
static void prp(struct Properties q) {''')
for f in props: w(f"  pr(q.{f});")
w("}")
w("static void layout(void) {")
w('  printf("Composition %zu\\n", sizeof(struct Composition));')
for f in comp: w(f'  printf("Composition.{f} %zu %zu\\n", offsetof(struct Composition, {f}), sizeof(((struct Composition *)0)->{f}));')
w('  printf("Properties %zu\\n", sizeof(struct Properties));')
for f in props: w(f'  printf("Properties.{f} %zu %zu\\n", offsetof(struct Properties, {f}), sizeof(((struct Properties *)0)->{f}));')
w('  printf("CompositionError %zu\\n", sizeof(enum CompositionError));')
for f in ["Ok","Empty","BadSum"]: w(f'  printf("CompositionError.{f} %d\\n", (int)CompositionError_{f});')
w('  printf("DensityError %zu\\n", sizeof(enum DensityError));')
for f in ["Ok","IterationFail","PressureTooLow"]: w(f'  printf("DensityError.{f} %d\\n", (int)DensityError_{f});')
w("}")
w('''static double ccode(enum CompositionError e) {
  switch (e) {
  case CompositionError_Ok: return 0;
  case CompositionError_Empty: return 1;
  case CompositionError_BadSum: return 2;
  }
  return 9;
}
static double dcode(enum DensityError e) {
  switch (e) {
  case DensityError_Ok: return 0;
  case DensityError_IterationFail: return 1;
  case DensityError_PressureTooLow: return 2;
  }
  return 9;
}
int main(int argc, char **argv) {
  struct Detail *as[8] = {NULL};
  struct Gerg2008 *gs[8] = {NULL};
  int ks[8] = {0};
  struct Detail *a = NULL;
  struct Gerg2008 *g = NULL;
  int k = 0, i = 0;
  char c;
  if (argc > 1 && strcmp(argv[1], "layout") == 0) {
    layout();
    return 0;
  }
  while (scanf(" %c", &c) == 1) {
    switch (c) {
    case 'A':
    case 'B':
    case 'F':
    case 'S':
      /* create, free or select the handle in a slot */
      if (scanf("%d", &i) != 1 || i < 0 || i > 7) return 5;
      if (c != 'S') {
        aga8_free(as[i]);
        gerg_free(gs[i]);
        as[i] = NULL;
        gs[i] = NULL;
      }
      if (c == 'A') as[i] = aga8_new();
      if (c == 'B') gs[i] = gerg_new();
      if (c == 'A' || c == 'B') ks[i] = c == 'B';
      a = as[i];
      g = gs[i];
      k = ks[i];
      break;
    case 'C': {
      struct Composition x = rdc();
      enum CompositionError e = CompositionError_BadSum;
      if (k) gerg_set_composition(g, &x, &e);
      else aga8_set_composition(a, &x, &e);
      pr(ccode(e));
      break;
    }
    case 'T': {
      double v = rd();
      if (k) gerg_set_temperature(g, v);
      else aga8_set_temperature(a, v);
      break;
    }
    case 'P': {
      double v = rd();
      if (k) gerg_set_pressure(g, v);
      else aga8_set_pressure(a, v);
      break;
    }
    case 'D': {
      double v = rd();
      if (k) gerg_set_density(g, v);
      else aga8_set_density(a, v);
      break;
    }
    case 'd': {
      enum DensityError e = DensityError_PressureTooLow;
      if (k) gerg_calculate_density(g, &e);
      else aga8_calculate_density(a, &e);
      pr(dcode(e));
      break;
    }
    case 'p':
      pr(k ? gerg_calculate_pressure(g) : aga8_calculate_pressure(a));
      break;
    case 'm':
      pr(k ? gerg_calculate_molar_mass(g) : aga8_calculate_molar_mass(a));
      break;
    case 'r':
      if (k) gerg_calculate_properties(g);
      else aga8_calculate_properties(a);
      break;
    case 'G':
      pr(k ? gerg_get_temperature(g) : aga8_get_temperature(a));
      pr(k ? gerg_get_pressure(g) : aga8_get_pressure(a));
      pr(k ? gerg_get_density(g) : aga8_get_density(a));
      prp(k ? gerg_get_properties(g) : aga8_get_properties(a));
      break;
    default:
      return 4;
    }
  }
  for (i = 0; i < 8; i++) {
    aga8_free(as[i]);
    gerg_free(gs[i]);
  }
  return 0;
}''')
open("driver.c","w").write("\n".join(o)+"\n")
