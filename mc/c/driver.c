/* Executes the commands read from standard input with the library, using only what the header declares. */
#include "aga8.h"
#include <inttypes.h>
#include <stddef.h>
#include <stdio.h>
#include <string.h>

static double rd(void) {
  uint64_t u = 0;
  double d;
  if (scanf("%" SCNx64, &u) != 1) exit(3);
  memcpy(&d, &u, sizeof d);
  return d;
}
static void pr(double d) {
  uint64_t u;
  memcpy(&u, &d, sizeof u);
  printf("%016" PRIx64 "\n", u);
}
static struct Composition rdc(void) {
  struct Composition c;
  c.methane = rd();
  c.nitrogen = rd();
  c.carbon_dioxide = rd();
  c.ethane = rd();
  c.propane = rd();
  c.isobutane = rd();
  c.n_butane = rd();
  c.isopentane = rd();
  c.n_pentane = rd();
  c.hexane = rd();
  c.heptane = rd();
  c.octane = rd();
  c.nonane = rd();
  c.decane = rd();
  c.hydrogen = rd();
  c.oxygen = rd();
  c.carbon_monoxide = rd();
  c.water = rd();
  c.hydrogen_sulfide = rd();
  c.helium = rd();
  c.argon = rd();
  return c;
}
static void prp(struct Properties q) {
  pr(q.d);
  pr(q.mm);
  pr(q.z);
  pr(q.dp_dd);
  pr(q.d2p_dd2);
  pr(q.dp_dt);
  pr(q.u);
  pr(q.h);
  pr(q.s);
  pr(q.cv);
  pr(q.cp);
  pr(q.w);
  pr(q.g);
  pr(q.jt);
  pr(q.kappa);
}
static void layout(void) {
  printf("Composition %zu\n", sizeof(struct Composition));
  printf("Composition.methane %zu %zu\n", offsetof(struct Composition, methane), sizeof(((struct Composition *)0)->methane));
  printf("Composition.nitrogen %zu %zu\n", offsetof(struct Composition, nitrogen), sizeof(((struct Composition *)0)->nitrogen));
  printf("Composition.carbon_dioxide %zu %zu\n", offsetof(struct Composition, carbon_dioxide), sizeof(((struct Composition *)0)->carbon_dioxide));
  printf("Composition.ethane %zu %zu\n", offsetof(struct Composition, ethane), sizeof(((struct Composition *)0)->ethane));
  printf("Composition.propane %zu %zu\n", offsetof(struct Composition, propane), sizeof(((struct Composition *)0)->propane));
  printf("Composition.isobutane %zu %zu\n", offsetof(struct Composition, isobutane), sizeof(((struct Composition *)0)->isobutane));
  printf("Composition.n_butane %zu %zu\n", offsetof(struct Composition, n_butane), sizeof(((struct Composition *)0)->n_butane));
  printf("Composition.isopentane %zu %zu\n", offsetof(struct Composition, isopentane), sizeof(((struct Composition *)0)->isopentane));
  printf("Composition.n_pentane %zu %zu\n", offsetof(struct Composition, n_pentane), sizeof(((struct Composition *)0)->n_pentane));
  printf("Composition.hexane %zu %zu\n", offsetof(struct Composition, hexane), sizeof(((struct Composition *)0)->hexane));
  printf("Composition.heptane %zu %zu\n", offsetof(struct Composition, heptane), sizeof(((struct Composition *)0)->heptane));
  printf("Composition.octane %zu %zu\n", offsetof(struct Composition, octane), sizeof(((struct Composition *)0)->octane));
  printf("Composition.nonane %zu %zu\n", offsetof(struct Composition, nonane), sizeof(((struct Composition *)0)->nonane));
  printf("Composition.decane %zu %zu\n", offsetof(struct Composition, decane), sizeof(((struct Composition *)0)->decane));
  printf("Composition.hydrogen %zu %zu\n", offsetof(struct Composition, hydrogen), sizeof(((struct Composition *)0)->hydrogen));
  printf("Composition.oxygen %zu %zu\n", offsetof(struct Composition, oxygen), sizeof(((struct Composition *)0)->oxygen));
  printf("Composition.carbon_monoxide %zu %zu\n", offsetof(struct Composition, carbon_monoxide), sizeof(((struct Composition *)0)->carbon_monoxide));
  printf("Composition.water %zu %zu\n", offsetof(struct Composition, water), sizeof(((struct Composition *)0)->water));
  printf("Composition.hydrogen_sulfide %zu %zu\n", offsetof(struct Composition, hydrogen_sulfide), sizeof(((struct Composition *)0)->hydrogen_sulfide));
  printf("Composition.helium %zu %zu\n", offsetof(struct Composition, helium), sizeof(((struct Composition *)0)->helium));
  printf("Composition.argon %zu %zu\n", offsetof(struct Composition, argon), sizeof(((struct Composition *)0)->argon));
  printf("Properties %zu\n", sizeof(struct Properties));
  printf("Properties.d %zu %zu\n", offsetof(struct Properties, d), sizeof(((struct Properties *)0)->d));
  printf("Properties.mm %zu %zu\n", offsetof(struct Properties, mm), sizeof(((struct Properties *)0)->mm));
  printf("Properties.z %zu %zu\n", offsetof(struct Properties, z), sizeof(((struct Properties *)0)->z));
  printf("Properties.dp_dd %zu %zu\n", offsetof(struct Properties, dp_dd), sizeof(((struct Properties *)0)->dp_dd));
  printf("Properties.d2p_dd2 %zu %zu\n", offsetof(struct Properties, d2p_dd2), sizeof(((struct Properties *)0)->d2p_dd2));
  printf("Properties.dp_dt %zu %zu\n", offsetof(struct Properties, dp_dt), sizeof(((struct Properties *)0)->dp_dt));
  printf("Properties.u %zu %zu\n", offsetof(struct Properties, u), sizeof(((struct Properties *)0)->u));
  printf("Properties.h %zu %zu\n", offsetof(struct Properties, h), sizeof(((struct Properties *)0)->h));
  printf("Properties.s %zu %zu\n", offsetof(struct Properties, s), sizeof(((struct Properties *)0)->s));
  printf("Properties.cv %zu %zu\n", offsetof(struct Properties, cv), sizeof(((struct Properties *)0)->cv));
  printf("Properties.cp %zu %zu\n", offsetof(struct Properties, cp), sizeof(((struct Properties *)0)->cp));
  printf("Properties.w %zu %zu\n", offsetof(struct Properties, w), sizeof(((struct Properties *)0)->w));
  printf("Properties.g %zu %zu\n", offsetof(struct Properties, g), sizeof(((struct Properties *)0)->g));
  printf("Properties.jt %zu %zu\n", offsetof(struct Properties, jt), sizeof(((struct Properties *)0)->jt));
  printf("Properties.kappa %zu %zu\n", offsetof(struct Properties, kappa), sizeof(((struct Properties *)0)->kappa));
  printf("CompositionError %zu\n", sizeof(enum CompositionError));
  printf("CompositionError.Ok %d\n", (int)CompositionError_Ok);
  printf("CompositionError.Empty %d\n", (int)CompositionError_Empty);
  printf("CompositionError.BadSum %d\n", (int)CompositionError_BadSum);
  printf("DensityError %zu\n", sizeof(enum DensityError));
  printf("DensityError.Ok %d\n", (int)DensityError_Ok);
  printf("DensityError.IterationFail %d\n", (int)DensityError_IterationFail);
  printf("DensityError.PressureTooLow %d\n", (int)DensityError_PressureTooLow);
}
static double ccode(enum CompositionError e) {
  switch (e) {
  case CompositionError_Ok: return 0;
  case CompositionError_Empty: return 1;
  case CompositionError_BadSum: return 2;
  }
  return 9;
}
static double dcode(enum DensityError e) {
  switch (e) {
  case DensityError_Ok: return 0;
  case DensityError_IterationFail: return 1;
  case DensityError_PressureTooLow: return 2;
  }
  return 9;
}
int main(int argc, char **argv) {
  struct Detail *as[8] = {NULL};
  struct Gerg2008 *gs[8] = {NULL};
  int ks[8] = {0};
  struct Detail *a = NULL;
  struct Gerg2008 *g = NULL;
  int k = 0, i = 0;
  char c;
  if (argc > 1 && strcmp(argv[1], "layout") == 0) {
    layout();
    return 0;
  }
  while (scanf(" %c", &c) == 1) {
    switch (c) {
    case 'A':
    case 'B':
    case 'F':
    case 'S':
      /* create, free or select the handle in a slot */
      if (scanf("%d", &i) != 1 || i < 0 || i > 7) return 5;
      if (c != 'S') {
        aga8_free(as[i]);
        gerg_free(gs[i]);
        as[i] = NULL;
        gs[i] = NULL;
      }
      if (c == 'A') as[i] = aga8_new();
      if (c == 'B') gs[i] = gerg_new();
      if (c == 'A' || c == 'B') ks[i] = c == 'B';
      a = as[i];
      g = gs[i];
      k = ks[i];
      break;
    case 'C': {
      struct Composition x = rdc();
      enum CompositionError e = CompositionError_BadSum;
      if (k) gerg_set_composition(g, &x, &e);
      else aga8_set_composition(a, &x, &e);
      pr(ccode(e));
      break;
    }
    case 'T': {
      double v = rd();
      if (k) gerg_set_temperature(g, v);
      else aga8_set_temperature(a, v);
      break;
    }
    case 'P': {
      double v = rd();
      if (k) gerg_set_pressure(g, v);
      else aga8_set_pressure(a, v);
      break;
    }
    case 'D': {
      double v = rd();
      if (k) gerg_set_density(g, v);
      else aga8_set_density(a, v);
      break;
    }
    case 'd': {
      enum DensityError e = DensityError_PressureTooLow;
      if (k) gerg_calculate_density(g, &e);
      else aga8_calculate_density(a, &e);
      pr(dcode(e));
      break;
    }
    case 'p':
      pr(k ? gerg_calculate_pressure(g) : aga8_calculate_pressure(a));
      break;
    case 'm':
      pr(k ? gerg_calculate_molar_mass(g) : aga8_calculate_molar_mass(a));
      break;
    case 'r':
      if (k) gerg_calculate_properties(g);
      else aga8_calculate_properties(a);
      break;
    case 'G':
      pr(k ? gerg_get_temperature(g) : aga8_get_temperature(a));
      pr(k ? gerg_get_pressure(g) : aga8_get_pressure(a));
      pr(k ? gerg_get_density(g) : aga8_get_density(a));
      prp(k ? gerg_get_properties(g) : aga8_get_properties(a));
      break;
    default:
      return 4;
    }
  }
  for (i = 0; i < 8; i++) {
    aga8_free(as[i]);
    gerg_free(gs[i]);
  }
  return 0;
}
