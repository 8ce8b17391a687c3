#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the wording is edited in one place)."""
import json, os
D="src/detail.rs"; G="src/gerg2008.rs"; C="src/composition.rs"; F="src/ffi.rs"; L="src/lib.rs"; B="build.rs"
def m(name, where): return {"name": name, "where": where}
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[m(*x) for x in mech]}
    if state: a["state"]=[{"name":n,"meaning":w} for n,w in state]
    if observe: a["observe_at"]=observe
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("V01","AGA8 DETAIL results are the values of the AGA8 DETAIL equation of state",
 "For every accepted composition, temperature (from 20 K; near absolute zero the ideal-gas functions overflow) and density, every quantity the DETAIL model reports (pressure, compressibility factor, molar mass, pressure derivatives, internal energy, enthalpy, entropy, heat capacities, speed of sound, Gibbs energy, Joule-Thomson coefficient, isentropic exponent) equals the value of the AGA Report No. 8 Part 1 equation, up to rounding. Pressure calculated alone and pressure calculated with the other properties are the same.",
 ["inputs"],"All 21 pure components, all component pairs and triples, mixtures of every number of components, each component dominant and as a trace, sums within 1% of one, from ideal gas to dense liquid and beyond (30 times the reducing density), 20 K to 1e6 K.",
 "The tests check one 21-component gas at two or three states; each of the 210 pairs and each term dominates only in some corner of composition, temperature and density.",
 [D],[("mixture terms","Detail::x_terms"),("residual Helmholtz energy","Detail::alphar"),("ideal Helmholtz energy","Detail::alpha0_detail"),("property assembly","Detail::properties, Detail::pressure"),("coefficient tables and their setup","Detail::setup and the constants")],
 observe=["public result fields of Detail after properties() and pressure()"])
p("V02","GERG-2008 results are the values of the GERG-2008 equation of state",
 "For every accepted composition, temperature (from 20 K; near absolute zero the ideal-gas functions overflow) and density, every quantity the GERG model reports (pressure, compressibility factor, molar mass, pressure derivatives including the mixed one, internal energy, enthalpy, entropy, heat capacities, speed of sound, Gibbs energy, Joule-Thomson coefficient, isentropic exponent) equals the value of the GERG-2008 equation, up to rounding. Pressure calculated alone and pressure calculated with the other properties are the same.",
 ["inputs"],"All 21 pure components, all component pairs and triples, mixtures of every number of components, each component dominant and as a trace, sums within 1% of one, from ideal gas to dense liquid and beyond (30 times the reducing density), 20 K to 1e6 K.",
 "The tests check one 21-component gas at a few states; the 210 pairs, 10 departure functions and 21 pure equations each matter only in some corner of the input space.",
 [G],[("reducing functions","Gerg2008::reducingparameters"),("residual Helmholtz energy","Gerg2008::alphar, Gerg2008::tterms"),("ideal Helmholtz energy","Gerg2008::alpha0"),("property assembly","Gerg2008::properties, Gerg2008::pressure"),("coefficient tables and their setup","Gerg2008::setup and the constants")],
 observe=["public result fields of Gerg2008 after properties() and pressure()"])
p("V03","Reported properties are thermodynamically consistent with each other",
 "At every state the reported quantities satisfy the exact thermodynamic relations: H = U + p/D, G = H - TS, heat capacities, speed of sound, Joule-Thomson coefficient and isentropic exponent follow from the derivatives, and z = p/(DRT). The reported derivatives are the derivatives of what the same model reports at neighbouring temperatures and densities (dp/dD, d2p/dD2, dp/dT, the mixed derivative, cv = dU/dT, dS/dT = cv/T, dS/dD and dU/dD).",
 ["inputs"],"All pure components, all pairs, natural gases, over a grid of temperatures and densities, both models.",
 "The tests compare stored numbers at two states; no test relates one output to another or to a neighbouring state.",
 [D,G],[("property assembly","Detail::properties, Gerg2008::properties"),("analytic derivatives","Detail::alphar, Gerg2008::alphar")])
p("V04","Low-density behaviour is the ideal gas mixture with the standard reference state",
 "As the density goes to zero every property tends to its ideal-gas value: z to 1, cp - cv to R, internal energy, enthalpy and heat capacities to mole-fraction averages of the pure gases, entropy to the same average plus ideal mixing, speed of sound to sqrt(cp/cv RT/M). Every pure ideal gas has zero enthalpy at 298.15 K and zero entropy at 298.15 K and 101.325 kPa, and both models agree on the ideal-gas properties. Exactly at zero density all reported values except the Joule-Thomson coefficient are finite.",
 ["inputs"],"All components and all pairs and many mixtures, temperatures 60 K to 2000 K, densities 0 to 1e-6 mol/l, both models.",
 "No test evaluates a dilute gas or a pure component.",
 [D,G],[("ideal Helmholtz energy","Detail::alpha0_detail, Gerg2008::alpha0"),("ideal-gas constants","Detail::setup, Gerg2008::setup"),("low-density branch","properties() of both models")])
p("V05","The two models agree on natural gas in the pipeline range",
 "For natural gases with at least 70 percent methane, between 270 K and 350 K and up to 12 MPa, both models find a density, and the two densities agree within 1.6 percent at 12 MPa and proportionally closer at lower pressure. Speed of sound, heat capacities, isentropic exponent and the residual enthalpy agree to similar engineering accuracy.",
 ["inputs"],"A box of natural-gas compositions x temperatures 270 K to 350 K x pressures 0.1 kPa to 12 MPa.",
 "The models are tested separately, each against its own stored numbers at one gas.",
 [D,G],[("DETAIL equation and solver","Detail::density, Detail::properties"),("GERG equation and solver","Gerg2008::density, Gerg2008::properties")])
p("D01","A successful density calculation solves the equation of state at a stable state",
 "Whenever a density calculation reports success, the density is finite and positive, the pressure of the equation of state there equals the requested one to within the convergence tolerance (a relative density error of 1e-9, more only for nearly incompressible liquids at low pressure, and rounding), and the state is mechanically stable (pressure increases with density). This holds for any composition, temperature, pressure, initial estimate and search mode, however extreme.",
 ["inputs"],"All pures and pairs and many mixtures x temperatures x pressures from 1e-12 to 1e9 kPa x initial estimates including negative, zero, huge and not-a-number x all search modes, both models.",
 "The tests solve single-phase states of one gas only; false convergence shows near the saturation curve, at extreme pressures, and for particular initial estimates.",
 [D,G],[("DETAIL Newton iteration","Detail::density"),("GERG Newton iteration with restarts","Gerg2008::density")],observe=["return value and public d field; pressure() and properties() at the result"])
p("D02","A failed density calculation says so and returns the ideal-gas density",
 "When no density is found the call reports an error and leaves the ideal-gas density p/(RT) (zero for a vanishing pressure, which DETAIL reports as pressure too low). Non-positive or non-finite pressure or temperature never reports success. Whether it succeeds or fails, a density calculation changes neither temperature, pressure nor composition.",
 ["inputs"],"All combinations of ordinary and special values of temperature, pressure, initial estimate, composition and search mode, both models.",
 "No test looks at a failing density calculation.",
 [D,G,L],[("failure exits","Detail::density, Gerg2008::density"),("error codes","DensityError")])
p("D03","Density calculation always converges to the gas root in the pipeline range",
 "For every natural gas between 250 K and 350 K and every pressure up to 35 MPa, the density calculation of both models, started without an estimate, succeeds. The result is the gas root (the smallest density with that pressure) and increases with pressure.",
 ["inputs"],"540 natural-gas compositions x temperatures 250 K to 350 K x pressures 1e-3 kPa to 35 MPa, both models; pure components and pairs in their gas region for GERG.",
 "The tests and the documentation exercise one gas at a few states; convergence is a property of the whole range.",
 [D,G],[("initial estimate and Newton iteration","Detail::density, Gerg2008::density")])
p("D04","A density handed over as estimate is found again; other leftovers are ignored",
 "If the density field is set to minus the density of a stable state of the equation, a density calculation at the pressure of that state succeeds and returns that density, for gas and liquid states alike. A zero, positive or not-a-number value left in the density field is no estimate and does not influence the result.",
 ["inputs","histories"],"All pures, all pairs, named gases x temperatures x stable densities from dilute gas to dense liquid, both models.",
 "No test uses an estimate.",
 [D,G],[("use of the sign of the density field","Detail::density, Gerg2008::density")])
p("D05","The GERG search modes mean what they say",
 "With the two-phase check requested (the liquid search includes it), a density calculation succeeds exactly when the plain calculation succeeds and the found state has positive pressure, pressure derivatives, heat capacities and speed of sound, and then returns the same density with the properties of that state. With the liquid search requested, every supercritical state with a single root is found (reduced temperature 1.1 and above), as is every single liquid root above the reducing density of pure components and common gases from reduced temperature 0.83 on. Where a gas and a liquid root coexist, success means the liquid root for pure components and common gases up to reduced temperature 0.8, and pure components are found near their critical temperature (0.87 to 0.97, upper half of the range of pressures with two roots).",
 ["inputs"],"All pures, pairs and named gases x temperatures x pressures x the three search modes.",
 "The tests only use the plain mode.",
 [G],[("search modes","Gerg2008::density parameter iflag"),("check of the found state","Gerg2008::density")])
p("D06","Density is found wherever there is one, above the two-phase region",
 "For every composition of the 21 components, not only natural gases, a density calculation without estimate succeeds and solves the equation at every pressure up to 70 MPa at which the isotherm has a mechanically stable density: with GERG from a reduced temperature of 0.92 (temperature divided by the reducing temperature of the mixture; isolated pressures excepted below 1.03), two-phase loops included, with DETAIL from a reduced temperature of 1.6 and 200 K, up to 35 MPa and with at most 40 percent hydrogen and helium, where no part of the isotherm is nearly flat (pressure rises everywhere at least half as fast as in the ideal gas).",
 ["inputs"],"All pures, all pairs at five fractions, all triples, strided supports, 21 component mixtures x reduced temperatures to 6 x pressures from 1e-3 kPa to 70 MPa.",
 "The tests solve for one gas. Near the critical temperature the first search fails for most mixtures and only the restarts find the root; no test reaches them.",
 [D,G],[("Newton iteration","Detail::density"),("restarts from liquid densities, steps out of the unstable region","Gerg2008::density")])
p("H01","Results depend only on the current inputs, not on what was calculated before",
 "After any sequence of calls on one instance, a calculation gives the same results as a new instance given the same composition, temperature, pressure and density (or estimate). This includes arbitrarily small changes of one mole fraction or of the temperature, changes made by writing the public fields directly, and any order of compositions.",
 ["histories"],"All sequences of operations up to a depth over small alphabets chosen to collide in caches, all ordered pairs of a large set of inputs, drifts of every component and of the temperature of every size.",
 "The tests use an instance for one calculation, or a few with the same gas; cached terms only go wrong in particular orders.",
 [D,G],[("cached composition terms","Detail::x_terms, Gerg2008::reducingparameters"),("cached temperature terms","Detail::alphar, Gerg2008::alphar, Gerg2008::tterms")],
 state=[("xold, told, trold, trold2, drold","keys and values of the caches"),("bs, csn, k3, tun, taup, taupijk","cached terms")])
p("H02","Every call changes only what it is documented to calculate, and is repeatable",
 "A pressure calculation leaves temperature, pressure, density, composition and the thermodynamic results unchanged (it may update the compressibility factor); a molar mass calculation changes the molar mass only; a property calculation leaves temperature, density and composition unchanged; a density calculation changes no thermodynamic result other than the compressibility factor unless a check of the found state is requested. Repeating a call with the same inputs gives identical results (a density calculation replaces its estimate, which is an input).",
 ["histories"],"All sequences of operations up to a depth, with every field compared before and after every step.",
 "The tests read each output once, right after the call that computes it.",
 [D,G],[("calculation functions","pressure, density, properties, molar_mass of both models")])
p("H03","Instances are independent of each other, in any interleaving and on any thread",
 "Calculations on one instance never influence another instance: any interleaving of calls on several instances, of the same or different models, in one thread or in many, gives each instance the results it would have alone. Instances can be moved to and used on other threads.",
 ["schedules","histories"],"All interleavings of several programs on two and three instances at call granularity; every placement of the calls on two threads; preemption of an operation between any two of its machine instructions by operations of another thread.",
 "The tests use one instance at a time.",
 [D,G,F],[("per-instance state only","Detail, Gerg2008"),("handles","ffi::detail, ffi::gerg2008")])
p("H04","An instance recovers completely from any earlier bad input or failure",
 "After rejected compositions, failed density calculations, not-a-number, infinite, zero or negative temperatures, pressures, densities or fractions, an instance given valid inputs again calculates the same results as a new one. Nothing of the bad calculation persists.",
 ["histories","fault_sequences"],"All sequences of up to three bad operations from an alphabet of special values, followed by good inputs and every calculation, both models.",
 "No test feeds a bad value and then continues.",
 [D,G],[("cached terms keyed by value comparison","Detail::x_terms, Detail::alphar, Gerg2008::reducingparameters, Gerg2008::alphar"),("leftover density used as estimate","density of both models")])
p("K01","Compositions are accepted exactly when fractions sum to one within 1 percent",
 "A composition is accepted by the check, by both models and through the C interface exactly when its mole fractions sum to one within 0.01; a sum of zero is reported as empty, a clearly different sum, including not-a-number and infinite fractions, as a bad sum. A rejected composition leaves the model's composition and all later results unchanged.",
 ["inputs","histories"],"Sums across all thresholds, every component, pairs of components and all components, special values in every position, from several prior states, for both models natively and through C.",
 "The tests check three sums.",
 [C,D,G,F],[("validation","Composition::check"),("use of validation","set_composition of both models and of the C interface")])
p("K02","Every mole fraction reaches the component it is named for, in both models",
 "Setting a composition makes each model use each fraction for the component of that name, and replaces the previous composition completely, whatever it was. The public fraction arrays of the models list the components in the documented order.",
 ["inputs","histories"],"All components, all ordered pairs of compositions from a large set, both models.",
 "The tests set one composition in which several components have similar fractions, once per instance.",
 [C,D,G],[("field to index mapping","Detail::set_composition, Gerg2008::set_composition"),("component order of the tables","constants and setup of both models")])
p("K03","Normalizing scales the fractions to a sum of one or changes nothing",
 "Normalizing a composition with a positive finite sum (of normal magnitude) makes the fractions sum to one and keeps their ratios, for any magnitude of the input; the result is accepted by the check. An empty composition is reported as empty; whenever an error is reported the composition is unchanged. Summation adds all 21 fractions.",
 ["inputs"],"Every component, every pair, full compositions, scaled by every power of ten in the range of the number type, plus special values.",
 "The tests normalize one two-component composition and an empty one.",
 [C],[("sum","Composition::sum"),("normalize","Composition::normalize")])
p("K04","Molar mass is the mole-fraction average of the molar masses of the components",
 "The molar mass of any mixture equals the sum of fraction times component molar mass, in both models, whether calculated alone, with the other properties or through the C interface. The component molar masses agree with their chemical formulas and with each other across the models.",
 ["inputs"],"All components, pairs, large supports, unnormalized compositions, both models, all three ways.",
 "The tests check the molar mass of one gas per model.",
 [D,G,F],[("molar mass","Detail::molar_mass, Gerg2008::molar_mass"),("molar mass tables","MMI, MMI_GERG")])
p("F01","The C interface gives the same results as the native one for every call sequence",
 "Any sequence of calls through the C interface has the same effects, error codes and results, field by field, as the same sequence on the native type. This holds for both models.",
 ["histories"],"All sequences of C calls up to a depth over an alphabet of all exported functions with valid and invalid arguments, both models.",
 "No test calls the C interface.",
 [F],[("wrappers","ffi::detail, ffi::gerg2008"),("result structure","ffi::Properties")])
p("F02","C handles own their memory: no leak, no double use, nothing else touched",
 "Every handle created is a separate object; freeing it, in any order relative to other handles, releases exactly what was allocated for it, and freeing a null handle does nothing. No call writes outside the handle and its output parameters, reads the composition beyond its fields, or keeps a reference to caller memory. Using a null handle stops the process and is never dereferenced.",
 ["histories"],"All sequences of create, use and free over up to three handles of both models up to a depth, under a checking allocator and with guarded arguments.",
 "No test calls the C interface.",
 [F],[("allocation and release","aga8_new, aga8_free, gerg_new, gerg_free"),("null checks","all functions of ffi")])
p("F03","The generated C header compiles and matches the built library",
 "The header generated by the build compiles as C without warnings and declares every exported function, structure and error code of the library with the layout and values the library uses. A C program using only the header and the library obtains the same results as a Rust program.",
 ["programs","configurations"],"Every exported function and every structure field, several C standards and compilers, every component, both models.",
 "No test compiles the header or calls from C.",
 [B,F,C,L],[("header generation","build.rs"),("exported functions and types","ffi.rs, Composition, CompositionError, DensityError")])
p("T01","No input makes a calculation panic, loop or corrupt memory",
 "Every public operation returns for every value of its inputs, including not-a-number, infinite, subnormal, zero, negative and huge numbers in any field and any combination and order. No call panics, overflows, indexes out of bounds or runs forever.",
 ["inputs","histories"],"All combinations of special values of temperature, pressure, density, search mode and fractions, and all operation sequences over them up to a depth, both models, natively and through C, built with all run-time checks.",
 "The tests use ordinary values only.",
 [D,G,C,F],[("iteration bounds","density of both models"),("index arithmetic over component and term tables","alphar, tterms, x_terms")])
p("T02","Results do not depend on how the library is built",
 "The library compiles and gives the same results (up to rounding) with and without optimization, with and without run-time checks, with and without the C interface feature, as the shipped release profile builds it. No build enables behaviour that another lacks.",
 ["configurations"],"All combinations of optimization level, run-time checks and feature, over one workload covering all components and operations.",
 "The tests run in one build configuration.",
 ["Cargo.toml",L,D,G,F],[("feature and profile configuration","Cargo.toml, cfg(feature) in lib.rs")])
here=os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here,"..","properties.jsonl"),"w") as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x)+"\n")
print(len(P))
