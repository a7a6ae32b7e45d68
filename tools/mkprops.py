#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that statements stay easy to edit)."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
L = []
def P(id, title, statement, over, text, why, files, mech, observe, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m} for n, m in state]
    a["observe_at"] = observe
    L.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})
I = ["inputs"]
P("P01", "Gamma function is correct over its whole real domain",
  "For every finite double x > -170 that is not a pole and has a representable gamma value, gamma(x) equals the true value with relative error at most 1e-13, for positive and negative x alike. For x <= -170 the error is at most 1e-13 relative or 1e-290 absolute, whichever is larger. gamma(+0) is +infinity, gamma(-0) is -infinity, and gamma of a negative integer, of -infinity or of NaN is NaN. gamma is +infinity for every argument above about 171.6243769563027.",
  I, "every double x", "The tests compare a table of a few dozen points and proptest one recurrence on small ranges; a wrong branch, coefficient or boundary between sampled points is not seen.",
  ["src/gamma.rs", "src/utils.rs"], [("argument reduction into [2.5,3.5] and two polynomials", "src/gamma.rs gamma"), ("special cases (poles, overflow, integers)", "src/gamma.rs gamma")], ["return value of gamma(x)"])
P("P02", "Log-gamma is correct for every positive argument",
  "For every double z with 1e-300 <= z <= 1e300, ln_gamma(z) differs from the natural logarithm of the gamma function at z by at most 2e-10 * max(1, |ln gamma(z)|). ln_gamma(NaN) is NaN.",
  I, "every z in [1e-300, 1e300]", "Tests sample a handful of arguments between 0.1 and 100; nothing covers tiny, huge or near-1/near-2 arguments, where cancellation hides.",
  ["src/gamma.rs"], [("Lanczos sum (g=5, n=7)", "src/gamma.rs ln_gamma, LG5N7")], ["return value of ln_gamma(z)"])
P("P03", "Factorials are exact where representable and agree with gamma",
  "factorial(n) equals n! exactly for n <= 22, has relative error at most 1e-13 for n <= 170, and is +infinity for every n >= 171. For every integer n from 1 to 171, gamma(n) equals factorial(n-1) to 1e-13 relative, and factorial(n+1) equals (n+1) * factorial(n) to 1e-13 relative.",
  I, "every non-negative integer n", "A table of sampled n and one comparison test; the grouping of factors changes with n, so each n is its own code path.",
  ["src/utils.rs", "src/gamma.rs"], [("rectangular splitting of the rising factorial", "src/utils.rs rising_factorial"), ("integer fast path", "src/gamma.rs gamma")], ["return values of factorial(n), gamma(n)"])
P("P04", "Regularized incomplete gamma functions have correct values",
  "For every a in [1e-9, 1e6] and every x >= 0, gammp(a,x) and gammq(a,x) differ from the true regularized lower and upper incomplete gamma functions by at most u*T, where u = 1e-9 + 2e-14*a and T is the tail on x's side: the lower function P if x < a+1, otherwise the upper function Q (at x = a+1 up to rounding, the larger of the two). So gammp keeps its relative accuracy in the lower tail and gammq in the upper tail; the other of the two may add 1e-15 of rounding, errors below 1e-50 (below 1e-30*u for a lower tail with a >= 100) do not count, and a tail below 3e-13 may be reported as exactly 0 (its complement as exactly 1).",
  I, "every (a, x) with 0.001 <= a <= 1e6, x >= 0 (including +infinity)", "Tests sample tables of (a, x) pairs; each of the series, continued-fraction, quadrature and shortcut regions has boundaries that depend on both arguments.",
  ["src/gamma.rs"], [("series / continued fraction / Gauss-Legendre regions", "src/gamma.rs gammp, gammq, gser, gcf, gammpapprox"), ("early exits for x far below or above a", "src/gamma.rs gammp, gammq")], ["return values of gammp(a,x), gammq(a,x)"])
P("P05", "Incomplete gamma functions obey the laws of a probability distribution",
  "For every a in [1e-9, 1e6] and x >= 0, with t = 1e-9 + 2e-14*a: gammp and gammq lie in [0,1] and sum to 1 within t, are exactly 0 and 1 at x = 0, and x1 <= x2 implies gammp(a,x1) <= gammp(a,x2) + t and gammq(a,x1) + t >= gammq(a,x2). They also satisfy the recurrence P(a+1,x) = P(a,x) - x^a e^-x / Gamma(a+1) within 2t.",
  I, "every pair and triple of related argument tuples", "Tests never compare two calls with each other across the algorithm boundaries.",
  ["src/gamma.rs"], [("P/Q computed by different algorithms in different regions", "src/gamma.rs gammp, gammq")], ["return values of related gammp/gammq calls"])
P("P06", "Inverse incomplete gamma function inverts the incomplete gamma function",
  "For every a in [1e-4, 1e6] and p in [1e-250, 1-1e-12], x = invgammp(p,a) satisfies P(a, x*(1-1e-13)) - t <= p <= P(a, x*(1+1e-13)) + t, where P is the true regularized lower incomplete gamma function and t = 2*(1e-9 + 2e-14*a)*T is relative to the tail T at x (P if x < a+1, plus 1e-50; otherwise 1-P, plus 1e-15); a lower tail below 1e-15 only has to be met within a factor of 20, and results whose true value is below 1e-290 only need to be below 1e-289. invgammp is 0 for p <= 0 and is max(100, a + 100*sqrt(a)) for p >= 1, and is non-decreasing in p up to the same accuracy.",
  I, "every (p, a) in the domain", "The tests check a few p for a few a around 1..100; convergence of the iteration depends on both arguments.",
  ["src/gamma.rs"], [("initial guess and Halley iteration with stopping rule", "src/gamma.rs invgammp")], ["return value of invgammp(p,a)"])
P("P07", "Beta function is correct and symmetric",
  "For all z, w in [1e-9, 1e6] whose beta value is at least 1e-306, beta(z,w) has relative error at most 1e-9 + 1e-13*(z+w); smaller true values give a nonnegative result below 2e-306. beta(z,w) and beta(w,z) agree to 1e-12*(1+z+w) relative.",
  I, "every pair (z, w)", "A table of sampled pairs.",
  ["src/beta.rs", "src/gamma.rs"], [("exponential of log-gamma combination", "src/beta.rs beta")], ["return value of beta(z,w)"])
P("P08", "Regularized incomplete beta function has correct values",
  "For all a, b in [1e-6, 1e6] and x in [0,1], betai(a,b,x) differs from the true regularized incomplete beta function I by at most t = 2e-9 + 1e-13*(a+b), and by at most 10*t*T, where T is the tail on x's side: I if x < (a+1)/(a+b+2), otherwise 1-I, which adds 1e-15 of rounding (where x is at that boundary up to rounding, the larger of the two); errors below 1e-50 do not count.",
  I, "every (a, b, x) with 0.01 <= a, b <= 1e5, 0 <= x <= 1", "Tests sample a table with moderate a, b; the quadrature for large a and b and the far tails are not reached.",
  ["src/beta.rs"], [("continued fraction with complement switch", "src/beta.rs betai, betacf"), ("quadrature for a, b > 3000", "src/beta.rs betaiapprox")], ["return value of betai(a,b,x)"])
P("P09", "Incomplete beta function obeys the laws of a probability distribution",
  "For all a, b in [1e-6, 1e6], with t = 2e-9 + 1e-13*(a+b): betai(a,b,x) lies in [-t, 1+t], is exactly 0 at x=0 and exactly 1 at x=1, is non-decreasing in x up to t, and betai(a,b,x) + betai(b,a,1-x) = 1 within 2t whenever 1-x is exact. Also I_x(1,b) = 1-(1-x)^b and I_x(a,1) = x^a within t.",
  I, "every group of related argument tuples", "Tests never relate two calls on different sides of an algorithm boundary.",
  ["src/beta.rs"], [("complement switch and quadrature region", "src/beta.rs betai, betaiapprox")], ["return values of related betai calls"])
P("P10", "Inverse incomplete beta function inverts the incomplete beta function",
  "For all a, b in [1e-3, 1e5] and p in [1e-20, 1-1e-15], x = invbetai(p,a,b) lies in [0,1] and satisfies I(a,b,max(0,x-d)) - t <= p <= I(a,b,min(1,x+d)) + t, where I is the true regularized incomplete beta function, d = 1e-13*x + 1e-290 and t = 2*(2e-9 + 1e-13*(a+b))*T is relative to the tail T at x (I if x < (a+1)/(a+b+2), plus 1e-50; otherwise 1-I, plus 1e-15). invbetai is 0 for p <= 0 and 1 for p >= 1.",
  I, "every (p, a, b) in the domain", "Three or four sampled round trips; convergence depends on all three arguments.",
  ["src/beta.rs"], [("initial guess and Halley iteration", "src/beta.rs invbetai")], ["return value of invbetai(p,a,b)"])
P("P11", "Error functions are accurate over the whole real line",
  "For every double x, erf(x) and erfc(x) have absolute error at most 1e-14, and erfc(x) has relative error at most 1e-11 for every x >= 0 at which the value is at least 2.3e-308 (subnormal values only need an absolute error of 1e-320). erf is odd and bounded by 1 in magnitude, erfc stays in [0,2], erf(x)+erfc(x) = 1 and erfc(-x) = 2-erfc(x) within 1e-14, both are monotone up to these accuracies, and NaN gives NaN.",
  I, "every double x", "Tests use a table of points in [-3,3].",
  ["src/error.rs"], [("Chebyshev expansion of scaled erfc", "src/error.rs erfccheb, COF")], ["return values of erf(x), erfc(x)"])
P("P12", "Scaled complementary error function is accurate over the whole real line",
  "For every double x >= -26.6, erfcx(x) equals exp(x^2)*erfc(x) with relative error at most 1e-14*(1+x^2) for x < 0 and 1e-14 for x >= 0 (absolute 1e-320 where the value is subnormal). For x <= -26.8 it is +infinity, and NaN gives NaN.",
  I, "every double x", "The implementation selects one of 448 Chebyshev table rows or one of 6 expansions by x; tests sample a few hundred points of these.",
  ["src/error.rs", "src/utils.rs"], [("Chebyshev interpolation table", "src/error.rs cheb_interpolant"), ("series / asymptotic regions", "src/error.rs erfcx")], ["return value of erfcx(x)"])
P("P13", "Inverse error functions invert the error functions",
  "For every p in [1e-307, 1], x = inverfc(p) equals the true inverse of erfc within 1e-13*max(|x|,1); for p in (1, 2-1e-15] within 1e-13*max(|x|,1) + 1e-15/|erfc'(x)|, and for every p with |p| <= 1-1e-15, inverf(p) equals the true inverse of erf within 1e-13*max(|x|,1) + 1e-15/erf'(x). For p <= 0 inverfc is +100 and for p >= 2 it is -100; correspondingly inverf is +100 for p >= 1 and -100 for p <= -1; NaN gives NaN.",
  I, "every double p", "Tests check a few round trips in mid-range.",
  ["src/error.rs"], [("rational initial guess and two Halley steps", "src/error.rs inverfc"), ("delegation through 1-p", "src/error.rs inverf")], ["return values of inverf(p), inverfc(p)"])
P("P14", "Dawson integral is accurate for every argument",
  "For every double x, dawson(x) has relative error at most 1e-6 with respect to the true Dawson integral exp(-x^2) * integral of exp(t^2) from 0 to x, except that subnormal magnitudes only need absolute error 1e-320. dawson(-x) is exactly -dawson(x), dawson of an infinity is 0, and NaN gives NaN.",
  I, "every double x", "The single test evaluates one point, in the small-argument branch.",
  ["src/dawson.rs"], [("Rybicki sampling sum", "src/dawson.rs dawson"), ("small- and large-argument branches", "src/dawson.rs dawson")], ["return value of dawson(x)"])
P("P15", "Faddeeva function is accurate in the whole complex plane",
  "For every z = x+iy with y >= 0, |z| <= 1e300, faddeeva returns w(z) with error at most 1e-12*|w(z)|, or 1e-6*|w(z)| when y <= 1e-8*|x|. For y < 0 with |z| <= 1e300 and x^2 - y^2 >= 17000 (or |z| <= 700 and x^2 - y^2 >= 800), where exp(-z^2) is negligible, the same accuracy holds. Elsewhere below the axis, for |z| <= 25 and for |z| <= 700 with |x^2 - y^2| <= 640, the error is at most (1e-12 + 4e-15*|z|^2 + (2xy)^2*[|x| < 1e-8*|y|])*|w(z)|, or 1e-6*|w(z)| when |y| <= 1e-8*|x|.",
  I, "every complex z in the stated region", "Over a hundred table tiles, five expansions and two axis shortcuts are selected by z; tests sample a few dozen z.",
  ["src/faddeeva.rs", "src/error.rs", "src/dawson.rs"], [("tile lookup and Taylor expansion", "src/faddeeva.rs TILES, TAYLOR_COEFFS"), ("series, asymptotic and axis regions", "src/faddeeva.rs faddeeva")], ["both components of faddeeva(x,y)"])
P("P16", "Faddeeva function obeys its symmetries and matches its real-line relatives",
  "For every z in the domain of accuracy, w(-conj z) is the conjugate of w(z), and w(z) + w(-z) = 2*exp(-z^2) within the accuracy of the two values. On the axes, faddeeva(0,y) has real part erfcx(y) (within 1e-13 relative) and imaginary part 0, and faddeeva(x,0) has real part exp(-x^2) (within 1e-14) and imaginary part 2*dawson(x)/sqrt(pi) (within 1e-12 relative).",
  I, "every z, and the pairs and triples related by symmetry", "Tests compare isolated points only.",
  ["src/faddeeva.rs"], [("quadrant folding", "src/faddeeva.rs faddeeva"), ("axis shortcuts", "src/faddeeva.rs faddeeva, im_w_of_x")], ["results of related faddeeva, erfcx, dawson calls"])
P("P17", "Integer-order Bessel functions J and Y have correct values",
  "For every order n <= 20000 and |x| <= 1e9, Jn(n,x) has error at most (5e-13 + 2e-15*|x|) times the envelope max(|J_n(x)|, min(1, 1/sqrt|x|)*[|x| >= n]) (absolute 1e-307 where that is smaller), with Jn(n,-x) = (-1)^n Jn(n,x) exactly, and Jn(n,0) is 1 for n=0 (within 1e-14) and 0 otherwise. For x in [1e-300, 1e9], Yn(n,x) has error at most (5e-13 + 2e-15*x) times max(|Y_n(x)|, |J_n(x)|) as long as that is below 1e300, and is -infinity or below -1e299 beyond.",
  I, "every (n, x) in the domain", "Tests use tables of n up to about 10 and x up to about 50; the choice between forward and backward recurrence, the starting order and rescaling depend on n and x.",
  ["src/bessel.rs", "src/utils.rs"], [("Miller backward recurrence with rescaling", "src/bessel.rs Jn"), ("forward recurrence", "src/bessel.rs Jn, Yn"), ("rational and asymptotic approximations for orders 0 and 1", "src/bessel.rs j0, j1, y0, y1")], ["return values of Jn(n,x), Yn(n,x)"])
P("P18", "Integer-order modified Bessel functions I and K have correct values",
  "For every order n <= 20000 and |x| <= 709, In(n,x) has relative error at most 1e-12 (absolute 1e-307 where smaller), with In(n,-x) = (-1)^n In(n,x) exactly. For x in [1e-300, 709], Kn(n,x) has relative error at most 1e-12 as long as the value is below 1e300, and is +infinity or above 1e299 beyond.",
  I, "every (n, x) in the domain", "Tests use tables of small n and x; the downward recurrence start and rescaling depend on n and x.",
  ["src/bessel.rs", "src/utils.rs"], [("downward recurrence normalized by I_0", "src/bessel.rs In"), ("upward recurrence", "src/bessel.rs Kn"), ("rational approximations for orders 0 and 1", "src/bessel.rs i0, i1, k0, k1")], ["return values of In(n,x), Kn(n,x)"])
P("P19", "Real-order Bessel functions J, Y and their derivatives have correct values",
  "For every order nu in [0, 3000] and x in [1e-250, 9500] with |Y_nu(x)| and |Y_nu'(x)| below 1e280, the four components of besseljy(nu,x) are J, Y, J', Y' with error at most (2e-11 + 1e-12*x) relative to max(|J|,sqrt(2/(pi*x))*[x >= nu]) and max(|Y|,sqrt(2/(pi*x))) and correspondingly for the derivatives. Elsewhere in 1e-250 <= x <= 9500, Y is -infinity or below -1e279 where Y_nu(x) < -1e280 and Y' +infinity or above 1e279 where Y_nu'(x) > 1e280, and J has error at most 2e-10*|J| + 1e-280; none of the four is NaN. Jnu_Ynu(nu,x) returns exactly the first two components.",
  I, "every (nu, x) in the domain, integer, half-integer and general orders", "Tests sample tables of nu, x; Temme series below x=2, continued fractions above, and recurrences whose length depends on nu and x.",
  ["src/bessel.rs"], [("Steed/Temme method", "src/bessel.rs besseljy"), ("Chebyshev expansion of gamma combinations", "src/bessel.rs chebev, C1, C2")], ["the four values of besseljy(nu,x), the pair of Jnu_Ynu(nu,x)"])
P("P20", "Real-order modified Bessel functions I, K and derivatives have correct values",
  "For every order nu in [0, 3000] and x in [1e-250, 700] with all of |I|, |K|, |I'|, |K'| between 1e-280 and 1e280, the four components of besselik(nu,x) are I, K, I', K' with relative error at most 2e-10. Where K or |K'| exceeds 1e280, that component is infinite with its sign or beyond 1e279 in magnitude, I has error at most 2e-10*I + 1e-280, and nowhere in the domain is any of the four NaN. Inu_Knu(nu,x) returns exactly the first two components.",
  I, "every (nu, x) in the domain", "As for J and Y.",
  ["src/bessel.rs"], [("Steed/Temme method", "src/bessel.rs besselik")], ["the four values of besselik(nu,x), the pair of Inu_Knu(nu,x)"])
P("P21", "Bessel functions of all families satisfy their recurrences and Wronskians",
  "For x in [1e-3, 700] and orders up to 400, results of separate calls satisfy, within 1e-10 relative to the largest term: C(n-1)+C(n+1) = (2n/x)*C(n) for J and Y, I(n-1)-I(n+1) = (2n/x)*I(n), K(n+1)-K(n-1) = (2n/x)*K(n), J(n+1)Y(n)-J(n)Y(n+1) = 2/(pi x), I(n)K(n+1)+I(n+1)K(n) = 1/x, for integer and real orders alike. The integer-order functions agree with the real-order functions at integer orders, and the returned derivatives satisfy C' = C(nu-1) - (nu/x)*C(nu) (with the corresponding signs for I and K), within 1e-10 relative to the largest term.",
  ["inputs", "histories"], "every group of related calls", "Tests never relate values of different orders or families.",
  ["src/bessel.rs"], [("independent implementations of integer and real orders", "src/bessel.rs Jn, Yn, In, Kn, besseljy, besselik")], ["results of related calls"])
P("P22", "Lambert W satisfies its defining equation on the right branch",
  "For every x in [-1/e, 1e300], w = lambert_w0(x) satisfies w*exp(w) = x with w >= -1, and for x in [-1/e, -1e-300], w = lambert_wm1(x) satisfies it with w <= -1, both to 1e-12 in w relative to |w| (sp_ variants to 1e-6) plus 1e-15 absolute for W0, allowing 1e-7 absolute around the branch point (1e-6 for sp_); outside the domain the results are NaN. For |k| <= 3 and complex z with 1e-5 <= |z| <= 1e5, at least 0.01 from the branch point -1/e, w = lambert_w(k,z) satisfies w*exp(w) = z to 1e-11*|z|*(1+|w|) and, unless z is real, lies on branch k (the branch is not claimed for k = 0 with 1/2 < |z| < 2, nor for k = 1 with |z| < 1 below the real axis, where the external crate's iteration strays).",
  I, "every argument and branch index in the domain", "Tables of sampled points.",
  ["src/lib.rs"], [("re-exports", "src/lib.rs")], ["return values of the lambert functions"])
P("P23", "Floating-point decomposition utilities are exact",
  "For every finite nonzero double x, frexp(x) returns (m, e) with x = m*2^e exactly and 0.5 <= |m| < 1, and frexp of a zero is a zero with exponent 0; for every double x and int e, ldexp(x,e) is the correctly rounded x*2^e, signed infinity on overflow and signed zero or the rounded subnormal on underflow, leaving zeros, infinities and NaN unchanged. sign(a,b) is the magnitude of a with the sign bit of b.",
  I, "every double, every int exponent", "No test exercises them directly.",
  ["src/utils.rs"], [("bit-level decomposition", "src/utils.rs frexp, ldexp, sign")], ["return values of frexp, ldexp, sign"])
P("P24", "Cached Bessel functions are transparent",
  "After any history of calls on any of the four cache types (lookups, misses, hits, clear, retain, clone, reserve, shrink, calls that panic), a cached call returns bit for bit what the corresponding uncached function returns for the same arguments, and panics exactly when the uncached function panics. Distinct caches, including clones, never influence one another.",
  ["histories", "inputs"], "every finite history of cache operations and every argument pair, including argument pairs that are close or numerically equal but differ in their bits", "The tests do one or two calls per cache; key collisions, staleness and cross-talk need particular histories.",
  ["src/bessel.rs"], [("keying by the bits of both arguments", "src/bessel.rs CachedBesselJY, CachedBesselIK, CachedJnuYnu, CachedInuKnu")], ["results of cached calls next to uncached calls"],
  state=[("map from argument bits to results", "the only state: one per cache object")])
P("P25", "Bessel caches behave as exact-key maps",
  "After any history of operations, a cache contains exactly the argument pairs (identified by their bits) computed successfully or inherited by clone since creation or the last clear, minus those a retain predicate rejected: contains, get, len, is_empty, == and clone agree with that set, get returns the value the cached call returned, retain passes each stored argument pair and value to the predicate exactly once, and clear, reserve, shrink_to_fit and with_capacity change nothing else. A cached call that panics leaves the cache usable and its contents unchanged.",
  ["histories"], "every finite history of operations over several cache objects", "Only one or two short histories are tested.",
  ["src/bessel.rs"], [("convenience methods", "src/bessel.rs impl_cached_bessel_convenience_functions")], ["observers of the cache after each operation"],
  state=[("map from argument bits to results", "the only state: one per cache object")])
P("P26", "Functions panic exactly where documented and always return in their domain",
  "gammp, gammq panic exactly when a > 0 and x >= 0 do not both hold; beta exactly when z > 0 and w > 0 do not both hold; betai exactly when a > 0, b > 0 and 0 <= x <= 1 do not all hold; invgammp panics for every a <= 0; besseljy and besselik, their pair forms and cached forms panic for every x <= 0 or nu < 0. Every function returns within seconds without panicking, and without producing NaN, for all arguments in its domain of accuracy as stated in the other properties; functions that document no panic return for every NaN, infinite, huge or tiny argument, and a NaN argument never yields a number except for invbetai with p outside (0,1).",
  I, "every argument tuple, including NaN, infinities, signed zeros, subnormals and values adjacent to every domain boundary", "Tests contain a handful of should_panic cases.",
  ["src/gamma.rs", "src/beta.rs", "src/bessel.rs", "src/error.rs", "src/dawson.rs", "src/faddeeva.rs", "src/utils.rs"], [("argument assertions", "gammp, gammq, beta, betai, invgammp, besseljy, besselik"), ("iteration limits", "gser, gcf, betacf, besseljy, besselik")], ["whether a call returns or panics, and whether it returns NaN"])
P("P27", "Functions are pure: history, order and threads do not matter",
  "Every function of the crate returns bit for bit the same result (or panics alike) whenever it is called with the same argument bits, in whatever order, after whatever other calls, including calls that panicked, and on whatever threads, concurrently or not.",
  ["histories", "schedules"], "every history and interleaving of calls", "Tests call each function once per argument in a fixed order.",
  ["src/lib.rs", "src/gamma.rs", "src/beta.rs", "src/error.rs", "src/dawson.rs", "src/faddeeva.rs", "src/bessel.rs", "src/utils.rs"], [("absence of shared mutable state", "whole crate")], ["results of repeated calls"])
P("P28", "Related special functions agree with each other",
  "Within the accuracies of the functions involved: ln_gamma(x) = ln gamma(x) and gamma(x+1) = x*gamma(x); beta(a,b) = gamma(a)gamma(b)/gamma(a+b); gammp(1/2,x^2) = erf(x) and gammq(1/2,x^2) = erfc(x) for x >= 0; erfcx(x)*exp(-x^2) = erfc(x); gammq(n+1,x) is the Poisson sum of e^-x x^k/k! for k <= n. Likewise betai(k,n-k+1,p) is the binomial tail, the half-integer orders of besseljy and besselik have their elementary closed forms (nu = 1/2), inverf(erf(x)) = x and inverfc(erfc(x)) = x to 1e-12 + 1e-15/erf'(x), and invgammp(gammp(a,x),a) = x and invbetai(betai(a,b,x),a,b) = x to the accuracy the slope allows.",
  ["inputs", "histories"], "every group of related calls", "Tests check each function against its own table only.",
  ["src/gamma.rs", "src/beta.rs", "src/error.rs", "src/dawson.rs", "src/bessel.rs"], [("independent implementations of overlapping functions", "whole crate")], ["results of related calls"])
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in L: f.write(json.dumps(p) + "\n")
