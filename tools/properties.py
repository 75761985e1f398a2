T = "src/time/"
M = "src/models/"
X = "src/markets/"
D = "src/derivatives/"

prop("P01", "Market calendars agree with their published holiday rules on every date",
 """For every supported market calendar and every market variant it offers, a date is a business day exactly when the
 market's published rules (weekends, fixed dates with their weekend-substitution rules, nth-weekday rules, Easter-relative
 feasts, one-off closures, and the years in which each rule applies) say it is not a holiday.
 This holds for every date from 1901 to 2199, not only the years listed in tests.""",
 ["inputs", "configurations"], "Every date 1901-2199 for every calendar and every market variant (complete enumeration).",
 "The tests compare a few sampled years per market; rules that depend on the weekday a feast falls on, on Easter or on year ranges need every year.",
 [T+"calendars.rs", T+"calendars/"], [("is_business_day", T+"calendars/*.rs"), ("holiday tables", T+"calendars.rs")],
 ["Calendar::is_business_day", "Calendar::is_holiday"],
 "Complete enumeration of 299 years per market against an independently written rule interpreter; markets whose holidays are announced as ad-hoc lists are compared with pinned tables reviewed once, so an error already in such a table is not detected.")

prop("P02", "Calendar primitives: Easter dates, weekends and month ends",
 """For every supported year the Western and Orthodox Easter Mondays agree with the ecclesiastical computus. Weekend tests agree
 with the civil calendar, the last day of a month is its civil last day, and the end of month of any date is the last business day of that date's month, on every calendar.
 A date is a holiday exactly when it is not a business day.""",
 ["inputs", "configurations"], "Every year 1901-2199 for Easter; every date and calendar (sampled, plus synthetic calendars) for the rest.",
 "Tests spot-check a few years.",
 [T+"calendars.rs"], [("Easter tables", T+"calendars.rs"), ("end_of_month, last_day_of_month, is_weekend", T+"calendars.rs")],
 ["Calendar methods"], "Easter is enumerated for all 299 years; month ends are sampled over every shipped and synthetic calendar.")

prop("P03", "Business-day adjustment lands on the right business day for every convention",
 """Adjusting any date under any convention returns a business day (or the date itself when unadjusted), leaves business days
 unchanged, and returns exactly the day the convention names: next or previous business day, next/previous unless that crosses a
 month end, the half-month variant that also does not cross the fifteenth, and the nearest business day with ties going forward.""",
 ["inputs", "configurations"], "All dates x conventions x calendars (generated, biased to month ends, mid-month and holiday clusters, plus synthetic calendars with arbitrary holiday sets).",
 "Tests use a handful of dates on one or two calendars.",
 [T+"calendars.rs", T+"businessdayconvention.rs"], [("adjust", T+"calendars.rs")], ["Calendar::adjust"],
 "Sampled against a linear-scan reference; synthetic calendars make long holiday clusters at any position.")

prop("P04", "Advancing dates and counting business days are exact and mutually consistent",
 """Advancing by n business days moves to exactly the n-th following (or preceding) business day; advancing by calendar units
 moves by the unit and then adjusts by the convention, keeping month-end dates at month end when asked. The number of business days
 between two dates equals the number counted one by one, honours the inclusion of either end point, and is antisymmetric when the
 dates are swapped.""",
 ["inputs", "configurations"], "Generated dates, signed counts and units, conventions, end-of-month flags, inclusion flags, calendars incl. synthetic ones.",
 "Tests fix a few dates on one calendar.",
 [T+"calendars.rs"], [("advance", T+"calendars.rs"), ("business_days_between", T+"calendars.rs")], ["Calendar::advance", "Calendar::business_days_between"],
 "Sampled against day-by-day reference counters.")

prop("P05", "Joint calendars are closed exactly when any member is closed",
 """A joint calendar is closed exactly on the dates on which at least one of its members is closed, for any number, order and nesting of members (none included), and adjusting, advancing,
 month ends and business-day counts on it behave as on an ordinary calendar with that holiday set.""",
 ["inputs", "configurations"], "Generated sets, orders and nestings of member calendars (shipped and synthetic), all dates of generated years.",
 "Tests cover one pair of calendars.",
 [T+"calendars/jointcalendar.rs"], [("JointCalendar", T+"calendars/jointcalendar.rs")], ["JointCalendar as Calendar"],
 "Sampled over member sets; each case checks every day of a year plus derived operations.")

prop("P06", "Tenor arithmetic and named frequencies are exact for every date and tenor",
 """Adding or subtracting a tenor moves a date by exactly that many days, weeks, months or years, clamping to the last day of a
 shorter month and never skipping into another month; multiplying a tenor by n equals applying it with n times the count; a tenor whose result cannot be represented is an error, never a wrong date.
 Each payment frequency denotes the tenor of its name, and names and codes of frequencies and conventions are read back as what they name.""",
 ["inputs"], "Generated dates x tenors (all units, signed and extreme counts), all frequencies and conventions and generated code strings.",
 "Tests cover a few dates and tenors.",
 [T+"period.rs", T+"frequency.rs", T+"businessdayconvention.rs"], [("Add/Sub for dates", T+"period.rs"), ("Mul", T+"period.rs"), ("Frequency", T+"frequency.rs")],
 ["NaiveDate + Period", "NaiveDate - Period", "Frequency::period"], "Sampled against independent civil-date arithmetic; frequencies enumerated.")

prop("P07", "FX settlement dates: spot lags, short dates, month-end cap and cut-offs",
 """For every tenor, valuation date and calendar, the settlement date is a business day: overnight, tom-next and the spot lag count calendar days from the valuation date, the tenor is added, the result rolls forward to the next business day,
 and month and year tenors that reach the month's last business day are held at it and so never leave their month. The near date of the overnight, tom-next and spot-next tenors is the business day their far leg starts from and never follows the settlement date; other tenors have none.
 Each pair applies its own spot lag and calendar, and market data at or after the pair's cut-off time moves the valuation date to the next business day.""",
 ["inputs", "configurations"], "Generated valuation dates, calendars (shipped, joint, synthetic), tenors of every kind, every pair, cut-off times around each boundary.",
 "Tests pin a few pairs on a few dates.",
 [T+"period.rs", D+"forex/basic.rs"], [("settlement_date", T+"period.rs"), ("near_date", T+"period.rs"), ("effective_valuation_date", D+"forex/basic.rs")], ["Period::settlement_date", "Period::near_date", "FXUnderlying::settlement_date"],
 "Sampled against an independently coded spot/short-date/month-end rule.")

prop("P08", "FX currency pairs carry mutually consistent market conventions",
 """Every currency pair reads back from the six-letter code it prints as (and anything else is rejected), its foreign and domestic currencies are the first and last three letters, and its settlement calendar is closed exactly
 when either currency's market is closed. Point scale is 100 when the domestic currency is the yen and 10000 otherwise; spot lag is one day for the dollar against Canadian dollar, Mexican peso, Turkish lira and rouble and two otherwise;
 euro-dollar and dollar-yen accrue actual/360 and the others actual/365.""",
 ["inputs", "configurations"], "Every supported pair, generated valid and invalid code strings, every date 2000-2060.",
 "Tests check a few pairs.",
 [D+"forex/basic.rs"], [("FXUnderlying", D+"forex/basic.rs")], ["FXUnderlying methods", "FromStr"],
 "Pairs and dates enumerated; the convention tables are restated independently.")

prop("P09", "IMM dates and codes convert both ways and step forward correctly",
 """An IMM date is exactly the third Wednesday of its month (of March, June, September, December in the main cycle); each IMM date has
 exactly one code, a month letter and the last digit of the year, and a code (either case) converts back to the earliest IMM date carrying it on or after the reference date; the next IMM date is the earliest one strictly after the given date.
 Anything that is not a code is rejected without a panic.""",
 ["inputs"], "Every date 1950-2150 for recognition and next date; all codes x generated reference dates; generated malformed strings.",
 "Tests enumerate short ranges of dates.",
 [T+"imm.rs"], [("IMM", T+"imm.rs")], ["IMM::is_imm_date", "IMM::is_imm_code", "IMM::code", "IMM::date", "IMM::next_date"],
 "Dates enumerated, codes and references sampled heavily, against a direct third-Wednesday definition.")

prop("P10", "Day-count conventions compute the fraction their standard defines",
 """For every pair of dates, each day-count convention returns the day count and year fraction its published definition gives:
 actual/360, /364, /365 (with and without leap days) and /366, actual/actual ISDA and AFB, 30/360 US, European, Italian, ISMA, ISDA/German and NASD, 30/365 and business/252.
 The fraction is zero on an empty period, is antisymmetric for the actual conventions, and the date recovered from a fraction gives it back to within a day or two (plus at most a tenth of a day per year).""",
 ["inputs", "configurations"], "Generated date pairs biased to month ends and leap days, all conventions and variants.",
 "Tests use short tables of date pairs per convention.",
 [T+"daycounters/", T+"daycounters.rs"], [("DayCounters impls", T+"daycounters/*.rs")], ["DayCounters::day_count", "year_fraction", "year_fraction_to_date"],
 "Sampled against the formula of each convention written from its definition.")

prop("P11", "Serialised market and trade objects deserialise to equivalent objects",
"""Calendars (including joint and nested ones), day counters, tenors, frequencies, conventions, currency pairs, rate indices, quotes, stripped curves and trades survive serialisation to JSON and back: the copy
serialises to the same text, equals the original in every field and behaves identically (same holidays, fractions, dates, stripped curves and values) on every input, and calendars are tagged with their type's name. Unknown type tags and
names, impossible dates, values of the wrong kind, missing required fields and truncated documents are rejected with an error, never a panic or an invented value.""",
["inputs", "configurations"], "Generated objects of every serialisable kind, including nested and joint ones, compared on generated queries; generated damage to their documents.",
"Few tests serialise anything, and none compare behaviour after a round trip.",
["src/time/", "src/derivatives/", "src/markets/"], [("serde/typetag impls", "throughout")], ["serde_json::to_string / from_str"],
"Sampled objects; behaviour is compared on a sample of queries per object.")

prop("P12", "Forward points interpolate the quoted curve exactly and never extrapolate",
"""Every quoted tenor settles on the pair's settlement date for it. On a quoted settlement date the forward points are the quoted points (each quote is an outright difference to spot); between two neighbouring
settlement dates they are linear in calendar days; before the first and after the last settlement date, on or before the valuation date, and with fewer than two quotes there is no answer instead of an
extrapolation. The order in which the quotes are given does not matter.""",
["inputs", "configurations"], "Generated quote sets (unordered, with and without short dates, negative points), pairs, valuation dates and target dates.",
"Tests use one pair's published curve on one date.",
[X+"forex/quotes/forwardpoints.rs"], [("FXForwardHelper::get_forward", X+"forex/quotes/forwardpoints.rs")], ["FXForwardHelper::get_forward"],
"Sampled against an independent interpolator; where two tenors settle on the same day with different points, either quote is accepted.")

prop("P13", "FX forward valuation follows from points, spot and discounting",
"""An FX forward's outright is spot plus the interpolated points divided by the pair's points-per-unit. Its value in the domestic currency is the domestic discount factor to expiry times the signed foreign
notional times (outright minus strike); a notional in the domestic currency counts as its equivalent at the strike on the opposite side. It is zero at the market outright, linear in the notional and odd in direction. Its delta is the
signed notional, gamma and vega are zero, and a forward the market cannot price is an error.""",
["inputs", "configurations"], "Generated pairs, forwards (both notional currencies, either direction), markets and dates.",
"Tests value a few forwards on one market.",
[D+"forex/forward.rs", X+"forex/market_context.rs"], [("FXForward", D+"forex/forward.rs"), ("forward_at", X+"forex/market_context.rs")], ["FXForward::mtm", "FXForward::delta, gamma, vega"],
"Sampled against direct formulae.")

prop("P14", "FX volatility surfaces reproduce their quotes at the quoted deltas",
"""A volatility surface built from at-the-money quotes and risk-reversal/butterfly or call/put quotes returns, at each quoted expiry, the quoted volatility at the strike whose forward delta under that volatility is
the quoted delta (the at-the-money strike is delta-neutral); between and outside the quoted strikes it is the documented smile curve; between expiries total variance is linear in
time at fixed strike, and the smile is flat before the first and after the last expiry. Quote sets that do not determine a smile (no or two at-the-money quotes, unpaired quotes, impossible deltas, non-increasing strikes, expiries not after the valuation date) are errors.""",
["inputs", "configurations"], "Generated smiles in both quoting styles, expiries, forwards, invalid quote sets and query points.",
"Tests use one published surface.",
[X+"forex/quotes/volsurface.rs"], [("FXVolSurface", X+"forex/quotes/volsurface.rs")], ["FXVolSurface::new, volatility"],
"Sampled against an independent implementation of the documented construction plus self-consistency of delta, strike and volatility.")

prop("P15", "FX vanilla options obey Black-76 pricing and its no-arbitrage relations",
"""The premium of a vanilla FX option is its discounted Black price on the market's outright forward at the option's own volatility and expiry, in the notional's currency (converted at spot or strike accordingly): negative (paid) when bought and positive
(received) when sold, in every combination of pair, notional currency and direction. Call minus put is the forward; values fall (calls) or rise (puts) and are convex in strike, rise with variance and stay within no-arbitrage bounds, including at
zero variance. Delta, gamma and vega are the stated derivatives of the value and scale linearly with signed notional.""",
["inputs", "configurations"], "Generated options, markets, volatilities, rates and expiries, including deep wings, zero variance and expiry on the valuation date.",
"Tests price a few options.",
[D+"forex/option.rs"], [("FXVanillaOption", D+"forex/option.rs"), ("black_scholes", D+"forex/option.rs")], ["FXVanillaOption pricing and Greeks"],
"Sampled against an independent closed form and finite differences.")

prop("P16", "Market contexts (FX and rates) answer consistently with their inputs",
"""A market context built from raw quotes or from ready-made curves gives the same answers either way: its outright is spot plus points over points-per-unit, its discount factors and zero rates are the curves' own for every date, its implied volatility is the
surface's for the strike and expiry on its own forward; dates it cannot answer, and volatilities without a surface, are errors rather than numbers.""",
["inputs", "configurations"], "Generated pairs, quotes, curves, surfaces and queries.",
"Tests build one context.",
[X+"forex/market_context.rs", X+"interestrate/market_context.rs"], [("FxMarketContext", X+"forex/market_context.rs"), ("IrMarketContext", X+"interestrate/market_context.rs")], ["forward_at, rate_d/f, discount_d/f, implied_vol, rate, discount, caplet_vol"],
"Sampled against direct evaluation of the inputs.")

prop("P17", "Discount curves interpolate zero rates and relate them to discounts",
"""For every curve and date, the zero rate is linear in calendar days between the visible pillars and flat outside them (a date is read at its end of day); the discount factor is one at the valuation date and otherwise exp(-zero rate x time);
the shifted discount is that of the curve with every zero rate moved by the shift; the forward rate over a period is the one implied by the two discounts. Hidden pillars never change an answer, both interpolation names agree, and a curve with one level is flat.""",
["inputs", "configurations"], "Generated curves (any level and shape, hidden pillars) and query dates within and beyond the pillars.",
"Tests query a few dates on one published curve.",
[X+"termstructures/yieldcurve.rs"], [("YieldTermStructure", X+"termstructures/yieldcurve.rs")], ["zero_rate, discount, shifted_discount, forward_rate"],
"Sampled; oracle is the definitional relation between the three quantities and independent interpolation.")

prop("P18", "A bootstrapped curve reprices every instrument it was built from",
"""A curve stripped from deposit, future and swap quotes holds one pillar per quote, deposits by maturity, then futures, then swaps. A deposit grows at its quoted rate between its own settlement and maturity; a future's discount is the nearest earlier pillar's at its start
divided by one plus its implied rate over its accrual; a swap is worth zero on the curve up to its own pillar. Each pillar's discount and zero rate agree; the order of deposits is irrelevant, and later quotes never move earlier pillars.""",
["inputs", "configurations"], "Generated instrument sets, conventions and rate levels (including negative, steep and inverted).",
"Tests bootstrap one published curve.",
[X+"termstructures/yieldcurve.rs", X+"termstructures/yieldcurve/"], [("get_stripped_curve", X+"termstructures/yieldcurve.rs"), ("OISRate, FuturesRate", X+"termstructures/yieldcurve/")], ["YieldTermMarketData::get_stripped_curve"],
"Sampled against independent repricing formulae. Maturities increase across instrument kinds, and futures come with at least one deposit. One recorded finding: the first future's zero rate.")

prop("P19", "Observers are notified of every quote update and curves refresh",
"""After any sequence of attachments, drops and quote updates, every attached live observer has been notified exactly once per attachment and update, in attachment order; an observer that fails stops the round with its error, dropped observers are skipped; and a curve
notified of new quotes answers as a curve freshly built from them.""",
["histories", "inputs"], "Generated update histories with attach/drop/fail/notify interleavings.",
"Tests perform one update.",
["src/patterns/observer.rs", X+"termstructures/yieldcurve.rs"], [("Observer/Observable", "src/patterns/observer.rs")], ["attach, notify_observers, update, queries"],
"Sampled histories against a freshly rebuilt model.")

prop("P20", "Interest-rate swap schedules, values and sensitivities are consistent",
"""A generated leg schedule covers the swap's life without gaps or overlaps, on business-day-adjusted start, end, payment and reset dates counted from the effective date. The swap's value is the sum over legs and periods of signed discounted coupons (fixed, or forward plus spread), with the final
(and amortised) principal, is in the first leg's currency, linear in notional and opposite for opposite directions. The one-basis-point value, gamma and modified duration are the stated differences of the value
under parallel zero-rate shifts; a swap without legs and unsupported shifts are errors.""",
["inputs", "configurations"], "Generated swaps (tenors, frequencies, day counts, calendars, delays, notionals, rates, custom amortising schedules), curves and valuation dates.",
"Tests value a few swaps on one curve.",
[D+"interestrate/swap.rs", D+"interestrate/basic.rs"], [("InterestRateSwap", D+"interestrate/swap.rs"), ("generate_schedule", D+"interestrate/swap.rs")], ["generate_schedule, npv, mtm, dv01, gamma, modified_duration"],
"Sampled against an independent cash-flow sum.")

prop("P21", "Caps and floors are sums of caplets and satisfy cap-floor parity",
"""A cap or floor is worth the signed sum over its periods of notional x accrual x discount to payment x the Bachelier price of the period's simple forward rate at the surface's volatility for that period and strike, where the caplet's variance is the forward-looking or backward-looking
(in-arrears) one. Cap minus floor is the value of the forwards over the strike; values are monotone and convex in strike and rise with volatility; the risk figures are the stated differences under rate and volatility bumps; a missing surface and unsupported bump modes are errors.""",
["inputs", "configurations"], "Generated caps and floors, schedules, curves, strikes and normal volatilities in both caplet styles.",
"Tests price one or two caps.",
[D+"interestrate/cap.rs", D+"interestrate/basic.rs"], [("CapFloor", D+"interestrate/cap.rs"), ("caplet_total_variance", D+"interestrate/basic.rs")], ["mtm, delta, gamma, vega, caplet_total_variance"],
"Sampled against an independent Bachelier sum.")

prop("P22", "Stripped caplet volatilities reprice every quoted cap",
"""A caplet-volatility surface stripped from cap prices reprices each quoted cap, recovers the volatilities that produced the prices wherever the prices determine them, for rectangular and ragged quote grids given in any order, and returns volatilities that step in expiry,
are linear in strike between quoted strikes and flat outside; a surface without pillars answers with an error.""",
["inputs", "configurations"], "Generated true caplet volatilities, grids of cap quotes and curves.",
"Tests strip one published grid.",
[X+"interestrate/volsurface.rs"], [("IRNormalVolSurface", X+"interestrate/volsurface.rs")], ["rebuild, caplet_volatility"],
"Sampled; oracle reprices the quoted caps independently.")

prop("P36", "Rate indices and futures carry their market's conventions",
"""Every named rate index carries its market's currency, calendar, day count, settlement lag, roll convention and end-of-month rule for any tenor it admits; a futures contract matures on the third Wednesday reached by its period from its start and implies
one minus its price plus its convexity adjustment.""",
["inputs", "configurations"], "Every named index with generated tenors; generated contract codes, dates, prices and adjustments.",
"Tests build a few of the indices and contracts.",
[X+"interestrate/interestrateindex.rs", X+"interestrate/futures.rs", X+"termstructures/yieldcurve/ratehelper.rs"], [("InterestRateIndex::from_enum", X+"interestrate/interestrateindex.rs"), ("InterestRateFutures", X+"interestrate/futures.rs")], ["from_enum, maturity_date, implied_quote"],
"The index table is enumerated completely; contracts are sampled.")

prop("P23", "Normal law, Black and Bachelier kernels and implied volatility are exact",
 """The normal distribution function, density and quantile agree with their definitions everywhere; undiscounted Black and Bachelier prices equal their closed forms,
 obey parity, bounds and monotonicity in volatility and strike; and the implied volatility of a price is the volatility that produced it whenever the price
 determines it, with prices outside the no-arbitrage bounds rejected.""",
 ["inputs"], "Generated arguments over the whole floating-point range of practical relevance, including deep wings, tiny and large variances.",
 "Tests evaluate a few points.",
 ["src/math/normal.rs", M+"common/black_scholes.rs", M+"common/bachelier.rs"],
 [("normal cdf/pdf/inverse", "src/math/normal.rs"), ("bs_* and implied vol", M+"common/black_scholes.rs"), ("bachelier_*", M+"common/bachelier.rs")],
 ["public functions"], "Sampled against an independent erfc and closed forms; tolerance 1e-12 relative to the forward for prices.")

prop("P24", "The simplex optimiser never worsens its start and finds smooth minima",
 """The derivative-free minimiser returns a point whose reported value is the objective there and is no worse than at the start, respects its iteration cap, reports convergence only when its tolerances are met,
 finds the minimum of well-conditioned smooth functions of any dimension from any start, and never aborts when the objective is undefined somewhere.""",
 ["inputs", "programs"], "Generated objectives (quadratics with random conditioning and rotation, Rosenbrock-like, piecewise, partly undefined), starts and options.",
 "Tests minimise three fixed functions.",
 ["src/math/optimize.rs"], [("nelder_mead", "src/math/optimize.rs")], ["nelder_mead result and the recorded evaluations"],
 "Sampled objectives; the evaluation trace is recorded by the objective itself.")

prop("P25", "Square-root variance process: moments, square-root mean and simulation",
 """For every parameter set, Feller-satisfying or not, the square-root process reports the mean, variance and mean square root that its stochastic differential equation implies at every horizon, and its decay proxy
 matches at zero and infinity. Simulated paths are non-negative, follow the drift and diffusion of the process at any step size, and are driven by standard normal noise determined by the seed.""",
 ["inputs", "schedules"], "Generated parameters, horizons, states, step sizes and seeds.",
 "Tests evaluate two or three parameter sets.",
 [M+"common/cir.rs"], [("CirProcess", M+"common/cir.rs"), ("CirSimulator", M+"common/cir.rs")], ["mean, variance, sqrt_mean, step"],
 "Sampled against ODE integration and a numerically integrated Laplace-transform identity.")

prop("P26", "One-factor Gaussian short-rate model: bonds, variances and simulation",
 """For every mean reversion including zero, the short-rate model's bond exponent, short-rate variance and bond log-variance equal the integrals that define them, and reconstructed bonds reproduce the initial curve and its forward bonds on
 average. Simulated rates follow the specified drift and diffusion at any step, driven by standard normal noise determined by the seed.""",
 ["inputs", "schedules"], "Generated parameters, times, curves, states, step sizes and seeds.",
 "Tests evaluate fixed parameters at fixed times.",
 [M+"interestrate/hull_white.rs"], [("HullWhite1F", M+"interestrate/hull_white.rs"), ("HullWhiteSimulator", M+"interestrate/hull_white.rs")], ["b, variances, discount_affine, step"],
 "Sampled against numerical quadrature.")

prop("P27", "Characteristic-function option pricer equals the true option value",
 """For any forward characteristic function, the cosine-expansion pricer returns the call and put values of that distribution for strikes across its range, satisfies put-call parity and the no-arbitrage bounds,
 scales with the discount factor, and converges as terms are added.""",
 ["inputs", "configurations"], "Generated log-normal, Merton-jump and Heston characteristic functions, strikes, expiries, expansion sizes.",
 "Tests price a few strikes of one or two models.",
 [M+"common/cos_pricer.rs"], [("CosPricer", M+"common/cos_pricer.rs")], ["CosPricer::call/put"],
 "Sampled against closed forms and independent quadrature.")

prop("P28", "SABR smile formula and SABR simulation are faithful to the model",
 """The SABR implied volatility agrees with the published asymptotic formula for every strike, continuously through the at-the-money point, reduces to its exact limits (no vol-of-vol, log-normal backbone), and scales consistently;
 simulated forward and volatility follow the model's drift-free dynamics with the stated correlation at any step size and stay non-negative; calibration recovers smiles generated by the model, keeps a start that already fits, and reports its real error, never worse than the start.""",
 ["inputs", "schedules"], "Generated parameters, strikes, expiries, states, steps and seeds.",
 "Tests evaluate a few parameter sets.",
 [M+"forex/sabr.rs", M+"forex/sabr_calibrator.rs"], [("hagan_implied_vol", M+"forex/sabr.rs"), ("SabrSimulator", M+"forex/sabr.rs"), ("calibrate", M+"forex/sabr_calibrator.rs")],
 ["hagan_implied_vol, step, calibrate"], "Sampled against an independently coded formula (high-order expansion at the money).")

prop("P29", "Time-dependent SABR: effective parameters, simulation and calibration",
 """The effective constant parameters of a time-dependent SABR model equal the model's averaging integrals for any piecewise-constant inputs and reduce to the inputs when these are constant; simulation uses the parameter in force at each time;
 calibration reproduces the pillar parameters it is given.""",
 ["inputs", "schedules"], "Generated piecewise-constant functions, pillars, expiries, steps and seeds.",
 "Tests evaluate a few fixed functions.",
 [M+"forex/sabr_effective.rs", M+"forex/sabr_time_dependent.rs", M+"forex/sabr_time_dependent_calibrator.rs"],
 [("effective_* maps", M+"forex/sabr_effective.rs"), ("TimeDependentSabrSimulator", M+"forex/sabr_time_dependent.rs"), ("calibrate_time_dependent", M+"forex/sabr_time_dependent_calibrator.rs")],
 ["public functions"], "Sampled against direct numerical integration of the defining integrals.")

prop("P30", "Local volatility extraction and stochastic-local-volatility simulation",
 """Local variance extracted from an implied-volatility grid equals Dupire's formula for that surface (flat surfaces give the flat volatility at every point), is non-negative and finite on its whole domain, and the stochastic-local-volatility simulation started from it
 keeps the spot a martingale up to carry, is deterministic in its seed and reproduces the local-volatility marginals on average.""",
 ["inputs", "schedules"], "Generated smooth surfaces, rates, grids, query points and seeds.",
 "Tests use one or two flat or published surfaces.",
 [M+"forex/dupire_local_vol.rs", M+"forex/sabr_slv.rs"], [("build / local_variance", M+"forex/dupire_local_vol.rs"), ("TimeDependentSabrSlvSimulator", M+"forex/sabr_slv.rs")],
 ["local_variance, simulate"], "Sampled against analytic Dupire variance of parametric surfaces; statistical checks at 6.5 standard errors.")

prop("P31", "Dated simulation: grids, observation capture and seed determinism",
 """Simulating on dates returns, for every path and every observation date, the state the model has at that date: steps never exceed the maximum step, never straddle an observation date, add up to the elapsed year fraction, and visit time in order. The same
 seed gives the same paths and different seeds different ones; drifted Brownian and geometric Brownian motion follow their exact laws.""",
 ["schedules", "inputs"], "Generated valuation dates, observation schedules (duplicates, clustered, irregular), step caps, day counts, recording models, seeds.",
 "Tests use one schedule and one step cap.",
 [M+"common/simulation.rs"], [("simulate_at_dates", M+"common/simulation.rs"), ("BrownianMotion, GeometricBrownianMotion", M+"common/simulation.rs")],
 ["simulate_at_dates, DatedPaths"], "Sampled with a recording model that logs every step it is asked to take.")

prop("P32", "FX hybrid with Heston volatility and Gaussian rates: dynamics and transform",
 """For every admissible correlation matrix, the hybrid model's simulation follows its stated joint dynamics (rates, variance and FX with quanto correction) at any step size with the stated correlations, inadmissible matrices are rejected, and the
 forward characteristic function solves the model's affine equations: it is one at zero, a martingale at minus i, conjugate symmetric, and equals direct numerical integration of those equations.""",
 ["inputs", "schedules"], "Generated parameters, admissible and inadmissible correlations, states, steps, arguments and expiries.",
 "Tests use one parameter set.",
 [M+"forex/fx_hhw.rs", M+"forex/fx_hhw_stock.rs", M+"forex/fx_hhw1_chf.rs"],
 [("FxHhwSimulator", M+"forex/fx_hhw.rs"), ("FxHhwStockSimulator", M+"forex/fx_hhw_stock.rs"), ("FxHhw1ForwardChf", M+"forex/fx_hhw1_chf.rs")],
 ["step, components, evaluate"], "Sampled against per-step identities and RK4 integration of the affine system.")

prop("P33", "FX hybrid with displaced stochastic-vol Libor rates: transform and coefficients",
 """For every tenor structure and parameter set, the linearised forward-variance coefficients equal their defining sums over active periods and the characteristic function solves the model's period-wise affine equations; it is one at zero,
 conjugate symmetric, and inconsistent inputs are rejected.""",
 ["inputs", "configurations"], "Generated tenors, rates, displacements, volatilities, correlations, arguments and start times.",
 "Tests use one parameter set.",
 [M+"forex/fx_hlmm.rs", M+"forex/fx_hlmm1_chf.rs"], [("compute_a_d/a_f/f_linearised", M+"forex/fx_hlmm.rs"), ("FxHlmm1ForwardChf", M+"forex/fx_hlmm1_chf.rs")],
 ["compute_*, components, evaluate, validate"], "Sampled against direct sums and RK4 integration.")

prop("P34", "Forward market model: bonds, dynamics, decay and its FX hybrid",
 """The forward market model's bonds, bank account and stub bonds are mutually consistent and reproduce the initial curve; rates decay only inside their accrual period and are frozen afterwards; simulated rates follow the model's drift and
 correlated diffusion; the FX hybrid's coefficients and characteristic function equal direct evaluation of their defining sums and equations.""",
 ["inputs", "schedules"], "Generated tenors, rates, volatilities, correlations, displacements, times, steps, seeds and arguments.",
 "Tests use one or two structures.",
 [M+"interestrate/fmm.rs", M+"forex/fx_fmm.rs", M+"forex/fx_fmm_simulator.rs", M+"forex/fx_fmm1_chf.rs"],
 [("Fmm, FmmSimulator, FlatCurve", M+"interestrate/fmm.rs"), ("FxFmmParams", M+"forex/fx_fmm.rs"), ("FxFmmSimulator", M+"forex/fx_fmm_simulator.rs"), ("FxFmm1ForwardChf", M+"forex/fx_fmm1_chf.rs")],
 ["public functions"], "Sampled against direct sums, per-step identities and RK4 integration.")

prop("P35", "Hybrid-model calibration: targets, repricing and reported error",
 """A calibration reports the parameters it found, within any requested bounds and with every other parameter untouched, and the root-mean-square error those parameters really have against the given targets, never worse than the initial guess; model prices and implied volatilities used as targets
 agree with each other and with the model's own forward and discount factor; calibrating to prices generated by the model fits them.""",
 ["inputs"], "Generated true parameters, expiries, strikes, initial guesses and optimiser limits.",
 "Tests calibrate to one published surface.",
 [M+"forex/fx_hhw_calibrator.rs", M+"forex/fx_hlmm_calibrator.rs", M+"forex/fx_fmm_calibrator.rs", M+"common/calibration.rs", M+"forex/market_data.rs"],
 [("calibrate", M+"forex/fx_*_calibrator.rs"), ("Calibration trait", M+"common/calibration.rs")], ["CalibrationReport, price_call, model_implied_vols"],
 "Sampled (expensive cases, so few); the reported error is recomputed independently.")
