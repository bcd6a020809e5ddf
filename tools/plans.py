PLAN['C01'] = """day_count and year_frac run on two symbolic dates; the oracle is the ISDA 2006 4.16 rule written over (year, month, day)
with its own end-of-February test. Bounds: all date pairs 1990 to 2110, three bases, all termination-flag forms, scalars and
vectors of two. `order` shows a reversed pair is refused. Reaches leap, century and month-end combinations no table lists."""
PLAN['C02'] = """Same engine; the oracle is the day number difference over 360/365/366, and for ACT/ACT the split of days at year
starts. `gregorian` first proves the engine's day number against the successive-days definition. Additivity is over three symbolic
dates. Bounds: 1990 to 2110; vectors of two."""
PLAN['C03'] = """make_schedule runs on symbolic start, end, first_period_end, last_period_start and a symbolic calendar (abstract mode).
Obligations: first row starts at the (rolled) start, last ends at the (rolled) end, each row has positive length and begins where
the previous ended; given dates are boundaries; reversed dates are refused. Bounds: 2 to 4 periods, all frequencies, stub rules, rolls."""
PLAN['C04'] = """As C03, with the interior boundaries compared with the grid of whole frequency steps from the anchor (month arithmetic
restated independently), and the number of boundaries: none is left out for short stubs, exactly one merged for long ones."""
PLAN['C07'] = """The three conversion methods on symbolic rate/factor/term, for all conventions and ordered pairs; log/exp laws and root
atoms give mutual inverses, the convention formula and equality of implied discount factors. Scalars, arrays, Series."""
PLAN['C14'] = """gk_price on symbolic market data: parity, closed form, forward supplied or derived, split into intrinsic and time value,
expiry limit, vectors against scalars, upper bound. The normal cdf is an atom with N(x) + N(-x) = 1 and range laws."""
PLAN['C15'] = """The analytical greeks are compared with the symbolic derivative of the price expression the code itself returned;
numerical greeks with the difference quotient of the same price function."""
PLAN['C16'] = """The strike is computed with the real code (the premium-adjusted call solver is a root contract), then fed back into the real delta
formula under the same convention. Vectors mix calls, puts and delta-neutral quotes."""
PLAN['C17'] = """As C14/C15 for shifted Black-76, with annuity factor, expiry and zero-volatility limits, numeric greeks, broadcasting."""
PLAN['C18'] = """As C17 for Bachelier, with translation and mirror symmetry."""
PLAN['C20'] = """Optimisers are an adversary: any iterates within the bounds, any convergence report. Obligation: the function raises, or the
volatility it returns reprices the option within the stated tolerance. Covers strips and conversions between quoting conventions."""
PLAN['C21'] = """The Hagan expansion and its limits as formulas over symbolic parameters (lemma for x(z) included); alpha solving with np.roots as a
root contract; calibration with the optimiser an adversary, the minimised objective restated and compared."""
PLAN['C22'] = """forward_volatility and interp_fwd_volatility on symbolic vols and times: variance additivity, chain, errors on falling variance,
reversed and equal times, every interpolation point."""
PLAN['C23'] = """The numpy generator is a stub whose k-th normal after seeding with s is a free symbol z(s,k); shape, antithetic mirror, moments
implied by the linear map, and refusals follow for every draw."""
PLAN['C24'] = """The simulator runs on free draws; each step equals the exact transition, the input arrays are left unchanged."""
PLAN['C25'] = """As C24 for the commodity model: every step, substeps, interpolation of the forward curve (interp1d by definition), batches with
distinct draws."""
PLAN['C28'] = """Both Heston simulators on free draws: Euler steps, non-negative variance, QE step in both regimes, and the QE moments
against the closed forms. The second step starts from an arbitrary state (loop-state cut)."""
PLAN['C31'] = """Quote decomposition and validation on symbolic quotes for every spelling and column order in bounds; pillar order by strike."""
PLAN['C32'] = """Forward lookup on symbolic dates and quotes, and the term-structure builder on listed tenors with symbolic quotes; fixing and
delivery dates completed from each other over business-day calendars."""
PLAN['C37'] = """Schedule classes on symbolic dates, calendar and notionals (abstract mode): payment dates against the roll-and-delay of the
period date, principal flows row by row and in total, refusal of a wrong-length vector, coupon day counts and fractions."""
PLAN['C09'] = """ZeroCurve is built and queried with symbolic pillar levels on listed date layouts; the daily table it builds is compared date by
date with the declared interpolation restated from the pillars (log-linear in symbols; cubic splines as a stub whose coefficients solve
the not-a-knot system exactly). Years queries are symbolic within a segment; dates, rows and caller's table are concrete."""
PLAN['C10'] = """Forward rates of listed periods from curves of symbolic level; obligation in logs: rate and period give the ratio of
the two factors. Averages are restated as the mean of one-day forwards over calendar or business days."""
PLAN['C11'] = """Every fixing of the history is a symbol; each coupon is compared with the product or mean over calendar days written
independently. Missing fixings must be refused, wherever the gap lies."""
PLAN['C12'] = """History symbols and curve symbols together; the oracle walks the days of the period on either side of the curve date. A
separate harness shows past coupons do not contain a curve symbol and future ones no fixing."""
PLAN['C29'] = """Legs are built over real schedules with symbolic notionals, rates, spreads, curve levels and fixings; the oracle lists the
payments from the period dates alone and sums them. Accrual, split and buckets are restated the same way."""
PLAN['C30'] = """Swap totals against separately built legs. The solver is a root contract (a fresh symbol in the code's bracket at which
the code's objective is zero), and in a second harness any outcome at all; the leg is then compared with a fresh one."""
