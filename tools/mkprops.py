"""Writes /verif/properties.jsonl (kept as a script so that entries stay in step)."""
import json, os
P = []


def p(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech]))
    if state:
        d['anchors']['state'] = state
    if observe:
        d['anchors']['observe_at'] = observe
    d['anchors']['hook_needed'] = None
    P.append(d)


p('C01', '30/360-family day counts follow the ISDA rules',
  'For every ordered pair of dates, the 30/360, 30E/360 and 30E/360-ISDA day count and year fraction equal the day-adjustment rule that ISDA 2006 section 4.16 defines for that basis, including the end-of-February and termination-date cases. Scalar and vectorised calls agree element by element.',
  ['inputs'], 'all start <= end dates in the supported calendar range, all three conventions, both values of the termination-date flag, scalar and vector calls',
  'Tests compare a few dozen tabulated date pairs; the rules branch on day 28/29/30/31, February and leap years on both ends.',
  ['frm/utils/daycount.py'], [('day_count / year_frac', 'frm/utils/daycount.py')], ['day_count', 'year_frac'])
p('C02', 'Actual-day conventions give exact and additive year fractions',
  'ACT/360, ACT/365-fixed and ACT/366 year fractions are the calendar days between the dates over 360, 365 and 366, and ACT/ACT (ISDA) splits the days between leap and non-leap years over 366 and 365. Consequently each is zero on an empty period and additive across any intermediate date.',
  ['inputs'], 'all start <= end dates in the supported calendar range, all actual conventions, scalar and vector calls',
  'Additivity and exactness quantify over every pair/triple of dates and over the number of year boundaries crossed; tests tabulate a few examples.',
  ['frm/utils/daycount.py'], [('year_frac, actual branches', 'frm/utils/daycount.py')], ['day_count', 'year_frac'])
p('C03', 'Coupon schedules tile the instrument term exactly',
  'For every start date, end date, frequency, roll convention and stub rule, the generated periods start at the effective date, end at the maturity date, are strictly increasing and leave neither a gap nor an overlap between consecutive periods.',
  ['inputs', 'configurations'], 'all start < end dates, frequencies, forward/backward generation, default and explicit stub settings, within the stated bound on term',
  'Tests pin some fifty concrete schedules; tiling must survive every combination of dates, stub and roll rule.',
  ['frm/utils/schedule.py'], [('make_schedule', 'frm/utils/schedule.py'), ('generate_date_schedule', 'frm/utils/schedule.py')], ['make_schedule'])
p('C04', 'Stubs are the only irregular periods and sit where asked',
  'Every interior period boundary is a whole number of frequency steps away from the anchor date of the chosen roll rule, so only the first or last period can be irregular. A short stub is shorter than a regular period and a long stub is between one and two regular periods.',
  ['inputs', 'configurations'], 'all start < end dates, frequencies, roll rules and stub types within the stated bound on term',
  'Which period is irregular depends on how the dates divide into the frequency; tests sample few such divisions.',
  ['frm/utils/schedule.py'], [('stub handling in make_schedule / generate_date_schedule', 'frm/utils/schedule.py')], ['make_schedule'])
p('C07', 'Rate, discount factor and compounding conversions are consistent',
  'For every compounding convention, discount factor to zero rate and zero rate to discount factor are mutually inverse, equal the convention formula, and converting a rate between two conventions preserves the discount factor it implies: over the given term when one of the two is simple interest (whose discount factor depends on the term), over any term otherwise. A discount factor of one corresponds to a rate of zero.',
  ['inputs', 'configurations'], 'all positive discount factors, all rates that give a positive discount factor, all positive terms, all ordered pairs of conventions',
  'The tests try a handful of numeric rates; the identity quantifies over reals and over every pair of conventions.',
  ['frm/enums/utils.py'], [('CompoundingFreq rate conversions', 'frm/enums/utils.py')], ['discount factor / zero rate / converted rate'])
p('C09', 'A zero curve reprices its pillars and interpolates as declared',
  'A zero curve built from discount factors or zero rates, with pillars given as dates, days, tenors or years, returns those quotes at its pillars, a discount factor of one at the curve date, and between pillars exactly the declared interpolation (log-linear in discount factor, or the cubic spline of the quantity the method names). Asking by date, by day count and by year fraction gives the same answer, in the order asked; zero rates under every compounding and discount factors returned for the same date agree. Beyond the last pillar the curve is undefined or held flat, as requested. For the spline methods the instantaneous forward rate is minus the slope of the log discount factor. A flat shift moves every continuous zero rate at the pillars by the basis points asked and leaves the original curve alone; the table the curve was built from is not changed.',
  ['inputs', 'configurations'], 'all positive pillar discount factors or zero rates, at fixed pillar date layouts, every queried date up to the last pillar',
  'Tests load a few market curves and compare selected dates; the property holds for arbitrary curve levels, including inverted or negative-rate curves.',
  ['frm/term_structures/zero_curve.py', 'frm/utils/interpolation.py'], [('ZeroCurve construction and lookups', 'frm/term_structures/zero_curve.py')], ['get_discount_factors', 'get_zero_rates'])
p('C10', 'Forward rates are arbitrage-free against discount factors',
  'The forward rate returned for a period, under simple, continuous and annual compounding, is the one rate that rolls the discount factor of the period start into that of the period end over the day-count fraction of the curve, so forwards of adjoining periods chain into the forward of the whole. Daily-compounded overnight forwards are the simple forward of the period, weighted-average ones the mean of the one-day forwards over every calendar day, and simple-average ones the mean over the business days of the calendar. A period that ends before it starts, or that starts before the curve, is refused.',
  ['inputs', 'configurations'], 'all positive curve levels at fixed pillar layouts, the listed periods, all supported forward rate types',
  'Tests compare a few numbers; the identity quantifies over curve levels and rate types.',
  ['frm/term_structures/zero_curve.py', 'frm/term_structures/swap_curve.py'], [('forward rate methods', 'frm/term_structures/zero_curve.py')], ['get_forward_rates'])
p('C11', 'Realised overnight fixings compound as the swap index defines',
  'For accrual periods that lie wholly in the past, the coupon rate obtained from an overnight index history is the daily-compounded or weighted-average rate in which each fixing applies on every calendar day until the next one, annualised on the index day count, or the plain mean of the fixings published in the period, including periods that start or end on weekends and holidays. A period the history does not cover is refused. A term index look-up returns the stored fixing of the date, or of the last fixing date before it, in the order asked, and is undefined before the first fixing.',
  ['inputs'], 'all fixing values at fixed fixing calendars (including weekends and holidays) and periods',
  'Tests use one downloaded history; the property must hold for every path of fixings.',
  ['frm/term_structures/historical_swap_index_fixings.py'], [('index fixings lookup', 'frm/term_structures/historical_swap_index_fixings.py')], ['get_coupon_rates / index lookup'])
p('C12', 'Overnight coupons that straddle today blend history and curve exactly',
  'For an accrual period that begins before and ends after the curve date, the compounded overnight coupon rate equals the realised growth up to the curve date times the projected growth after it, annualised over the whole period, and averaged coupon rates are the day-weighted mean of the realised and projected parts. Wholly past periods use only history and wholly future periods use only the curve. Term coupons take the stored fixing when their period began before the curve date and the forward rate otherwise.',
  ['inputs', 'histories'], 'all fixing values and curve levels, at fixed calendars and period layouts',
  'The blend mixes two data sources; tests check it on a single date and data set.',
  ['frm/term_structures/swap_curve.py'], [('overnight swap curve fixings', 'frm/term_structures/swap_curve.py')], ['RFR swap curve fixings'])
p('C14', 'FX option prices satisfy put-call parity and the forward relation',
  'Garman-Kohlhagen prices obey put-call parity against the forward, are unchanged when the forward is supplied instead of derived from the two rates, and equal the closed-form value. Intrinsic value plus time value equals price.',
  ['inputs', 'configurations'], 'all positive spot, strike, expiry and volatility, all real domestic and foreign rates, calls and puts, spot supplied or forward supplied',
  'Tests check published numeric examples; parity and the spot/forward equivalence quantify over all reals.',
  ['frm/pricing_engine/garman_kohlhagen.py'], [('garman_kohlhagen_price', 'frm/pricing_engine/garman_kohlhagen.py')], ['price'])
p('C15', 'Reported FX option sensitivities are the derivatives of the price',
  'Each analytical Garman-Kohlhagen sensitivity equals the corresponding exact partial derivative of the analytical price (with the documented scaling), for calls and for puts. The numerical sensitivities are the difference quotients of the same price function for the bump they announce, and so approximate the same derivatives.',
  ['inputs', 'configurations'], 'all positive spot, strike, expiry and volatility, all real rates, calls and puts',
  'Tests compare a few numbers, often only for calls; derivative identities quantify over every input.',
  ['frm/pricing_engine/garman_kohlhagen.py'], [('analytical greeks', 'frm/pricing_engine/garman_kohlhagen.py')], ['analytical greeks'])
p('C16', 'Strike from delta inverts the delta convention',
  'The strike returned for a given delta, under each supported delta convention that has a closed form, is the strike whose option has exactly that delta when it is priced again. Delta-neutral strikes make the call and put deltas cancel under the same convention.',
  ['inputs', 'configurations'], 'all positive spot, expiry, volatility, all rates, all attainable deltas, calls and puts, spot/forward and premium-adjusted conventions',
  'Tests reprice a couple of market quotes; the inverse relation quantifies over delta, vol and rates.',
  ['frm/pricing_engine/garman_kohlhagen.py'], [('strike solving from delta', 'frm/pricing_engine/garman_kohlhagen.py')], ['strike from delta'])
p('C17', 'Black-76 prices and sensitivities are mutually consistent',
  'Shifted Black-76 prices satisfy put-call parity, equal the closed form on the shifted forward and strike, tend to intrinsic value at zero volatility or expiry, and the analytical sensitivities are the exact derivatives of the price.',
  ['inputs', 'configurations'], 'all forwards and strikes above minus the shift, all positive expiries, vols and annuities, calls and puts',
  'Tests compare a few numbers; the identities quantify over all reals.',
  ['frm/pricing_engine/black76_bachelier.py'], [('black76_price', 'frm/pricing_engine/black76_bachelier.py')], ['price', 'analytical greeks'])
p('C18', 'Bachelier prices and sensitivities are mutually consistent',
  'Normal-model prices satisfy put-call parity, equal the closed form, depend on forward and strike only through their difference, and the analytical sensitivities are the exact derivatives of the price.',
  ['inputs', 'configurations'], 'all real forwards and strikes, all positive expiries, vols and annuities, calls and puts',
  'Tests compare a few numbers; the identities quantify over all reals.',
  ['frm/pricing_engine/black76_bachelier.py'], [('bachelier_price', 'frm/pricing_engine/black76_bachelier.py')], ['price', 'analytical greeks'])
p('C20', 'Implied volatilities reprice the option they were solved from',
  'Whatever iterates the numerical optimiser produces, an implied volatility returned without an error reprices the given option to the quoted price within the stated tolerance. A solve that does not converge is reported and never returned as a volatility.',
  ['inputs', 'fault_sequences'], 'all inputs and every outcome the optimiser contract allows (converged, not converged, any root it claims)',
  'Tests only see the optimiser succeed.',
  ['frm/pricing_engine/garman_kohlhagen.py', 'frm/pricing_engine/black76_bachelier.py'], [('implied volatility solvers', 'frm/pricing_engine')], ['implied volatility'])
p('C21', 'SABR volatility smiles are consistent at and around the money',
  'The SABR lognormal volatility expansion equals the published Hagan formula away from the money and its at-the-money limit at the money, on forward and strike displaced by the log-normal shift, and does not depend on whether strikes arrive as scalars or vectors. Solving alpha reproduces the at-the-money volatility; calibration returns parameters inside their admissible range (positive alpha and vol-of-vol, beta between zero and one, correlation between minus one and one), goes through the at-the-money quote, minimises the sum of squared volatility errors, and reports a failed optimisation instead of returning parameters.',
  ['inputs', 'configurations', 'fault_sequences'], 'all outcomes of the optimiser, all positive forwards and strikes (after shift), expiries, vol-of-vol, correlations in (-1,1), betas in the supported range',
  'Tests calibrate to one smile; the formulas quantify over all reals.',
  ['frm/pricing_engine/sabr.py'], [('SABR volatility functions', 'frm/pricing_engine/sabr.py')], ['sabr volatility'])
p('C22', 'Forward volatility preserves total variance',
  'The forward volatility between two expiries is the number whose variance over the gap, added to the total variance to the first expiry, gives the total variance to the second; flat-forward interpolation of volatility is the unique one with constant forward variance between pillars. A calendar arbitrage (falling total variance) is reported, never turned into a number.',
  ['inputs'], 'all positive expiries and vols, any number of pillars up to the bound, every interpolation point',
  'Tests sample a single surface; the identity quantifies over reals and the error case is not tested.',
  ['frm/pricing_engine/volatility_generic.py'], [('forward_volatility, flat forward interpolation', 'frm/pricing_engine/volatility_generic.py')], ['forward volatility'])
p('C23', 'Simulated normals have the requested shape, antithetic pairs and correlation',
  'Whatever the underlying normal draws, the random-number generator returns exactly the requested number of time steps, factors and paths, antithetic paths are exact negatives of their pair, and correlated factors have the requested correlation matrix.',
  ['inputs', 'configurations'], 'all draws, all valid correlations in dimension up to the bound, odd and even path counts',
  'Tests look at sample statistics of one seed; the identities hold draw by draw.',
  ['frm/pricing_engine/monte_carlo_generic.py'], [('generate_rand_nbs', 'frm/pricing_engine/monte_carlo_generic.py')], ['random number array'])
p('C24', 'Simulated geometric Brownian motion follows its exact transition law',
  'Given the normals, every simulated path starts at the initial spot and each step multiplies it by exp((drift - vol^2/2) dt + vol sqrt(dt) Z), for every schedule of rates, volatilities and time steps, in one and several dimensions. Its one-step conditional mean is therefore the forward growth.',
  ['inputs', 'schedules'], 'all rates, vols, positive time steps, all draws, number of steps and paths up to the bound',
  'Tests only check sample means for one parameter set.',
  ['frm/pricing_engine/geometric_brownian_motion.py'], [('simulate', 'frm/pricing_engine/geometric_brownian_motion.py')], ['simulated paths'])
p('C25', 'The one-factor commodity spot model follows its mean-reverting step around the forward curve',
  'In the Clewlow-Strickland one-factor model every simulated step is the Euler step of the log spot: pulled back towards the forward curve at the mean-reversion speed, shocked by volatility times the square root of the step times its own normal draw, with the drift that keeps the expected spot on the initial forward curve. The first row is the initial forward, and paths simulated in separate batches use distinct draws.',
  ['inputs', 'schedules'], 'all positive mean reversion, vol, forwards and time grids up to the bound, all draws',
  'Tests check a sample mean for one parameter set.',
  ['frm/pricing_engine/clewlow_strickland_1_factor.py'], [('simulate', 'frm/pricing_engine/clewlow_strickland_1_factor.py')], ['simulated paths'])
p('C26', 'Hull-White reprices the initial curve and its bond options obey parity',
  'For every initial curve, mean reversion and volatility, the one-factor Hull-White zero-coupon bond formula evaluated at the initial state gives back the initial discount factors, bond option prices satisfy put-call parity, and simulated short-rate moments match the model. ',
  ['inputs', 'configurations'], 'all positive curve levels at fixed layouts, mean reversion and vol, option expiry and maturity, calls and puts',
  'Tests price one cap surface; the identities quantify over model parameters.',
  ['frm/pricing_engine/hw1f.py'], [('HullWhite1Factor', 'frm/pricing_engine/hw1f.py')], ['zero coupon bond prices', 'option prices'])
p('C27', 'Heston characteristic function is normalised and parity holds',
  'The Heston characteristic functions equal one at zero and are martingale-consistent (the spot measure reproduces the forward), and vanilla prices from every pricing formulation satisfy put-call parity.',
  ['inputs', 'configurations'], 'all admissible parameters, calls and puts, every supported formulation',
  'Tests compare prices for a few parameter sets.',
  ['frm/pricing_engine/heston.py'], [('Heston vanilla pricing', 'frm/pricing_engine/heston.py')], ['price'])
p('C28', 'Heston simulation follows its discretisation',
  'Given the normals and uniforms, every simulated Heston path starts at the initial spot and variance, keeps the simulated variance non-negative, and each step is the stated discretisation of the two correlated processes: full truncation (absorption or reflection) for the Euler scheme, and Andersen\'s quadratic-exponential scheme whose variance draw matches the exact conditional mean and variance of the square-root process.',
  ['inputs', 'schedules'], 'all parameters, all draws, number of steps and paths up to the bound',
  'Tests only check sample means.',
  ['frm/pricing_engine/heston.py'], [('Heston simulation', 'frm/pricing_engine/heston.py')], ['simulated paths'])
p('C29', 'A leg is worth the sum of its discounted future cash flows',
  'The value of a fixed, floating or zero-coupon leg is the sum over the notional and coupon payments after the valuation date (or on it, when so configured) of amount times discount factor, with receive legs positive and pay legs the exact negative. Coupons equal notional times rate (the index fixing or forward plus the spread for floating legs, the compounded rate for zero-coupon legs) times the day-count fraction of their period. Accrued interest is the part of the current coupon earned so far plus coupons earned and not yet paid, and the clean value is the value less that. Current and non-current value add up to the value, and time buckets hold every remaining payment exactly once. A rate vector that is not one rate per period is refused.',
  ['inputs', 'configurations'], 'all rates, spreads, notionals and curve levels, at listed schedules, pay and receive',
  'Tests price a few trades; linearity and sign symmetry quantify over every rate and curve level.',
  ['frm/instruments/leg.py'], [('Leg classes', 'frm/instruments/leg.py')], ['leg price', 'cash flow table'])
p('C30', 'A swap is the sum of its legs, and solved rates give the value asked',
  'The value, accrued interest and clean value of a swap are the sums of those of its two legs, which must be on opposite sides. The rate or spread solved for a target value makes the leg worth exactly that target, and the par rate makes it worth its outstanding notional payments. Solving leaves the leg as it was: its contractual rates, value and accrued interest do not change, whether or not the solver succeeds, and a solver that fails or does not converge gives no rate.',
  ['inputs', 'configurations'], 'all rates and curve levels, at listed schedules, both directions',
  'Tests price a few trades.',
  ['frm/instruments/swap.py', 'frm/instruments/leg.py'], [('Swap', 'frm/instruments/swap.py'), ('Leg.par_solve / target_solve', 'frm/instruments/leg.py')], ['swap price', 'par solve'])
p('C31', 'FX smile quotes decompose into consistent call and put vols',
  'Call and put volatilities derived from at-the-money, risk-reversal and butterfly quotes reproduce those quotes exactly, for every number of delta pillars, documented spelling and quoting order; outright delta quotes pass through unchanged, incomplete strategies are refused, and the pillars of the resulting smile are ordered by strike from the deepest put delta to the deepest call delta.',
  ['inputs', 'configurations'], 'all quote values, both standard delta pillars, all rows up to the bound',
  'Tests use one market surface.',
  ['frm/term_structures/fx_helpers.py'], [('validate_ln_fx_vol_quotes / quote decomposition', 'frm/term_structures/fx_helpers.py')], ['strategy quotes / vols per delta'])
p('C32', 'FX forwards reproduce the quoted curve, interpolate in calendar time and settle spot-lag days later',
  'An interpolated FX forward equals the quoted forward at every quoted date, is linear in calendar time between neighbouring quotes, and outside the quoted range is either held flat or undefined as requested; the requested dates keep their order. Fixing and delivery dates that complete each other are exactly the spot offset of business days apart.',
  ['inputs'], 'all quotes at listed tenor layouts and every date in range',
  'Tests use one market curve.',
  ['frm/term_structures/fx_helpers.py'], [('FX forward interpolation', 'frm/term_structures/fx_helpers.py')], ['fx forward'])
p('C34', 'Curve and caplet-volatility stripping reprices its inputs',
  'Solving a term structure from market instruments returns pillars that reprice every input instrument.',
  ['inputs'], 'all quotes', 'Tests use one market curve.',
  ['frm/term_structures/bootstrap_helpers.py', 'frm/term_structures/optionlet.py'], [('bootstrap / strip', 'frm/term_structures')], ['stripped curve'])
p('C35', 'Business-day calendars contain only true holidays',
  'A business-day calendar built for a currency or currency pair marks a day as a holiday exactly when one of the member centres does, weekends included.',
  ['inputs', 'configurations'], 'all supported currencies and dates', 'Tests sample a few holidays.',
  ['frm/utils/business_day_calendar.py'], [('get_busdaycal', 'frm/utils/business_day_calendar.py')], ['holiday set'])
p('C37', 'Payment dates and principal exchanges follow the schedule',
  'Each payment date is the period end (or start, in advance) rolled to a business day and delayed by the given number of business days. The notional paid at the end of each period is the drop in outstanding notional, the initial exchange pays the first notional out on the effective (or given) date, the final exchange returns the last one, and with both exchanges all principal flows sum to zero. A notional vector that is not one amount per period is refused, and period day counts and year fractions are those of the period dates.',
  ['inputs', 'configurations'], 'all start dates, business-day calendars, notionals, exchange settings, payment timings and the listed delays',
  'Tests check a couple of concrete schedules with one notional.',
  ['frm/utils/schedule.py'], [('BaseSchedule.add_payment_dates', 'frm/utils/schedule.py'), ('NotionalSchedule.add_notional_schedule', 'frm/utils/schedule.py'), ('CouponSchedule', 'frm/utils/schedule.py')], ['schedule columns payment_date, notional, notional_payment, notional_payment_date, coupon_payment_date, period_daycount, period_yearfrac'])
p('C36', 'Text labels map to the intended market convention',
  'Every documented spelling of a day count, compounding, frequency or roll convention resolves to that convention, case-insensitively, and an unknown spelling is refused.',
  ['inputs'], 'all strings', 'Tests sample spellings.',
  ['frm/enums/helper.py', 'frm/enums/utils.py'], [('enum parsing', 'frm/enums/helper.py')], ['from_value'])

if __name__ == '__main__':
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
    with open(out, 'w') as f:
        for d in P:
            f.write(json.dumps(d) + '\n')
    print(len(P), 'properties')
