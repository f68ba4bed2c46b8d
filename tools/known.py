import json,subprocess
log=subprocess.run(['git','-C','/repo','log','--format=%h %s'],capture_output=True,text=True).stdout.splitlines()
H={l.split(' ',1)[1]:l.split(' ',1)[0] for l in log}
def h(start):
    m=[v for k,v in H.items() if k.startswith('fix: '+start)]
    assert len(m)==1,(start,m); return m[0]
E=[
('C02','updating a curve point','curve[date]=value on a curve with spread or fixings baked the spread and the fixings of all points into the stored data'),
('C01','get_present_value leaves','get_present_value moved the valuation date of the payoff model of the list and left it there (also seen by nested calls and other threads, C03)'),
('C01','get_fair_rate restores','get_fair_rate replaced individual fixed rates by the first one, and left the bracketing rate behind when the valuation failed'),
('C01','sensitivities and curve fits','get_basis_point_value, get_bucketed_delta and get_curve_fit left their shift curve attached as spread when the valuation failed, and dropped a spread present before'),
('C02','results do not depend on the order','curves with points inserted later or given unsorted answered differently from curves built at once (domain order, forward extrapolation, casts, bucketing)'),
('C05','curves and leg lists keep','curves and leg lists kept the list handed in by the caller, so later changes of that list changed the object'),
('C06','kwargs of default','kwargs of default probability curves held survival probabilities under the name of default probabilities'),
('C06','curves with log_linear_scheme','curves with log_linear_scheme could not be pickled or deep copied (local lambda)'),
('C06','curve kwargs carry','kwargs dropped user supplied interpolations and day counts and the yield, domestic and foreign curve'),
('C02','discounting from an equal','discounting compared origins by identity: an equal date object gave another result'),
('C02','flat intensity at equal','flat intensity at equal dates off the origin raised ZeroDivisionError'),
('C04','iterating and dividing','iterating a curve twice or nested skipped points (shared iterator position), dividing curves failed'),
('C08','schedules of products','building a bond or swap with float or datetime dates never returned or grew its schedule without bound'),
('C08','bracketing stops','bracketing never returned once the interval was exhausted at float resolution'),
('C07','FxContainer keeps','FxContainer pairs were inconsistent: a currency added again left stale cross rates, triangulation failed beyond the spot date'),
('C09','integrals include','integrals left the spread out and failed with TypeError where scipy is not installed'),
('C02','zero is a valid','an origin or valuation date of 0.0 (float dates) was treated as not given'),
('C05','changing the returned domain','the list returned as domain of a curve was the internal one: changing it changed the curve (also via kwargs)'),
('C06','FxContainer can be','FxContainer could not be pickled or deep copied'),
('C11','swap annuity','get_swap_annuity started its first period at the origin of the curve and not at the first given date'),
('C08','cash rates off','cash rates of a curve with the tenor of its points recursed without end at some dates'),
('C08','short and hazard rates of','short rate and hazard rate curves of a single point recursed without end'),
('C12','accrued interest of contingent','get_interest_accrued failed on contingent rate cash flow lists'),
('C12','greeks use the time','theta, vega and gamma were evaluated at a date instead of the time to expiry'),
('C12','binary option model','numerical binary option model dropped the strike shift it was given'),
('C12','option pricing formula types','OptionPricingFormula.from_function built objects that failed on use'),
('C12','numerical theta','numerical theta was scaled twice'),
('C11','table of cashflow lists','table of a cash flow list ignored its payoff model and, for leg lists, its legs'),
('C11','cashflows of called leg','calling a leg list gave cash flows of zero'),
('C12','greeks of displaced binary','greeks of the displaced binary model used forward and strike without displacement'),
('C08','bracketing a jump at zero','get_curve_fit and get_yield_to_maturity exceeded the recursion limit when the price jumps at zero'),
('C10','representation of option strategy','representation of an option strategy payoff recursed without end'),
('C10','columns of rate tables','the columns of a rate table depended on the hash seed'),
('C04','build log interpolations','log interpolations built from a dictionary lost their values'),
('C11','tell the number of options','refusing a strategy of too many options ended in a TypeError'),
('C12','vega of log normal','analytic vega of log normal options was K*sqrt(t)*phi(d) in place of F*sqrt(t)*phi(d)'),
('C12','price and vega of binary log','price and vega of binary log normal options did not match their delta'),
('C12','gamma and vega of binary normal','gamma and vega of binary normal options were no derivatives of their price'),
('C11','binary options pay one','binary options paid F-K at expiry or without volatility, binary puts came from the put/call parity of plain options'),
('C04','sums and products of date','sums, differences and products of date curves lost origin and day count'),
('C04','algebra of curves with list','adding curves failed if the domain of one was a list and of the other a tuple'),
('C11','annuity plans','annuity plans at rate zero divided by zero'),
('C11','products with the default','products with the default day count failed when valued'),
('C08','schedules refuse','schedules of products with periods of zero or negative length never ended'),
('C08','swaps on business dates','swaps on business dates could not be built without giving holidays'),
('C11','option models with flat forward','option models with a forward or volatility given as number zero failed'),
('C11','interpolation by annual rates','discount factor and survival probability curves without a point at the origin failed when asked for anything starting at the origin'),
('C11','expired options','options valued after their expiry failed, so caps, floors and collars within any of their periods'),
('C04','fixings of forward curves','fixings of forward curves later than their last point were ignored'),
('C11','casts to other dates','casting a curve without explicit origin to other dates took the first of these as origin, so all its discount factors and survival probabilities changed'),
('C11','date curves can be built','date curves could not be built from date curves'),
('C12','curve fits run','get_curve_fit on a grid not in order of dates gave a curve that did not reprice its instruments'),
('C11','periods ending at time zero','get_cash_rate accepted a period not meeting its end where the end is time 0.0 or the period is empty'),
('C12','bucketed deltas take','get_bucketed_delta of a curve other than the discount curve took the domain of the discount curve as default grid, not the documented one'),
]
out=[{'property':p,'status':'fixed','commit':h(s),'what':'fixed: property=%s %s %s'%(p,h(s),w)} for p,s,w in E]
assert len(out)==len([k for k in H if k.startswith('fix')]),(len(out))
json.dump(out,open('/verif/known_findings.json','w'),indent=1)
