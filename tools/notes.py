"""Per-property notes for DESIGN.md (section 4): (oracle / what is asserted, why beyond tests)."""
N = {}
N["V01"] = ("Oracle: the four quantities derived by hand from the supplied ones with exact numbers and durations counted in quarterhours. A missing price/volume next to zero/nonzero values, redundant input and conflicting input are decided per value pattern.",
  "zero-volume, zero-price and contradictory values only show for specific values in specific combinations of columns")
N["V02"] = ("Oracle: table of conversion factors written by hand (not pint's). The magnitudes are symbolic; the unit strings are configurations.",
  "a factor that is right for the tested magnitudes and wrong for e.g. object arrays or mixed units is found in every form")
N["V03"] = ("Oracle: for every target period (calendar computed with the standard library), the sum or duration-weighted average of the symbolic source values; the index must be exactly the fully covered periods.",
  "linear identities over up to 72 independent values; each position of incomplete periods and DST day is its own path")
N["V04"] = ("Oracle: each short period gets value x duration/duration; missing values are choices (forked).",
  "the duration ratio differs for every period around DST and month ends")
N["V05"] = ("Oracle: sum of volume, revenue or price on the intersection, child by child; `add_zero_volumes` explores every zero pattern of the volumes.",
  "undefined prices at zero volume, cancelling volumes and partial overlap interact")
N["V06"] = ("Identities plus oracle; the factor is symbolic too, so products are non-linear (z3 nlsat).", "holds for every factor, incl. zero and negative")
N["V07"] = ("Oracle: product / quotient / union of the values per common period; a list of all forbidden combinations must raise.", "zero divisors and undetermined prices are specific values")
N["V08"] = ("Oracle: recursion over the children; invariants are re-checked after each operation of a history (set, replace, drop, flatten).", "histories x nesting x zero patterns")
N["V09"] = ("Identities asserted on the public attributes (offtake + sourced + unsourced = 0, ...), plus oracle for each part.", "positions that are short, long and closed in any pattern")
N["V10"] = ("Oracle: the same operation on each part; the unsourced price from volume-weighted values; hedge products from V11's reference.", "state operations rebuild all parts; one part taken from the wrong operand is only visible for values that differ")
N["V11"] = ("Oracle: uniform power and average price per product by elapsed hours; volume (or value) of the hedge equals that of the profile.", "value hedge is non-linear in the prices; products with DST, incomplete products, peak hours per month")
N["V12"] = ("Reference: weighted average written out case by case (zero weights, zero sum of weights, missing values).", "the special cases are exactly where sampled tests do not come")
N["V13"] = ("Oracle: hours of the peak / offpeak part of each product by walking over its quarterhours.", "number of peak hours differs per month; both directions and conversions between product lengths must agree for every value")
N["V14"] = ("Oracle: list slicing of the exact values; all cuts and orders of small lines are configurations, values of the parts independent.", "any order, any place incl. DST")
N["V15"] = ("Oracle: set intersection of the timestamps (after mapping wall times if start-of-day is ignored); values must stay with their timestamp.", "flags x frequencies x order of the operands")
N["V16"] = ("Reference: which source day each target day maps to (weekday, holiday, month) by a direct search; the value in each target period must be that of the mapped source period.", "distinct symbolic values make every mis-mapped period visible")
N["V17"] = ("Oracle: value where the line has data, zero (volume, revenue) or missing (price) elsewhere.", "zero volume and price patterns")
N["V18"] = ("Reference: time-linear interpolation between the neighbours for gaps up to the maximum length; everything else unchanged. The pattern of missing values is forked exhaustively.", "patterns x gap length")
N["V19"] = ("Oracle: wall-clock mapping written by hand; energy and revenue totals conserved, power/price averaged in the repeated hour.", "transition hours at each position")
N["V20"] = ("Equality is decided per path: equal iff all values are equal (z3 decides both directions); lines that differ structurally are never equal for any values.", "a comparison that ignores one value, child or tolerance is wrong only for specific values")
N["V21"] = ("Each operand is exported before and after the operation and compared value by value.", "in-place changes that only happen on specific values or alignments")
N["V22"] = ("Oracle: expected frame (columns, level names, units, values) from the exact values, per child and child level.", "each cell is a distinct symbolic value, so a swapped or dropped column shows")
N["T01"] = ("Oracle: calendar formulas on (year, month, day, ns) with anchors, start-of-day, EU DST rule; written independently (`symx/tl.py`).", "every nanosecond timestamp of the bounded years is covered")
N["T02"] = ("Oracle: a timestamp stays iff its long period starts on or after the first and ends on or before the last right bound.", "which timestamps must go depends on calendar, anchor and start-of-day")
N["T03"] = ("Oracle: right bound = next left bound; duration in elapsed hours from the formulas.", "every start of the index incl. transitions")
N["T04"] = ("Oracle: lefts whose rights are the given index; rights may include stretched hours around the DST transitions.", "pandas shifts days by 24 h, so each position of a transition behaves differently")
N["T05"] = ("Oracle: local time of day in [start, end) and weekday in the set; start and end of the peak are symbolic too.", "every (quarter)hour, DST days")
N["T06"] = ("Oracle: n-th period start after the trading day by calendar formulas; `now` is a symbolic input.", "each trading day has its own result")
N["T08"] = ("Oracle: accepted iff starts are boundaries and (for shorter-than-daily) the first and last full day are complete.", "every start and number of periods")
N["T09"] = ("Oracle: wall time of the first stamp; shifted days / full days only.", "every start and every quarterhour")
N["T10"] = ("The frequencies are finitely many strings; what is decided for all timestamps is the meaning of the comparison: that the boundaries found by the real `isboundary.stamp` nest as `up_or_down` claims, that a refusal is justified (z3 decides nesting of the reference calendar in both directions), and that the real durations of any two periods are in the claimed order.", "correctness for every period of every pair of anchors")
N["V23"] = ("Metamorphic: two sequences of operations that must give the same line are executed symbolically on the same inputs; the solver decides whether all values agree for all inputs. No oracle for a single operation is needed, so it also covers combinations for which no other harness has an explicit reference.",
  "an operation that leaves a line in a subtly wrong state is only visible in the operation that follows")
