"""The properties (source of properties.jsonl and MANIFEST.json; see tools/gen.py)."""
P = []


def add(id, title, statement, over, text, why, files, mech, observe, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over.split(), text=text, why=why, files=files.split(), mech=mech, observe=observe, na=na))


PF = "portfolyo/core/pfline/"
TL = "portfolyo/tools/"

add("V01", "Portfolio lines are consistent, or their construction is refused",
    "A portfolio line created from any combination of power, energy, price and revenue has exactly one value per delivery period and quantity, with energy = power x duration and revenue = price x energy, and every quantity that was supplied comes back unchanged. Input that contradicts these relations, that does not determine the line (e.g. price and nothing else is a price line, price and energy is a complete line), or with values that are not numbers or have no valid delivery periods, is refused with an error.",
    "inputs", "All values of the supplied timeseries, all combinations of supplied quantities and forms in which they are supplied, all delivery-period indices within the bounds (lengths differ through DST and calendar).",
    "Tests compare a few random frames; the relations, and especially the zero-volume and zero-price cases and the rejection of contradictory input, must hold for every value.",
    PF + "create.py " + PF + "interop.py " + PF + "flat_helper.py " + PF + "classes.py",
    [("determination of the missing quantities and consistency checks", PF + "interop.py: InOp.make_consistent / to_df"), ("standardisation and validation of the flat line's dataframe", PF + "create.py: flatpfline, PfLine classes' __post_init__")],
    ["w, q, p, r, kind and index of the created portfolio line, or the error"])

add("V02", "Units are converted, wrong dimensions refused",
    "The value of a quantity that enters a portfolio line does not depend on the unit in which it is expressed: any compatible unit is converted to the standard unit exactly. A value whose dimension does not fit the quantity for which it is supplied is refused and never enters the portfolio line.",
    "inputs", "All magnitudes, in all combinations of supported unit and quantity within the bounds.",
    "Tests use a handful of units and magnitudes; each accepted combination must scale every magnitude correctly.",
    TL + "unit.py " + PF + "interop.py",
    [("unit and dimension recognition", TL + "unit.py: to_name, defaultunit, split_magn_unit"), ("splitting input into its dimensions", PF + "interop.py: InOp._from_data")],
    ["w, q, p, r of the created portfolio line, or the error"])

add("V03", "Downsampling conserves totals and averages by duration",
    "Changing to a longer frequency keeps exactly the delivery periods of the longer frequency that are completely covered; energy and revenue of each are the sum over the periods in it, power is the energy divided by the duration, a price-only line has the duration-weighted average price, and a complete line has the revenue divided by the energy. This also holds for each child, and for start-of-day other than midnight, anchored years and quarters, and days of 23 or 25 hours.",
    "inputs configurations", "All values; frequencies, positions of the incomplete periods, time zones and start-of-day within the bounds.",
    "Tests compare to recorded numbers for a few frames; conservation must hold for every value, and each (frequency, time zone, start-of-day, trimming) combination takes another path.",
    TL + "changefreq.py " + TL + "trim.py " + TL + "duration.py " + PF + "flat_methods.py " + PF + "nested_methods.py",
    [("resampling", TL + "changefreq.py: _general, summable, averagable"), ("removal of incomplete periods", TL + "trim.py: index / frame")],
    ["index and values of the line after asfreq; return values of asfreq_sum / asfreq_avg"])

add("V04", "Upsampling spreads totals by duration and can be undone",
    "Changing to a shorter frequency yields every shorter delivery period that lies in the original ones and no other, with energy and revenue distributed proportionally to duration and with unchanged power and price. Missing values remain missing and do not spread to other periods, and changing back to the original frequency restores the original values.",
    "inputs configurations", "All values and missing-value patterns; frequencies, time zones and start-of-day within the bounds.",
    "Tests compare a few frames; distribution by duration depends on DST, month lengths and start-of-day, and must hold for every value.",
    TL + "changefreq.py " + PF + "flat_methods.py",
    [("resampling", TL + "changefreq.py: _general, summable, averagable")],
    ["index and values of the line after asfreq; return values of asfreq_sum / asfreq_avg"])

add("V05", "Sums and differences of portfolio lines are exact on the common periods",
    "Adding (subtracting) two portfolio lines of the same kind gives, for exactly the delivery periods they have in common, the sum (difference) of their energy and revenue, or of their prices for price-only lines; the price of complete lines remains the revenue divided by the energy. Nested lines are combined child by child (a child that only exists in one of them is kept, negated if subtracted), and combinations that have no meaning (different kind, different frequency, no common periods) are refused.",
    "inputs configurations", "All values, incl. zero volumes; kind, nesting and overlap of both operands within the bounds.",
    "Tests check a few fixed pairs; overlap, nesting and zero-volume periods interact, and the sum must be right for every value.",
    PF + "arithmatic.py " + PF + "decorators.py",
    [("addition and negation", PF + "arithmatic.py: Apply.add, Apply.neg"), ("preparation of the other operand", PF + "arithmatic.py: EnsurePfLine / prepare wrappers")],
    ["w, q, p, r, index, kind and children of the result, or the error"])

add("V06", "Scaling a portfolio line scales what it should, and only that",
    "Multiplying or dividing a portfolio line by a dimensionless factor (one for all, or one per delivery period) scales energy and revenue of a complete line and leaves its price unchanged, and scales the values of a volume, price or revenue line and of each child. Negation equals multiplication by -1, and division by k undoes multiplication by k.",
    "inputs", "All values and all factors; form of the factor, kind, nesting and index within the bounds.",
    "Tests use a few factors; the identities must hold for every value and factor, incl. zero and negative.",
    PF + "arithmatic.py",
    [("multiplication by and division by dimensionless values", PF + "arithmatic.py: Apply.mul, Apply.div"), ("negation", PF + "arithmatic.py: Apply.neg")],
    ["w, q, p, r, kind and children of the result"])

add("V07", "Products, ratios and unions of different kinds are dimensionally right",
    "Price x volume, revenue / volume and revenue / price give the revenue, the price and the energy of each common delivery period, and the union of two of volume, price, revenue is the complete line that has both; the ratio of two lines of the same kind is the dimensionless ratio of their values. Combinations that have no meaning (such as volume x volume or volume + price) are refused, whatever type the other operand is expressed in.",
    "inputs configurations", "All values; pairs of kinds, order and type of operands, overlap and nesting within the bounds.",
    "Tests cover a matrix of types with fixed values; the dimensional identities must hold for every value and partial overlap.",
    PF + "arithmatic.py " + PF + "interop.py",
    [("cross-kind arithmetic", PF + "arithmatic.py: Apply.mul, Apply.div, Apply.union"), ("conversion of the other operand", PF + "interop.py")],
    ["kind, w, q, p, r and index of the result, or the error"])

add("V08", "A nested portfolio line equals the aggregate of its children",
    "At every moment and on every level, energy and revenue of a nested line equal the sum over its children, its price is the volume-weighted average (price-only children: the sum), and its periods are exactly those that all children have. Selecting, adding, replacing or removing a child or flattening the line keeps this true and leaves the other children untouched.",
    "inputs histories", "All values of all children; nesting structures, overlaps and sequences of child operations within the bounds.",
    "Tests check two-child examples; the aggregate must be right for every value incl. zero and cancelling volumes and for any nesting.",
    PF + "nested_helper.py " + PF + "nested_methods.py " + PF + "children.py " + PF + "create.py",
    [("aggregation of children", PF + "classes.py: NestedPfLine properties"), ("child access", PF + "children.py"), ("index intersection of children", PF + "nested_helper.py: constructor")],
    ["w, q, p, r, index and children of the nested line"])

add("V09", "Portfolio state: sourced + unsourced + offtake is always zero",
    "For every portfolio state the net position is zero: the unsourced volume is minus the sum of offtake and sourced volume in every period, the portfolio price multiplied by minus the offtake volume equals the total cost (sourced cost plus unsourced volume valued at the market prices), and the sourced fraction is the sourced volume divided by minus the offtake volume. This holds for every way to create the portfolio state, and parts that do not cover the offtake periods are refused.",
    "inputs configurations", "All offtake and sourced volumes, prices and market prices; way of creation, nesting and indices within the bounds.",
    "Tests build a few states from random frames; the identities between the parts must hold for every value, incl. zero positions.",
    "portfolyo/core/pfstate/pfstate.py portfolyo/core/pfstate/pfstate_helper.py",
    [("derived parts", "portfolyo/core/pfstate/pfstate.py: unsourced, netposition, pnl_cost, sourcedfraction, unsourcedfraction"), ("creation and validation", "portfolyo/core/pfstate/pfstate_helper.py: make_pflines; pfstate.py: from_series")],
    ["offtakevolume, sourced, unsourced, netposition, pnl_cost, fractions of the portfolio state"])

add("V10", "Transformations of a portfolio state act consistently on all its parts",
    "Changing a part of a portfolio state changes that part and what is derived from it and nothing else; changing its frequency or selecting periods gives the same as doing so on each part (with the unsourced price averaged by volume); the sum, difference or multiple of portfolio states is the sum, difference or multiple of their parts. Hedging the unsourced volume leaves a state whose unsourced volume is zero per product, without changing the offtake.",
    "inputs histories", "All values; operations, operands' overlap and indices within the bounds.",
    "Tests check fixed examples; the parts must stay consistent for every value after every operation.",
    "portfolyo/core/pfstate/pfstate.py portfolyo/core/pfstate/arithmatic.py",
    [("replacing parts, resampling, hedging", "portfolyo/core/pfstate/pfstate.py: set_*, add_sourced, asfreq, hedge_of_unsourced, source_unsourced"), ("arithmetic", "portfolyo/core/pfstate/arithmatic.py")],
    ["all parts of the resulting portfolio state"])

add("V11", "A hedge preserves volume or value per product, with uniform power",
    "The hedge of a volume against market prices has one power value and one price for each (peak, offpeak or base) product; the price is the duration-weighted average market price. A volume hedge has exactly the volume of the profile in each product; a value hedge has exactly its market value; incomplete products at the edges are left out.",
    "inputs configurations", "All volumes and prices; product lengths, peak definitions, start-of-day, DST and incomplete products within the bounds.",
    "Tests compare recorded hedges; the preserved volume or value must hold for every profile.",
    TL + "hedge.py " + TL + "peakconvert.py " + PF + "flat_methods.py " + PF + "nested_methods.py",
    [("hedge calculation per product", TL + "hedge.py: hedge, _hedge"), ("grouping into products", TL + "peakconvert.py: group_index")],
    ["w, q, p, r and index of the hedge"])

add("V12", "Weighted averages weigh every value by its own weight",
    "The weighted average is the sum of value times weight divided by the sum of the weights, with weights matched to the values by name (not by position) when they have names; values with weight zero have no influence. Missing values with non-zero weight make the result missing, as do weights that sum to zero unless all relevant values are identical, in which case the result is that value.",
    "inputs", "All values, weights and missing-value patterns within the bounds, for series, rows and columns.",
    "Tests check examples; sum-zero, zero-weight, negative-weight and missing-value cases combine.",
    TL + "wavg.py",
    [("weighted average of a series", TL + "wavg.py: series"), ("weighted average of a dataframe", TL + "wavg.py: dataframe")],
    ["return value"])

add("V13", "Peak and offpeak values and timeseries are converted without loss",
    "The peak (offpeak) value of a month, quarter or year is the duration-weighted average of the values in its peak (offpeak) periods, or their sum for summable data; converting it back gives a timeseries that has, in each product, this average or sum, spread over exactly the peak (offpeak) periods. The base value follows from both, and the price of a complete line is the volume-weighted average over the part.",
    "inputs configurations", "All values; frequencies, peak definitions, start-of-day, DST and incomplete periods within the bounds.",
    "Tests compare recorded frames for one peak definition; the equalities must hold for every value and every number of peak hours in a month.",
    TL + "peakconvert.py " + TL + "peakfn.py " + TL + "duration.py " + PF + "flat_methods.py",
    [("conversion in both directions", TL + "peakconvert.py: tseries2poframe, poframe2tseries, poframe2poframe"), ("peak and offpeak part of a line", PF + "flat_methods.py: po")],
    ["the frame with peak and offpeak values; the timeseries"])

add("V14", "Selecting periods and putting the parts together loses nothing",
    "Selecting a range of periods of a portfolio line or state gives exactly those periods, with unchanged values, for every child. Putting the parts into which a line or state was cut together, in any order, gives the original; parts that overlap, leave a gap or differ in kind, structure, frequency or time zone are refused.",
    "inputs configurations", "All values; selections, cuts and orders within the bounds.",
    "Tests cut lines at one place; every place, order, nesting and DST transition must give the original values.",
    PF + "flat_methods.py " + PF + "nested_methods.py portfolyo/tools2/concat.py",
    [("selecting by index", PF + "flat_methods.py: slice, loc"), ("concatenation", "portfolyo/tools2/concat.py: general, concat_pflines, concat_pfstates")],
    ["index, values and children of the selection and of the concatenation, or the error"])

add("V15", "Intersection keeps exactly the common delivery periods",
    "Intersecting timeseries, frames, portfolio lines or states keeps, in each of them, exactly the delivery periods that are covered by all of them, with unchanged values and with each keeping its own frequency, time zone and start-of-day. Indices with different frequency, time zone or start-of-day are refused, unless it is indicated that the difference is ignored; then only periods are kept that are part of full periods of the longest frequency.",
    "inputs configurations", "All values; number, type and relative position of the objects within the bounds.",
    "Tests cover a fixed set of index pairs; the flags, frequencies and overlaps combine.",
    TL + "intersect.py portfolyo/tools2/intersect.py",
    [("strict and flexible intersection of indices", TL + "intersect.py: indices, indices_flex, frames"), ("of portfolio lines and states", "portfolyo/tools2/intersect.py")],
    ["index and values of each of the results, or the error"])

add("V16", "Mapping to another year uses the values of comparable periods",
    "Mapping a timeseries, portfolio line or state to another year gives every delivery period of that year a value of the source: monthly, quarterly and yearly values those of the same month, quarter or year, and shorter values those of a day of the same month with the same weekday or holiday character, hour by hour. Averagable data are copied as such; for summable data the rate (value per duration) is kept, so that power and price are preserved.",
    "inputs configurations", "All values; source and target years, frequencies, holidays and time zones within the bounds.",
    "Tests check a few years; leap years, DST, holidays and start-of-day make the mapping different in every year.",
    TL + "changeyear.py " + TL + "hedge.py " + PF + "flat_methods.py",
    [("mapping of indices and frames", TL + "changeyear.py: characterize_index, map_index_to_index, map_frame_to_year"), ("of portfolio lines", PF + "flat_methods.py: map_to_year")],
    ["index and values of the mapped object"])

add("V17", "Reindexing keeps the values of common periods and fills others with zero",
    "Reindexing a portfolio line onto an index of the same frequency, time zone and start-of-day gives a line of the same kind and structure over exactly that index, in which the periods that were present keep their volume, price and revenue and the others have none (zero). An index with another frequency, time zone or start-of-day is refused.",
    "inputs configurations", "All values; relative position of the new index, kind and nesting within the bounds.",
    "Tests reindex one flat line; nesting, zero volumes and relative position combine.",
    PF + "flat_methods.py " + PF + "nested_methods.py",
    [("reindexing", PF + "flat_methods.py: reindex; nested_methods.py: reindex")],
    ["index, values and children of the result, or the error"])

add("V18", "Filling gaps interpolates short gaps and leaves everything else alone",
    "Filling gaps replaces missing values in interior gaps of at most the specified length by the linear interpolation (in time) between the values at both sides. Longer gaps, missing values at the start or end, and values that are present remain as they are, in every column.",
    "inputs", "All values and all patterns of missing values within the bounds.",
    "Tests check one series with a few gaps; every pattern of gaps and every value must be treated right.",
    TL + "frame.py",
    [("filling of gaps", TL + "frame.py: fill_gaps")],
    ["return value of fill_gaps"])

add("V19", "Conversion of time zones and standardization keep each value at its time",
    "Converting a timeseries to a time zone keeps each value at its local time (floating) or at its instant (not floating); converting to time-zone-agnostic keeps it at its local time, with skipped hours getting the value of the preceding hour and repeated hours the value of the first. Values of days and longer are kept one-to-one; names and units are kept. Standardizing turns left- or right-bound, localized or unlocalized data into the same timeseries with frequency, and refuses data with gaps, without frequency or with partial days.",
    "inputs configurations", "All values; time zones, DST transitions, frequencies, boundness and start-of-day within the bounds.",
    "Tests cover a few days for one pair of time zones; every value must end up at its own hour around both DST transitions.",
    TL + "tzone.py " + TL + "standardize.py " + TL + "righttoleft.py " + TL + "freq.py",
    [("time zone conversion", TL + "tzone.py: force_aware, force_agnostic"), ("standardization", TL + "standardize.py: frame, assert_index_standardized")],
    ["index, values, name and unit of the result, or the error"])

add("V20", "Lines are equal if and only if their content is equal",
    "Two portfolio lines are equal if and only if they have the same kind, structure, child names, delivery periods and values, however they were created; two portfolio states if their parts are, and two timeseries with units if they denote the same quantities. A line is false in boolean context if and only if all its values (volume and revenue for complete lines), on every level, are zero.",
    "inputs", "All pairs of values; structures and indices within the bounds.",
    "Tests compare a few pairs; equality must detect a difference in any value of any child, and never report one where there is none.",
    PF + "flat_methods.py " + PF + "nested_methods.py " + PF + "classes.py " + TL + "testing.py portfolyo/core/pfstate/pfstate.py",
    [("comparison", PF + "flat_methods.py: __eq__; nested_methods.py: __eq__; " + TL + "testing.py"), ("truth value", PF + "classes.py: __bool__")],
    ["result of ==, != and bool()"])

add("V21", "Operations never change their operands, nor lines their source data",
    "No operation on portfolio lines, portfolio states, timeseries or indices changes any of its operands: values, index, frequency, names, units and children remain as they were. A line is not changed either if the data from which it was created is changed afterwards.",
    "inputs histories", "All values; operations and operands within the bounds.",
    "Tests look at results, not at operands afterwards; sharing of data between objects depends on type and unit of the data.",
    PF + "classes.py " + PF + "arithmatic.py " + PF + "create.py " + PF + "interop.py " + PF + "flat_helper.py " + PF + "nested_helper.py portfolyo/core/pfstate/pfstate.py " + TL + "standardize.py " + TL + "frame.py",
    [("immutability", PF + "classes.py: frozen dataclasses; " + PF + "flat_helper.py, interop.py: copies of source data")],
    ["all operands after the operation"])

add("V22", "Exported dataframes show every value under its own name and unit",
    "The dataframe of a portfolio line has the wanted (available) columns of the line and of each child down to the wanted level, each below the names of the children it belongs to; that of a portfolio state has those of each of its parts. The values are those of the line in standard units, with or without unit; frames for Excel and clipboard have the local times and the unit as extra level, and the index, start, end and durations of a line are those of its delivery periods.",
    "inputs configurations", "All values; nesting, columns, levels and indices within the bounds.",
    "Tests export a few lines; nesting depth, choice of columns, levels and units combine.",
    PF + "dataframeexport.py portfolyo/core/shared/excelclipboard.py " + TL + "frame.py portfolyo/core/pfstate/pfstate.py",
    [("export", PF + "dataframeexport.py: Flat.dataframe, Nested.dataframe"), ("column levels", TL + "frame.py: add_header, concat"), ("excel and clipboard", "portfolyo/core/shared/excelclipboard.py: prepare_df")],
    ["columns, index, values and units of the dataframe"])

add("V23", "The order of operations on portfolio lines does not matter",
    "Selecting periods, changing frequency, flattening, taking components or children, reindexing and mapping to another year commute with adding, subtracting, negating and scaling portfolio lines, and with each other where both are defined. Addition is commutative and associative, scaling is distributive, and subtracting, dividing or changing the frequency back undoes adding, multiplying or changing the frequency. After any such sequence the line is consistent and a nested line equals the sum of its children.",
    "inputs histories configurations", "All sequences of operations and values within the bounds.",
    "Tests apply one operation at a time; a line that is left in a subtly wrong state by one operation (lost frequency, wrong column kept, stale child) only gives wrong results in the next.",
    PF + "arithmatic.py " + PF + "flat_methods.py " + PF + "nested_methods.py " + PF + "children.py " + TL + "changefreq.py portfolyo/tools2/concat.py portfolyo/tools2/changeyear.py",
    [("arithmetic", PF + "arithmatic.py"), ("selection, flattening, reindexing", PF + "flat_methods.py, nested_methods.py, prices.py"), ("children", PF + "children.py"), ("frequency", TL + "changefreq.py")],
    ["index, values, kind, structure and children of the resulting lines"])

add("T01", "Floor and ceil return the enclosing delivery-period boundaries",
    "For every timestamp and frequency, floor returns the latest period start on or before it and ceil the earliest on or after it, in the same time zone, taking into account the start of day, the anchor of the year or quarter, and both DST transitions; a future offset moves the result by exactly that number of periods. A timestamp is reported to be a boundary if and only if both return it unchanged, also for all timestamps in an index.",
    "inputs", "All timestamps (nanosecond resolution) and all offsets within the bounds.",
    "Tests sample some hundred timestamps; leap years, DST transitions, start-of-day and nanoseconds make every timestamp a case of its own.",
    TL + "floor.py " + TL + "ceil.py " + TL + "round.py " + TL + "isboundary.py " + TL + "freq.py",
    [("rounding", TL + "round.py: stamp_general; floor.py: stamp; ceil.py: stamp"), ("boundary check", TL + "isboundary.py: stamp, index")],
    ["return value of floor.stamp, ceil.stamp, isboundary.stamp, isboundary.index"])

add("T02", "Trimming keeps exactly the full periods",
    "Trimming an index to a (longer) frequency keeps a timestamp if and only if the complete longer period to which it belongs is in the index, with start of day as in the index. The result is a contiguous part of the index with the same frequency; it may be empty.",
    "inputs", "All starts of the index (so all positions of the incomplete periods, leap years and DST transitions) within the bounds.",
    "Tests sample a few indices; which timestamps must go depends on calendar, anchor and start-of-day.",
    TL + "trim.py " + TL + "floor.py " + TL + "ceil.py " + TL + "right.py " + TL + "startofday.py",
    [("trimming", TL + "trim.py: index")], ["return value of trim.index"])

add("T03", "Delivery periods tile time, and durations are elapsed time",
    "The right bound of a delivery period equals the left bound of the next one in the index. Its duration is the actually elapsed time between both, so 23 or 25 hours for days with a DST transition, and the frequency is recognised from the time between start and end.",
    "inputs", "All starts of the index within the bounds, and all durations.",
    "Tests sample a few days; power-to-energy conversion of every period relies on the duration.",
    TL + "right.py " + TL + "duration.py " + TL + "freq.py",
    [("right bound", TL + "right.py: stamp, index"), ("duration", TL + "duration.py: stamp, index"), ("frequency from duration", TL + "freq.py: from_tdelta")],
    ["return values of right.*, duration.*, freq.from_tdelta"])

add("T04", "Right-bound timestamps are turned into the left-bound ones",
    "For every index of consecutive delivery periods with right-bound timestamps, with known or unknown frequency, making it left-bound returns the starts of exactly these delivery periods. None is lost, added or shifted, also around DST transitions and for start of day other than midnight.",
    "inputs", "All starts of the index within the bounds.",
    "Tests sample a few indices; pandas shifts days by 24 hours, so DST transitions at the first, last or any other timestamp each behave differently.",
    TL + "righttoleft.py " + TL + "freq.py",
    [("left-bound timestamps", TL + "righttoleft.py: index"), ("frequency by guessing", TL + "freq.py: guess_to_index, from_tdelta")],
    ["return value of righttoleft.index"])

add("T05", "Peak hours are recognised by local time and weekday",
    "A peak function made from start time, end time and weekdays marks a delivery period as peak if and only if its local start is in that time span (start inclusive, end exclusive) on one of these weekdays, also on days with a DST transition. It refuses frequencies with periods that can be partly peak; specifications without peak or without offpeak are refused as well.",
    "inputs", "All timestamps and all (quarter)hours as start and end of the peak period, within the bounds.",
    "Tests sample a few days and three peak periods.",
    TL + "peakfn.py",
    [("creation of the peak function", TL + "peakfn.py: factory")], ["values returned by the peak function, or the error"])

add("T06", "Traded products have the right delivery period",
    "The delivery period of the n-th front product (day, month, quarter, season or year) starts at the n-th start of such a period after the trading day, and ends when the next one starts; both respect the start of day. Default start and end of a period that are derived from (partial) user input lie on boundaries of the wanted periods, in the time zone of the input and in the right order.",
    "inputs", "All trading timestamps (including the current time as input) and front counts within the bounds.",
    "Tests sample some trading days; seasons, start-of-day and DST give each day its own boundary.",
    TL + "product.py " + TL + "leftandright.py " + TL + "floor.py " + TL + "ceil.py",
    [("delivery period of a product", TL + "product.py: delivery_period"), ("defaults for left and right", TL + "leftandright.py: stamps")],
    ["return values of product.delivery_period, leftandright.stamps"])

add("T08", "Only indices with full, consecutive delivery days are accepted",
    "An index is accepted as valid for portfolio lines if and only if its timestamps are starts of delivery periods, and the periods together are full days for periods shorter than a day. This includes days with 23 and 25 hours.",
    "inputs", "All starts of the index within the bounds.",
    "Tests sample a few indices; acceptance of an incomplete day would corrupt all later aggregations.",
    TL + "standardize.py " + TL + "freq.py",
    [("validation of the index", TL + "standardize.py: assert_index_standardized")], ["error or no error"])

add("T09", "Start of day is found in and set on every index",
    "The start of day found in an index is the local time of its first timestamp. Setting another one keeps the delivery days of daily-or-longer indices and only changes their time, and for shorter indices keeps exactly the timestamps of the full days in it; only full quarterhours are accepted.",
    "inputs", "All starts of the index and times within the bounds.",
    "Tests sample a few indices.",
    TL + "startofday.py",
    [("getting and setting start of day", TL + "startofday.py: get, set")], ["return values of startofday.get, startofday.set"])

add("T10", "Frequencies are ordered by how their periods nest",
    "Comparing two frequencies tells to upsample (downsample) only if every period of the first (second) consists of full periods of the other, for every start of a period at any time, and to do nothing only if they have the same periods; if their periods do not nest, as for quarters and years with anchors that do not fit, the comparison is refused. A frequency is considered longer, and is selected as the longest of several, only if its periods last longer, wherever they are in the calendar.",
    "inputs configurations", "All pairs of frequencies and anchors; all timestamps, and all pairs of periods, within the bounds.",
    "Tests have a table with some of the pairs of anchors; that the answer is right for every period, and agrees with the boundaries that are found by the rest of the code, is not checked.",
    TL + "freq.py " + TL + "isboundary.py " + TL + "duration.py",
    [("comparison of frequencies", TL + "freq.py: up_or_down, assert_freq_sufficiently_long, longest, shortest")], ["return value of up_or_down, shortest, longest; error or no error of the assertions"])

add("N02", "Plots show the values of the line",
    "Every plotted line, bar and label has the position and height of the value of the portfolio line at that time, in the unit on the axis.",
    "inputs configurations", "All values and frequencies.",
    "Tests only check that plotting does not raise.",
    PF + "plot.py portfolyo/core/pfstate/plot.py portfolyo/tools/visualize/__init__.py", [("plotting", PF + "plot.py; " + TL + "visualize/")], ["matplotlib artists"],
    na="The values go straight into matplotlib, which converts to C float buffers and renders; its transforms and artists cannot be executed symbolically, and a stand-in would only show that values are handed over. Not within reach of this technique.")

add("N03", "The text representation shows the right values",
    "The text shown for a portfolio line or state lists each (shown) value, name and unit with correct rounding and alignment.",
    "inputs", "All values.",
    "Tests only check that printing does not raise.",
    "portfolyo/core/pfline/text.py portfolyo/core/pfstate/text.py portfolyo/core/shared/text.py", [("text", "portfolyo/core/pfline/text.py, pfstate/text.py, core/shared/text.py")], ["repr() of line or state"],
    na="The text is made by Python's float formatting ('{:,.2f}'), which is implemented in C on concrete floats; symbolic numbers have no digits, and the string theory of SMT solvers has no decimal rendering of reals.")

add("N04", "Files and clipboard contain what was exported",
    "Writing a line to Excel or clipboard and reading it again returns the same values and local times.",
    "inputs", "All values.",
    "Tests only write a few lines.",
    "portfolyo/core/shared/excelclipboard.py", [("file contents", "pandas to_excel / to_clipboard")], ["the file"],
    na="What is written is decided in pandas' and openpyxl's writers and the xlsx format, outside the repository and on concrete floats. The frame that is handed over is covered by V22.")
