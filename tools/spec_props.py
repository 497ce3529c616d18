NOTE = ('Randomised search, not proof: no counterexample in the generated cases counted in the evidence file. '
        'Trusts the reference model in vf/, the intervalpy/pyduration/arrow libraries, and the documented input preconditions (ascending x). ')

prop('C01', 'Point series evaluate to their interpolation, exactly on their domain',
 '''A series of points evaluates, at every x from its first to its last point, to the value its interpolation mode (linear, previous or next)
 gives over the two neighbouring points: exact at the points themselves, and absent where linear interpolation needs an absent neighbour.
 Outside that closed range it has no value, and its domain is exactly that range, whether or not the points are evenly spaced.''',
 ['inputs'], 'Every ascending list of points (evenly spaced or not, any spacing and start, integer/float/absent values), every interpolation mode, every x.',
 'The tests evaluate a handful of fixed short series at a few x; they cannot cover all spacings, modes, absent values and positions, and no test evaluates an unevenly spaced series between points.',
 ['points.py'], [('index of x by arithmetic (uniform) or bisection', 'points.py:Points.x_index'), ('interpolation', 'points.py:Points.y'), ('spacing test', 'points.py:Points._points_equally_spaced')],
 ['Points.y', 'Points.__call__', 'Points.domain', 'Points.y_start', 'Points.y_end', 'Points.first_point', 'Points.last_point'],
 'property-based testing: generated point series vs an independent interpolation model', NOTE)

prop('C02', 'Editing a point series equals editing its list of points',
 '''After any sequence of set, append, append-list, replace and reset calls, a series of points reports the same points, domain and values as a new series
 built from the list of points those calls describe. An edit that must be rejected (out of order, outside the range, or uneven when even spacing is enforced)
 raises and leaves the series, its values and its ability to notify later changes exactly as before.''',
 ['histories'], 'Every sequence of edits, accepted and rejected, on evenly spaced and unevenly spaced series.',
 'The tests apply one or two edits to one fixed series; only histories expose state left behind by an earlier edit (cached spacing, cached range, unfinished updates).',
 ['points.py', 'curve.py'], [('edit operations', 'points.py:Points.append_list/replace/reset/set'), ('removal range', 'points.py:Points._domain_indexes'), ('update bracket', 'curve.py:Curve.begin_update/end_update')],
 ['Points.sample_points', 'Points.domain', 'Points.y', 'Points.is_updating'],
 'stateful property-based testing: edit histories vs a list model', NOTE,
 [('points', 'the stored points', 'curvepy/points.py:_points'), ('update interval', 'range announced as changing', 'curvepy/curve.py:_begin_update_interval')])

prop('C03', 'Stepping visits each point of a curve once, in order, and never leaves it',
 '''Asking a point-based curve for its next (previous) x after some x returns the nearest point lying at least the minimum step away in that direction, and nothing when no such point exists.
 Repeated stepping from one end therefore visits the points in strict order to the other end; curves derived by mapping, accumulating, offsetting or combining step through
 the corresponding (same, shifted, or merged) points inside their own domain, by no less than a minimum step of their own where they are given one (closed ends of a curve put together from ranges count as points), and the returned neighbour point carries the curve's own value.''',
 ['inputs'], 'Every point series, start position, minimum step and derivation.',
 'Tests step from a few integer positions; skipping or repeating a point appears only for particular spacings, start positions and minimum steps.',
 ['points.py', 'curve.py', 'map.py', 'offset.py', 'aggregate.py', 'quotes.py'], [('stepping', 'points.py:Points.x_next/x_previous'), ('merging of steps', 'aggregate.py:min_or_none/max_or_none'), ('neighbour points', 'curve.py:Curve.next_point/previous_point')],
 ['x_next', 'x_previous', 'next_point', 'previous_point', 'sample_points_from_x'],
 'property-based testing: stepping vs a sorted-list model', NOTE)

prop('C04', 'Sampling returns exactly the points asked for',
 '''Sampling a curve over a finite range returns points in strictly ascending x, inside both the range and the curve's domain (an open end is excluded), each carrying the curve's own value.
 Without a fixed step it contains every point of a point-based curve in the range that a walk with the minimum step visits, plus closed range ends (for derived curves, or where the walk ends short of them); with a fixed step it contains exactly the evenly spaced positions from the start.
 The reported value range spans exactly the smallest and largest sampled value, and an unbounded range is refused.''',
 ['inputs'], 'Every curve, range with any open/closed ends, minimum step and step.',
 'Tests sample a few fixed curves on closed integer ranges; open ends, ranges between points, fractional steps and minimum steps coarser than the spacing are not sampled.',
 ['curve.py', 'points.py', 'scan.py', 'quotes.py'], [('generic sampling', 'curve.py:Curve.sample_points'), ('point sampling', 'points.py:Points.sample_points'), ('value range', 'curve.py:Curve.get_range')],
 ['sample_points', 'get_range'],
 'property-based testing: sampling vs a model of requested positions', NOTE)

prop('C05', 'Every change is announced before and after it, over an interval that covers it',
 '''For every completed change of a curve, each subscriber to it or to a curve derived from it gets its begin callback before its end callback, and exactly one end once the change is over however many paths lead from the source to the curve.
 Every x at which a value of the observed curve differs before and after lies inside the interval passed to those callbacks; in the first begin callback the curve still answers with its old values, in the end callback with its new ones.
 A subscriber restricted to a range is notified if and only if the announced interval meets that range, and no curve remains marked as updating once the change is over.''',
 ['histories'], 'Every sequence of edits of source curves, subscriber set (with and without ranges) and chain of derivations.',
 'Tests check a handful of announcements for single appends; coverage of the announced interval needs all kinds of edits and derivations compared before and after.',
 ['curve.py', 'points.py', 'scan.py', 'offset.py', 'map.py', 'aggregate.py', 'extension/extension.py', 'line.py', 'constant.py', 'sin.py'],
 [('begin/end bracket', 'curve.py:Curve.begin_update/end_update'), ('widening to the future', 'scan.py:Scan._update_interval'), ('shifting', 'offset.py:Offset._offset_interval')],
 ['add_observer callbacks', 'is_updating', 'update_interval'],
 'stateful property-based testing: before/after snapshots vs announced intervals', NOTE)

prop('C06', 'Derived curves are never stale',
 '''After any interleaving of edits to source curves and reads of curves derived from them, every derived curve reports the same domain and, at every x, the same value
 as the same derivation built afresh over the current source data.''',
 ['histories'], 'Every derivation graph (arithmetic, map, offset, integral, SMA, EMA, SMMA, trailing min/max, extremas, extensions, piecewise, quotes components, subset) and every interleaving of edits and reads.',
 'Cached scans, accumulated points, domains and extension parameters go stale only for particular orders of read and edit; tests try one or two orders per class.',
 ['scan.py', 'accumulator.py', 'accumulator_map.py', 'integral.py', 'sma.py', 'ema.py', 'extremas.py', 'aggregate.py', 'map.py', 'offset.py', 'piecewise.py', 'generic.py', 'extension/extension.py', 'quotes.py', 'curve.py'],
 [('scan invalidation', 'scan.py:Scan.begin_scan_update'), ('accumulated points reset', 'accumulator.py:Accumulator.begin_update'), ('domain invalidation', 'curve.py:Curve.set_needs_interval_update'), ('extension invalidation', 'extension/extension.py:Extension.end_extension_update')],
 ['y', 'domain', 'sample_points'],
 'stateful differential property-based testing: live derivation vs fresh derivation', NOTE)

prop('C07', 'Arithmetic on curves is pointwise arithmetic on their values',
 '''Sums, differences, products, quotients, powers and logarithms of curves and numbers (operators, reflected operators, named and many-operand forms, with nesting) have, at every x where all operands have a value, the value of
 that arithmetic applied left to right to the operands' values, with division by zero giving infinity of the numerator's sign.
 They have no value where any operand has none, and their domain is the intersection of the operands' domains; operands, and lists of them handed over, are never altered.''',
 ['programs', 'inputs'], 'Every expression tree over point series, lines, constants, numbers, and every x.',
 'Tests evaluate one expression per operator on two curves; operand order in nested and reflected forms, absent values and partial overlap of domains are not covered.',
 ['curve.py', 'aggregate.py', 'map.py', 'constant.py'], [('operators', 'curve.py:Curve.__add__ and the like'), ('many-operand forms', 'curve.py:Curve.add_many and the like'), ('domain', 'aggregate.py:Aggregate.get_domain')],
 ['operators', 'y', 'domain'],
 'property-based testing: random expression trees vs direct evaluation', NOTE)

prop('C08', 'Minimum, maximum and first-available of several curves are pointwise',
 '''The minimum (maximum) of several curves has at every x the smallest (largest) of their values, over the intersection of their domains (absent values there are ignored), or over their union ignoring curves without a value when asked to ignore empties.
 The first-available combination has, over the union of the domains, the value of the earliest listed curve that has one.
 An aggregate without a transform lists its operands' values in order, and a default is used exactly outside the domain.''',
 ['inputs'], 'Every list of curves, with partial overlap and absent values, and every x.',
 'Tests use two or three lines or short series with full overlap; order of operands, gaps and absent values are not covered.',
 ['curve.py', 'aggregate.py'], [('min/max/first', 'curve.py:Curve.min/max/first'), ('union and intersection domains', 'aggregate.py:Aggregate.get_domain')],
 ['Curve.min', 'Curve.max', 'Curve.first', 'Aggregate.y', 'domain'],
 'property-based testing: random operand lists vs pointwise model', NOTE)

prop('C09', 'Mapped curves and slopes follow from the values of the source curve',
 '''A mapped curve has at every x the map of the source value (with x when the map takes two arguments; absent values are passed through untouched when told to skip them), over the source domain; negation, absolute value and inverse are such maps.
 The slope of a point-based curve at a point is the slope of the segment to the neighbouring point on the requested side, absent where there is no such neighbour or value, and the differential is the curve of those slopes.''',
 ['inputs'], 'Every point series, map and x.',
 'Tests map one short series and differentiate one parabola; side selection and absent values are not covered.',
 ['map.py', 'curve.py'], [('map', 'map.py:Map.y'), ('slope', 'curve.py:Curve.d_y'), ('differential', 'curve.py:Curve.differential')],
 ['map', 'abs', '-curve', 'd_y', 'differential', 'y', 'domain'],
 'property-based testing: vs direct evaluation', NOTE)

prop('C10', 'An offset curve is the source shifted along x',
 '''A curve offset by d has at every x the source value and slope at x - d, over the source domain shifted by d, and steps through the shifted points, taking a limit on a step or slope as a position of its own; offsetting by d and then -d gives the source back.
 Offset by a whole number of calendar durations, it has at the boundary n durations after a boundary the source value of that boundary, including for months of unequal length, by no duration at all it is the source itself, and values at boundaries are joined by straight lines in between.''',
 ['inputs'], 'Every point series, offset amount, calendar duration and x.',
 'Tests use one line, one integer offset and a couple of days or months.',
 ['offset.py'], [('shift', 'offset.py:Offset._offset_x/_unoffset_x'), ('interpolated evaluation', 'offset.py:Offset._interpolated_func')],
 ['offset', 'y', 'd_y', 'domain', 'x_next', 'x_previous'],
 'property-based testing: shift relation and calendar model', NOTE)

prop('C11', 'The integral of a point series is its accumulated area',
 '''The integral of a point series has at each point the constant plus the area accumulated from the first point: trapezoids under linear, left value under previous, right value under next interpolation, and varies linearly between points.
 An interval adjoining an absent value adds nothing, the integral is absent before the first present value, and its domain equals that of the source. With a minimum step of its own it accumulates over, and is joined by, the points a walk from the start with that step meets.''',
 ['inputs'], 'Every point series (evenly spaced or not, with absent values), constant, interpolation and x, read in any order.',
 'Tests integrate a constant and a line over integers; large start positions, uneven spacing, absent values and read order are not covered.',
 ['integral.py', 'accumulator.py', 'scan.py', 'line.py', 'points.py'], [('accumulated area', 'integral.py:Integral._integral_scan'), ('area of a segment', 'line.py:Line.partial_integration')],
 ['integral', 'y', 'domain', 'sample_points'],
 'property-based testing: vs exact rational accumulation', NOTE)

prop('C12', 'A simple moving average is the mean over its window',
 '''The simple moving average over n points (or over a period) has, at each point with a full window, the time-weighted mean of the linearly interpolated curve over the window that ends there, and over one point equals the curve itself.
 A window of a period p is full from the last point lying less than p after the first point on; windows of n points reach back n-1 points.
 Its domain starts at the first point with a full window and ends with the source; between points it varies linearly; it never leaves the range of the values in its window, and it does not depend on values after x or before the window. With a minimum step of its own its points, and those its degree counts, are the ones a walk with that step meets.''',
 ['inputs'], 'Every point series, degree or period, and x.',
 'Tests compare a handful of values for degrees 2 to 4 on one integer grid.',
 ['sma.py', 'integral.py', 'accumulator.py', 'scan.py'], [('window', 'sma.py:SMA._sma_start/_sma_end'), ('domain', 'sma.py:SMA.get_domain'), ('mean', 'sma.py:SMA.y')],
 ['sma', 'y', 'domain', 'sample_points'],
 'property-based testing: vs exact window means', NOTE)

prop('C13', 'Exponential and smoothed moving averages follow their recurrence',
 '''An exponential moving average equals the first value (or the given initial curve) at its first point and at each later point moves from its previous value towards the new value by the fraction alpha, or by elapsed time over period when a period is given; absent values leave it unchanged.
 It varies linearly between points, has the source's domain, and at any x does not depend on later values; the smoothed moving average of degree n is the one with fraction 1/n started by the simple average of degree n. With a minimum step of its own it moves only at the points a walk with that step meets.''',
 ['inputs'], 'Every point series, fraction or period, initial curve and x, read in any order.',
 'Tests compare a few values for one fraction on one grid.',
 ['ema.py', 'accumulator.py', 'scan.py', 'sma.py', 'curve.py'], [('recurrence', 'ema.py:EMA._ema_scan'), ('smma', 'curve.py:Curve.smma')],
 ['ema', 'smma', 'y', 'domain', 'sample_points'],
 'property-based testing: vs the recurrence on the point list', NOTE)

prop('C14', 'Trailing windows summarise exactly the points in the window',
 '''A trailing minimum, maximum or custom summary over n points has at each point the summary of the values of that point and up to n-1 points before it; over a period p, that of the points from p before it up to it.
 Values are passed newest first. Windows are shorter only at the start; between points the given interpolation applies, and the domain is the source's. A general accumulator applies its function once per point in ascending order with the previously accumulated value. With a minimum step of its own the points are those a walk with that step meets.''',
 ['inputs'], 'Every point series, degree or period, summary and interpolation, read in any order.',
 'Tests compare degrees 2 and 3 on one short series.',
 ['accumulator_map.py', 'accumulator.py', 'scan.py', 'curve.py'], [('window', 'accumulator_map.py:AccumulatorMap._accumulator_map_scan'), ('accumulation', 'accumulator.py:Accumulator._accumulate')],
 ['trailing_min', 'trailing_max', 'accumulator_map', 'Accumulator', 'y'],
 'property-based testing: vs list windows', NOTE)

prop('C15', 'Extremas are the turning points relative to the reference curve',
 '''The extremas of a curve relative to a reference are, for each maximal run of points lying on one side of the reference by more than the minimum deviation (ignoring the others), the largest (above) or smallest (below) point of that run, confirmed once the opposite side is reached.
 They alternate sides, lie on the curve, and between the first and last confirmed extrema the extrema curve joins them with straight lines; elsewhere it has no value.
Once all are confirmed, stepping through the extrema curve visits each of them once.''',
 ['inputs'], 'Every point series, reference curve and deviation, read in any order.',
 'Tests use one sine wave; ties, runs inside the deviation and read order are not covered.',
 ['extremas.py', 'scan.py'], [('phase tracking', 'extremas.py:Extremas._extrema_scan'), ('joining lines', 'extremas.py:Extremas.scanned_y')],
 ['Extremas.y', 'Extremas.sample_points', 'Extremas.extremas'],
 'property-based testing: vs a run-based reference algorithm', NOTE)

prop('C16', 'Extensions continue the ends of a curve and leave its inside untouched',
 '''An extended curve equals the source everywhere inside the source domain. Beyond an extended end, a constant extension keeps the end value, a tangent extension follows the line through the end point with the slope of the end segment (or the regression line of the last points or period), and a sine extension
 is a sine wave of the given period meeting the end value with the end slope; an end not asked for, or without end itself, is not extended.
Stepping goes on beyond an extended end at the spacing of its last segment (of its last points at least the asked minimum step apart), and a strict extension (raise_on_empty) is refused exactly while an asked-for end cannot be extended, whatever edits came before.''',
 ['inputs', 'configurations'], 'Every point series, extension kind, ends, regression window and x.',
 'Tests extend two or three lines and series.',
 ['extension/extension.py', 'extension/constant.py', 'extension/tangent.py', 'extension/sin.py', 'curve.py'], [('extension parameters', 'extension/*.py:update_extension'), ('range', 'extension/extension.py:Extension._update_extension_interval')],
 ['extension', 'y', 'domain'],
 'property-based testing: vs closed forms of the continuation', NOTE)

prop('C17', 'Piecewise and blended curves select and mix by position',
 '''A piecewise curve has in each of its sub-ranges (open and closed ends respected) the value of that sub-range's curve and no value in gaps; its domain spans them, and stepping gives the nearest point of the curve in charge there.
 A blend equals the first curve before the blend range, the second after it, and the linear mix of both inside.''',
 ['inputs', 'configurations'], 'Every list of curves and ascending ranges, and every x.',
 'Tests use two lines; stepping tests are disabled in the repository.',
 ['piecewise.py', 'curve.py', 'aggregate.py'], [('selection', 'piecewise.py:Piecewise.y'), ('stepping', 'piecewise.py:Piecewise.x_next/x_previous'), ('mix', 'curve.py:Curve.blend')],
 ['Piecewise.y', 'domain', 'x_next', 'x_previous', 'blend'],
 'property-based testing: vs range lookup model', NOTE)

prop('C18', 'A JSON description means the curve or value it spells out',
 '''Parsing a JSON description yields the curve obtained by carrying out the described functions by hand: lists and literals are kept, date strings become epoch seconds, logarithmic decorators take logarithms of the number literals among positional arguments (also inside lists) and raise the result back, a named argument that is a literal is taken as written, chained and nested functions apply in order to the curve so far, and named plus positional arguments reach the function.
 A description with an unknown function, stray siblings of a decorator or keys after a function is rejected, and parsing alters neither the description nor other parses.''',
 ['programs'], 'Every description generated from the documented grammar, nested to any depth.',
 'Tests parse about a dozen fixed descriptions, each exercising one feature in isolation.',
 ['curve.py'], [('interpreter', 'curve.py:Curve.parse_descriptor')],
 ['Curve.parse', 'Curve.parse_descriptor'],
 'grammar-based property-based testing: vs an independent interpreter', NOTE)

prop('C19', 'Quotes expose their bars faithfully',
 '''Quotes hold at every time the bar of the latest timestamp at or before it, over the range from first to last timestamp; open, high, low, close, volume and the high-low midpoint are the components of that bar at every time, also after more bars are set or appended singly or in lists.
 A custom encoder is applied exactly once to each input bar, sampling a range returns the bars whose timestamp falls in the duration-aligned span of that range, or with a fixed step those held at each step along it, and the reported value range is lowest low to highest high of them.''',
 ['inputs', 'histories'], 'Every duration, bar list, encoder, and sequence of set and append.',
 'Tests use a couple of daily bars without appends of encoded data.',
 ['quotes.py', 'points.py', 'map.py'], [('components', 'quotes.py:Quotes.open and the like'), ('encoding', 'quotes.py:Quotes.encode_one/encode_many'), ('sampling', 'quotes.py:Quotes.sample_points')],
 ['Quotes.y', 'Quotes.open/high/low/close/volume/hl2', 'Quotes.sample_points', 'Quotes.append', 'Quotes.append_list', 'Quotes.set', 'Quotes.domain'],
 'stateful property-based testing: vs a bar list model', NOTE)

prop('C20', 'A line is the line it was given',
 '''A line built or reset from constant and slope, from a point and a slope, or from two points (named or as a list) has at every x the value of that line, passes through the given points, reports that slope, inverts values back to positions, and its integral between two positions is the exact area.
 Incomplete descriptions are rejected, and resetting it announces a change exactly when the line differs.''',
 ['inputs'], 'Every constant, slope, point pair and x.',
 'Tests use a few integer lines.',
 ['line.py'], [('construction', 'line.py:Line.set'), ('evaluation', 'line.py:Line.y/x/partial_integration')],
 ['Line.y', 'Line.x', 'Line.d_y', 'Line.const', 'Line.partial_integration', 'Line.set'],
 'property-based testing: vs exact rational lines', NOTE)

prop('C21', 'A sine curve has the given amplitude, period and phase, and its slope',
 '''A sine curve built or reset with an amplitude, a period or frequency, and a phase (as an angle or a position) has at every x the value of that sine wave, repeats with its period, reports the matching period and frequency, and its slope is the derivative of its value.
 Incomplete descriptions are rejected.''',
 ['inputs'], 'Every amplitude, period or frequency, phase and x.',
 'Tests evaluate one sine at quarter periods and never its slope at another period than two pi.',
 ['sin.py'], [('evaluation', 'sin.py:Sin.y/d_y'), ('parameters', 'sin.py:Sin.set')],
 ['Sin.y', 'Sin.d_y', 'Sin.period', 'Sin.frequency'],
 'property-based testing: vs closed form and numeric derivative', NOTE)

prop('C22', 'Minimising and maximising stop at a true local extremum',
 '''Minimising (maximising) a point series from one of its points returns the x of a local minimum (maximum) reached by moving downhill (uphill) only, never a worse value than the start, and never moves past an extremum it meets; maximising equals minimising the negated curve.
 On a single-valley (single-hill) series with its extremum inside, it returns that extremum from any starting point, and it always ends within the iteration limit. Where the way down (up) leads to an end of the series or an absent value there is no result.''',
 ['inputs'], 'Every point series without flat steps and every starting point.',
 'Tests minimise one parabola from two starts.',
 ['curve.py'], [('descent', 'curve.py:Curve.minimise/maximise')],
 ['minimise', 'maximise'],
 'property-based testing: vs discrete descent validity predicate', NOTE)

prop('C23', 'Regression is the least-squares line of the sampled points',
 '''The regression of a curve over a range is the straight line with the smallest sum of squared differences to its sampled points: exact for two points or collinear points, unaffected by points outside the range, and shifted or scaled along with the values.
 It is absent when fewer than two points are sampled or any sampled value is absent.''',
 ['inputs'], 'Every point series and range.',
 'Tests fit two collinear sets.',
 ['curve.py', 'line.py'], [('least squares', 'curve.py:Curve.regression')],
 ['regression'],
 'property-based testing: vs exact rational least squares', NOTE)

prop('C24', 'Reading a curve never changes what it answers',
 '''The answers of a curve (values, domain, samples, steps, slopes) depend only on its definition and the current source data: any set of reads, in any order, repeated or not, gives each read the same answer as on a freshly built curve, and notifies no subscriber (the steps and the description of an extremas curve, which list the points confirmed so far, are not covered).''',
 ['histories'], 'Every curve of every kind and every order of reads.',
 'Tests read mostly once and in ascending order; lazily advanced scans give order-dependent answers only for particular read orders.',
 ['scan.py', 'accumulator.py', 'integral.py', 'sma.py', 'ema.py', 'extremas.py', 'extension/extension.py', 'curve.py'],
 [('lazy scan', 'scan.py:Scan.scan'), ('lazy domain', 'curve.py:Curve.domain'), ('lazy extension', 'extension/extension.py:Extension._update_extension_if_needed')],
 ['y', 'domain', 'sample_points', 'x_next', 'x_previous', 'd_y'],
 'differential property-based testing: shuffled reads vs single reads on fresh curves', NOTE)

prop('C25', 'Composite indicators equal the combination that defines them',
 '''The relative strength index at each point is 100 - 100/(1 + U/D) with U and D the exponential averages (fraction 1/degree) of upward and downward slopes, and lies in [0, 100]; the awesome oscillator is the 5-point minus the 34-point average of bar midpoints; the alligator lines are the 13/8/5-point averages of midpoints shifted 8/5/3 durations ahead.
 Trailing high (low) is the largest high (smallest low) of the window; the golden-ratio families of averages list the documented degrees in order.''',
 ['inputs'], 'Every price series, degree and duration.',
 'Tests compute one or two of them on one series and compare few values.',
 ['curve.py', 'quotes.py', 'sma.py', 'ema.py', 'offset.py', 'const.py'], [('rsi', 'curve.py:Curve.rsi'), ('ao, alligator, trailing high/low', 'quotes.py:Quotes'), ('families', 'curve.py:Curve.harmonic_smas/centered_macs')],
 ['rsi', 'ao', 'alligator', 'trailing_high', 'trailing_low', 'harmonic_smas', 'centered_macs'],
 'property-based testing: vs formulas on the bar list', NOTE)

prop('C26', 'Anything curve-like is accepted as the curve it denotes',
 '''Wherever a curve is expected, a curve is used as is, a number becomes the constant curve of that value, a function becomes a curve of that function over all x, a list of pairs becomes a point series and a mapping is parsed as a description; anything else is rejected.
 Constant, empty and function curves answer over exactly their domain: a constant has slope zero, a function curve calls its function exactly inside its domain, an empty curve never has a value, and a subset is the source restricted to a range.''',
 ['inputs'], 'Every accepted and rejected kind of input, and every x.',
 'Tests parse one example per kind.',
 ['curve.py', 'constant.py', 'empty.py', 'generic.py'], [('coercion', 'curve.py:Curve.parse'), ('leaf curves', 'generic.py, constant.py, empty.py')],
 ['Curve.parse', 'Constant', 'Generic', 'Empty', 'subset'],
 'property-based testing: generated inputs of every kind vs direct meaning', NOTE)

prop('C27', 'Subscriptions start, stop and filter exactly as asked',
 '''A subscriber is called for every change made while it is subscribed and for none before or after, whether it is unsubscribed by token or by object, is dropped with its owning object, or (un)subscribes itself or others while being notified; removing unknown subscriptions changes nothing. A subscriber limited to a range is called when any part of a change that reaches the curve along several paths meets it.
 Callbacks receive the changed interval exactly when they take an argument, and subscribers asked to have priority are called first.''',
 ['histories'], 'Every sequence of subscribe, unsubscribe, drop and change, including (un)subscription from within callbacks.',
 'Tests subscribe one or two observers and remove them outside of callbacks.',
 ['curve.py', 'util.py'], [('registry', 'curve.py:Curve.add_observer/remove_observer'), ('dispatch', 'curve.py:Curve.begin_update/end_update'), ('arity', 'util.py:count_positional_args')],
 ['add_observer', 'remove_observer', 'callbacks'],
 'stateful property-based testing: vs a subscription model', NOTE)

prop('C28', 'Impossible requests are refused and leave no trace',
 '''A request which cannot be met (windows or degrees below one, periods not above zero, functions of the wrong arity, operands or initial values that are no curves, unknown interpolations, extensions or durations, fractional calendar offsets,
 lines or sines missing a parameter, mismatched pieces, contradictory regression options, sampling without end, edits out of order, out of range or of uneven spacing, subscriptions without a callable or owner) raises when made or first read, instead of giving a curve with some values.
 The curve it was made of keeps its points, values and derived curves, notifies nobody because of it, and announces later changes exactly once.''',
 ['inputs', 'histories'], 'Every kind of impossible request and parameter, on every series, alone or in sequence, followed by changes.',
 'Tests assert a single refusal or two; an accepted nonsense parameter gives plausible numbers, and a trace left by a refused request shows only in later notifications.',
 ['curve.py', 'accumulator.py', 'sma.py', 'extension/extension.py', 'piecewise.py', 'line.py', 'sin.py', 'offset.py', 'util.py'],
 [('accumulator windows', 'accumulator.py:Accumulator.__init__'), ('operand parsing', 'curve.py:Curve.parse'), ('arity', 'util.py:count_positional_args'), ('extension parameters', 'extension/tangent.py')],
 ['map', 'accumulator_map', 'sma', 'extension', 'add_observer', 'operators'],
 'stateful property-based testing: generated impossible requests vs refusal and unchanged behaviour', NOTE)

prop('C29', 'Trend lines are found, fitted and kept as the points say',
 '''Every line a trend reports runs through at least the asked number of points of the series, over at least the asked width and keeping the asked distance, is their least-squares line from the first to the last of them, looks ahead from its first point for the asked
 multiple of its width, and is told by upper, lower and y at exactly the positions it looks at; its touches, crossings and extremes are those of the series where it looks. A trend always answers. A series that returns to a straight line from one side has that line reported, with the stages of the predicted break (crossed, returned, confirmed, fulfilled or failed) as they follow from the points. The lines of a mirrored or rescaled series are the mirrored or rescaled lines, and those of a mapped, shifted or coarser stepped curve are those of the points it steps through. A copy of a line tells what the line tells. After any edits and reads the lines are those of a trend built afresh.''',
 ['inputs', 'histories'], 'Every series, parameters and edits; compared once the trend was read at the last point of the series. Series with values on both sides of zero (or at zero) under a relative tolerance: points, fit, widths, reach and termination only.',
 'The test file of trends is commented out entirely; and the incremental scan meets every order of points, edits and reads, of which examples cover a few.',
 ['trend.py', 'scan.py'], [('incremental scan of points', 'trend.py:Trend._trend_scan'), ('candidate lines', 'trend.py:TrendLine.set_trend_with_boundary_points'), ('crossings and touches', 'trend.py:TrendLine.update_points_of_interest'), ('prediction', 'trend.py:TrendLine.update_prediction'), ('stale state', 'trend.py:Trend.begin_update/reset_scan')],
 ['Trend.upper', 'Trend.lower', 'Trend.y', 'Trend.lines', 'TrendLine'],
 'property-based testing: structural invariants, constructed trends vs a reference model, mirror and scale relations, histories vs fresh trends', NOTE)
