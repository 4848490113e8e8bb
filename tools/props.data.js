module.exports = P => {
const SCHED = 'The tests await one fixed completion order with real timers; ';
const SAMP = 'The tests sample a handful of literals; ';

// ---------------------------------------------------------------- function
P('C01', 'Parallel runner: bounded concurrency, one run per task, results by index',
  'For every completion order of its tasks, `parallel` starts each task exactly once per attempt, never has more than `concurrency` tasks in flight, never leaves a slot idle while tasks remain, and starts tasks in index order. It resolves only after every task has finished, with each value at its own task index; a task that fails is retried at most `maxRetry` times, and then either `onError` supplies its value or the call rejects with an AggregateError listing every error of that task. onStart/onData/onError/onRetry are called with the right index, once per corresponding event.',
  ['schedules', 'fault_sequences'], 'all completion orders and success/failure answers of 1-4 tasks of every kind (function, async function, promise, plain value), every concurrency 1..n+1, retry counts 0-2, waits, and callback presence',
  SCHED + 'slot accounting, index capture and retry only show under particular interleavings of completions and failures.',
  ['function/src/control/parallel.ts', 'function/src/catch/retry.ts', 'function/src/promise/toPromise.ts'],
  [['shared cursor + worker pool', 'function/src/control/parallel.ts'], ['retry loop', 'function/src/catch/retry.ts']], ['parallel() return value and callbacks']);

P('C02', 'Retry: attempt count, waits, error aggregation and early stop',
  '`retry(n, task)` runs the task until it first succeeds and returns that value, running it at most n+1 times and never concurrently with itself, waiting `retryWait` (a number or a value inside the given range) between attempts and not before the first or after the last. When all attempts fail it rejects with an AggregateError holding every attempt\'s error in order, unless `onError` is given, in which case `onError` is called exactly once with the last error and its value is the result. `onRetry` is called once per failed retry with that error and the retry number, and returning `true` from it stops further attempts.',
  ['fault_sequences', 'schedules'], 'every success/failure sequence up to maxRetry+1 attempts for maxRetry 0-3, every stop point of onRetry, every onError answer, all wait forms, under a virtual clock',
  SCHED + 'attempt accounting depends on the whole failure history and on which callback stops it.',
  ['function/src/catch/retry.ts', 'function/src/delay/delay.ts'], [['attempt counter and wait', 'function/src/catch/retry.ts']], ['retry() result, calls of task and callbacks, virtual clock']);

P('C03', 'Timers: long timeouts fire once at the due time; clearing is final',
  'A timer set with the library\'s `setTimeout` fires exactly once, with its arguments, when its duration has elapsed, for every duration up to the 32-bit limit of the host timer (negative ones count as 0), and clearing it at any earlier moment means it never fires. `timeoutOr` settles with the task\'s outcome if the task settles before the limit and with the fallback otherwise, runs the fallback only when the limit really passed first, and leaves no timer behind in either case. Durations beyond that limit, and values that are no duration, are rejected where documented instead of being treated as some other duration. `nextTick` runs every callback once, never synchronously, in the order given, on every host, also if one of them fails.',
  ['schedules', 'inputs'], 'all orders of settlement/timer expiry/clear under a virtual clock, durations around 0, 1, 2^31-1 and multiples of it, and all outcome kinds of task and fallback',
  SCHED + 'no test can wait 25 days, or place a settlement just before, at and after the expiry.',
  ['function/src/timeout/setTimeout.ts', 'function/src/timeout/timeoutOr.ts', 'function/src/timeout/clearTimeoutAll.ts', 'function/src/timeout/timeoutMsResolve.ts', 'function/src/timeout/timeoutLog.ts', 'function/src/timeout/nextTick.ts'],
  [['chunked long timer', 'function/src/timeout/setTimeout.ts'], ['race with cleanup', 'function/src/timeout/timeoutOr.ts']], ['callbacks seen under a virtual clock', 'pending timers of the virtual host']);

P('C04', 'Batch collector: every promise is delivered in exactly one batch',
  'A collector made by `collectItems` reports done exactly when the configured number of promises (or the explicit done signal) has been reached, with the values in submission order, whatever order the promises settle in and however calls overlap. Without accumulation each collected promise is delivered in exactly one batch and none is lost, including promises submitted while an earlier batch is still pending; with accumulation each batch holds everything collected so far. A collector that does not restart reports done at most once.',
  ['schedules', 'histories'], 'all histories of up to 5 submissions (promise, non-promise, done flag) interleaved in every way with settlement of the submitted promises, all option combinations',
  SCHED + 'they await each submission before the next, so overlapping batches are never exercised.',
  ['function/src/control/collectItems.ts'], [['batch cut', 'function/src/control/collectItems.ts']], ['values returned by the collector']);

P('C05', 'Memoization: one computation per key, never a wrong or failed value',
  'A memoized function returns, for every history of calls, exactly the value the original computed for the same key, computing it once per key until that entry is deleted or the cache is cleared; different keys never share a value. The asynchronous form never runs two computations of the same key at once: overlapping callers share one outcome, and a failed computation is reported to every caller waiting for it and is not cached.',
  ['schedules', 'histories', 'fault_sequences'], 'all histories of up to 5 operations (call with one of several keys including undefined/NaN/-0/objects, delete, clear, has/get/set on the cache) interleaved with all completion orders and failures of the computations',
  SCHED + 'sharing and failure propagation only show when calls overlap; these tests are not even in the runnable baseline.',
  ['function/src/cache/memoizeWith.ts', 'function/src/cache/memoizeWithAsync.ts'], [['result cache', 'function/src/cache/memoizeWith.ts'], ['in-flight queue', 'function/src/cache/memoizeWithAsync.ts']], ['returned values/promises', 'number of executions of the wrapped function']);

P('C06', 'Delays, minimum-duration padding and cancellation keep outcome and timing',
  'Functions that delay or pad work (`delay`, `delayRun`, `delayReturn`, `padding`, and `sleep` without an outcome) deliver exactly the outcome of the wrapped work, no earlier than the requested time and with no extra wait beyond it, whether the work succeeds or fails, before, at or after that time (`padding` reports it as a `[result, error]` pair). `deferred` settles as first told, and `cancelExec` passes through the outcome of work that finishes before cancellation and, once cancelled, resolves at once with the abort payload, running the work at most once with the arguments it was given.',
  ['schedules', 'fault_sequences'], 'every order of work settlement, timer expiry and cancel, success or failure, under a virtual clock, for durations 0-3 and work that is sync, async, a promise or a value',
  SCHED + 'outcomes that arrive exactly at, or after, a deadline or a cancel are not sampled.',
  ['function/src/delay/delay.ts', 'function/src/delay/delayRun.ts', 'function/src/delay/delayReturn.ts', 'process/src/sleep.ts', 'function/src/control/padding.ts', 'function/src/control/deferred.ts', 'function/src/control/cancelExec.ts'],
  [['minimum-duration wait', 'function/src/control/padding.ts'], ['cancel race', 'function/src/control/cancelExec.ts']], ['settlement value and virtual time of settlement']);

P('C07', 'Outcome adapters never lose, invent or swallow a result or an error',
  '`toPromise`, `executeToPromise`, `tryCatch`, `noCatch` and `ifThrow` map every kind of callable or value (sync value, sync throw, promise, rejection, thenable, plain value) to precisely the documented outcome, with arguments passed through unchanged and the callable run exactly once. `select` evaluates its condition once and then exactly one branch.',
  ['inputs', 'fault_sequences'], 'every callable kind x outcome kind (incl. falsy and undefined results/errors) x handler kind x argument list',
  SAMP + 'falsy errors, async handlers and pass-through of arguments multiply beyond what is listed.',
  ['function/src/promise/toPromise.ts', 'function/src/promise/executeToPromise.ts', 'function/src/catch/tryCatch.ts', 'function/src/catch/noCatch.ts', 'function/src/catch/ifThrow.ts', 'function/src/select/select.ts'],
  [['normalisation to promise', 'function/src/promise/toPromise.ts']], ['return value / thrown error / call log']);

P('C08', 'Call-count limiters and toggles obey their counter for every call history',
  '`once`, `runOnlyNTimes` and `runAfterTimes` run the wrapped function on exactly the calls their counter allows (`runAfterTimes` from the call that reaches the count), passing the arguments documented for it, and answer every other call as documented; `toggle` alternates strictly from its initial state; `singletonClass` constructs at most one instance per wrapped class. Separate wrappers never share a counter.',
  ['histories'], 'all call histories up to length 8 over one and two wrappers, all limits 0-4, wrapped functions returning values, undefined, or throwing on any chosen call',
  SAMP + 'counters that slip by one after a throw, or leak between wrappers, need specific histories.',
  ['function/src/limit/once.ts', 'function/src/limit/runOnlyNTimes.ts', 'function/src/limit/runAfterTimes.ts', 'function/src/select/toggle.ts', 'function/src/class/singletonClass.ts'],
  [['closed-over counter', 'function/src/limit/runOnlyNTimes.ts']], ['return values and call log of the wrapped function']);

P('C09', 'Function combinators preserve order, arguments, this and results',
  'Composition, hook, binding and currying helpers call their parts exactly once, in the documented order, with the documented arguments (and, for `bind`, the given `this`), and return the documented result; if a part throws or (where awaited) rejects, later parts do not run and the error reaches the caller. A curried function collects arguments across any split of calls and can be reused without calls influencing each other.',
  ['inputs', 'fault_sequences', 'histories'], 'all chains of up to 4 functions, every throwing position, all splits of up to 4 arguments over calls, reuse of partial applications',
  SAMP + 'a throw in the n-th part and reuse of partial applications are not listed.',
  ['function/src/chain/compose.ts', 'function/src/chain/before.ts', 'function/src/chain/after.ts', 'function/src/chain/withBefore.ts', 'function/src/chain/withAfter.ts', 'function/src/chain/applyBefore.ts', 'function/src/chain/applyAfter.ts', 'function/src/currying.ts', 'function/src/bind.ts'],
  [['pipeline', 'function/src/chain/compose.ts'], ['argument accumulation', 'function/src/currying.ts']], ['call log and return value']);

// ---------------------------------------------------------------- array
P('C10', 'Sequential async iteration: strict order, no overlap, early stop',
  'Array iteration helpers that run callbacks one after another (sync and async, forwards and backwards, each and map) call the callback once per element with value, index and array, in order, never starting a call before the previous one has settled. They stop exactly where documented, a failure stops the iteration and reaches the caller, and mapped results sit at the position documented for their element.',
  ['schedules', 'fault_sequences'], 'arrays of length 0-4 (holes included), every position of stop/failure, callbacks that are sync, async or return promises settled by an explorer',
  SCHED + 'overlap and skipped elements appear only if the callback settles late.',
  ['array/src/each/each.ts', 'array/src/each/eachRight.ts', 'array/src/each/eachAsync.ts', 'array/src/each/eachRightAsync.ts', 'array/src/map/mapAsync.ts', 'array/src/map/mapRight.ts', 'array/src/map/mapRightAsync.ts'],
  [['await in loop', 'array/src/each/eachAsync.ts']], ['callback log and result']);

P('C11', 'Parallel array iteration starts everything and keeps results in place',
  'Parallel each/map helpers start the callback for every element in the documented direction before waiting, resolve only when all callbacks have settled successfully, and place each result according to its element regardless of the order in which callbacks settle. The first failure rejects the whole call with that error. Calls that overlap, or are made inside a callback of another, do not affect each other.',
  ['schedules', 'fault_sequences'], 'arrays of length 0-4, all completion orders and failure subsets of the callbacks',
  SCHED + 'result placement by completion order instead of by element passes when callbacks settle in order.',
  ['array/src/each/eachParallel.ts', 'array/src/each/eachRightParallel.ts', 'array/src/map/mapParallel.ts', 'array/src/map/mapRightParallel.ts'],
  [['Promise.all over started callbacks', 'array/src/map/mapParallel.ts']], ['callback log and result']);

P('C12', 'Array restructuring loses, duplicates and reorders nothing',
  'Splitting an array by step or into chunks and concatenating the parts gives back the original elements in order, with part sizes as requested; `move` yields the same elements with only the requested one repositioned; `range`, `flat`, `uniqueFromPrimitive`, `fromArrayLike`, dimension and length-index helpers agree with their definition. Inputs that are not documented to be changed in place are left untouched, and invalid arguments are rejected.',
  ['inputs'], 'all arrays up to length 6 over a colliding alphabet (duplicates, NaN, -0, holes, nested arrays) x all step/chunk/index arguments around every boundary',
  SAMP + 'boundary sizes, duplicates and out-of-range indices combine beyond the listed cases.',
  ['array/src/splitByStep.ts', 'array/src/splitChunk.ts', 'array/src/move.ts', 'array/src/range.ts', 'array/src/flat.ts', 'array/src/uniqueFromPrimitive.ts', 'array/src/isUnique.ts', 'array/src/fromArrayLike.ts', 'array/src/maxLengthIndex.ts', 'array/src/minLengthIndex.ts', 'array/src/maxRecursionDepth.ts', 'array/src/dimension/dimensionLevel.ts', 'array/src/dimension/isMultiDimensional.ts'],
  [['chunk cursor', 'array/src/splitChunk.ts'], ['splice based move', 'array/src/move.ts']], ['return values, input arrays after the call']);

P('C13', 'Tree building: every row appears once, under its parent, or is an error',
  '`toTree` turns any flat list of rows with id/parent links into a forest in which every row appears exactly once, directly under the row whose id is its parent id, siblings keeping list order, independent of the order in which parents and children are listed and of what the ids are called. Ids compare as property keys; rows with an unknown parent are left out, or reported as an error when `throwIfOrphans` is set. List-to-map/object conversions keep exactly the last/each entry as documented.',
  ['inputs'], 'all lists of up to 4 rows over a small id alphabet (numbers, strings, null, names of Object.prototype members) with every parent assignment and row order, all option combinations',
  SAMP + 'parents listed after children, cycles and ids such as "constructor" are not.',
  ['array/src/convert/toTree.ts', 'array/src/convert/toArray.ts', 'array/src/convert/toObject.ts'],
  [['id index', 'array/src/convert/toTree.ts']], ['returned forest']);

P('C14', 'Sorting helpers return a correctly ordered permutation',
  'Sorting helpers return a permutation of their input in the documented order, deterministically and for any input order, and sorting a sorted result changes nothing; index-sorting returns the permutation that would sort the input. ',
  ['inputs'], 'all lists up to length 5 over an alphabet of words/initials/characters that collide in case, prefix and script',
  SAMP + 'comparator inconsistencies only show for particular triples.',
  ['array/src/sort/sortByEng.ts', 'array/src/sort/sortByEngInitials.ts', 'array/src/sort/sortWords.ts', 'array/src/sort/sortToIndexes.ts'],
  [['comparator', 'array/src/sort/sortByEng.ts']], ['returned arrays']);

P('C15', 'Random helpers stay in range and reach every value, for any random source',
  'For every output of the underlying random source, including its extreme values, the random helpers (integers in a range, secure variants, array picks, shuffle, random characters, colours and booleans) return a value inside the documented set: both bounds of a range are reachable, a shuffle is a permutation in which every element is equally likely at every place, a pick is a member, a colour is a valid hex colour. Nothing outside the requested range is ever returned, and the secure variants draw only from the cryptographic source.',
  ['inputs'], 'every behaviour of the random source over a grid including its minimum, its maximum and all bucket boundaries, for every small range',
  'Tests draw a few hundred real random numbers; extreme draws have probability 2^-53 and never occur.',
  ['number/src/random.ts', 'number/src/randomSafe.ts', 'number/src/range.ts', 'number/src/rangeSafe.ts', 'array/src/random.ts', 'array/src/shuffle.ts', 'string/src/random/randomLower.ts', 'string/src/random/randomUpper.ts', 'string/src/random/randomNumber.ts', 'string/src/random/randomHexColor.ts', 'string/src/random/randomBoolean.ts', 'string/src/random/constants/randomUint8.ts'],
  [['scaling of a draw', 'number/src/range.ts']], ['returned value for a given random source']);

// ---------------------------------------------------------------- number
P('C16', 'Numeric conversions and formatting are exact',
  'Numeric helpers (integer and finite conversion, range test, thousands delimiter, number stringification) return exactly the documented value for every number in their domain, including negatives, fractions, bounds, NaN and infinities; removing the delimiters gives back the original digits, with a delimiter at exactly every group boundary of the integer part.',
  ['inputs'], 'all digit strings up to 8 integer digits and 3 fraction digits over boundary digits, both signs, all special values, all bound orders',
  SAMP + 'group boundaries and sign/fraction combinations are not all listed.',
  ['number/src/toInt.ts', 'number/src/toFiniteNumber.ts', 'number/src/inRange.ts', 'number/src/withDelimiter.ts', 'number/src/stringify.ts'],
  [['grouping', 'number/src/withDelimiter.ts']], ['return values']);

P('C17', 'Chinese capital amounts read back as the same amount',
  'The Chinese capital-numeral text produced for an amount, read by the standard rules, denotes exactly that amount (to the documented precision), with zeros, units, sections and the closing marker placed according to the standard; amounts outside the documented domain are rejected.',
  ['inputs'], 'all amounts whose digits come from {0,1,9}-style boundary digits up to 12 integer and 2 fraction digits, plus all integers and cents below a bound',
  SAMP + 'zero runs across section boundaries are combinatorial.',
  ['number/src/amount/amountInWords.ts'], [['section/zero handling', 'number/src/amount/amountInWords.ts']], ['returned text']);

// ---------------------------------------------------------------- object
P('C18', 'Path access reads exactly the addressed property and runs no code',
  'Converting between property-path strings and key lists round-trips for every list of array indexes and non-empty names free of quotes, brackets, backslashes and edge blanks, and reading a value through a path returns exactly what stepwise property access would return, without evaluating any part of the path as code and without changing its arguments. Missing intermediate values are handled as documented.',
  ['inputs'], 'all key lists up to length 3 over identifiers, digits, empty, quotes, brackets, dots, backslashes and operators; all small objects addressed by them',
  SAMP + 'keys that contain path syntax are not in the listed literals.',
  ['object/src/cascade/cascade.ts', 'object/src/cascade/fromCascadeKeys.ts', 'object/src/cascade/toCascadeKeys.ts', 'object/src/values/getFromPaths.ts'],
  [['path rendering', 'object/src/cascade/fromCascadeKeys.ts'], ['path parsing', 'object/src/cascade/toCascadeKeys.ts']], ['returned values, absence of side effects']);

P('C19', 'Object key/value helpers are exact and leave their inputs alone',
  'Helpers that list, test, sort, lower-case, delete or compare the keys and values of objects cover exactly the own or inherited properties they are documented to cover, keep every value, and change only what they are documented to change; shallow equality is an equivalence relation that agrees with property-wise comparison.',
  ['inputs'], 'all objects with up to 3 properties over string/symbol/numeric/accessor/non-enumerable keys and colliding values, with plain, null and derived prototypes, alone and in pairs',
  SAMP + 'non-enumerable, symbol and inherited properties rarely meet in one case.',
  ['object/src/keys/keys.ts', 'object/src/keys/sortKeys.ts', 'object/src/keys/toLowerCaseKey.ts', 'object/src/keys/isKeysIncludes.ts', 'object/src/values/values.ts', 'object/src/values/isValuesIncludes.ts', 'object/src/deleteAttrs.ts', 'object/src/shallowEqual.ts', 'object/src/toArray.ts', 'object/src/property/getProperty.ts', 'object/src/property/getPropertyGetter.ts', 'object/src/property/isPrototypeProperty.ts', 'object/src/derive.ts', 'object/src/createWithNull.ts', 'object/src/constructor.ts', 'object/src/constructorName.ts', 'object/src/isInstanceOf.ts'],
  [['own-key enumeration', 'object/src/keys/keys.ts']], ['return values, inputs after the call']);

P('C20', 'Object stringification is JSON with ordered keys and safe cycles',
  'The object stringifier resolves to the text JSON.stringify produces for the same value, replacer and spacing; a comparison function changes nothing but the order of keys, at every level. A circular reference is replaced by `[Circular *path]` naming the place it points to, or rejected when cycles are disallowed, while a value that is merely shared is written in full; values JSON cannot represent reject. The argument is never changed.',
  ['inputs'], 'all values up to depth 2 over 17 leaf kinds, keys needing escapes, arrays and objects; every back reference in chains of up to 4 objects; all option combinations',
  SAMP + 'cycles at every depth, sharing and key order combine beyond the listed graphs.',
  ['object/src/stringify.ts'], [['recursive replacer', 'object/src/stringify.ts']], ['resolved text']);

// ---------------------------------------------------------------- cookie
P('C21', 'Cookie strings round-trip: parse inverts create',
  'Parsing a cookie string yields exactly the name/value pairs it contains, in particular the whole value when it contains "=" or encoded characters, and creating a cookie string from pairs and parsing it back yields the same pairs. No pair is lost, merged with a neighbour or attributed to another name.',
  ['inputs'], 'all cookie lists of up to 3 pairs over names and values containing separators, "=", quotes, spaces and percent escapes',
  SAMP + 'values containing "=" and several pairs at once are not.',
  ['cookie/src/cookie/parse.ts', 'cookie/src/cookie/create.ts'], [['pair splitting', 'cookie/src/cookie/parse.ts']], ['parsed object / created string']);

P('C22', 'Set-Cookie headers: split, parse and join lose no cookie or attribute',
  'A combined Set-Cookie header splits into exactly the cookies it was built from, whatever commas their dates contain; each parses into its name, value and attributes, including flag attributes without a value, and joining parsed cookies gives a request cookie string with the same names and values.',
  ['inputs'], 'all headers of up to 3 cookies over every subset/order of attributes (Expires with a comma, Max-Age, Path, Domain, Secure, HttpOnly, SameSite), values with "=" and spacing variants',
  SAMP + 'flag attributes and several cookies with Expires are not combined.',
  ['cookie/src/setCookie/parse.ts', 'cookie/src/setCookie/split.ts', 'cookie/src/setCookie/join.ts'], [['comma-aware split', 'cookie/src/setCookie/split.ts']], ['split/parsed/joined results']);

// ---------------------------------------------------------------- string
P('C23', 'Byte counting and splitting agree with UTF-8 and lose no character',
  'The byte length and byte array computed for a string equal its UTF-8 encoding for every string, including astral characters; splitting a string by a byte limit gives pieces that concatenate to the original, never cut a character and respect the limit whenever each character fits; formatted sizes use the largest unit not exceeding the value.',
  ['inputs'], 'all strings up to length 5 over characters of 1, 2, 3 and 4 bytes, all limits 1-9; all sizes around every unit boundary',
  SAMP + 'boundaries between byte classes at every cut position are not sampled.',
  ['string/src/bytes/bytesLength.ts', 'string/src/bytes/bytesArray.ts', 'string/src/bytes/splitByBytes.ts', 'string/src/bytes/formatBytes.ts', 'string/src/chars/chars.ts', 'string/src/chars/fromChars.ts', 'string/src/character/codePointAt.ts', 'string/src/character/characters.ts'],
  [['UTF-8 length rule', 'string/src/bytes/bytesLength.ts'], ['accumulating splitter', 'string/src/bytes/splitByBytes.ts']], ['return values']);

P('C24', 'Trimming and space removal touch only the documented characters',
  'Trim and space-removal helpers remove exactly the documented characters from the documented side(s): the result is the input with the maximal run of those characters removed there, nothing else is changed, and applying a helper twice equals applying it once. Leading-whitespace measures and space tests agree with the same definition.',
  ['inputs'], 'all strings up to length 5 over an alphabet with a representative of every character class plus ordinary characters; all option combinations; every single BMP code unit',
  SAMP + 'runs mixing classes on both sides are not.',
  ['string/src/trim/trim.ts', 'string/src/trim/trimStart.ts', 'string/src/trim/trimEnd.ts', 'string/src/trim/trimAll.ts', 'string/src/trim/trimRegSource.ts', 'string/src/spaces/rmLikeSpace.ts', 'string/src/spaces/rmControl.ts', 'string/src/spaces/rmZeroWidth.ts', 'string/src/spaces/isSpaceString.ts', 'string/src/spaces/subSpaces.ts', 'string/src/spaces/startSpacesLength.ts', 'string/src/spaces/startTabsLength.ts'],
  [['character class source', 'string/src/trim/trimRegSource.ts']], ['return values']);

P('C25', 'HTML entity coding round-trips and never double-decodes',
  'Decoding the encoded form of any string gives the string back, decoding replaces each entity (named or decimal, as listed in the table of entities) by exactly the character it denotes in a single pass, and text that is not an entity is left unchanged.',
  ['inputs'], 'every character in the entity table, all strings up to length 4 over &, #, ;, x, digits, letters and special characters, all compositions of entities',
  SAMP + 'entities produced by decoding another entity are not sampled.',
  ['string/src/character/htmlEntities.ts'], [['entity tables', 'string/src/character/constants/htmlEntities.ts']], ['return values']);

P('C26', 'Quote, bracket and segment matching agree with a scanner',
  'Helpers that test whether quotes are closed, find quote or bracket pairs, match text in order, split text by matches, or rewrite text inside/outside of pairs agree with a straightforward left-to-right scanner for every input; concatenating the pieces they report gives back the input.',
  ['inputs'], 'all strings up to length 7 over quotes, brackets, backslash and ordinary characters',
  SAMP + 'escapes and interleaved quotes are combinatorial.',
  ['string/src/quote/quoteClosed.ts', 'string/src/quote/quotePair.ts', 'string/src/match/matchOrder.ts', 'string/src/match/matchSplit.ts', 'string/src/inside/bindInside.ts', 'string/src/inside/bindOutside.ts'],
  [['scanner state', 'string/src/quote/quoteClosed.ts']], ['return values']);

P('C27', 'Substring search and replacement helpers return the exact slice',
  'Helpers that test for or strip a prefix, search in front of or behind a position, find the first and last non-blank character, replace several patterns in turn, convert text to a regular expression, parse JSON or split sentences return exactly the documented slice for every text, marker and position: regular-expression metacharacters in plain-text arguments match only themselves (with every flag), and case folding never changes which slice is returned. The sentences of a text, in order, are the text itself without the blanks between them, split after every sentence terminator that is outside brackets and quotes and not part of an abbreviation.',
  ['inputs'], 'all texts up to length 5 and markers up to length 2 over letters in both cases, metacharacters and spaces; all options',
  SAMP + 'markers with metacharacters and overlapping occurrences are not listed.',
  ['string/src/find/frontOf.ts', 'string/src/find/behindOf.ts', 'string/src/starts/notStarts.ts', 'string/src/starts/startsSlice.ts', 'string/src/words/word.ts', 'string/src/words/wordStart.ts', 'string/src/words/wordEnd.ts', 'string/src/multiReplace.ts', 'string/src/regexp/toRegExp.ts', 'string/src/regexp/toRegExpSource.ts', 'string/src/sentences/toSentences.ts', 'string/src/parseJson.ts'],
  [['index search', 'string/src/find/frontOf.ts'], ['escaping', 'string/src/regexp/toRegExpSource.ts']], ['return values']);

P('C28', 'Text correction is stable and never damages the text it keeps',
  'The text corrector only inserts, removes or converts blanks and punctuation (and full-width characters to half-width ones, unless this is turned off): the sequence of letters, digits and ideographs of every line is unchanged and lines stay lines. Correcting an already corrected text of letters, digits, ideographs, blanks and sentence punctuation changes nothing. Between an ideograph and a letter or digit there is exactly one blank, none is added next to Chinese punctuation, and Latin punctuation between ideographs becomes Chinese punctuation.',
  ['inputs'], 'all texts up to length 5 over CJK, Latin, digits, half/full-width punctuation, spaces and line breaks; every option set',
  SAMP + 'interactions of several correction rules are not.',
  ['string/src/corrector/basic/general.ts', 'string/src/corrector/basic/fullWith.ts', 'string/src/corrector/basic/revise.ts', 'string/src/corrector/plugins/fullSpace.ts', 'string/src/corrector/plugins/fullStop.ts', 'string/src/corrector/plugins/middleDot.ts'],
  [['rule pipeline', 'string/src/corrector/basic/general.ts']], ['corrected text']);

// ---------------------------------------------------------------- fs
P('C29', 'Deleting and clearing remove exactly the named tree and follow no link',
  'Deleting a path removes that file, link (also a dangling one) or directory tree completely, and clearing a directory removes all of its content and keeps the directory; nothing outside the named tree is ever removed or changed, in particular not what a symbolic link inside it points to. A path that does not exist, or is not a directory for clearing, is an error and changes nothing. A failing file-system call surfaces as an error instead of a false success.',
  ['inputs', 'fault_sequences'], 'all directory trees up to 4 nodes over files, directories and links (to files, to directories, dangling, outside), and every single failing file-system call',
  'There are no runnable tests of this package; links and failures in the middle of a walk are combinatorial.',
  ['fs/src/deleteOne.ts', 'fs/src/clearDir.ts'], [['tree walk', 'fs/src/clearDir.ts']], ['file system contents before and after']);

P('C30', 'Copying reproduces the source exactly and never harms it',
  'Copying a file, link or directory produces a destination with the same tree, contents and link targets (links are copied as links) next to what the destination already holds, and leaves the source untouched; with forcibly set to false nothing that exists at the destination is replaced, at any depth. Copying a directory into itself is an error. If any file-system call fails on the way, the source is still intact, and a reported success means the copy is complete; copying a single file into place by default replaces a destination that cannot be overwritten.',
  ['inputs', 'fault_sequences'], 'all source trees up to 4 nodes with links, all small destination pre-states, both overwrite settings, and every single failing file-system call',
  'There are no runnable tests of this package; failure in the middle of a copy is never exercised.',
  ['fs/src/copy.ts', 'fs/src/copyFile.ts', 'fs/src/copySymbolicLink.ts', 'fs/src/symbolicLink.ts', 'fs/src/destPath.ts'], [['recursive copy', 'fs/src/copy.ts'], ['failure clean-up', 'fs/src/copyFile.ts']], ['file system contents before and after, promise outcome']);

P('C31', 'Line readers return the same lines however the data is chunked',
  'Reading a text line by line yields exactly the pieces of the text between line terminators (CR, LF, CRLF; for code also LS, PS and NEL); the callback sees each line once, in order, and the last one marked as done. The result is the same for a string and for a buffer in any encoding; the stream reader yields the same lines (without an empty one after a final terminator) however the bytes are cut into chunks and delayed, an empty list for an empty file, and reports a failing read as a rejection. Reading a fragment yields exactly the addressed bytes, or their first line; a byte-order mark is removed only at the very beginning.',
  ['inputs', 'schedules'], 'all texts up to length 6 over letters, CR, LF, BOM and multi-byte characters, all chunkings of them',
  'There are no runnable tests of this package; chunk boundaries inside CRLF or a multi-byte character never occur in small files.',
  ['fs/src/readline.ts', 'fs/src/readlineFromCode.ts', 'fs/src/readlineStream.ts', 'fs/src/stripBOM.ts', 'fs/src/readFragment.ts'], [['line assembly', 'fs/src/readline.ts']], ['lines seen by the callback']);

P('C32', 'File comparison, reading, writing and listing tell the truth',
  'Comparing two files reports equal exactly when both can be read and their bytes are equal, and closes them; what is written (text, bytes, or a value as JSON) is what is read back, and missing directories are created unless this is turned off; directory listings and searches report exactly the matching entries of the tree, each once; directory creation makes the whole path usable by its owner and keeps what exists; type tests (file, directory, link) agree with the file system. A failing file-system call is never reported as success.',
  ['inputs', 'histories'], 'all pairs of file contents differing in any one place around chunk boundaries; all trees up to 5 nodes; all write/read histories up to 3 operations',
  'There are no runnable tests of this package; differences in the last partial block are a corner no test samples.',
  ['fs/src/diffFile.ts', 'fs/src/readFile.ts', 'fs/src/writeFile.ts', 'fs/src/fileList.ts', 'fs/src/findDir.ts', 'fs/src/mkdir.ts', 'fs/src/isFile.ts', 'fs/src/isDir.ts', 'fs/src/isSymbolicLink.ts'], [['block comparison', 'fs/src/diffFile.ts']], ['return values against the scratch file system']);

// ---------------------------------------------------------------- path / regexp
P('C33', 'Path normalisation keeps the location and is stable',
  'Normalising a path yields a path that names the same location, with a leading \'~\' standing for the home directory, and is unchanged when normalised again; unifying separators turns every backslash into a slash, except in an extended-length Windows path, which stays as it is. Windows-path recognition agrees with the documented grammar and length limits, decides every path without delay, and keeps no state between calls.',
  ['inputs'], 'all strings up to length 6 over letters, both separators, dot, colon, tilde and question mark',
  SAMP + 'mixed separators, UNC and extended-length forms are combinatorial.',
  ['path/src/normalize.ts', 'path/src/unifiedSeparator.ts', 'path/src/isWindowsPath.ts', 'path/src/windowsPathSource.ts', 'path/src/isWindowsExtendedLengthPath.ts'], [['separator rewriting', 'path/src/unifiedSeparator.ts']], ['return values']);

P('C34', 'Regexp helpers terminate, report every match and depend on no past call',
  'Collecting all matches of a regular expression returns exactly the matches `String.prototype.matchAll` reports, in order, terminates for every pattern including those matching the empty string, and is not disturbed by an earlier call that was aborted. Testing a text against several expressions gives the same answer for the same arguments no matter what was tested before or which flags the expressions carry; replacing with a list of expressions applies each in turn to the result of the one before.',
  ['inputs', 'histories'], 'all patterns from a grammar of small expressions x all flag sets x all texts up to length 4, and all histories of two calls sharing the expression objects',
  SAMP + 'zero-length matches and reuse of global expressions are absent.',
  ['regexp/src/execAll.ts', 'regexp/src/testEvery.ts', 'regexp/src/testSome.ts', 'regexp/src/mapReplace.ts', 'regexp/src/matchNextIndex.ts'], [['exec loop', 'regexp/src/execAll.ts']], ['return values, lastIndex']);

P('C35', 'Validators accept the whole string or nothing and never throw',
  'The validators for IP addresses, e-mail addresses, links and phone numbers judge the entire string: prefixing or suffixing junk to an accepted value makes it rejected. The documented length limits hold, results agree with a reference grammar, and no input string makes them throw or hang.',
  ['inputs'], 'all strings up to length 7 over the separators and digits of each grammar, all segment combinations of addresses up to 9 groups, lengths around every limit',
  SAMP + 'unanchored alternatives and limits off by one are not listed.',
  ['regexp/src/isIp.ts', 'regexp/src/isEmail.ts', 'regexp/src/isURI.ts', 'regexp/src/isChinaPhoneNumber.ts'], [['anchored expression', 'regexp/src/isIp.ts']], ['boolean results']);

P('C36', 'Script detection agrees with the documented character sets',
  'Detection of Chinese, Japanese and CJK punctuation in a text answers true exactly when the text contains a character of the documented ranges, wherever it stands, and the option excluding kana is honoured. The exported character-class sources match exactly the characters of their documented Unicode classes.',
  ['inputs'], 'every code point alone and embedded in every position of a short text',
  SAMP + 'range endpoints are not all sampled.',
  ['regexp/src/inChinese.ts', 'regexp/src/inJapanese.ts', 'regexp/src/inChkPunctuation.ts', 'regexp/src/source/unifiedIdeograph.ts', 'regexp/src/source/hiragana.ts', 'regexp/src/source/katakana.ts'], [['character class sources', 'regexp/src/source/unifiedIdeograph.ts']], ['boolean results']);

// ---------------------------------------------------------------- process / os
P('C37', 'Shell spawning passes every argument to the program verbatim',
  'Whatever characters an argument contains, running a command through the POSIX shell option delivers exactly the given argument list to the program: no argument is split, merged, expanded, dropped or executed. Without a shell, command, arguments and options reach the operating system unchanged.',
  ['inputs'], 'all arguments up to length 4 over every shell metacharacter, quotes, backslash, blanks and newline, alone and in lists, executed by a real shell',
  'There are no tests of this package; quoting bugs need particular adjacent characters.',
  ['process/src/spawn.ts'], [['argument escaping', 'process/src/spawn.ts']], ['argument vector received by the program']);

P('C38', 'Child process result carries all output and settles exactly once',
  'The result of a spawned command contains every byte the child wrote to each piped stream, in order, together with its exit status and signal, for every interleaving of output and termination events; a failure to start or a stream error rejects with the output so far. The promise settles exactly once and only when the child is finished. The child process and its input stream are available on the promise at once, and a child that cannot be created rejects the promise instead of crashing the caller.',
  ['schedules', 'fault_sequences'], 'all interleavings of up to 6 child events (stdout/stderr chunks, stream error, spawn error, exit, close) and all stdio configurations',
  'There are no tests of this package; late output after exit and multi-byte characters cut between chunks need a controlled child.',
  ['process/src/spawn.ts', 'process/src/exec.ts', 'process/src/open.ts'], [['event wiring', 'process/src/spawn.ts']], ['promise outcome for a scripted child']);

P('C39', 'Killing a process tree signals every process exactly once, then reports',
  'Killing a process tree signals the root and every descendant exactly once and no other process, after the whole tree has been discovered, and reports completion exactly once, for every process tree and every order in which the discovery commands answer. Processes that vanish meanwhile are tolerated; any other failure, including a listing that cannot start, is reported, and a missing process id is refused. The Windows task helpers list exactly the tasks of the listing, and report a kill as done exactly when it succeeded; a shortcut is made only on Windows, with the given settings, and without force only for an existing source and folder.',
  ['schedules', 'fault_sequences'], 'all process trees up to 5 processes, all orders and chunkings of the discovery answers, every failing kill',
  'There are no tests of this package; the answer order of concurrent discovery commands is uncontrolled in any real run.',
  ['os/src/kill.ts', 'os/src/windows/killTask.ts', 'os/src/windows/taskList.ts', 'os/src/windows/findTask.ts', 'os/src/windows/makeShortcut.ts', 'os/src/platform.ts'], [['tree discovery', 'os/src/kill.ts']], ['signals sent, callback calls']);

// ---------------------------------------------------------------- request
P('C40', 'Redirects are bounded and never carry credentials to another host',
  'Following redirects uses at most `maxRedirects` hops, requests exactly the location given (resolved against the current address), turns a POST into a GET without body after 301 and 302 and every method but GET and HEAD after 303, keeps method, headers and body otherwise, and never sends the cookie, authorization or auth data of one host name to another, nor the host header to another host and port. When redirects are exhausted or disabled the redirect response itself is returned; a location that is no http(s) address rejects. The handlers see the final response only and the options of the caller are not changed.',
  ['fault_sequences', 'inputs'], 'all chains of up to 4 server answers over statuses, same/other host, relative/absolute location; all methods and header spellings',
  'There are no runnable tests of this package; it needs a scripted server.',
  ['request/src/request/request.ts', 'request/src/request/options.ts'], [['redirect handling', 'request/src/request/request.ts']], ['requests observed by a scripted transport']);

P('C41', 'Requests send what was asked: URL, query, headers and body',
  'The request put on the wire has the method, host, port, path, query and headers given by the caller merged with the documented defaults, a body encoded according to its content type with the exact Content-Length, and multipart bodies that parse back to the same fields; the caller\'s options are not changed.',
  ['inputs'], 'all combinations of URL forms, query objects, header spellings, body kinds and content types over small alphabets including separators and non-ASCII text',
  'There are no runnable tests of this package; encoding corner cases multiply.',
  ['request/src/request/options.ts', 'request/src/request/body.ts', 'request/src/request/content.ts', 'request/src/request/formData.ts', 'request/src/request/headers.ts'], [['option merging', 'request/src/request/options.ts'], ['multipart encoder', 'request/src/request/formData.ts']], ['requests observed by a scripted transport']);

P('C42', 'A request settles exactly once with the complete decoded body',
  'For every order of response, data, end, error and timeout events, a request settles exactly once: with the complete body in order, decompressed according to its encoding, if the response ends, and with an error if it fails or times out first. Handlers that stop early get the part received so far and the connection is destroyed.',
  ['schedules', 'fault_sequences'], 'all interleavings of up to 6 transport events, all chunkings of small plain and compressed bodies, every handler answer',
  'There are no runnable tests of this package; errors in the middle of a body are not exercised.',
  ['request/src/request/request.ts', 'request/src/request/content.ts'], [['response assembly', 'request/src/request/request.ts']], ['promise outcome for a scripted transport']);

// ---------------------------------------------------------------- util
P('C43', 'Deep copy is equal to and fully independent of the original',
  'A deep copy equals its original in structure, values, property attributes, prototypes and internal sharing including cycles, for every nesting of the documented supported types, and shares no mutable part with it: changing either never shows in the other. Unsupported values are reported instead of being copied wrongly; instances of user classes are copied as far as their constructor creates no own property.',
  ['inputs'], 'all object graphs up to 4 nodes over the supported types with shared and cyclic references; every mutation of either side',
  SAMP + 'the tests of this part cannot even run in the baseline; sharing and cycles are combinatorial.',
  ['util/src/copy.ts', 'util/src/copyAttrs.ts', 'util/src/lackAttrs.ts', 'util/src/allAttrs.ts'], [['visited map', 'util/src/copy.ts']], ['copied value and original after mutation']);

P('C44', 'Value stringification evaluates back and terminates on any graph',
  'The text produced for a value built from the supported types evaluates to an equal value, cyclic references are reported as such rather than looping, shared non-cyclic references are not, and the asynchronous form reports each promise\'s state as it is, for every settlement order.',
  ['inputs', 'schedules'], 'all value graphs up to 4 nodes over the supported types; all settlement states and orders of embedded promises',
  SAMP + 'the tests of this part cannot run in the baseline.',
  ['util/src/stringify.ts'], [['recursive printer', 'util/src/stringify.ts']], ['evaluation of the text']);

// ---------------------------------------------------------------- types
P('C45', 'Type predicates partition every value as documented and never throw',
  'Each type predicate answers true for exactly the values of its documented class, for every JavaScript value including boxed, null-prototype, cross-realm, sparse and spoofed ones, answers the same on repeated calls, and never changes its argument or throws on a value whose own property reads do not throw. An object that merely claims a tag, or a proxy of a built-in, may be classified by its tag or by its real class.',
  ['inputs'], 'a universe of several hundred values covering every built-in class, boundary number and hostile object, each under every predicate and option',
  SAMP + 'each predicate is tested on a few values only, not on the classes of the others.',
  ['types/src/type/getTag.ts', 'types/src/array/isArrayLike.ts', 'types/src/number/isNumber.ts', 'types/src/property/isPropertyDescriptor.ts', 'types/src/variable/isVarName.ts'], [['tag classification', 'types/src/type/getTag.ts']], ['boolean results']);

P('C46', 'Assertions accept exactly what their predicates accept',
  'Every assertion function returns normally exactly when the predicate of the same name answers true for the same value and options, and otherwise throws a TypeError that names the given variable (the assertions about the environment and the comparisons take no variable name).',
  ['inputs'], 'every assertion x the whole value universe x option values',
  'There are no runnable tests of this package; a swapped predicate differs only on few values.',
  ['asserts/src/constants/typeGuard.ts'], [['guard', 'asserts/src/constants/typeGuard.ts']], ['thrown errors']);

// ---------------------------------------------------------------- term
P('C47', 'Terminal styling wraps the text, and every style set is reset',
  'Styled text contains the given text unchanged between a set and a reset sequence whose codes are exactly those of the requested colours and styles, every attribute that is set is reset and no other attribute is touched, and invalid colours are rejected; formatted and printed messages contain the title and every given field once, unchanged and under the right label; a question returns the trimmed answer.',
  ['inputs'], 'every style option combination, every colour name and code, every field combination',
  SAMP + 'option combinations are not all sampled.',
  ['term/src/fontColor.ts', 'term/src/ansiFormat.ts', 'term/src/colorCode8bit.ts', 'term/src/colorCode24bit.ts', 'term/src/colorNameCode3bit.ts', 'term/src/colorNameCode8bit.ts', 'term/src/colorNameCode24bit.ts', 'term/src/format.ts', 'term/src/print.ts'], [['code tables', 'term/src/constants.ts']], ['returned strings']);

P('C48', 'Progress bar shows monotone progress and always restores the cursor',
  'A progress bar advances by exactly one per push and by none per plain write, shows the whole percentage, count and bar that belong to its current progress on one line, reports completion exactly when the total is reached, and ends with its line cleared and the cursor visible whenever it had been hidden.',
  ['histories'], 'all operation histories up to length 6 for totals 1-4 and the unlimited form, all display options',
  SAMP + 'histories that mix writes and pushes around completion are not.',
  ['term/src/progressBar.ts'], [['index counter', 'term/src/progressBar.ts']], ['text written to the terminal']);

// ---------------------------------------------------------------- util
P('C49', 'Measured host limits are limits that really hold',
  'The measured largest number of arguments is exactly the largest one a call accepts, whatever limit the host has and however it changes between measurements, and the measured call stack size is about the number of nested calls that fit; measuring never throws and never brings the host down.',
  ['inputs'], 'every argument limit from 1 to 2100 and around powers of two to 2^24, hosts of six stack sizes',
  SAMP + 'a real host has one limit, and only that one is met in a test.',
  ['util/src/maxArgsLength.ts', 'util/src/maxCallStackSize.ts'], [['binary search', 'util/src/maxArgsLength.ts']], ['returned number']);
};
