'use strict';
// What decides each property: [oracle, note on cost or design]. The rest of the section is taken from the property
// list, the check module and the last evidence.
exports.oracle = {
    C01: 'A monitor over the event trace: running count never above the limit, one start per task, results in input order, errors aggregated, retries counted; progress (the call settles once every started task has settled).',
    C02: 'A reference attempt loop computes, for every history of outcomes and callback answers, the number of attempts, the waits (the random source is a choice of the explorer) and the final value or the aggregated error.',
    C03: 'A virtual clock: a timer fires once, at its due time, never after clear; durations beyond the limit of the host are refused. A program is a forest of nextTick callbacks, run on six hosts. Duration notation is read by a second, independent reader.',
    C04: 'A reference collector replays the history and predicts the batches; every submitted promise must be in exactly one batch, in order, and no batch is delivered early.',
    C05: 'A reference map with expiry under the virtual clock; concurrent callers of a key share one computation, failures are not stored, argument identity follows SameValueZero.',
    C06: 'Outcome and time are predicted from the settlement time, the duration and the abort time; ties are explored in both orders.',
    C07: 'Outcome algebra: for each callable kind the adapter must give the same value or error as awaiting it, in the documented wrapping.',
    C08: 'A counter automaton per wrapper.',
    C09: 'Reference combinators in their textbook form; trace of calls (order, this, arguments) compared.',
    C10: 'A reference loop; the trace of callback starts and settlements must show no overlap and stop where documented.',
    C11: 'All callbacks started before any settles; results by index; first rejection decides.',
    C12: 'Direct definitions on lists (conservation of elements, order, sizes).',
    C13: 'A reference forest from the rows; every row once, under its parent; unknown parents and cycles reported.',
    C14: 'The result is a permutation of the input and ordered by the documented key; stability where stated.',
    C15: 'Range and reachability over the complete output grid of the scripted source; for shuffles the exact distribution over all scripts.',
    C16: 'BigInt and string arithmetic.',
    C17: 'A reader of the capital notation written from the standard gives back the amount.',
    C18: 'A property walk by definition; getters and functions put on the way record any read that is not on the path and any execution.',
    C19: 'Property descriptors compared before and after, definitions on own keys.',
    C20: 'JSON.parse of the output, key order, cycle marks by a reference walk.',
    C21: 'The round trip, and a direct splitter for arbitrary strings.',
    C22: 'The cookies a header was built from.',
    C23: 'Buffer.byteLength and code point conservation.',
    C24: 'Run removal by definition over explicit character classes.',
    C25: 'A single-pass decoder over the published list.',
    C26: 'Scanners written from the documentation.',
    C27: 'Slice-level definitions (indexOf-based).',
    C28: 'Invariants: nothing but blanks and punctuation changes, lines are kept, correcting twice changes nothing; plus the documented rules on marked boundaries.',
    C29: 'A snapshot of the whole scratch tree before and after each execution, compared with the model of the named subtree; with an injected failure nothing outside may change and the failure must be reported.',
    C30: 'A tree-overlay model; the source snapshot must be identical after every execution.',
    C31: 'A reference splitter; every cut of the bytes must give the same lines.',
    C32: 'A model of the tree and file contents.',
    C33: 'A reference parser of the path grammar.',
    C34: 'String.prototype.matchAll on a fresh expression; expression state must not leak between calls.',
    C35: 'Reference parsers per grammar.',
    C36: 'Unicode property escapes named in the documentation, per code point.',
    C37: 'The argument list that the program receives from a real shell (sh and bash), or from a model of cmd.exe and the C runtime.',
    C38: 'The result the interleaving demands: all bytes of both streams in order, one settlement, after close.',
    C39: 'A model of the process tree; signals are recorded by a stand-in, never sent.',
    C40: 'A reference redirect machine; the bytes of every hop are parsed and compared with it.',
    C41: 'A reference reading of the options and URL; the bytes on the wire are parsed (request line, header list, body, multipart).',
    C42: 'A reference state after every transport event: open, complete, failed, stopped.',
    C43: 'A simultaneous walk of original and copy that demands an isomorphism without shared mutable nodes.',
    C44: 'The text is evaluated and the value compared by the same walk.',
    C45: 'An independent classification of the universe, written from the documentation.',
    C46: 'The predicate of the same name (itself decided by C45).',
    C47: 'A terminal model: the state after the sequence is the requested one, and after the reset the clean one.',
    C48: 'A reference counter, and the screen of a terminal model.',
    C49: 'The limit the simulated host was given; an independent recursion in the same real host.'
};
