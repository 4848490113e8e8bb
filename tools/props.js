// Source of /verif/properties.jsonl: `node tools/props.js > properties.jsonl`.
// P(id, title, statement, over, text, why, files, mechanism, observe)
const out = [];
const P = (id, title, statement, over, text, why, files, mech, observe, state = []) =>
    out.push({
        id, title, statement,
        quantifier: { over: [].concat(over), text },
        why_tests_cant: why,
        anchors: {
            files: files.map(f => 'packages/' + f), state,
            mechanism: mech.map(([name, where]) => ({ name, where: 'packages/' + where })),
            observe_at: observe, hook_needed: null
        }
    });
require('./props.data.js')(P);
for (const p of out) {
    if (p.title.length > 80) throw new Error('title too long: ' + p.id + ' ' + p.title.length);
    console.log(JSON.stringify(p));
}
