#!/usr/bin/env node
'use strict';
// Regenerates MANIFEST.json from the properties and the check modules that exist.
const fs = require('fs'), path = require('path');
const root = path.join(__dirname, '..');
const props = fs.readFileSync(path.join(root, 'properties.jsonl'), 'utf8').trim().split('\n').map(l => JSON.parse(l));
const NA = require('./not-applicable.js');
const checks = [], na = [];
for (const p of props) {
    const f = path.join(root, 'checks', p.id + '.js');
    if (!fs.existsSync(f)) { na.push({ property: p.id, reason: NA[p.id] || 'No check has been built for it yet.' }); continue; }
    const c = require(f);
    checks.push({
        property: p.id,
        quick_cmd: `node run.js ${p.id} --tier quick`,
        thorough_cmd: `node run.js ${p.id} --tier thorough`,
        evidence_file: `evidence/${p.id}.json`,
        technique: c.technique || 'bounded model checking of the real code: exhaustive enumeration of operation sequences and inputs against an executable reference model',
        level: c.level || 'model_checking',
        level_note: c.bounds || ''
    });
}
const m = {
    version: 1, setup_cmd: 'node --version',
    hooks: { guard: 'none', enable: 'No hooks: the checks load the sources of /repo through lib/loader.js, which substitutes the host modules (timers, fs, child_process, http) from outside.', source_commits: [] },
    checks, not_applicable: na
};
fs.writeFileSync(path.join(root, 'MANIFEST.json'), JSON.stringify(m, null, 1) + '\n');
