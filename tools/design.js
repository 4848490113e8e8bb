#!/usr/bin/env node
'use strict';
// Regenerates DESIGN.md: the prose of tools/design.md, then one section per property from properties.jsonl, the
// check modules, tools/design.data.js and the last evidence, then the tables of planted bugs and of findings.
const fs = require('fs'), path = require('path'), root = path.join(__dirname, '..');
const props = fs.readFileSync(path.join(root, 'properties.jsonl'), 'utf8').trim().split('\n').map(l => JSON.parse(l));
const { oracle } = require('./design.data.js');
let costs = {}; try { costs = JSON.parse(fs.readFileSync(path.join(__dirname, 'costs.json'), 'utf8')); } catch {}
for (const p of props) { try { const e = JSON.parse(fs.readFileSync(path.join(root, 'evidence', p.id + '.json'), 'utf8')); if (e.violations) continue; (costs[p.id] = costs[p.id] || {})[e.tier] = { executions: e.coverage.traces_validated_against_impl, states: e.coverage.states, s: Math.round(e.wall_s) }; } catch {} }
fs.writeFileSync(path.join(__dirname, 'costs.json'), JSON.stringify(costs, null, 0).replace(/\},"C/g, '},\n"C') + '\n');
const fixed = {}; for (const l of fs.readFileSync(path.join(root, 'known-findings.txt'), 'utf8').split('\n')) { const m = /^fixed: property=(\S+) (\S+) (.*)$/.exec(l); if (m) (fixed[m[1]] = fixed[m[1]] || []).push(m[3] + ' (' + m[2] + ')'); }
const seeds = {}; const sd = path.join(root, 'seeded'); if (fs.existsSync(sd)) for (const id of fs.readdirSync(sd).sort()) { try { const m = JSON.parse(fs.readFileSync(path.join(sd, id, 'meta.json'), 'utf8')); (seeds[m.property] = seeds[m.property] || []).push([id, m]); } catch {} }
let caught = {}; try { caught = JSON.parse(fs.readFileSync(path.join(__dirname, 'caught.json'), 'utf8')); } catch {}
const out = [fs.readFileSync(path.join(__dirname, 'design.md'), 'utf8').trim(), '', '## The properties, one by one', ''];
for (const p of props) {
    const c = require(path.join(root, 'checks', p.id + '.js')), k = costs[p.id] || {};
    out.push(`### ${p.id} — ${p.title}`, '', p.statement, '', `- **Decided by:** ${c.technique || 'bounded model checking of the real code'}.`, `- **Oracle:** ${oracle[p.id] || ''}`, `- **Bounds:** ${c.bounds}.`, `- **Why tests cannot:** ${p.why_tests_cant}`);
    const cost = ['quick', 'thorough'].filter(x => k[x]).map(x => `${x} ${k[x].executions} executions, ${k[x].states} distinct states, ${k[x].s} s`); if (cost.length) out.push(`- **Cost:** ${cost.join('; ')}.`);
    if (c.assumptions && c.assumptions.length) out.push(`- **Assumed or not judged:** ${c.assumptions.join('; ')}.`);
    if (fixed[p.id]) out.push(`- **Defects it found (repaired):** ${fixed[p.id].join('; ')}.`);
    if (seeds[p.id]) out.push(`- **Planted bugs:** ${seeds[p.id].map(([id]) => `${id} (${caught[id] || 'not run'})`).join(', ')}.`);
    out.push('');
}
out.push('## Planted bugs and what catches them', '', '| id | property | needs | caught by |', '|---|---|---|---|');
for (const p of props) for (const [id, m] of seeds[p.id] || []) out.push(`| ${id} | ${p.id} | ${String(m.needs).replace(/\|/g, '\\|').replace(/\n/g, ' ')} | ${caught[id] || 'not run'} |`);
out.push('', 'Known findings that are recorded and not repaired: ' + (fs.readFileSync(path.join(root, 'known-findings.txt'), 'utf8').split('\n').filter(l => /^KNOWN /.test(l)).length || 'none') + '. Every repaired defect is listed in known-findings.txt with its commit.');
fs.writeFileSync(path.join(root, 'DESIGN.md'), out.join('\n') + '\n');
